#!/usr/bin/env python3
"""Runs the check of one property: builds its harness binaries from /repo's working tree, runs them over
ranges of seeded cases on all the cores, merges what their monitors observed, writes evidence/<id>.json.
usage: check.py C01 [--tier quick|thorough] [--seed N] [--repo DIR]   or   check.py --replay FILE
exit: 0 held, 1 violation (VIOLATION line), 2 error of the check itself."""
import sys, os, json, time, hashlib, subprocess, tempfile, shutil, struct, re, concurrent.futures as cf, random, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN, BINS

def tree_hash(d, exts=('.h', '.hpp', '.cpp', '.py')):
    h = hashlib.sha256()
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(r, f)
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build(names, repo):
    """compiles the binaries (in parallel); cached by the contents of everything they are made of"""
    base = tree_hash(os.path.join(repo, 'include')) + tree_hash(os.path.join(V, 'harness'))
    out, procs = {}, []
    bdir = os.path.join(V, 'build'); os.makedirs(bdir, exist_ok=True)
    for n in names:
        spec = BINS[n](repo, V)
        key = hashlib.sha256((base + json.dumps(spec)).encode()).hexdigest()[:20]
        target = os.path.join(bdir, f'{n}-{key}')
        out[n] = target
        if os.path.exists(target): continue
        for old in os.listdir(bdir):
            if old.startswith(n + '-') and not old.startswith(f'{n}-{key}'):
                try: os.unlink(os.path.join(bdir, old))
                except OSError: pass
        procs.append((n, target, spec))
    def one(x):
        n, target, spec = x
        objs = []
        def comp(c):
            i, cmd = c
            o = f'{target}.{os.getpid()}.{i}.o'
            r = subprocess.run(cmd + ['-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return o, r
        steps = [cmd for kind, cmd in spec if kind == 'cc']
        with cf.ThreadPoolExecutor(8) as ex:
            for o, r in ex.map(comp, enumerate(steps)):
                if r.returncode: return n, r.stdout.decode(errors='replace')
                objs.append(o)
        link = [cmd for kind, cmd in spec if kind == 'ld'][0]
        tmp = f'{target}.{os.getpid()}.tmp'
        r = subprocess.run([link[0]] + objs + link[1:] + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        for o in objs: os.unlink(o)
        if r.returncode: return n, r.stdout.decode(errors='replace')
        os.rename(tmp, target)
        return n, None
    with cf.ThreadPoolExecutor(4) as ex:
        for n, err in ex.map(one, procs):
            if err is not None:
                print(f'BUILD-ERROR {n}\n{err[-6000:]}')
                sys.exit(2)
    return out

def known_findings():
    res = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m: res.append(m.groups())
    return res

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=1:handle_abort=1:allocator_may_return_null=0:strict_string_checks=1:check_initialization_order=1:malloc_context_size=12:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=87',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0',
}
def classify(rc, err):
    """key and text of an abnormal end"""
    t = err.decode(errors='replace')
    if 'LeakSanitizer: detected memory leaks' in t:
        s = re.search(r'#\d+ .* (/\S+?/include/cli/\S+?):(\d+)', t)
        return 'leak', os.path.basename(s.group(1)) + ':' + s.group(2) if s else '', t
    if rc == 88:
        m = re.search(r'== (?:Invalid \w+|Use of uninit\w+|Conditional jump|Syscall param|Argument|Jump to)[^\n]*', t)
        s = re.search(r'\((\w+\.h):(\d+)\)', t)
        return 'valgrind:' + (re.sub(r'\W+', '-', m.group(0)[3:])[:40] if m else '?'), s.group(1) + ':' + s.group(2) if s else '', t
    m = re.search(r'(AddressSanitizer|ThreadSanitizer): ([\w\-]+(?: [\w\-]+)?)', t)
    u = re.search(r'runtime error: (.*)', t)
    site = ''
    for f in re.findall(r'#\d+ .* (/\S+?/include/cli/\S+?):(\d+)', t):
        site = os.path.basename(f[0]) + ':' + f[1]; break
    if m: return f'{m.group(1)}:{m.group(2).replace(" ", "-")}', site, t
    if u: return 'UBSan:' + re.sub(r'\W+', '-', u.group(1))[:50], site, t
    if 'CPUHANG' in t: return 'hang:cpu', site, t
    a = re.search(r"terminate called after throwing an instance of '([^']+)'", t)
    if a: return 'uncaught:' + a.group(1), site, t
    a = re.search(r"Assertion [`'](.*?)' failed", t) or re.search(r'Assertion (.*) failed', t)
    if a: return 'assert:' + re.sub(r'\W+', '-', a.group(1))[:50], site, t
    return f'crash:{rc}', site, t

def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay': return replay(args[1])
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); repo = '/repo'; scale = 1.0
    for i, a in enumerate(args):
        if a == '--tier': tier = args[i + 1]
        if a == '--seed': seed = int(args[i + 1])
        if a == '--repo': repo = args[i + 1]
        if a == '--scale': scale = float(args[i + 1])
    t0 = time.time()
    plan = dict(PLAN[prop])
    for i, a in enumerate(args):
        if a == '--bins': plan['jobs'] = [j for j in plan['jobs'] if re.search(args[i + 1], j['bin'])]; plan['require'] = []   # for development
    bins = build(sorted({j['bin'] for j in plan['jobs']}), repo)
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try: return run(prop, tier, seed, plan, bins, tmp, t0, tb, scale)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def command(binary, prop, seed, tier, extra, first, count, base, d):
    os.makedirs(d, exist_ok=True)
    return [binary, '--prop', prop, '--seed', str(seed), '--tier', tier, '--first', str(first), '--count', str(count),
            '--out', base + '.out', '--cur', base + '.cur', '--dir', d] + extra

MEMORY_LIMIT = 3 << 30   # of one process: many times what any of them needs
def resident(pid):
    try: return int(open(f'/proc/{pid}/statm').read().split()[1]) * 4096
    except (OSError, ValueError, IndexError): return 0

def run_one(binary, prop, seed, tier, extra, first, count, tmp, tag, limit, tool=()):
    base = os.path.join(tmp, tag); d = os.path.join(tmp, tag + '.d')
    cmd = list(tool) + command(binary, prop, seed, tier, extra, first, count, base, d)
    env = dict(os.environ); env.update(SAN_ENV); env['TMPDIR'] = d; env['LC_ALL'] = 'C'; env.pop('TERM', None)
    if prop == 'C25' and '--nolsan' not in extra: env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
    env['ASAN_SYMBOLIZER_PATH'] = shutil.which('llvm-symbolizer-18') or shutil.which('llvm-symbolizer') or ''
    if not env['ASAN_SYMBOLIZER_PATH']: del env['ASAN_SYMBOLIZER_PATH']
    ef = open(base + '.err', 'wb+')
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env, start_new_session=True, cwd=d)
        end = time.time() + limit; rc = None; pause = 0.02
        while rc is None:
            try: rc = p.wait(pause)
            except subprocess.TimeoutExpired:
                pause = min(0.5, pause * 2)
                if time.time() > end: os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'timeout'
                elif resident(p.pid) > MEMORY_LIMIT: os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = 'memory'
    finally:
        ef.seek(0, 2); n = ef.tell(); ef.seek(max(0, n - 60000)) if n > 200000 else ef.seek(0); err = ef.read(); ef.close()
    res = dict(rc=rc, err=err, cmd=cmd, stats={}, samples=[], viol=None, hashes=[], done=False, case=None, log='')
    try:
        for l in open(base + '.out', errors='replace'):
            f = l.rstrip('\n').split('\t')
            if f[0] == 'STAT': res['stats'][f[1]] = int(f[2])
            elif f[0] == 'SAMPLE': res['samples'].append(f[1])
            elif f[0] in ('VIOL', 'INCONCLUSIVE'): res['viol'] = f
            elif f[0] == 'DONE': res['done'] = True
        b = open(base + '.out.h', 'rb').read()
        res['hashes'] = struct.unpack(f'{len(b)//8}Q', b)
    except OSError: pass
    try:
        b = open(base + '.cur', 'rb').read(16 + (1 << 17))
        c, n = struct.unpack('QQ', b[:16]); res['case'] = c; res['log'] = b[16:16 + n].decode(errors='replace')
    except (OSError, struct.error): pass
    for x in ('.out', '.out.h', '.cur', '.err'):
        try: os.unlink(base + x)
        except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    return res

def verdict(r):
    """None, or (key, site, text); 'retry' means no answer"""
    if r['rc'] == 0 and r['done']: return None
    if r['rc'] == 3 and r['viol'] and r['viol'][0] == 'VIOL': return (r['viol'][2], '', r['viol'][3])
    if r['rc'] in (5, 'timeout', -9, 9): return 'retry'
    if r['rc'] == 'memory': return ('memory-limit', '', f"the process used more than {MEMORY_LIMIT >> 20} MB: {r['log'][-300:]}")
    key, site, t = classify(r['rc'], r['err'])
    return (key, site, t)

def v_text(viols): return min(viols, key=lambda x: (x[0][0].startswith('hang'), len(x[3]['log'])))[0][2]

def run(prop, tier, seed, plan, bins, tmp, t0, tb, scale):
    known = [k for k in known_findings() if k[0] == prop]
    tasks = []
    for ji, j in enumerate(plan['jobs']):
        n = j['quick'] if tier == 'quick' else j.get('thorough', j['quick'] * 10)
        n = max(1, int(n * scale)); chunk = j.get('chunk') or max(1, (n + 23) // 24)
        i = 0
        while i < n:
            c = min(chunk, n - i)
            tasks.append((ji, ji * 10**8 + i, c)); i += c   # every job has cases of its own
    random.Random(seed).shuffle(tasks)
    tasks.sort(key=lambda t: -plan['jobs'][t[0]].get('weight', 0))
    stats, hashes, samples, viols, retried, known_hit = {}, set(), [], [], 0, {}
    perbin = {}
    budget = 840 if tier == 'quick' else 6 * 3600
    skipped = 0
    def work(t):
        ji, first, count = t
        j = plan['jobs'][ji]
        if viols and time.time() - viols[0][-1] > 5: return t, None, None
        left = budget - (time.time() - t0)
        if left < 20: return t, None, 'late'
        lim = min(j.get('limit', 240 if tier == 'quick' else 3600), left)
        r = run_one(bins[j['bin']], prop, seed, tier, j.get('args', []), first, count, tmp, f'{ji}-{first}', lim, j.get('tool', ()))
        if b'LeakSanitizer has encountered a fatal error' in r['err']:   # it cannot work here: the counts decide alone
            r = run_one(bins[j['bin']], prop, seed, tier, j.get('args', []) + ['--nolsan', '1'], first, count, tmp, f'{ji}-{first}-n', lim, j.get('tool', ()))
            r['stats']['leak-checks-unavailable'] = 1
        v = verdict(r); tries = 0
        while v == 'retry' and tries < 2 and budget - (time.time() - t0) > 60:
            tries += 1
            r2 = run_one(bins[j['bin']], prop, seed, tier, j.get('args', []), first, count, tmp, f'{ji}-{first}-r{tries}', min(lim, budget - (time.time() - t0)), j.get('tool', ()))
            v = verdict(r2); r = r2
        return t, r, (v, tries)
    par = int(os.environ.get('VERIF_JOBS', 0)) or os.cpu_count() or 8
    with cf.ThreadPoolExecutor(par) as ex:
        for t, r, vt in ex.map(work, tasks):
            if r is None:
                skipped += 1
                continue
            v, tries = vt
            retried += tries
            j = plan['jobs'][t[0]]
            for k, n in r['stats'].items():
                if k.startswith('max:'): stats[k] = max(stats.get(k, 0), n)
                else: stats[k] = stats.get(k, 0) + n
            hashes.update(r['hashes'])
            perbin[j['bin']] = perbin.get(j['bin'], 0) + r['stats'].get('cases', 0)
            if len(samples) < 6: samples += r['samples'][:1]
            if v == 'retry':
                k = ('hang', '', f'no answer after {tries + 1} runs: rc={r["rc"]} ' + r['err'].decode(errors='replace')[-2000:] + ' '.join(r['viol'] or []))
                if r['rc'] in (-9, 9): print(f'NO-ANSWER {prop}: killed', file=sys.stderr); return 2
                v = k
            if v is not None:
                kf = [x for x in known if x[1] == v[0]]
                if kf: known_hit[kf[0]] = known_hit.get(kf[0], 0) + 1
                else: viols.append((v, t, j, r, time.time()))
    for k in known:
        if known_hit.get(k) or stats.get('known:' + k[1]):
            print(f'KNOWN-FINDING: property={prop} {k[2]}')
    rep = None
    if viols:
        v, t, j, r, _ = min(viols, key=lambda x: (x[0][0].startswith('hang'), len(x[3]['log'])))
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        name = re.sub(r'[^\w.-]+', '_', f'{prop}-{v[0]}')[:80]
        rep = os.path.join(V, 'replays', name + '.txt')
        with open(rep, 'w') as f:
            f.write(json.dumps(dict(property=prop, bin=j['bin'], args=j.get('args', []), tool=list(j.get('tool', ())), seed=seed, tier=tier, first=t[1], count=t[2], case=r['case'])) + '\n')
            f.write(f'key: {v[0]} {v[1]}\n\n{v[2]}\n\n--- actions of case {r["case"]}\n{r["log"]}\n--- output\n{r["err"].decode(errors="replace")[-20000:]}\n')
    ev = dict(property=prop, tier=tier, seed=seed, level=plan['level'],
              coverage=dict(evaluations=stats.get('cases', 0), distinct_nontrivial=len(hashes), rule=plan['rule'],
                            samples=samples or ['(none recorded)'], observed={k: v for k, v in sorted(stats.items()) if k != 'cases'},
                            cases_per_binary=perbin, chunks=len(tasks), chunks_not_run=skipped, retried_chunks=retried),
              assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(viols))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier} seed={seed}: {stats.get("cases",0)} cases, {len(hashes)} distinct, {retried} retried, build {tb:.0f}s, total {time.time()-t0:.0f}s')
    if viols:
        for v in sorted({(x[0][0], x[0][1]) for x in viols}): print('  observed:', *v)
        print('  detail:', re.sub(r'[^\x20-\x7e]', '?', v_text(viols))[:600])
        print(f'VIOLATION property={prop} replay={rep}')
        return 1
    if stats.get('cases', 0) == 0 or skipped * 2 > len(tasks):
        print('NO-ANSWER: too few cases run'); return 2
    for k in plan.get('require', []):
        if not stats.get(k): print(f'NO-ANSWER: nothing observed for {k}'); return 2
    return 0

def replay(path):
    m = json.loads(open(path).readline())
    bins = build([m['bin']], '/repo')
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        r = run_one(bins[m['bin']], m['property'], m['seed'], m['tier'], m['args'] + ['--only', str(m['case'])], m['first'], m['count'], tmp, 'r', 600, m.get('tool', ()))
        v = verdict(r)
        print('verdict:', v[:2] if v else v); print(r['log']); print(r['err'].decode(errors='replace')[-5000:])
        return 0 if v is None else 1
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
