# What each check builds and runs (see DESIGN.md).
H = 'harness/'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
TSAN = ['-fsanitize=thread']
CXX = 'clang++'
def base(repo, opt='-O1'):
    return ['-std=c++17', opt, '-g1', '-w', '-pthread', '-I' + repo + '/include']

def binary(srcs, flags=(), san=SAN, opt='-O1', link=()):
    """srcs: list of (file, extra flags)"""
    def f(repo, V):
        spec = []
        for s in srcs:
            s, x = (s, []) if isinstance(s, str) else s
            spec.append(('cc', [CXX, '-c', V + '/' + H + s] + base(repo, opt) + list(san) + list(flags) + list(x)))
        spec.append(('ld', [CXX, '-pthread'] + [x for x in san if x.startswith('-f')] + list(link)))
        return spec
    return f

CT = '--wrap=' + ',--wrap='.join('isspace isprint isalnum isalpha isdigit isgraph ispunct iscntrl isupper islower isxdigit isblank toupper tolower'.split())
WCT = ['-Wl,' + CT]
VG = ['valgrind', '-q', '--error-exitcode=88', '--undef-value-errors=yes', '--track-origins=no', '--num-callers=14', '--child-silent-after-fork=yes']
WORLD_INS = [('world_ins.cpp', ['-DINS_PART=%d' % i]) for i in range(4)]
BINS = {
    'split': binary(['split.cpp']),
    'types': binary(['types.cpp']),
    'worlds': binary(['worlds.cpp'] + WORLD_INS),
    'edit': binary(['edit.cpp'] + WORLD_INS),
}
WC = ['-DH_WRAP_CTYPE']
for n in ('split', 'types', 'worlds', 'edit'):
    src = [n + '.cpp'] + (WORLD_INS if n in ('worlds', 'edit') else [])
    BINS[n + '_debug'] = binary(src, WC + ['-D_GLIBCXX_DEBUG'], link=WCT)     # checks iterators too
    BINS[n + '_plain'] = binary(src, ['-gdwarf-4'], san=[])                   # for valgrind
NOFENCE = ['-DBOOST_ASIO_DISABLE_FENCED_BLOCK', '-DASIO_DISABLE_FENCED_BLOCK']   # fences are not understood by TSan
DELAY = '-Wl,' + ','.join('--wrap=' + x for x in ('pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal pthread_cond_broadcast _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE '
    '_ZNSt18condition_variable10notify_allEv _ZNSt18condition_variable10notify_oneEv').split())     # see delay.h
for i, n in enumerate(('loop', 'boost', 'standalone')):
    BINS['sched_%s_tsan' % n] = binary(['sched.cpp'], ['-DSCHED=%d' % i] + NOFENCE, san=TSAN, link=[DELAY])
    BINS['sched_%s_asan' % n] = binary(['sched.cpp'], ['-DSCHED=%d' % i], link=[DELAY])
WRAPS = ['-Wl,' + ','.join('--wrap=' + x for x in ('recvmsg', 'recv', 'sendmsg', 'send', 'accept', 'accept4', 'poll')) + ',' + CT]
for i, n in enumerate(('boost', 'standalone')):
    BINS['telnet_%s_asan' % n] = binary(['telnet.cpp'], WC + ['-DLIB=%d' % i], link=WRAPS)
    BINS['telnet_%s_tsan' % n] = binary(['telnet.cpp'], WC + ['-DLIB=%d' % i] + NOFENCE, san=TSAN, link=WRAPS)
WRAPL = [WRAPS[0] + ',--wrap=select,--wrap=read,--wrap=tcsetattr', DELAY]
for i, n in enumerate(('loop', 'boost', 'standalone')):
    BINS['local_%s_asan' % n] = binary(['local.cpp'], WC + ['-DSCHED=%d' % i], link=WRAPL)
    BINS['local_%s_tsan' % n] = binary(['local.cpp'], WC + ['-DSCHED=%d' % i] + NOFENCE, san=TSAN, link=WRAPL)
for i, n in enumerate(('boost', 'standalone')):
    BINS['async_%s_asan' % n] = binary(['async.cpp'], ['-DLIB=%d' % i], link=['-Wl,--wrap=read,--wrap=readv'])
    BINS['async_%s_tsan' % n] = binary(['async.cpp'], ['-DLIB=%d' % i] + NOFENCE, san=TSAN, link=['-Wl,--wrap=read,--wrap=readv'])

def simple(bin, quick, thorough, rule, **kw):
    d = dict(level='exploration', rule=rule, jobs=[dict(bin=bin, quick=quick, thorough=thorough)])
    d.update(kw); return d

W = 'A case is a random menu tree (names that are prefixes of one another, duplicate names, overloads, quoting, nested menus), one or more sessions and a random sequence of lines, completions, prompts and handle operations; every observation is compared with a reference model. Distinct: hash of the observation kind, the text and the resulting command or number of completions.'
PLAN = {
    'C01': simple('split', 400, 4000, 'Lines over the significant symbols enumerated up to length 7 (quick) or 9 (thorough), plus random lines up to 20000 bytes including arbitrary bytes, fed to a real session and compared with a reference splitter. Distinct: hash of the line.', require=['random-lines', 'blank', 'words', 'long-runs']),
}
HR = 'A case is a storage kind and capacity, previous contents, up to 5 rounds of sessions of random history sizes and a random sequence of lines, recalls (valid, stale, self-referring, out of range), browsing keys and exits, compared step by step with a reference history. Distinct: hash of the line and the command reached.'
for p, n, req in (('C03', 50000, ['line-call', 'line-menu', 'line-wrong', 'deep-worlds', 'wide-worlds']), ('C04', 50000, ['op-disable', 'op-enable', 'op-remove', 'op-remove-self', 'op-remove-own-menu', 'op-handle-after-all']),
                  ('C06', 30000, ['op-disable']), ('C11', 40000, ['line-call', 'line-wrong'])):
    PLAN[p] = simple('worlds', n, n * 25, W, require=req)
for p, n, req in (('C08', 60000, ['up', 'down', 'recall-hit', 'many-lines', 'long-browsing']), ('C09', 60000, ['recall-hit', 'recall-unknown', 'recall-cycle', 'recall-chains', 'many-lines']), ('C10', 40000, ['file-compared', 'storage-reopened', 'sessions'])):
    PLAN[p] = simple('worlds', n, n * 25, HR, require=req)
PLAN['C02'] = simple('types', 600, 8000, 'Words generated around every limit of every type (including multiples of 2^8..2^64 plus small numbers, leading zeros, signs, stray bytes, 5000 digits), floating point spellings, random bytes, overloads of one name; all integers in -70000..70000 for the small types. Each is fed to a real session and compared with a reference conversion on decimal strings. Distinct: hash of type and word.', require=['accepted', 'rejected', 'arity', 'complex-words'])
PLAN['C12'] = dict(level='exploration', rule='A case is an input file (blank, wrong, throwing, menu, exit lines; handlers that consume following lines or the whole input; unterminated tail) run by a file session with or without user enter/exit actions, or a random interleaving of Enter/Feed/Prompt/Exit on plain sessions; the event sequence is compared with a reference. Distinct: hash of the input.',
    jobs=[dict(bin='split', quick=60000, thorough=1500000), dict(bin='worlds', quick=20000, thorough=500000)], require=['file-sessions', 'sessions', 'bad-stream', 'long-files', 'failing-inputs', 'prompts-waited'])
PLAN['C13'] = simple('split', 6000, 150000, 'A case is a random sequence of session creations and destructions (shared streams, three kinds of stream buffers, from handlers too) and writes of every kind to Cli::cout(), each compared with what every stream shows. Distinct: hash of the sequence.', require=['broadcasts', 'closed', 'from-handler', 'crowds', 'pending-width', 'clis-destroyed', 'full-streams'])
K = 'A case is a random menu tree, history and sequence of keys (typing, editing, browsing, Tab, clear, Enter, end of input) given to the line editor of a session; after every key the bytes written are interpreted by a terminal emulator and the row, the cursor, the colours and the submitted line are compared with a reference editor. Distinct: hash of line, cursor position and key.'
PLAN['C05'] = dict(level='exploration', rule=W + ' With keys: ' + K, jobs=[dict(bin='worlds', quick=40000, thorough=1000000), dict(bin='edit', args=['--color', 'off'], quick=6000, thorough=200000)],
    require=['tab-list', 'tab-one', 'tab-prefix', 'tab-none', 'completions-offered', 'op-disable', 'wide-menus', 'tab-list-wide'])
PLAN['C07'] = dict(level='exploration', rule=K, jobs=[dict(bin='edit', args=['--color', 'off'], quick=10000, thorough=300000), dict(bin='edit', args=['--color', 'toggle'], quick=4000, thorough=100000)], require=['long-lines-edited', 'screens-checked', 'submitted', 'tab-list', 'clears', 'up', 'down', 'eofs'])
PLAN['C08']['jobs'].append(dict(bin='edit', args=['--color', 'off'], quick=6000, thorough=200000))
PLAN['C08']['rule'] += ' With keys: ' + K
PLAN['C23'] = dict(level='exploration', rule=K + ' In three processes: colours never on, always on, switched at random moments.', jobs=[dict(bin='edit', args=['--color', c], quick=4000, thorough=150000) for c in ('never', 'on', 'toggle')],
    require=['coloured-prompts', 'coloured-input', 'colour-switches', 'std-streams'])
S = 'A case is a random arrangement of threads running, posting to and stopping one scheduler (one or several runners, producers with random delays, work that posts, throws, stops or polls), for each of the three schedulers, under TSan and under ASan+UBSan; every posted function carries a unique identity and reports thread, nesting and order. Distinct: hash of the observed execution order of the functions, by producer.'
for p, n in (('C14', 1500), ('C15', 2500)):
    PLAN[p] = dict(level='exploration', rule=S, jobs=[dict(bin='sched_%s_%s' % (b, t), quick=n if t == 'tsan' else n * 2, thorough=n * 30) for b in ('loop', 'boost', 'standalone') for t in ('tsan', 'asan')],
        require=['functions', 'settled', 'concurrent-stops', 'exceptions', 'chaos', 'external-context', 'polls', 'exec-waited', 'nested', 'rendezvous', 'bursts', 'restarted', 'exceptions-thrown', 'injected-delays'] + (['stop-first', 'stop-inside', 'idle-runners', 'stop-releases-execone'] if p == 'C15' else []))
N = 'A case is a real telnet server (boost or standalone asio) on a loopback address of its own, with its scheduler on its own thread, and real clients; short reads and writes, EAGAIN, EINTR and errors are injected under the server by wrapping the system calls. '
NB = ('boost', 'standalone')
def tel(n, args=(), sans=('asan',), f=30):
    return [dict(bin='telnet_%s_%s' % (b, t), args=list(args), quick=n if t == 'asan' else max(1, n // 3), thorough=n * f if t == 'asan' else n * f // 3) for b in NB for t in sans]
PLAN['C16'] = dict(level='exploration', jobs=tel(20000), require=['keys', 'negotiations', 'eot', 'short-reads', 'full-reads'],
    rule=N + 'The client types random keys interleaved with negotiations, subnegotiations and doubled IACs, cut at random points; the handlers\' calls, the replies and the final screen are compared with a model of the protocol and of the line editor.')
PLAN['C17'] = dict(level='exploration', jobs=tel(6000), require=['payloads', 'broadcasts', 'short-writes', 'injected-eagain', 'injected-eintr'],
    rule=N + 'Up to 4 sessions write payloads (any bytes, up to 400 kB, any way of writing) to their streams and to Cli::cout() while clients read slowly; the bytes received are taken apart and compared with those written.')
PLAN['C18'] = dict(level='exploration', jobs=tel(1200, sans=('asan', 'tsan')) + tel(1000, ('--mode', 'destroy')) + tel(40, ('--mode', 'memory')) + [dict(bin='telnet_boost_asan', args=['--mode', 'stalled'], quick=1, thorough=4, chunk=1)],
    require=['hostile-clients', 'good-commands', 'connections', 'injected-accept-errors', 'injected-read-errors', 'injected-write-errors', 'server-destroyed', 'exits-kept-open', 'memory-connections'],
    rule=N + 'Hostile clients (12 kinds) come and go while good clients type commands; injected accept, read and write errors; server destroyed and recreated.')
L = 'A case is a real local session on a real pseudo terminal (or pipe, file, /dev/null) as standard input, with one of the three schedulers on its own thread; handled signals are sent to every thread, EINTR and EAGAIN injected under select and read. '
NL = ('loop', 'boost', 'standalone')
def loc(n, args=(), sans=('asan',), f=30, which=NL):
    return [dict(bin='local_%s_%s' % (b, t), args=list(args), quick=n if t == 'asan' else max(1, n // 3), thorough=n * f if t == 'asan' else n * f // 3) for b in which for t in sans]
PLAN['C19'] = dict(level='exploration', jobs=loc(5000) + loc(5000, sans=('tsan',), which=('loop',)),
    require=['typed', 'typed-ahead', 'pipes', 'files', 'end-of-input', 'hangups', 'terminal-in-handlers', 'terminal-in-character-mode', 'terminal-restored', 'signals-handled', 'injected-eintr', 'injected-eagain'],
    rule=L + 'Random keys in random pieces, waiting for the commands or typing ahead; what is run is compared with a model of the line editor; terminal modes are read while handlers run, while keys are awaited and after the destruction.')
PLAN['C20'] = dict(level='exploration', jobs=loc(4000) + loc(3000, sans=('tsan',)) + tel(1500, ('--mode', 'destroy'), sans=('asan', 'tsan')) + [dict(bin='local_loop_asan', args=['--mode', 'flush'], quick=1, thorough=4, chunk=1)],
    require=['destructions', 'recreated', 'terminal-restored', 'hangup-before-destruction', 'never-run', 'polled', 'stopped-in-flight', 'failed-out', 'typing-during-destruction', 'server-destroyed', 'server-recreated', 'flush-scenario'],
    rule=L + 'Sessions are destroyed at random moments (keys queued, mid-line, mid-escape-sequence, after a command that failed out of the scheduler, after exit, after the end of input, before the scheduler ran), on the scheduler thread or not; threads, descriptors, later work of the scheduler and a next session on the same input are checked. The same for telnet sessions and servers.')
PLAN['C24'] = dict(level='exploration', jobs=loc(1500, sans=('asan',)) + loc(4500, sans=('tsan',)),
    require=['commands', 'completions-monitored', 'local-sessions', 'remote-sessions', 'posts', 'touches', 'idle-keys', 'local-exits'],
    rule=L + 'With a telnet server and up to 4 clients on the same scheduler and threads posting work: handlers, completions, enter and exit actions share plain variables, check the thread they run on, their overlap and the order of the commands of each session.')
def asy(n, args=(), sans=('asan',), f=30):
    return [dict(bin='async_%s_%s' % (b, t), args=list(args), quick=n if t == 'asan' else max(1, n // 3), thorough=n * f if t == 'asan' else n * f // 3) for b in NB for t in sans]
PLAN['C22'] = dict(level='exploration', jobs=asy(6000, sans=('asan', 'tsan')),
    require=['lines', 'pipes', 'sockets', 'terminals', 'files', 'unterminated', 'inputs-failing', 'short-reads', 'injected-eintr', 'injected-read-errors', 'posts', 'steps'],
    rule='A case is a real asynchronous session (boost or standalone asio) reading random lines (any bytes, up to 100 kB) from a pipe, socket, pseudo terminal or file as standard input, in random pieces, with short reads, EINTR and failing reads injected below it and other work on the loop; everything it writes and runs is compared with a model.')
PLAN['C21'] = dict(level='exploration', rule='Random bytes, keys and lines (also structured ones: quotes, recalls, negotiations, escape sequences, telnet commands) given to plain, file, local and remote sessions with random menus, history sizes (0 included), actions, throwing handlers and handle operations; ASan+UBSan, iterator-checking library mode, valgrind (uninitialised values), checked preconditions of the character functions, cpu and progress watchdogs, heap accounting. Distinct: hash of the inputs.',
    jobs=[dict(bin='worlds_debug', quick=8000, thorough=300000), dict(bin='worlds_debug', args=['--mode', 'history'], quick=8000, thorough=300000), dict(bin='edit_debug', quick=8000, thorough=300000),
          dict(bin='edit_debug', args=['--mode', 'memory'], quick=24, thorough=240), dict(bin='split_debug', quick=60, thorough=1000), dict(bin='types_debug', quick=60, thorough=1000),
          dict(bin='worlds_plain', tool=VG, quick=400, thorough=10000), dict(bin='worlds_plain', args=['--mode', 'history'], tool=VG, quick=200, thorough=6000), dict(bin='edit_plain', tool=VG, quick=300, thorough=10000), dict(bin='types_plain', tool=VG, quick=16, thorough=200)]
         + tel(1500, f=40) + loc(1500, ('--mode', 'wild'), f=40) + tel(24, ('--mode', 'memory')) + loc(24, ('--mode', 'memory')) + asy(24, ('--mode', 'memory')),
    require=['keys', 'bytes', 'memory-cases', 'memory-lines', 'words', 'accepted', 'rejected', 'recall-hit', 'recall-unknown', 'op-remove'])
PLAN['C20']['jobs'] += asy(3000, sans=('asan', 'tsan'))
PLAN['C21']['jobs'] += asy(600, ('--mode', 'lines'))
# the same property on the sessions with keys, on a line of their own each
PLAN['C12']['jobs'] += [dict(bin='edit', args=['--color', 'off'], quick=3000, thorough=100000)] + loc(700, ('--mode', 'keys')) + tel(700, ('--mode', 'input')) + asy(400, ('--mode', 'lines'))
PLAN['C13']['jobs'] += tel(500, ('--mode', 'output'))
PLAN['C08']['jobs'] += loc(900, ('--mode', 'keys')) + tel(900, ('--mode', 'input'))
PLAN['C11']['jobs'] += tel(500, ('--mode', 'input'))
# everything is released
PLAN['C25'] = dict(level='exploration', rule='The workloads of the other properties (random menus with handlers that disable, remove, insert and throw; line editors; file sessions; schedulers destroyed with pending work; local, telnet and asynchronous sessions destroyed at random moments), in which everything the library is given to keep (handlers, menus, actions, storages, posted functions) carries an object that is counted. After every case the count must be back to zero; after every removal the counts of what has been removed and does not run must be zero; LeakSanitizer looks for lost memory every few cases and at the end of each process. Distinct: as in the other properties.',
    jobs=[dict(bin='worlds', quick=24000, thorough=600000), dict(bin='worlds', args=['--mode', 'history'], quick=8000, thorough=200000), dict(bin='worlds', args=['--mode', 'lifecycle'], quick=8000, thorough=200000),
          dict(bin='edit', args=['--color', 'off'], quick=4000, thorough=120000), dict(bin='split', args=['--mode', 'files'], quick=12000, thorough=300000), dict(bin='split', quick=2000, thorough=50000), dict(bin='types', quick=60, thorough=1000)]
         + [dict(bin='sched_%s_asan' % b, quick=1500, thorough=45000) for b in ('loop', 'boost', 'standalone')]
         + tel(700) + tel(700, ('--mode', 'destroy')) + tel(500, ('--mode', 'input')) + tel(200, ('--mode', 'output')) + tel(300, ('--mode', 'wild'))
         + loc(700, ('--mode', 'keys')) + loc(1500, ('--mode', 'destroy')) + loc(300, ('--mode', 'wild')) + loc(300, ('--mode', 'mixed')) + asy(700, ('--mode', 'lines')) + asy(1200, ('--mode', 'destroy')),
    require=['released', 'removal-checks', 'sessions-released', 'clis-released', 'commands-released', 'functions-released', 'op-remove', 'op-remove-self', 'server-destroyed', 'never-run'])
# nobody does anything for seconds
def idle(bins, n=2): return [dict(bin=b, args=['--mode', 'idle'], quick=n, thorough=n * 20, chunk=1, weight=1) for b in bins]
PLAN['C15']['jobs'] += idle(['sched_%s_asan' % b for b in NL])
for p in ('C19', 'C20'): PLAN[p]['jobs'] += idle(['local_%s_asan' % b for b in NL], 4)
for p in ('C16', 'C18'): PLAN[p]['jobs'] += idle(['telnet_%s_asan' % b for b in NB])
PLAN['C22']['jobs'] += idle(['async_%s_asan' % b for b in NB])
for p in ('C15', 'C16', 'C18', 'C19', 'C20', 'C22'): PLAN[p]['require'] += ['idle-cases']
PLAN['C24']['require'] += ['ignored-keys']

REF = 'runtime monitoring: randomized and bounded-exhaustive workloads on the real code under ASan+UBSan, each observation compared online with an executable reference model'
NOTE = 'Exploration: holds on the executions generated from the seed, monitored completely. Trusts the reference model written from the property statement, the sanitizers and the C++ library.'
TECH = {k: (REF, NOTE) for k in PLAN}
for k in ('C14', 'C15'):
    TECH[k] = ('runtime monitoring: ThreadSanitizer and ASan+UBSan builds under randomized thread schedules with injected delays, online exactly-once / order / thread monitors on uniquely identified work',
               'Exploration of the interleavings that occurred (their number is in the evidence). Hangs are decided by a 40 s watchdog counting its own ticks. Trusts TSan and the C++/asio libraries.')
NET = 'runtime monitoring: real servers and clients over the loopback under ASan+UBSan and TSan, wrapped system calls injecting faults, protocol monitors comparing what was received and run with a model'
for k in ('C16', 'C17', 'C18'): TECH[k] = (NET, NOTE + ' Hangs are decided by a 40-60 s watchdog counting its own ticks.')
TTY = 'runtime monitoring: real sessions on pseudo terminals under ASan+UBSan and TSan, wrapped system calls and signals injecting faults, monitors on what is run, on terminal modes, threads and descriptors'
for k in ('C19', 'C20', 'C24'): TECH[k] = (TTY, NOTE + ' Hangs are decided by a 40 s watchdog counting its own ticks.')
TECH['C21'] = ('runtime monitoring: ASan+UBSan, iterator-checking standard library, valgrind memcheck, precondition wrappers, hang watchdogs and heap accounting over random and structured inputs to every kind of session', NOTE)
TECH['C25'] = ('runtime monitoring: ASan+UBSan with LeakSanitizer, and counts of every object the library is given to keep, checked after every removal, destruction and case', NOTE)
TECH['C22'] = ('runtime monitoring: real asynchronous sessions under ASan+UBSan and TSan, wrapped system calls injecting faults, complete output and event log compared with a model', NOTE + ' Hangs are decided by a 40 s watchdog counting its own ticks.')
