// Common harness support: deterministic random numbers, case bookkeeping, violation reports, statistics.
// Every harness binary is run by /verif/check.py as
//   BIN --prop C01 --seed S --first I --count N --tier quick|thorough --out FILE --cur FILE [--only CASE]
// exit codes: 0 held; 3 violation (described in FILE); 5 inconclusive (watchdog); others: crash/sanitizer (judged by check.py)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <mutex>
#include <atomic>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <sched.h>
#include <pthread.h>

namespace h {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed=1) : s(seed*0x9E3779B97F4A7C15ull+0x1234567) {}
    uint64_t next()
    {
        uint64_t z=(s+=0x9E3779B97F4A7C15ull);
        z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);
    }
    uint64_t below(uint64_t n) { return n? next()%n : 0; }
    int range(int a,int b) { return a+int(below(uint64_t(b-a+1))); }
    bool chance(int pct) { return int(below(100))<pct; }
    template<class C> auto& pick(C& c) { return c[below(c.size())]; }
    template<class C> const auto& pick(const C& c) { return c[below(c.size())]; }
};

inline uint64_t hash(const std::string& s)
{
    uint64_t x=1469598103934665603ull;
    for (unsigned char c: s) { x^=c; x*=1099511628211ull; }
    return x;
}

inline std::string esc(const std::string& s, size_t max=400)
{
    std::string r;
    for (unsigned char c: s)
    {
        if (r.size()>max) { r+="...("+std::to_string(s.size())+")"; break; }
        char b[8];
        if (c=='\\') r+="\\\\";
        else if (c=='\n') r+="\\n";
        else if (c>=32 && c<127) r+=char(c);
        else { snprintf(b,sizeof b,"\\x%02x",c); r+=b; }
    }
    return r;
}

struct CurPage { uint64_t caseNo; uint64_t len; char log[1<<17]; };

struct Ctx
{
    std::string prop="C01", tier="quick", out, cur, dir="/tmp";
    uint64_t seed=1, first=0, count=100;
    int64_t only=-1;
    std::map<std::string,std::string> opt;
    CurPage* page=nullptr;
    uint64_t caseNo=0;
    std::map<std::string,long long> stats;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::mutex mtx;
    bool thorough() const { return tier=="thorough"; }
    Rng rng(uint64_t c) const { return Rng(hash(prop)^(seed*1000003ull)^(c*0x9E3779B97F4A7C15ull)); }
};
inline Ctx& ctx() { static Ctx* c=new Ctx; return *c; }

inline void logv(const std::string& s)
{
    auto* p=ctx().page;
    if (!p) return;
    std::lock_guard<std::mutex> l(ctx().mtx);
    size_t room=sizeof(p->log)-p->len;
    if (room<2) return;
    size_t n=std::min(room-2,s.size());
    memcpy(p->log+p->len,s.data(),n); p->len+=n; p->log[p->len++]='\n';
}
#define LOG(...) ::h::logf(__VA_ARGS__)
__attribute__((format(printf,1,2))) inline void logf(const char* f,...)
{
    char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); logv(b);
}

inline void stat(const char* k,long long n=1) { std::lock_guard<std::mutex> l(ctx().mtx); ctx().stats[k]+=n; }
inline void statMax(const char* k,long long n) { std::lock_guard<std::mutex> l(ctx().mtx); auto& x=ctx().stats[std::string("max:")+k]; if (n>x) x=n; }
inline void distinct(const std::string& s) { std::lock_guard<std::mutex> l(ctx().mtx); if (ctx().distinct.size()<400000) ctx().distinct.insert(hash(s)); }
inline void sample(const std::string& s) { std::lock_guard<std::mutex> l(ctx().mtx); if (ctx().samples.size()<3) ctx().samples.push_back(esc(s,600)); }

inline void flush(const char* extra=nullptr, const std::string& a="", const std::string& b="")
{
    auto& c=ctx();
    if (c.out.empty())
    {
        if (extra) fprintf(stderr,"%s %s: %s (case %llu)\n",extra,a.c_str(),b.c_str(),(unsigned long long)c.caseNo);
        else for (auto& k: c.stats) fprintf(stderr,"%s=%lld\n",k.first.c_str(),k.second);
        if (!extra) fprintf(stderr,"distinct=%zu\n",c.distinct.size());
        return;
    }
    FILE* f=fopen(c.out.c_str(),"w");
    if (!f) _exit(9);
    for (auto& k: c.stats) fprintf(f,"STAT\t%s\t%lld\n",k.first.c_str(),k.second);
    for (auto& k: c.samples) fprintf(f,"SAMPLE\t%s\n",k.c_str());
    if (extra) fprintf(f,"%s\t%llu\t%s\t%s\n",extra,(unsigned long long)c.caseNo,a.c_str(),esc(b,3000).c_str());
    else fprintf(f,"DONE\n");
    fclose(f);
    f=fopen((c.out+".h").c_str(),"w");
    if (f) { for (auto x: c.distinct) fwrite(&x,8,1,f); fclose(f); }
}

// violation of the property: report and leave at once
[[noreturn]] inline void fail(const std::string& key, const std::string& detail)
{
    static std::atomic<int> once{0};
    if (once++) for(;;) pause();
    logv("VIOLATION "+key+": "+esc(detail,3000));
    flush("VIOL",key,detail);
    _exit(3);
}
[[noreturn]] inline void inconclusive(const std::string& detail)
{
    static std::atomic<int> once{0};
    if (once++) for(;;) pause();
    logv("INCONCLUSIVE "+detail);
    flush("INCONCLUSIVE","watchdog",detail);
    _exit(5);
}
#define CHECK(cond,key,...) do { if (!(cond)) ::h::fail(key, ::h::fmt(__VA_ARGS__)); } while(0)
__attribute__((format(printf,1,2))) inline std::string fmt(const char* f,...)
{
    va_list a; va_start(a,f); char* p=nullptr; int n=vasprintf(&p,f,a); va_end(a);
    std::string s(p? std::string(p,size_t(n)) : ""); free(p); return s;
}

// cpu-time watchdog for single threaded cases: not affected by the load of the machine
inline void onCpuHang(int) { static const char m[]="CPUHANG\n"; auto r=write(2,m,sizeof m-1); (void)r; _exit(6); }
inline void armCpu(int secs)
{
    struct itimerval t{}; t.it_value.tv_sec=secs;
    setitimer(ITIMER_VIRTUAL,&t,nullptr);
}

inline void beginCase(uint64_t i)
{
    auto& c=ctx(); c.caseNo=i;
    if (c.page) { c.page->caseNo=i; c.page->len=0; }
}

inline void init(int argc,char** argv)
{
    auto& c=ctx();
    for (int i=1;i+1<argc;i+=2)
    {
        std::string k=argv[i], v=argv[i+1];
        if (k=="--prop") c.prop=v; else if (k=="--seed") c.seed=strtoull(v.c_str(),0,10);
        else if (k=="--first") c.first=strtoull(v.c_str(),0,10); else if (k=="--count") c.count=strtoull(v.c_str(),0,10);
        else if (k=="--tier") c.tier=v; else if (k=="--out") c.out=v; else if (k=="--cur") c.cur=v;
        else if (k=="--only") c.only=strtoll(v.c_str(),0,10); else if (k=="--dir") c.dir=v; else c.opt[k]=v;
    }
    if (!c.cur.empty())
    {
        int fd=open(c.cur.c_str(),O_RDWR|O_CREAT,0600);
        if (fd>=0 && ftruncate(fd,sizeof(CurPage))==0)
        {
            void* p=mmap(nullptr,sizeof(CurPage),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
            if (p!=MAP_FAILED) c.page=static_cast<CurPage*>(p);
        }
        if (fd>=0) close(fd);
    }
    if (!c.page) c.page=static_cast<CurPage*>(calloc(1,sizeof(CurPage)));
    signal(SIGVTALRM,onCpuHang);
}

// watchdog for cases with threads. It counts its own ticks, so a suspended machine is not taken for a hang.
// Every waiting thread has a slot of its own (0: the explicit arm and off).
struct Watch
{
    enum { N=64 };
    std::atomic<int> left[N]={}; std::atomic<const char*> what[N]={}; std::atomic<bool> used[N]={};
    void arm(const char* w,int secs,int i=0) { what[i]=w; left[i]=secs*10; }
    void off(int i=0) { left[i]=0; }
    int take() { for (int i=1;i<N;++i) { bool f=false; if (used[i].compare_exchange_strong(f,true)) return i; } return 0; }
    void give(int i) { off(i); used[i]=false; }
    void tick() { for (int i=0;i<N;++i) if (left[i].load()>0 && left[i].fetch_sub(1)==1) fail(std::string("hang:")+what[i].load(),"no progress within the watchdog's time"); }
};
inline Watch& watch()
{
    static Watch* w=[]{
        auto* x=new Watch;
        pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a,PTHREAD_CREATE_DETACHED);
        pthread_create(&t,&a,[](void* p)->void* {
            auto* y=static_cast<Watch*>(p);
            sigset_t ss; sigfillset(&ss); pthread_sigmask(SIG_BLOCK,&ss,nullptr);
            for(;;) { struct timespec ts{0,100000000}; nanosleep(&ts,nullptr); y->tick(); }
        },x);
        return x;
    }();
    return *w;
}
inline void nap(unsigned us) { struct timespec ts{long(us/1000000),long(us%1000000)*1000}; nanosleep(&ts,nullptr); }
// waits for a condition; a hang is reported by the watchdog
template<class P> void await(const char* what,P p,int secs=40)
{
    if (p()) return;
    struct Slot { int i=watch().take(); ~Slot() { watch().give(i); } } s;
    watch().arm(what,secs,s.i);
    for (unsigned i=0;!p();++i) { if (i<50) sched_yield(); else nap(i<200?50:500); }
}

// does something that must not block; a hang is reported by the watchdog
template<class F> void prompt(const char* what,F f,int secs=40)
{
    struct Slot { int i=watch().take(); ~Slot() { watch().give(i); } } s;
    watch().arm(what,secs,s.i); f();
}

// preconditions of the character functions (with -Wl,--wrap=...): EOF or the value of an unsigned char
#define H_CTYPE(X) X(isspace) X(isprint) X(isalnum) X(isalpha) X(isdigit) X(isgraph) X(ispunct) X(iscntrl) X(isupper) X(islower) X(isxdigit) X(isblank) X(toupper) X(tolower)
#define H_WRAP_(f) extern "C" int __real_##f(int) __attribute__((weak)); extern "C" __attribute__((used)) inline int __wrap_##f(int c) { if (c<-1||c>255) h::fail("ctype:" #f,"called with "+std::to_string(c)); return __real_##f(c); }
#ifdef H_WRAP_CTYPE
} H_CTYPE(H_WRAP_) namespace h {
#endif

// something the library is given to keep (captured by handlers, actions, posted functions): counts how many there are.
// Relaxed on purpose: it must not order the threads of what is observed.
struct Token
{
    static std::atomic<long>& live() { static std::atomic<long> n{0}; return n; }
    static std::atomic<long>& made() { static std::atomic<long> n{0}; return n; }
    Token() { up(); } Token(const Token&) { up(); } Token(Token&&) noexcept { up(); }
    Token& operator=(const Token&)=default; Token& operator=(Token&&)=default;
    ~Token() { if (self!=this) fail("release-twice","something kept by the library was destroyed twice or without having been built"); self=nullptr; live().fetch_sub(1,std::memory_order_relaxed); }
private:
    void up() { live().fetch_add(1,std::memory_order_relaxed); made().fetch_add(1,std::memory_order_relaxed); }
    const void* self=this;
};
// C25: after every case nothing of what the library was given is left; now and then, nothing it allocated either
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(H_ASAN)
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
inline bool lsanCheck() { if (!__lsan_do_recoverable_leak_check) return false; if (__lsan_do_recoverable_leak_check()) fail("leak","memory that nothing refers to any more (see the output)"); return true; }
#else
inline bool lsanCheck() { return false; }
#endif
inline void released(bool threads)
{
    static long made0=0; static uint64_t n=0;
    const long m=Token::made().load(), l=Token::live().load();
    if (l) fail("release","after everything has been destroyed "+std::to_string(l)+" captured objects are left");
    stat("released",m-made0); made0=m;
    if (++n%(threads?25:400)==0&&!ctx().opt.count("--nolsan")&&lsanCheck()) stat("leak-checks");
}

// runs f(rng) for every case of the range
template<class F> int cases(F f,int cpuSecs=20)
{
    auto& c=ctx();
    uint64_t a=c.first,b=c.first+c.count;
    if (c.only>=0) { a=uint64_t(c.only); b=a+1; }
    const int slot=cpuSecs?0:watch().take();   // cases with threads: no case takes anywhere near this long
    for (uint64_t i=a;i<b;++i)
    {
        beginCase(i);
        if (cpuSecs) armCpu(cpuSecs); else watch().arm("the case does not end",180,slot);
        Rng r=c.rng(i);
        f(r);
        if (c.prop=="C25") released(!cpuSecs);
        stat("cases");
    }
    if (c.prop=="C25"&&!c.opt.count("--nolsan")&&lsanCheck()) stat("leak-checks");
    if (cpuSecs) armCpu(0); else watch().give(slot);
    flush();
    if (c.only>=0 && c.out.empty()) fprintf(stderr,"%s",c.page->log);
    return 0;
}

} // namespace h
