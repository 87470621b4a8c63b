// C19 C20 C21 C24 on local sessions, their standard input being a terminal, a pipe, a file...
// SCHED: 0 LoopScheduler, 1 BoostAsioScheduler, 2 StandaloneAsioScheduler
#include "delay.h"
#if SCHED>0
#define LIB (SCHED-1)
#include "net.h"
#else
#include "model.h"
#include <thread>
#include <memory>
#include <dirent.h>
#include <poll.h>
#include <cli/cli.h>
#include <cli/loopscheduler.h>
using Sched=cli::LoopScheduler;
using h::Rng; using std::string; using std::vector;
inline int countFds() { int n=0; DIR* d=opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
// more descriptors than before: tried again, since something else in the process (a sanitizer's own thread) can have one open for a moment
inline bool moreFds(int before) { for (int i=0;i<200;++i) { if (countFds()<=before) return false; h::nap(2000); } return true; }
inline int countThreads() { int n=0; DIR* d=opendir("/proc/self/task"); if (!d) return -1; while (auto* e=readdir(d)) if (e->d_name[0]!='.') ++n; closedir(d); return n; }
#endif
#include "keys.h"
#include "term.h"
#include <cli/clilocalsession.h>
#include <cli/clifilesession.h>
#include <termios.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/stat.h>
using keys::Key;

// ---------------------------------------------------------------- faults on the standard input
namespace in {
inline std::atomic<int> intr{0},again{0}; inline std::atomic<uint64_t> seed{1};
inline std::atomic<int> flush{0}, reading{0};   // flush: 1 the queue of the terminal is to be emptied after the next wait
inline std::atomic<long long> n_intr{0},n_again{0},n_sig{0},ends{0};
inline bool hit(std::atomic<int>& p) { int v=p.load(std::memory_order_relaxed); if (!v) return false; Rng r(seed.fetch_add(0x9E3779B97F4A7C15ull)); return int(r.next()%100)<v; }
}
extern "C" {
int __real_select(int,fd_set*,fd_set*,fd_set*,struct timeval*); ssize_t __real_read(int,void*,size_t);
int __wrap_select(int n,fd_set* a,fd_set* b,fd_set* c,struct timeval* t) { if (in::hit(in::intr)) { ++in::n_intr; errno=EINTR; return -1; } int r=__real_select(n,a,b,c,t); delay::point(4); if (r>0&&a&&FD_ISSET(0,a)&&in::flush.load()==1) { in::flush=2; tcflush(0,TCIFLUSH); } return r; }
ssize_t __wrap_read(int fd,void* b,size_t n)
{
    if (fd!=0) return __real_read(fd,b,n);
    if (in::hit(in::intr)) { ++in::n_intr; errno=EINTR; return -1; }
    if (in::hit(in::again)) { ++in::n_again; errno=EAGAIN; return -1; }
    in::reading=1; ssize_t r=__real_read(fd,b,n); in::reading=0;
    if (r==0||(r<0&&errno==EIO)) { int e=errno; ++in::ends; errno=e; }
    return r;
}
}
extern "C" {
int __real_tcsetattr(int,int,const struct termios*);
int __wrap_tcsetattr(int fd,int k,const struct termios* t) { delay::point(4); int r=__real_tcsetattr(fd,k,t); delay::point(4); return r; }
}
static void onSig(int) { ++in::n_sig; }
// sends handled signals to every thread of this process
struct Signaller
{
    std::atomic<bool> quit{false}; std::thread t;
    void start(uint64_t seed)
    {
        t=std::thread([this,seed]{
            sigset_t ss; sigfillset(&ss); pthread_sigmask(SIG_BLOCK,&ss,nullptr);
            Rng r(seed); const pid_t me=pid_t(syscall(SYS_gettid));
            while (!quit)
            {
                DIR* d=opendir("/proc/self/task");
                if (d) { while (auto* e=readdir(d)) { int t=atoi(e->d_name); if (t>0&&t!=me) { static const int s[]={SIGUSR1,SIGWINCH,SIGCONT}; syscall(SYS_tgkill,getpid(),t,s[r.below(3)]); } } closedir(d); }
                h::nap(unsigned(100+r.below(600)));
            }
        });
    }
    ~Signaller() { quit=true; if (t.joinable()) t.join(); }
};

// ---------------------------------------------------------------- standard inputs
struct In
{
    int w=-1;            // the typist's end
    bool tty=false; string path;
    termios orig{};
    static void set(int fd) { if (dup2(fd,0)<0) h::inconclusive("dup2"); ::close(fd); }
    void openTty(Rng& r,bool all)
    {
        w=posix_openpt(O_RDWR|O_NOCTTY|O_CLOEXEC); if (w<0||grantpt(w)||unlockpt(w)) h::inconclusive("no terminal available");
        char name[128]; if (ptsname_r(w,name,sizeof name)) h::inconclusive("ptsname");
        int s=open(name,O_RDWR|O_NOCTTY); if (s<0) h::inconclusive("no terminal available");
        fcntl(w,F_SETFL,fcntl(w,F_GETFL)|O_NONBLOCK);
        termios t; tcgetattr(s,&t);
        if (r.chance(25)) t.c_lflag&=~tcflag_t(ECHOE|ECHOK);
        if (r.chance(25)) t.c_lflag&=~tcflag_t(ECHO);
        if (r.chance(25)) t.c_lflag&=~tcflag_t(IEXTEN);
        if (r.chance(30)) { t.c_lflag&=~tcflag_t(ISIG); t.c_iflag&=~tcflag_t(IXON); }
        if (r.chance(20)) t.c_cc[VMIN]=1;
        if (all&&r.chance(10)) t.c_lflag&=~tcflag_t(ICANON);
        tcsetattr(s,TCSANOW,&t); tcgetattr(s,&orig);
        set(s); tty=true;
        if (r.chance(15)) fcntl(0,F_SETFL,fcntl(0,F_GETFL)|O_NONBLOCK);
    }
    void openPipe(Rng& r) { int p[2]; if (pipe2(p,O_CLOEXEC)) h::inconclusive("pipe"); w=p[1]; set(p[0]); if (r.chance(15)) fcntl(0,F_SETFL,fcntl(0,F_GETFL)|O_NONBLOCK); }
    void openFile(const string& s)
    {
        path=h::ctx().dir+"/in"+std::to_string(getpid()); FILE* f=fopen(path.c_str(),"w"); if (!f) h::inconclusive("file"); fwrite(s.data(),1,s.size(),f); fclose(f);
        int fd=open(path.c_str(),O_RDONLY); if (fd<0) h::inconclusive("file"); set(fd);
    }
    void hangup() { if (w>=0) { ::close(w); w=-1; } }
    void drain() { if (!tty||w<0) return; char b[4096]; while (__real_read(w,b,sizeof b)>0) {} }
    void type(const string& s)
    {
        size_t i=0; 
        for (int k=0;i<s.size()&&k<2000000;++k) { drain(); ssize_t n=write(w,s.data()+i,s.size()-i); if (n>0) i+=size_t(n); else if (errno==EPIPE||errno==EIO) return; else h::nap(50); }
    }
    ~In() { hangup(); int n=open("/dev/null",O_RDONLY); if (n>0) { dup2(n,0); ::close(n); } if (!path.empty()) unlink(path.c_str()); }
};
static string modes(const termios& t) { return h::fmt("i%x o%x c%x l%x",unsigned(t.c_iflag),unsigned(t.c_oflag),unsigned(t.c_cflag),unsigned(t.c_lflag)); }
static bool same(const termios& a,const termios& b) { return a.c_iflag==b.c_iflag&&a.c_oflag==b.c_oflag&&a.c_cflag==b.c_cflag&&a.c_lflag==b.c_lflag&&!memcmp(a.c_cc,b.c_cc,sizeof a.c_cc); }

// ---------------------------------------------------------------- a scheduler on its thread, a cli, a session
struct Sink : std::streambuf   // written by one thread only: not synchronised
{
    string s;
    int overflow(int c) override { s+=char(c); return c==EOF?0:c; }
    std::streamsize xsputn(const char* p,std::streamsize n) override { s.append(p,size_t(n)); return n; }
};
struct Stage
{
    std::unique_ptr<Sched> sched; std::unique_ptr<cli::Cli> c; std::unique_ptr<cli::CliLocalTerminalSession> s;
    Sink sink; std::ostream os{&sink}; In* stdIn=nullptr;
    vector<string> ev;                              // what was run, on the thread of the scheduler
    std::thread t; std::atomic<bool> ended{false}; std::atomic<int> escaped{0}; std::atomic<std::thread::id> tid{}; std::atomic<int> inside{0};
    bool checkModes=false, mayThrow=false;
    struct Guard { Stage& b; explicit Guard(Stage& x):b(x) { if (std::this_thread::get_id()!=b.tid.load()) h::fail("handler-thread","an handler runs on a thread that is not running the scheduler"); if (b.inside++) h::fail("handler-overlap","two handlers at the same time"); } ~Guard() { --b.inside; } };
    void event(const string& e)
    {
        Guard g(*this);
        if (checkModes&&stdIn&&stdIn->tty) { termios t; if (!tcgetattr(0,&t)) { if (!same(t,stdIn->orig)) h::fail("terminal-handler","while '"+e+"' runs the terminal is "+modes(t)+" instead of "+modes(stdIn->orig)); h::stat("terminal-in-handlers"); } }
        ev.push_back(e);
    }
    void makeCli()
    {
        auto m=std::make_unique<cli::Menu>("m");
        keys::fill(*m,[this](const string& e){ event(e); });
        if (mayThrow) { m->Insert("escape",[tk=h::Token()](std::ostream&){ throw std::runtime_error("escape"); }); m->Insert("boom",[tk=h::Token()](std::ostream&){ throw std::runtime_error("boom"); }); }
        c=std::make_unique<cli::Cli>(std::move(m));
        c->WrongCommandHandler([this,tk=h::Token()](std::ostream&,const string& l){ event("line "+l); });
        c->StdExceptionHandler([this,tk=h::Token()](std::ostream&,const string& l,const std::exception& e){ if (!mayThrow) h::fail("exception",l+": "+e.what()); if (l=="escape") { h::stat("failed-out"); throw 5; } });
        c->EnterAction([this,tk=h::Token()](std::ostream& o){ o<<"WELCOME\n"; ++entered; });
        c->ExitAction([this,tk=h::Token()](std::ostream& o){ Guard g(*this); o<<"GOODBYE\n"; ev.push_back("exit"); });
    }
    int entered=0;
    void makeSession(size_t hist) { s=std::make_unique<cli::CliLocalTerminalSession>(*c,*sched,os,hist); }
    void run()
    {
        std::atomic<bool> up{false}; ended=false;
        t=std::thread([this,&up]{
            tid=std::this_thread::get_id(); up=true;
            for(;;)
            {
                try { sched->Run(); break; }
                catch (int) { ++escaped; inside=0; if (!mayThrow) h::fail("escaped","unexpected exception"); }
                catch (const std::exception& e) { h::fail("scheduler-exception",e.what()); }
            }
            ended=true;
        });
        h::await("scheduler start",[&]{ return up.load(); });
    }
    void checkRunning() { if (ended) h::fail("scheduler-ended","the scheduler stopped running though nobody stopped it"); }
    template<class F> void on(F f)
    {
        if (!t.joinable()) { f(); return; }
        auto done=std::make_shared<std::atomic<bool>>(false); sched->Post([f,done,tk=h::Token()]{ f(); *done=true; });
        h::watch().arm("posted function not run",40); while (!*done) { if (stdIn) stdIn->drain(); h::nap(30); } h::watch().off();
    }
    void stop() { if (t.joinable()) { checkRunning(); sched->Stop(); h::await("the scheduler did not return after Stop",[&]{ return ended.load(); }); t.join(); } }
    // p is evaluated on the thread of the scheduler
    template<class P> void until(const char* what,P p,int secs=40)
    {
        for (int i=0;i<secs*2000;++i) { bool ok=false; on([&]{ ok=p(); }); if (ok) return; checkRunning(); if (i>20) h::nap(i<200?100:500); }
        on([&]{ LOG("events %s",keys::show(ev).c_str()); LOG("output %s",h::esc(sink.s,1500).c_str()); });
        h::fail(string("hang:")+what,"no progress within the watchdog's time");
    }
    size_t enters() const { size_t n=0,p=0; while ((p=sink.s.find("\r\n",p))!=string::npos) { ++n; p+=2; } return n; }
    void drop() { h::prompt("the destruction of a session does not end",[&]{ s.reset(); }); }
    ~Stage() { stop(); drop(); c.reset(); sched.reset(); }
};
static void setFaults(Rng& r) { in::seed=r.next(); in::intr=r.chance(50)?(r.chance(20)?80:r.range(1,30)):0; in::again=r.chance(30)?r.range(1,40):0; in::ends=0; delay::arm(r); }
static void faultStats() { delay::done(); h::stat("injected-eintr",in::n_intr.exchange(0)); h::stat("injected-eagain",in::n_again.exchange(0)); h::stat("signals-handled",in::n_sig.exchange(0)); in::intr=in::again=0; }

// a random key; safe: only those a terminal in line mode leaves alone
static Key randomKey(Rng& r,bool safe,bool tty)
{
    int q=int(r.below(100)); if (h::ctx().prop=="C08"&&r.chance(40)) q=r.chance(45)?83:r.chance(50)?88:60;
    if (q<55) { char c; do c=r.chance(92)?char(r.range(32,126)):char(r.range(128,254)); while (c=='!'); return {string(1,c),0,c}; }
    if (q<67) return {tty&&r.chance(50)?"\r":"\n",1};
    if (q<72) return safe?Key{"\x1b[D",4}:Key{r.chance(50)?"\x08":"\x7f",2};
    if (q<75) return {"\x1b[3~",3};
    if (q<79) return {"\x1b[D",4};
    if (q<82) return {"\x1b[C",5};
    if (q<87) return {"\x1b[A",6};
    if (q<90) return {"\x1b[B",7};
    if (q<93) return {"\x1b[H",8};
    if (q<95) return {"\x1b[F",9};
    if (q<98) return {"\t",10};
    return {"\x0c",11};
}
static void compare(Stage& g,const keys::Line& L,const string& bytes)
{
    vector<string> got; g.on([&]{ got=g.ev; });
    if (got!=L.want) h::fail("keys","bytes '"+bytes+"': expected {"+keys::show(L.want)+"} observed {"+keys::show(got)+"}");
}
static void typePieces(In& in,const string& s,Rng& r)
{
    size_t i=0;
    while (i<s.size()) { size_t n=r.chance(50)?1+r.below(3):1+r.below(s.size()-i); n=std::min(n,s.size()-i); in.type(s.substr(i,n)); i+=n; if (r.chance(20)) h::nap(unsigned(r.below(200))); }
}
static void checkManual(Stage& g,In& in)
{
    if (!in.tty) return;
    g.on([&]{ termios t; if (tcgetattr(0,&t)) return; termios w=in.orig; w.c_lflag&=~tcflag_t(ICANON|ECHO); if (!same(t,w)) h::fail("terminal-keys","while keys are awaited the terminal is "+modes(t)+" instead of "+modes(w)); h::stat("terminal-in-character-mode"); });
}
static void checkRestored(In& in)
{
    if (!in.tty||in.w<0) return;
    termios t; if (tcgetattr(0,&t)) return;
    if (!same(t,in.orig)) h::fail("terminal-restored","after the session's destruction the terminal is "+modes(t)+" instead of "+modes(in.orig)); h::stat("terminal-restored");
}
static void checkExit(Stage& g)
{
    g.on([&]{
        if (g.entered!=1) h::fail("enter",h::fmt("enter action run %d times",g.entered));
        size_t n=0,p=0,last=0; while ((p=g.sink.s.find("GOODBYE\n",p))!=string::npos) { ++n; p+=8; last=p; }
        if (n!=1) h::fail("exit",h::fmt("exit action run %zu times",n));
        if (g.sink.s.find("m> ",last)!=string::npos) h::fail("prompt-after-exit","prompt after the end: '"+g.sink.s.substr(last)+"'");
    });
    if (in::ends>3) h::fail("spin",h::fmt("%lld reads after the end of the input",in::ends.load()));
    h::stat("exits-checked");
}

// ---------------------------------------------------------------- C19
static void keysCase(Rng& r)
{
    in::ends=0; 
    In in; const int kind=int(r.below(100)); // 0-69 terminal, 70-92 pipe, else file or /dev/null
    Signaller sig;
    const int th0=countThreads();
    setFaults(r);
    static const vector<size_t> sizes={0,1,2,5,100};
    keys::Line L; L.hist.cap=r.pick(sizes); string bytes;
    auto finish=[&](Stage& g,bool exited){
        if (exited) checkExit(g);
        if (r.chance(50)) g.on([&]{ g.drop(); }); else { g.stop(); g.drop(); }
        checkRestored(in);
        h::stat("keys",(long long)bytes.size()); h::distinct(bytes); if (r.chance(3)) h::sample(bytes);
    };
    if (kind>=70)
    {
        Stage g; g.stdIn=&in; g.sched=std::make_unique<Sched>(); g.makeCli();
        vector<Key> ks; int n=kind>=98?0:r.range(0,150);
        for (int i=0;i<n&&!L.out;++i)
        {
            Key k=randomKey(r,false,false); if (r.chance(10)) { string w=r.pick(keys::names())+" "; for (char c: w) { L.press({string(1,c),0,c}); bytes+=c; } }
            if (r.below(300)==0) k=Key{"\x04",12};
            L.press(k); bytes+=k.bytes;
        }
        if (!L.out) { L.want.push_back("exit"); L.out=true; h::stat("end-of-input"); }
        else if (r.chance(50)) bytes+="alpha after\nsync 5\n";
        LOG("bytes %s",h::esc(bytes,1800).c_str());
        const bool file=kind>=93;
        if (file) in.openFile(bytes); else in.openPipe(r);
        if (r.chance(40)) sig.start(r.next());
        g.tid=std::this_thread::get_id();
        g.makeSession(L.hist.cap); 
        const bool runFirst=r.chance(70); if (runFirst) g.run();
        if (!file) { typePieces(in,bytes,r); if (r.chance(50)) h::nap(unsigned(r.below(300))); in.hangup(); }
        if (!runFirst) g.run();
        g.until("the session did not end at the end of its input",[&]{ return !g.ev.empty()&&g.ev.back()=="exit"; });
        if (r.chance(20)) h::nap(2000);
        compare(g,L,bytes); h::stat(file?"files":"pipes");
        finish(g,true);
    }
    else
    {
        in.openTty(r,true);
        const bool ahead=r.chance(35);           // types without waiting for the commands
        Stage g; g.stdIn=&in; g.checkModes=true; g.sched=std::make_unique<Sched>(); g.makeCli();
        g.tid=std::this_thread::get_id();
        if (r.chance(40)) sig.start(r.next());
        g.makeSession(L.hist.cap); g.run();
        checkManual(g,in);
        vector<Key> ks; int n=r.range(1,ahead?60:120); bool hup=false;
        string pend; 
        auto send=[&]{ if (pend.empty()) return; typePieces(in,pend,r); pend.clear(); };
        auto settle=[&]{ send(); size_t want=size_t(L.commands); g.until("a line was not run",[&]{ return g.enters()>=want; }); checkManual(g,in); };
        for (int i=0;i<n&&!L.out;++i)
        {
            if (r.chance(10)) { string w=r.pick(keys::names())+" "; for (char c: w) { L.press({string(1,c),0,c}); bytes+=c; pend+=c; } }
            Key k=randomKey(r,ahead,true);
            if (!ahead&&r.below(300)==0) k=Key{"\x04",12};
            LOG("key %d %s",k.what,h::esc(k.bytes).c_str());
            L.press(k); bytes+=k.bytes; pend+=k.bytes;
            if (k.what==1&&!ahead&&!L.out) settle();
            else if (r.chance(30)) send();
        }
        if (!L.out&&r.chance(20)) { send(); hup=true; }
        if (!L.out&&!hup)
        {
            if (L.endsWithExit()) { Key k{"z",0,'z'}; L.press({"",9}); L.press(k); pend+="\x1b[F"; pend+=k.bytes; bytes+="z"; }
            pend+="\n"; L.press({"\n",1}); if (!ahead) settle();
            for (char c: string("sync 7")) L.press({string(1,c),0,c});
            pend+="sync 7\n"; L.press({"\n",1}); L.want.back()="sync"; send();
            g.until("the keys typed were not all processed",[&]{ return g.sink.s.find("SYNC7\n")!=string::npos; });
            settle(); compare(g,L,bytes);
            g.on([&]{ term::Emu e; e.feed(g.sink.s); if (e.row(e.r)!="m>") h::fail("screen","the last row shows '"+e.row(e.r)+"'"); });
            h::stat(ahead?"typed-ahead":"typed");
            int end=int(r.below(4));
            if (end==0) { pend="exit\n"; bytes+=pend; L.press({"",0,'e'}); L.line="exit"; L.pos=4; L.press({"\n",1}); send(); g.until("exit not run",[&]{ return !g.ev.empty()&&g.ev.back()=="exit"; }); compare(g,L,bytes); }
            else if (end==1) { L.press({"\x04",12}); in.type("\x04"); g.until("end of transmission not obeyed",[&]{ return !g.ev.empty()&&g.ev.back()=="exit"; }); compare(g,L,bytes); }
            else if (end==2) { hup=true; }
            else if (r.chance(50)) in.type("unfinished \x1b");
        }
        if (hup)
        {   // what was typed is still processed, then the session ends. The kernel may drop what was typed just before the hangup: only the end is checked
            settle(); in.hangup(); L.want.push_back("exit"); L.out=true; 
            g.until("the session did not end when its terminal was hung up",[&]{ return !g.ev.empty()&&g.ev.back()=="exit"; });
            compare(g,L,bytes); h::stat("hangups");
        }
        else if (L.out) { send(); g.until("the session did not end",[&]{ return !g.ev.empty()&&g.ev.back()=="exit"; }); compare(g,L,bytes); }
        finish(g,L.out);
    }
    sig.quit=true; if (sig.t.joinable()) sig.t.join();
    h::await("threads left after the session's destruction",[&]{ return countThreads()<=th0; });
    faultStats();
}

// ---------------------------------------------------------------- C20
static void destroyCase(Rng& r)
{
    In in; const int kind=int(r.below(100));
    setFaults(r); 
    if (kind<65) in.openTty(r,false); else if (kind<90) in.openPipe(r); else in.openFile(r.chance(50)?"alpha 1\nbeta\nesc":"exit\nalpha\n");
    const int th0=countThreads(), fd0=countFds();
    Signaller sig; if (r.chance(30)) sig.start(r.next());
    const int ths=countThreads();
    {
        Stage g; g.mayThrow=true; g.stdIn=&in; g.sched=std::make_unique<Sched>(); g.makeCli(); g.tid=std::this_thread::get_id();
        int rounds=r.range(1,3);
        const bool later=r.chance(30);       // the scheduler never runs before the destruction
        if (!later) g.run();
        for (int i=0;i<rounds;++i)
        {
            if (g.t.joinable()&&r.chance(50)) g.on([&]{ g.makeSession(5); }); else { g.stop(); g.sched=std::make_unique<Sched>(); g.makeSession(5); if (!later) { if (r.chance(30)) h::nap(unsigned(r.below(300))); g.run(); } }
            string s; int q=r.range(0,12);
            for (int j=0;j<q;++j) { static const vector<string> w={"alpha 1\n","escape\n","boom\n","sync 3\n","exit\n","x","al\t","\x1b","\x1b[","\x1b[3","\x1b[A","\n","\x1b[A\n","history\n","\x0c","\x04"}; s+=w[r.below(w.size()-(r.chance(80)?1:0))]; }
            LOG("round %d typed %s",i,h::esc(s).c_str());
            if (in.w>=0&&(!in.tty||s.size()<900)) { if (r.chance(50)) typePieces(in,s,r); else in.type(s); }
            if (i==rounds-1&&in.w>=0&&r.chance(20)) { in.hangup(); h::stat("hangup-before-destruction"); }
            h::nap(unsigned(r.chance(50)?r.below(80):r.below(1500)));
            // somebody goes on typing during the destruction
            struct Typist { std::atomic<bool> quit{false}; std::thread t; ~Typist() { quit=true; if (t.joinable()) t.join(); } } typist;
            if (!in.tty&&in.w>=0&&r.chance(25))
            {
                fcntl(in.w,F_SETFL,fcntl(in.w,F_GETFL)|O_NONBLOCK);
                string t; for (int k=0;k<500;++k) t+="x\x7f";
                auto fill=[&in,t]{ for (int k=0;k<100&&write(in.w,t.data(),t.size())>0;++k) ; };
                fill(); typist.t=std::thread([fill,&typist]{ while (!typist.quit) { fill(); sched_yield(); } }); h::stat("typing-during-destruction");
            }
            const int thT=typist.t.joinable()?1:0;
            switch(r.below(3))
            {
                case 0: g.on([&]{ g.drop(); }); break;
                case 1: g.stop(); g.drop(); break;
                default: if (later) { int m=r.range(0,50); for (int k=0;k<m;++k) { try { g.sched->PollOne(); } catch (int) { g.inside=0; } } } else g.stop(); g.drop();
            }
            checkRestored(in);
            // nothing of the session is touched by what the scheduler still has to do
            if (g.t.joinable()) { g.on([]{}); }
            else { for (int k=0;k<200;++k) { try { g.sched->PollOne(); } catch (int) { h::fail("ran-after-destruction","a command was run after the session's destruction"); } } }
            h::await("threads left after the session's destruction",[&]{ return countThreads()<=ths+thT+(g.t.joinable()?1:0); });
            h::stat("destructions");
            g.inside=0;
        }
        // the next session on the same input works
        if (in.w>=0&&r.chance(60))
        {
            in::intr=0; in::again=0;
            g.stop(); g.sched=std::make_unique<Sched>(); g.sink.s.clear(); g.tid=std::this_thread::get_id();
            if (in.tty) tcflush(0,TCIFLUSH);
            g.ev.clear(); g.makeSession(5); g.run();
            in.type("\nsync 99\n");
            // what the others had left unread comes first, so what is run is not checked; unless that was the end of the session
            int state=0; for (int k=0;k<40000&&!state;++k) { bool a=false; g.on([&]{ a=g.sink.s.find("SYNC99")!=string::npos||g.sink.s.find("GOODBYE")!=string::npos; }); if (a||g.escaped) state=1; else { if (k%200==199) in.type("\nsync 99\n"); h::nap(100+unsigned(k)/10); } }
            if (!state) h::fail("hang:next session","a session created after the destruction of another does not read");
            g.stop(); g.drop(); checkRestored(in); h::stat("recreated");
        }
        h::distinct(string(h::ctx().page->log,h::ctx().page->len)+std::to_string(r.next()));
    }
    sig.quit=true; if (sig.t.joinable()) sig.t.join();
    in.hangup();
    h::await("threads left",[&]{ return countThreads()<=th0; });
    if (moreFds(fd0)) h::fail("descriptors",h::fmt("%d descriptors before, %d after everything was destroyed",fd0,countFds()));
    faultStats();
}

// ---------------------------------------------------------------- C19 C20: a user who does nothing for seconds
static void idleCase(Rng& r)
{
    In in; setFaults(r); if (r.chance(60)) in.openTty(r,false); else in.openPipe(r);
    const int th0=countThreads();
    Stage g; g.stdIn=&in; g.checkModes=true; g.sched=std::make_unique<Sched>(); g.makeCli(); g.tid=std::this_thread::get_id();
    g.makeSession(5); g.run();
    auto rest=[&]{ const unsigned ms=r.chance(40)?unsigned(r.range(2600,5600)):unsigned(r.range(600,2600)); LOG("idle for %u ms",ms); h::stat("idle-ms",ms); for (unsigned i=0;i<ms;i+=100) { in.drain(); h::nap(100000); } };
    int n=0; const int rounds=r.range(1,3);
    for (int i=0;i<rounds;++i)
    {
        rest(); g.checkRunning(); checkManual(g,in);
        in.type(r.chance(50)?"alp\x1b[Dz\x1b[D\x1b[3~\x1b[Fha x":"alpha x"); if (r.chance(30)) rest(); in.type("\n"); ++n;
        g.until("a command typed after a pause was not run",[&]{ return int(g.ev.size())>=n; });
        g.on([&]{ if (int(g.ev.size())!=n||g.ev.back()!="call alpha <x>") h::fail("keys","after a pause: expected alpha observed {"+keys::show(g.ev)+"}"); });
    }
    if (r.chance(85)) rest();
    if (r.chance(20)) { in.hangup(); g.until("the session did not end",[&]{ return g.ev.back()=="exit"; }); checkExit(g); }
    else if (r.chance(20)) { in.type("exit\n"); g.until("the session did not end",[&]{ return g.ev.back()=="exit"; }); if (r.chance(50)) rest(); checkExit(g); }
    else g.checkRunning();
    if (r.chance(50)) g.on([&]{ g.drop(); }); else { g.stop(); g.drop(); }
    checkRestored(in); g.stop();
    h::await("threads left after the session's destruction",[&]{ return countThreads()<=th0; });
    h::stat("idle-cases"); h::distinct(string(h::ctx().page->log,h::ctx().page->len)); faultStats();
}

// ---------------------------------------------------------------- C20 known finding: the queue emptied between the wait and the read
static void flushCase(Rng& r)
{
    In in; in.openTty(r,false); fcntl(0,F_SETFL,fcntl(0,F_GETFL)&~O_NONBLOCK);
    Stage g; g.stdIn=&in; g.sched=std::make_unique<Sched>(); g.makeCli(); g.tid=std::this_thread::get_id();
    g.makeSession(5);
    in::flush=1; in.type("x");
    bool blocked=false;
    for (int i=0,k=0;i<3000&&!blocked;++i) { h::nap(1000); if (in::flush==2&&in::reading) ++k; else k=0; blocked=k>30; }
    in::flush=0;
    std::atomic<bool> gone{false}; std::thread t([&]{ g.s.reset(); gone=true; });
    for (int i=0;i<300&&!gone;++i) h::nap(1000);
    if (blocked&&!gone) h::stat("known:flushed-input");
    for (int i=0;i<2000&&!gone;++i) { in.type("\n"); h::nap(1000); } // a key sets it free
    if (!gone) h::fail("hang:destruction","the destruction of a session waits even after another key");
    t.join(); h::stat("flush-scenario"); h::distinct("flush");
}

// ---------------------------------------------------------------- C21
static void wildCase(Rng& r)
{
    In in; setFaults(r);
    if (r.chance(60)) in.openTty(r,true); else in.openPipe(r);
    Stage g; g.mayThrow=true; g.stdIn=&in; g.sched=std::make_unique<Sched>(); g.makeCli(); g.tid=std::this_thread::get_id();
    static const vector<size_t> sizes={0,1,2,100};
    g.makeSession(r.pick(sizes)); g.run();
    int m=r.range(1,10); long long total=0;
    for (int i=0;i<m;++i)
    {
        string s; int n=r.range(1,120);
        for (int j=0;j<n;++j) switch(r.below(6))
        {
            case 0: s+="\x1b[\r\n\x7f\x08\t\x0c!"[r.below(9)]; break;
            case 1: { static const vector<string> w={"\x1b[A","\x1b[B","\x1b[3~","\x1b[3","\x1b[","history\n","! 0\n","!0\n","! 1\n","help\n","sync \n","sync 1\n","boom\n","alpha ' \" \\","\"","\\"}; s+=r.pick(w); break; }
            default: { char c=char(r.below(r.chance(60)?128:256)); if ((c==4||c==char(255))&&r.chance(95)) c='.'; if (in.tty&&(in.orig.c_lflag&ISIG)&&(c==3||c==26||c==28)) c='.'; s+=c; } // those flush the terminal's queue: see flushCase
        }
        total+=(long long)s.size(); LOG("bytes %s",h::esc(s,1500).c_str());
        in.type(s); if (r.chance(40)) h::nap(unsigned(r.below(300)));
    }
    if (r.chance(50)) in.hangup();
    h::nap(unsigned(r.below(3000)));
    g.on([]{}); g.checkRunning(); 
    if (r.chance(50)) g.on([&]{ g.drop(); }); else { g.stop(); g.drop(); }
    checkRestored(in);
    h::stat("bytes",total); h::distinct(string(h::ctx().page->log,h::ctx().page->len)); faultStats();
}

// ---------------------------------------------------------------- C21: memory of a long session
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void memoryCase(Rng& r)
{
    if (!__sanitizer_get_current_allocated_bytes) return;
    In in; in.openTty(r,false); setFaults(r);
    Stage g; g.stdIn=&in; g.sched=std::make_unique<Sched>(); g.makeCli(); g.makeSession(size_t(r.range(0,8))); g.run();
    const uint64_t sd=r.next(); size_t base=0; int syncs=0;
    for (int round=0;round<5;++round)
    {
        Rng q(sd); string b; size_t lines=0;
        for (int i=0;i<40;++i)
        {
            string l; int n=q.range(0,12); for (int k=0;k<n;++k) { Key x=randomKey(q,true,true); if (x.bytes[0]=='\r'||x.bytes[0]=='\n') x.bytes="z"; l+=x.bytes; } if (q.chance(10)) l+=string(size_t(q.range(1,1500)),'w');
            b=l+"\r"; ++lines; typePieces(in,b,q);
            if (i%5==4) { b="\rsync "+std::to_string(1)+"\r"; typePieces(in,b,q); ++syncs; g.until("commands typed were not run",[&]{ return std::count(g.ev.begin(),g.ev.end(),string("sync"))>0; }); g.on([&]{ vector<string>().swap(g.ev); string().swap(g.sink.s); }); }
        }
        size_t n=0; g.on([]{}); h::nap(2000); g.on([&]{ vector<string>().swap(g.ev); string().swap(g.sink.s); }); g.on([&]{ n=__sanitizer_get_current_allocated_bytes(); });
        LOG("round %d: %zu bytes",round,n);
        if (round==2) base=n;
        if (round==4&&n>base+16384) h::fail("memory-session",h::fmt("a local session holds %zu bytes instead of %zu after 80 more lines",n,base));
        h::stat("memory-lines",(long long)lines);
    }
    h::stat("memory-cases"); h::distinct(std::to_string(sd)); g.checkRunning(); g.stop(); g.drop(); checkRestored(in); faultStats();
}
// ---------------------------------------------------------------- C24
// Handlers sharing plain variables: any unsynchronised access is seen by TSan, any overlap by the guard.
struct Shared { long n=0; string text; std::map<string,int> last; vector<int> v; void touch() { ++n; text+='x'; if (text.size()>50) text.clear(); v.push_back(int(n)); if (v.size()>20) v.clear(); } };
struct Custom : cli::Command
{
    Stage& g; Shared& s;
    Custom(Stage& _g,Shared& _s):Command("custom"),g(_g),s(_s) {}
    bool Exec(const vector<string>& l,cli::CliSession& x) override { if (l.empty()||l[0]!="custom") return false; Stage::Guard k(g); s.touch(); x.OutStream()<<"custom\n"; return true; }
    void Help(std::ostream& o) const override { o<<" - custom\n"; }
    vector<string> GetCompletionRecursive(const string& l) const override { { Stage::Guard k(g); s.touch(); } h::stat("completions-monitored"); return Command::GetCompletionRecursive(l); }
};
static void mixedCase(Rng& r)
{
    In in; in.openTty(r,false); setFaults(r);
    Signaller sig; if (r.chance(20)) sig.start(r.next());
    Stage g; g.stdIn=&in; g.sched=std::make_unique<Sched>();
    Shared sh; 
    auto m=std::make_unique<cli::Menu>("m");
    // does n: who, sequence number
    auto body0=[&](std::ostream& o,const string& who,int n){
        Stage::Guard k(g); sh.touch();
        int& l=sh.last[who]; if (n!=l+1) h::fail("order",h::fmt("session %s: command %d run after %d",who.c_str(),n,l)); l=n;
        if (n%7==0) h::nap(50);
        o<<"did "<<who<<" "<<n<<"\n"; h::stat("commands");
    };
    auto body=[&,tk=h::Token()](std::ostream& o,const string& who,int n){ body0(o,who,n); };
    m->Insert("do",body);
    m->Insert("post",[&,tk=h::Token()](std::ostream& o,const string& who,int n){ body(o,who,n); g.sched->Post([&,tk=h::Token()]{ Stage::Guard k(g); sh.touch(); }); });
    m->Insert("all",[&,tk=h::Token()](std::ostream& o,const string& who,int n){ body(o,who,n); cli::Cli::cout()<<"all\n"; });
    m->Insert(std::unique_ptr<cli::Command>(std::make_unique<Custom>(g,sh)));
    auto subm=std::make_unique<cli::Menu>("sub"); subm->Insert("do",body); m->Insert(std::move(subm));
    g.c=std::make_unique<cli::Cli>(std::move(m));
    g.c->EnterAction([&,tk=h::Token()](std::ostream&){ if (g.tid.load()!=std::thread::id()) { Stage::Guard k(g); sh.touch(); } });
    int localExits=0; g.c->ExitAction([&,tk=h::Token()](std::ostream& o){ Stage::Guard k(g); sh.touch(); if (&o==&g.os) ++localExits; });
    g.c->StdExceptionHandler([&,tk=h::Token()](std::ostream&,const string& l,const std::exception& e){ h::fail("exception",l+": "+e.what()); });
    g.c->WrongCommandHandler([&,tk=h::Token()](std::ostream&,const string& l){ h::fail("wrong","unknown line '"+l+"'"); });
    // posting threads
    std::atomic<bool> quit{false}; const int P=r.range(0,3); std::atomic<long> posted{0},ran{0};
    vector<std::thread> ps; vector<uint64_t> seeds; for (int i=0;i<P;++i) seeds.push_back(r.next());
    const bool before=r.chance(30);
    auto startPosters=[&]{ for (int i=0;i<P;++i) ps.emplace_back([&,i]{ Rng q(seeds[size_t(i)]); while (!quit) { if (posted-ran<200) { ++posted; g.sched->Post([&,tk=h::Token()]{ Stage::Guard k(g); sh.touch(); ++ran; }); } h::nap(unsigned(q.below(200))); } }); };
    if (before) startPosters();
    const bool local=r.chance(85);
    if (local&&r.chance(30)) { in.type(r.chance(50)?"\x1b[Z":"\x1b[Z\x1b[M"); h::stat("ignored-keys"); }   // keys that mean nothing, there from the start
    if (local) g.makeSession(10);
#if SCHED>0
    const int R=r.range(local?0:1,4);
    fault::clear(); fault::seed=r.next(); if (r.chance(40)) fault::shortRead=r.range(5,90); if (r.chance(40)) { fault::shortWrite=r.range(5,60); fault::again=r.range(0,20); }
    std::shared_ptr<TServer> srv; int port=0; string addr=Box::loopback();
    if (R) for (int tries=0;!srv;++tries) { port=int(10000+r.below(22000)); try { srv=std::make_shared<TServer>(*g.c,*g.sched,addr,static_cast<unsigned short>(port),10); } catch (const std::exception& e) { if (tries>200) h::inconclusive(e.what()); } }
    if (srv) { srv->EnterAction([&,tk=h::Token()](std::ostream&){ Stage::Guard k(g); sh.touch(); }); srv->ExitAction([&,tk=h::Token()](std::ostream&){ Stage::Guard k(g); sh.touch(); }); }
#endif
    g.run();
#if SCHED>0
    g.on([]{ fault::on=true; });
#endif
    if (!before) startPosters();
    // one thread types, the others are the clients
    const int N=r.range(1,25); std::atomic<int> doneClients{0};
    auto line=[&](Rng& q,const string& who,int& n,bool& sub){
        string s;
        switch(q.below(6))
        {
            case 0: ++n; s="post "+who+" "+std::to_string(n); if (sub) s="m "+s; break;
            case 1: s=sub?"m":"sub"; sub=!sub; break;
            case 2: s=sub?"do\t":"cu\t"; if (sub) { ++n; s="do "+who+" "+std::to_string(n); } else s="custom"; break;
            case 3: ++n; s="all "+who+" "+std::to_string(n); if (sub) s="m "+s; break;
            case 4: s="help"; break;
            default: ++n; s="do "+who+" "+std::to_string(n);
        }
        return s;
    };
    // keys that leave an empty line empty
    auto idle=[](Rng& q,bool remote){ string s; while (q.chance(35)) { static const vector<string> v={"\x0c","\x1b[A\x1b[B","\x1b[D\x1b[C","\x1b[H\x1b[F","\x1b[3~","x\x7f","  \x7f\x7f"}; s+=v[q.below(remote?7:5)]; /* a terminal in line mode would edit what is typed ahead */ h::stat("idle-keys"); } return s; };
    vector<std::thread> cs;
#if SCHED>0
    vector<uint64_t> cseeds; for (int i=0;i<R;++i) cseeds.push_back(r.next());
    for (int i=0;i<R;++i) cs.emplace_back([&,i]{
        Rng q(cseeds[size_t(i)]); Client k; if (!k.connect(addr,port)) h::fail("refused","refused");
        string who="r"+std::to_string(i); int n=0; bool sub=false;
        for (int j=0;j<N;++j) { string l=line(q,who,n,sub); if (q.chance(20)) l="\t"+l; l=idle(q,true)+l; k.sendPieces(l+"\r\n",q); if (q.chance(30)) for (int x=0;x<5;++x) k.pump(1); }
        ++n; k.sendPieces((sub?"m ":"")+string("do ")+who+" "+std::to_string(n)+"\r\n",q);
        string mark="did "+who+" "+std::to_string(n)+"\r\n";
        for (int x=0;x<60000&&k.rx.find(mark)==string::npos;++x) { k.pump(1); if (k.eof) h::fail("closed","connection closed"); }
        if (k.rx.find(mark)==string::npos) h::fail("hang:client","a command of a client was not run");
        if (q.chance(60)) { k.send(q.chance(50)?"exit\r\n":"\x04"); for (int x=0;x<60000&&!k.eof;++x) k.pump(1); if (!k.eof) h::fail("hang:exit","exit did not close"); }
        ++doneClients;
    });
#endif
    if (local)
    {
        Rng q(r.next()); int n=0; bool sub=false;
        for (int j=0;j<N;++j) { string l=idle(q,false)+line(q,"l",n,sub); typePieces(in,l+"\n",q); if (q.chance(40)) h::nap(unsigned(q.below(400))); if (j%8==7) { int w=n; g.until("a command typed was not run",[&]{ return sh.last["l"]>=w; }); } }
        ++n; typePieces(in,(sub?"m ":"")+string("do l ")+std::to_string(n)+"\n",q);
        g.until("a command typed was not run",[&]{ return sh.last["l"]==n; });
        h::stat("local-sessions");
        if (q.chance(60))
        {   // the session ends while the others go on
            g.on([]{});      // the input is active again
            switch(q.below(3)) { case 0: typePieces(in,"exit\n",q); break; case 1: typePieces(in,"\x04",q); break; default: in.hangup(); }
            g.until("the session did not end",[&]{ return localExits>0; });
            h::stat("local-exits");
        }
    }
    for (auto& t: cs) t.join();
    quit=true; for (auto& t: ps) t.join();
    g.until("posted work not run",[&]{ return ran==posted; });
    h::stat("posts",posted);
    g.checkRunning();
    if (localExits>1) h::fail("exit-twice","the exit action ran more than once");
#if SCHED>0
    h::stat("remote-sessions",R);
#endif
    // stopped from this thread
    g.stop();
    g.drop();
#if SCHED>0
    srv.reset(); fault::stats(); fault::clear();
#endif
    g.c.reset(); g.sched.reset();
    sig.quit=true; if (sig.t.joinable()) sig.t.join();
    h::stat("touches",sh.n); h::distinct(std::to_string(r.next())); faultStats();
    if (h::ctx().caseNo%10==0) h::sample(h::fmt("local %d posters %d commands each %d",local,P,N));
}

int main(int argc,char** argv)
{
    h::init(argc,argv);
    signal(SIGPIPE,SIG_IGN);
    struct sigaction sa{}; sa.sa_handler=onSig; sigemptyset(&sa.sa_mask); for (int s: {SIGUSR1,SIGWINCH,SIGCONT}) sigaction(s,&sa,nullptr);
    const string P=h::ctx().prop, mode=h::ctx().opt["--mode"];
    std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit);
    h::watch();
    if (mode=="memory") return h::cases(memoryCase,0);
    if (mode=="idle") return h::cases(idleCase,0);
    if (mode=="keys") return h::cases(keysCase,0);
    if (mode=="wild"||P=="C21") return h::cases(wildCase,0);
    if (mode=="flush") return h::cases(flushCase,0);
    if (P=="C20"||mode=="destroy") return h::cases(destroyCase,0);
    if (P=="C24"||mode=="mixed") return h::cases(mixedCase,0);
    return h::cases(keysCase,0);
}
