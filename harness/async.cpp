// C22 (and C20, C12) on asynchronous sessions reading the standard input. LIB: 0 boost asio, 1 standalone asio
#include "model.h"
#include <thread>
#include <memory>
#include <dirent.h>
#include <termios.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <iostream>
#include <cli/cli.h>
#if LIB==0
#include <cli/boostasioscheduler.h>
#include <cli/boostasiocliasyncsession.h>
using Sched=cli::BoostAsioScheduler; using ASession=cli::BoostAsioCliAsyncSession;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasiocliasyncsession.h>
using Sched=cli::StandaloneAsioScheduler; using ASession=cli::StandaloneAsioCliAsyncSession;
#endif
using h::Rng; using std::string; using std::vector;
inline int countFds() { int n=0; DIR* d=opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
// more descriptors than before: tried again, since something else in the process (a sanitizer's own thread) can have one open for a moment
inline bool moreFds(int before) { for (int i=0;i<200;++i) { if (countFds()<=before) return false; h::nap(2000); } return true; }

// ---------------------------------------------------------------- faults under the reads of the standard input
namespace fin {
inline std::atomic<bool> on{false}; inline std::atomic<dev_t> dev{0}; inline std::atomic<ino_t> ino{0};
inline std::atomic<int> intr{0},shrt{0}; inline std::atomic<long> failAfter{-1}, given{0}; inline std::atomic<uint64_t> seed{1};
inline std::atomic<long long> n_intr{0},n_shrt{0},n_fail{0},n_reads{0},n_end{0};
inline bool mine(int fd) { if (!on) return false; struct stat st; return fstat(fd,&st)==0&&st.st_dev==dev&&st.st_ino==ino; }
inline uint64_t rnd() { Rng r(seed.fetch_add(0x9E3779B97F4A7C15ull)); return r.next(); }
inline bool hit(std::atomic<int>& p) { int v=p.load(); return v&&int(rnd()%100)<v; }
// returns false if errno is set; n may be reduced
inline bool pre(size_t& n)
{
    ++n_reads;
    if (hit(intr)) { ++n_intr; errno=EINTR; return false; }
    long f=failAfter; if (f>=0) { long left=f-given; if (left<=0) { ++n_fail; static const int e[]={EIO,EBADMSG,ENXIO,ENOMEM}; errno=e[rnd()%4]; return false; } n=std::min(n,size_t(left)); }
    if (n>1&&hit(shrt)) { n=1+rnd()%std::min<size_t>(n,7); ++n_shrt; }
    return true;
}
inline ssize_t post(ssize_t r) { if (r>0) given+=r; if (r==0) ++n_end; return r; }
}
extern "C" {
ssize_t __real_read(int,void*,size_t); ssize_t __real_readv(int,const struct iovec*,int);
ssize_t __wrap_read(int fd,void* b,size_t n) { if (!fin::mine(fd)) return __real_read(fd,b,n); if (!n) return 0; if (!fin::pre(n)) return -1; return fin::post(__real_read(fd,b,n)); }
ssize_t __wrap_readv(int fd,const struct iovec* v,int k)
{
    if (!fin::mine(fd)||k<1||!v[0].iov_len) return __real_readv(fd,v,k);
    size_t n=v[0].iov_len; if (!fin::pre(n)) return -1;
    return fin::post(__real_read(fd,v[0].iov_base,n));
}
}
struct Input
{
    int w=-1; bool tty=false; string path;
    static void set(int fd) { if (dup2(fd,0)<0) h::inconclusive("dup2"); if (fd) ::close(fd); struct stat st; fstat(0,&st); fin::dev=st.st_dev; fin::ino=st.st_ino; fin::on=true; }
    void openPipe() { int p[2]; if (pipe2(p,O_CLOEXEC)) h::inconclusive("pipe"); w=p[1]; fcntl(w,F_SETFL,fcntl(w,F_GETFL)|O_NONBLOCK); set(p[0]); }
    void openSocket() { int p[2]; if (socketpair(AF_UNIX,SOCK_STREAM|SOCK_CLOEXEC,0,p)) h::inconclusive("socketpair"); w=p[1]; fcntl(w,F_SETFL,fcntl(w,F_GETFL)|O_NONBLOCK); set(p[0]); }
    void openTty()
    {
        w=posix_openpt(O_RDWR|O_NOCTTY|O_CLOEXEC); if (w<0||grantpt(w)||unlockpt(w)) h::inconclusive("no terminal available");
        char name[128]; if (ptsname_r(w,name,sizeof name)) h::inconclusive("ptsname");
        int s=open(name,O_RDWR|O_NOCTTY); if (s<0) h::inconclusive("no terminal available");
        fcntl(w,F_SETFL,fcntl(w,F_GETFL)|O_NONBLOCK); set(s); tty=true;
    }
    void drain() { if (!tty||w<0) return; char b[4096]; while (__real_read(w,b,sizeof b)>0) {} }
    void write(const string& s) { size_t i=0; while (i<s.size()&&w>=0) { drain(); ssize_t n=::write(w,s.data()+i,s.size()-i); if (n>0) i+=size_t(n); else if (errno==EAGAIN||errno==EINTR) { if (fin::failAfter>=0&&fin::n_fail) return; h::nap(50); } else return; } }
    void close() { if (w>=0) { ::close(w); w=-1; } }
    ~Input() { close(); fin::on=false; int n=open("/dev/null",O_RDONLY); if (n>0) { dup2(n,0); ::close(n); } if (!path.empty()) unlink(path.c_str()); }
};
struct Sink : std::streambuf { string s; int overflow(int c) override { s+=char(c); return c==EOF?0:c; } std::streamsize xsputn(const char* p,std::streamsize n) override { s.append(p,size_t(n)); return n; } };

struct Stage
{
    std::unique_ptr<Sched> sched; std::unique_ptr<cli::Cli> c; std::unique_ptr<ASession> s; Sink sink; std::streambuf* old; Input* inp=nullptr;
    std::thread t; std::atomic<bool> ended{false}; std::atomic<std::thread::id> tid{}; std::atomic<int> inside{0};
    vector<string> ev; long posts=0;
    struct Guard { Stage& b; explicit Guard(Stage& x):b(x) { if (std::this_thread::get_id()!=b.tid.load()) h::fail("handler-thread","an handler runs on a thread that is not running the scheduler"); if (b.inside++) h::fail("handler-overlap","two handlers at the same time"); } ~Guard() { --b.inside; } };
    Stage() { old=std::cout.rdbuf(&sink); }
    void make(Rng& r)
    {
        sched=std::make_unique<Sched>();
        auto m=std::make_unique<cli::Menu>("m"); auto sub=std::make_unique<cli::Menu>("sub");
        auto f=[this](const char* n){ return [this,n,tk=h::Token()](std::ostream& o,const vector<string>& a){ Guard g(*this); o<<n; for (auto& x: a) o<<" <"<<x<<">"; o<<"\n"; ev.push_back(n); }; };
        m->Insert("alpha",f("alpha")); m->Insert("beta",f("beta")); sub->Insert("gamma",f("gamma"));
        m->Insert("boom",[this,tk=h::Token()](std::ostream&){ Guard g(*this); ev.push_back("boom"); throw std::runtime_error("boom"); });
        m->Insert("post",[this,tk=h::Token()](std::ostream& o){ Guard g(*this); ev.push_back("post"); sched->Post([this,tk=h::Token()]{ Guard k(*this); ++posts; }); o<<"posted\n"; });
        uint64_t big=r.next(); m->Insert("big",[this,big,tk=h::Token()](std::ostream& o){ Guard g(*this); ev.push_back("big"); o<<string(1+big%5000,'B')<<"\n"; });
        bigSize=1+big%5000;
        m->Insert(std::move(sub));
        c=std::make_unique<cli::Cli>(std::move(m));
        c->EnterAction([tk=h::Token()](std::ostream& o){ o<<"WELCOME\n"; });
        c->ExitAction([this,tk=h::Token()](std::ostream& o){ Guard g(*this); o<<"GOODBYE\n"; });
        c->WrongCommandHandler([this,tk=h::Token()](std::ostream& o,const string& l){ Guard g(*this); ev.push_back("line"); o<<"line "<<l<<"\n"; });
        c->StdExceptionHandler([tk=h::Token()](std::ostream& o,const string&,const std::exception&){ o<<"EXC\n"; });
    }
    size_t bigSize=0;
    void run()
    {
        std::atomic<bool> up{false}; ended=false;
        t=std::thread([this,&up]{ tid=std::this_thread::get_id(); up=true; try { sched->Run(); } catch (const std::exception& e) { h::fail("loop-exception",string("the event loop got: ")+e.what()); } ended=true; });
        h::await("scheduler start",[&]{ return up.load(); });
    }
    void checkRunning() { if (ended) h::fail("loop-ended","the event loop stopped though nobody stopped it"); }
    template<class F> void on(F f) { if (!t.joinable()) { f(); return; } auto done=std::make_shared<std::atomic<bool>>(false); sched->Post([f,done,tk=h::Token()]{ f(); *done=true; }); h::watch().arm("posted function not run",40); while (!*done) { if (inp) inp->drain(); h::nap(30); } h::watch().off(); }
    template<class P> void until(const char* what,P p,int secs=40)
    {
        for (int i=0;i<secs*2000;++i) { bool ok=false; on([&]{ ok=p(); }); if (ok) return; checkRunning(); if (i>20) h::nap(i<200?100:500); }
        on([&]{ LOG("output %s",h::esc(sink.s,1500).c_str()); });
        h::fail(string("hang:")+what,"no progress within the watchdog's time");
    }
    void stop() { if (t.joinable()) { checkRunning(); sched->Stop(); h::await("the scheduler did not return after Stop",[&]{ return ended.load(); }); t.join(); } }
    void drop() { h::prompt("the destruction of a session does not end",[&]{ s.reset(); }); }
    ~Stage() { stop(); drop(); c.reset(); sched.reset(); std::cout.rdbuf(old); }
};
// what the session must write
struct Model
{
    string out="WELCOME\nm> "; bool sub=false,exited=false; size_t big=0; vector<string> ev; int lines=0;
    string prompt() const { return sub?"sub> ":"m> "; }
    void line(const string& l)
    {
        ++lines; if (exited) return;
        auto w=model::words(l);
        auto call=[&](const string& n){ out+=n; for (size_t i=1;i<w.size();++i) out+=" <"+w[i]+">"; out+="\n"; ev.push_back(n); };
        auto wrong=[&]{ out+="line "+l+"\n"; ev.push_back("line"); };
        if (w.empty()) {}
        else if (w[0]=="exit"&&w.size()==1) { exited=true; out+="GOODBYE\n"; return; }
        else if (sub)
        {
            if (w[0]=="gamma") call("gamma"); else if (w[0]=="m"&&w.size()==1) sub=false;
            else if (w[0]=="m"&&(w[1]=="alpha"||w[1]=="beta")) { w.erase(w.begin()); call(w[0]); } else wrong();
        }
        else if (w[0]=="alpha"||w[0]=="beta") call(w[0]);
        else if (w[0]=="boom"&&w.size()==1) { out+="EXC\n"; ev.push_back("boom"); }
        else if (w[0]=="post"&&w.size()==1) { out+="posted\n"; ev.push_back("post"); }
        else if (w[0]=="big"&&w.size()==1) { out+=string(big,'B')+"\n"; ev.push_back("big"); }
        else if (w[0]=="sub"&&w.size()==1) sub=true;
        else if (w[0]=="sub"&&w[1]=="gamma") { w.erase(w.begin()); call("gamma"); }
        else wrong();
        out+=prompt();
    }
};
static string randomLine(Rng& r,bool tty)
{
    switch(r.below(12))
    {
        case 0: return ""; case 1: return "  "; case 2: return "boom"; case 3: return "post"; case 4: return "big"; case 5: return "sub"; case 6: return r.chance(50)?"gamma x":"sub gamma 'q w'"; case 7: return r.chance(50)?"m":"m alpha 1";
        case 8: if (r.below(20)==0) return "exit"; return "beta";
        case 9: { int n=r.chance(5)&&!tty?r.range(1000,100000):r.range(1,40); string s="z"; for (int i=0;i<n;++i) { char c; do c=tty?char(32+r.below(95)):char(r.below(256)); while (c=='\n'||c=='!'); s+=c; } return s; }
        default: return "alpha "+std::to_string(r.below(1000))+(r.chance(30)?" \"a b\"":"");
    }
}
static void setFaults(Rng& r) { fin::seed=r.next(); fin::intr=r.chance(40)?r.range(1,60):0; fin::shrt=r.chance(50)?(r.chance(30)?100:r.range(1,90)):0; fin::failAfter=-1; fin::given=0; fin::n_end=0; }
static void faultStats() { h::stat("reads",fin::n_reads.exchange(0)); h::stat("injected-eintr",fin::n_intr.exchange(0)); h::stat("short-reads",fin::n_shrt.exchange(0)); h::stat("injected-read-errors",fin::n_fail.exchange(0)); fin::intr=fin::shrt=0; fin::failAfter=-1; }

static void linesCase(Rng& r)
{
    const int fd0=countFds();
    {
    Input in; setFaults(r); Stage g; g.inp=&in; g.make(r);
    const int kind=int(r.below(100)); const bool tty=kind>=80&&kind<92, file=kind>=92;
    Model M; M.big=g.bigSize; string bytes; int n=r.range(0,60);
    for (int i=0;i<n;++i) { string l=randomLine(r,tty); bytes+=l+"\n"; }
    const bool tail=r.chance(30); if (tail) bytes+="alpha unterminated";
    const bool fails=!tty&&r.chance(20); if (fails) fin::failAfter=long(r.below(bytes.size()+1));
    // the lines that arrive
    const size_t arriving=fails?size_t(fin::failAfter.load()):bytes.size();
    for (size_t i=0;;) { size_t e=bytes.find('\n',i); if (e==string::npos||e>=arriving) break; M.line(bytes.substr(i,e-i)); i=e+1; }
    LOG("kind %d fails %ld bytes %s",kind,fin::failAfter.load(),h::esc(bytes,1500).c_str());
    if (file) { in.path=h::ctx().dir+"/a"+std::to_string(getpid()); FILE* f=fopen(in.path.c_str(),"w"); if (!f) h::inconclusive("file"); fwrite(bytes.data(),1,bytes.size(),f); fclose(f); int fd=open(in.path.c_str(),O_RDONLY); if (fd<0) h::inconclusive("file"); Input::set(fd); }
    else if (tty) in.openTty(); else if (kind<65) in.openPipe(); else in.openSocket();
    g.tid=std::this_thread::get_id();
    try { g.s=std::make_unique<ASession>(*g.sched,*g.c); }
    catch (const std::exception& e) { if (!file) h::fail("construction",e.what()); h::stat("file-refused"); return; } // not every descriptor can be waited for
    const bool late=r.chance(25); if (!late) g.run();
    // other work on the loop
    std::atomic<bool> quit{false}; std::atomic<long> posted{0},ran{0}; std::thread poster; 
    if (r.chance(50)) { uint64_t sd=r.next(); poster=std::thread([&,sd]{ Rng q(sd); while (!quit) { if (posted-ran<100) { ++posted; g.sched->Post([&,us=unsigned(q.below(60)),tk=h::Token()]{ Stage::Guard k(g); ++ran; if (us<20) h::nap(us); }); } h::nap(unsigned(q.below(150))); } }); }
    bool step=r.chance(30)&&!late&&!fails&&!file; Model S; S.big=g.bigSize;
    if (!file)
    {
        if (tty&&late) g.run();
        auto writer=[&]{
        size_t i=0; 
        while (i<bytes.size())
        {
            size_t k=r.chance(40)?1+r.below(4):1+r.below(bytes.size()-i); k=std::min(k,bytes.size()-i);
            if (tty) { size_t e=bytes.find('\n',i); if (e!=string::npos) k=std::min<size_t>(k,1+e-i); }
            if (fails&&fin::n_fail) break;
            if (late&&!g.t.joinable()&&i+k>30000) g.run();
            in.write(bytes.substr(i,k));
            for (size_t j=i;j<i+k;++j) if (bytes[j]=='\n') { size_t b=j?bytes.rfind('\n',j-1):string::npos; if (j==0) b=string::npos; b=b==string::npos?0:b+1; S.line(bytes.substr(b,j-b)); }
            i+=k;
            if (step&&bytes[i-1]=='\n') { g.until("a line was not run",[&]{ return g.sink.s.size()>=S.out.size(); }); string o; g.on([&]{ o=g.sink.s; }); if (o!=S.out) h::fail("output","expected '"+h::esc(S.out,1500)+"' observed '"+h::esc(o,1500)+"'"); h::stat("steps"); }
            else if (tty) g.until("a line was not run",[&]{ return g.sink.s.size()>=S.out.size(); });
            if (r.chance(20)) h::nap(unsigned(r.below(200)));
        } };
        writer();
        if (!g.t.joinable()) g.run();
        g.until("the lines were not all run",[&]{ return g.sink.s.size()>=M.out.size(); });
        if (tty&&tail&&r.chance(50)) { in.write("\x04"); }
        in.close();
    }
    else if (late) g.run();
    g.until("the lines were not all run",[&]{ return g.sink.s.size()>=M.out.size(); });
    // the end of the input is seen
    if (!tty) h::await("the end of the input was not read",[&]{ return fin::n_end>0||(fails&&fin::n_fail>0); });
    g.on([]{}); h::nap(unsigned(r.below(300))); g.on([]{});
    string o; vector<string> ev; g.on([&]{ o=g.sink.s; ev=g.ev; });
    if (o!=M.out) { size_t d=0; while (d<o.size()&&d<M.out.size()&&o[d]==M.out[d]) ++d; h::fail("output",h::fmt("at byte %zu: expected '",d)+h::esc(M.out.substr(d>40?d-40:0),400)+"' observed '"+h::esc(o.substr(d>40?d-40:0),400)+"'"); }
    if (ev!=M.ev) h::fail("events","the commands run are not those entered");
    if (!tty&&fin::n_end+fin::n_fail>3) h::fail("spin","the input is still read after its end");
    quit=true; if (poster.joinable()) poster.join();
    g.until("work on the loop not run after the end of the input",[&]{ return ran==posted; });
    long pw=long(std::count(M.ev.begin(),M.ev.end(),"post")); g.until("work posted by a handler not run",[&]{ return g.posts==pw; });
    g.checkRunning();
    h::stat("lines",M.lines); h::stat("posts",posted); if (fails) h::stat("inputs-failing"); h::stat(file?"files":tty?"terminals":kind<65?"pipes":"sockets"); if (tail) h::stat("unterminated");
    h::distinct(bytes); if (r.chance(3)) h::sample(bytes);
    if (r.chance(50)) g.on([&]{ g.drop(); }); 
    g.stop();
    faultStats();
    }
    if (moreFds(fd0)) h::fail("descriptors","descriptors left open");
}

// C21: memory of a long session
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static void memoryCase(Rng& r)
{
    if (!__sanitizer_get_current_allocated_bytes) return;
    Input in; setFaults(r); in.openPipe(); Stage g; g.inp=&in; g.make(r); g.tid=std::this_thread::get_id();
    g.s=std::make_unique<ASession>(*g.sched,*g.c); g.run();
    const uint64_t sd=r.next(); size_t base=0, lines=0;
    for (int round=0;round<5;++round)
    {
        Rng q(sd); string b; for (int i=0;i<400;++i) { string l=randomLine(q,false); if (l=="exit") l="beta"; b+=l+"\n"; } b+="m\nalpha mark\n"; lines+=400;
        const size_t seen=g.ev.size();
        for (size_t i=0;i<b.size();) { size_t k=std::min<size_t>(1+q.below(3000),b.size()-i); in.write(b.substr(i,k)); i+=k; }
        g.until("the lines were not all run",[&]{ return g.sink.s.find("<mark>\n")!=string::npos; }); (void)seen;
        size_t n=0; g.on([&]{ string().swap(g.sink.s); vector<string>().swap(g.ev); }); g.on([&]{ n=__sanitizer_get_current_allocated_bytes(); });
        LOG("round %d: %zu bytes",round,n);
        string().swap(b);
        if (round==2) base=n;
        if (round==4&&n>base+20000) h::fail("memory-session",h::fmt("an asynchronous session holds %zu bytes instead of %zu after 800 more lines",n,base));
    }
    h::stat("memory-cases"); h::stat("memory-lines",(long long)lines); h::distinct(std::to_string(sd)); g.checkRunning(); g.stop(); faultStats();
}
// C20: destruction at any moment
static void destroyCase(Rng& r)
{
    const int fd0=countFds();
    {
        Input in; setFaults(r); const int kind=int(r.below(3)); if (kind==0) in.openTty(); else if (kind==1) in.openPipe(); else in.openSocket();
        Stage g; g.inp=&in; g.make(r); g.tid=std::this_thread::get_id();
        int rounds=r.range(1,3);
        for (int i=0;i<rounds;++i)
        {
            const bool run=r.chance(70);
            if (run&&!g.t.joinable()) { if (g.sched->Stopped()) g.sched=std::make_unique<Sched>(); }
            if (run&&r.chance(50)) { if (!g.t.joinable()) g.run(); g.on([&]{ g.s=std::make_unique<ASession>(*g.sched,*g.c); }); }
            else { g.stop(); g.drop(); g.sched=std::make_unique<Sched>(); g.tid=std::this_thread::get_id(); g.s=std::make_unique<ASession>(*g.sched,*g.c); if (run) g.run(); }
            string b; int n=r.range(0,8); for (int j=0;j<n;++j) b+=randomLine(r,true)+"\n"; if (r.chance(40)) b+="alpha unfinished"; if (r.chance(10)) b+="\n";
            LOG("round %d run %d bytes %s",i,run,h::esc(b).c_str());
            in.write(b); if (i==rounds-1&&r.chance(30)) in.close();
            h::nap(unsigned(r.chance(50)?r.below(60):r.below(600)));
            if (g.t.joinable()) { if (r.chance(60)) { g.on([&]{ g.drop(); }); g.on([]{}); } else { g.stop(); g.drop(); } }
            else { int m=r.range(0,20); for (int k=0;k<m;++k) g.sched->PollOne(); g.drop(); for (int k=0;k<30;++k) g.sched->PollOne(); }
            h::stat("destructions");
        }
        // a session created afterwards works
        if (in.w>=0&&kind!=0&&r.chance(60))
        {
            g.stop(); g.sched=std::make_unique<Sched>(); g.sink.s.clear(); g.s=std::make_unique<ASession>(*g.sched,*g.c); g.run();
            in.write("\nsub\nm\n\nm alpha 77\nalpha 77\n");
            g.until("a session created after the destruction of another does not read",[&]{ return g.sink.s.find("<77>\n")!=string::npos||g.sink.s.find("GOODBYE")!=string::npos; }); h::stat("recreated");
        }
        h::distinct(string(h::ctx().page->log,h::ctx().page->len)+std::to_string(r.next()));
        faultStats();
    }
    if (moreFds(fd0)) h::fail("descriptors","descriptors left open after everything was destroyed");
}

// nothing is written for seconds
static void idleCase(Rng& r)
{
    Input in; setFaults(r); Stage g; g.inp=&in; g.make(r); const int kind=int(r.below(3)); if (kind==0) in.openTty(); else if (kind==1) in.openPipe(); else in.openSocket();
    g.tid=std::this_thread::get_id(); g.s=std::make_unique<ASession>(*g.sched,*g.c); g.run();
    Model M; M.big=g.bigSize;
    auto rest=[&]{ const unsigned ms=r.chance(20)?unsigned(r.range(3000,5600)):unsigned(r.range(600,2600)); LOG("idle for %u ms",ms); h::stat("idle-ms",ms); for (unsigned i=0;i<ms;i+=100) { in.drain(); h::nap(100000); } };
    auto check=[&]{ g.until("a line was not run",[&]{ return g.sink.s.size()>=M.out.size(); }); string o; g.on([&]{ o=g.sink.s; }); if (o!=M.out) h::fail("output","after a pause: expected '"+h::esc(M.out,1500)+"' observed '"+h::esc(o,1500)+"'"); g.checkRunning(); };
    const int rounds=r.range(1,3);
    for (int i=0;i<rounds;++i)
    {
        rest(); check(); string l=randomLine(r,true); if (l=="exit") l="alpha 3"; const size_t cut=kind==0?0:r.below(l.size()+1);
        in.write(l.substr(0,cut)); if (cut&&r.chance(50)) rest(); in.write(l.substr(cut)+"\n"); M.line(l); check();
    }
    if (r.chance(50)) { rest(); check(); }
    h::stat("lines",M.lines); h::stat("idle-cases"); h::distinct(string(h::ctx().page->log,h::ctx().page->len)); if (r.chance(50)) g.on([&]{ g.drop(); }); g.stop(); faultStats();
}

int main(int argc,char** argv)
{
    h::init(argc,argv); signal(SIGPIPE,SIG_IGN); h::watch();
    std::cerr.setstate(std::ios::badbit);
    if (h::ctx().opt["--mode"]=="idle") return h::cases(idleCase,0);
    if (h::ctx().opt["--mode"]=="memory") return h::cases(memoryCase,0);
    if (h::ctx().opt["--mode"]=="lines") return h::cases(linesCase,0);
    if (h::ctx().prop=="C20"||h::ctx().opt["--mode"]=="destroy") return h::cases(destroyCase,0);
    return h::cases(linesCase,0);
}
