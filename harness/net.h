// Telnet servers on the loopback, hostile clients, injected network faults. LIB: 0 boost asio, 1 standalone asio
#pragma once
#include "model.h"
#include <thread>
#include <memory>
#include <chrono>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <dirent.h>
#include <cli/cli.h>
#if LIB==0
#include <cli/boostasioscheduler.h>
#include <cli/boostasioremotecli.h>
using Sched=cli::BoostAsioScheduler; using TServer=cli::BoostAsioCliTelnetServer;
#else
#include <cli/standaloneasioscheduler.h>
#include <cli/standaloneasioremotecli.h>
using Sched=cli::StandaloneAsioScheduler; using TServer=cli::StandaloneAsioCliTelnetServer;
#endif
using h::Rng; using std::string; using std::vector;

// ---------------------------------------------------------------- faults
namespace fault {
inline thread_local bool on=false;               // this thread is the server's
inline std::atomic<int> shortRead{0},shortWrite{0},again{0},intrPoll{0},recvErr{0},sendErr{0},acceptErr{0}; // percentages
inline std::atomic<uint64_t> seed{1};
inline std::atomic<long long> n_shortRead{0},n_shortWrite{0},n_again{0},n_intr{0},n_recvErr{0},n_sendErr{0},n_acceptErr{0};
inline uint64_t rnd() { Rng r(seed.fetch_add(0x9E3779B97F4A7C15ull)); return r.next(); }
inline bool hit(std::atomic<int>& p) { int v=p.load(std::memory_order_relaxed); return on&&v&&int(rnd()%100)<v; }
inline std::atomic<int> waitFd{-1};              // descriptor the server thread is waiting to write to, alone
inline void clear() { shortRead=shortWrite=again=intrPoll=recvErr=sendErr=acceptErr=0; }
inline void stats() { h::stat("short-reads",n_shortRead.exchange(0)); h::stat("short-writes",n_shortWrite.exchange(0)); h::stat("injected-eagain",n_again.exchange(0)); h::stat("injected-eintr",n_intr.exchange(0)); h::stat("injected-read-errors",n_recvErr.exchange(0)); h::stat("injected-write-errors",n_sendErr.exchange(0)); h::stat("injected-accept-errors",n_acceptErr.exchange(0)); }
}
extern "C" {
ssize_t __real_recvmsg(int,struct msghdr*,int); ssize_t __real_recv(int,void*,size_t,int);
ssize_t __real_sendmsg(int,const struct msghdr*,int); ssize_t __real_send(int,const void*,size_t,int);
int __real_accept(int,struct sockaddr*,socklen_t*); int __real_poll(struct pollfd*,nfds_t,int);
int __real_accept4(int,struct sockaddr*,socklen_t*,int);
static int rdErr() { static const int e[]={ECONNRESET,ETIMEDOUT,ENOTCONN,EIO,ECONNABORTED,EHOSTUNREACH}; ++fault::n_recvErr; errno=e[fault::rnd()%6]; return -1; }
static int wrErr() { static const int e[]={EPIPE,ECONNRESET,ETIMEDOUT,ENOBUFS,EHOSTUNREACH}; ++fault::n_sendErr; errno=e[fault::rnd()%5]; return -1; }
ssize_t __wrap_recvmsg(int fd,struct msghdr* m,int f)
{
    if (fault::hit(fault::recvErr)) return rdErr();
    if (fault::hit(fault::shortRead)&&m->msg_iovlen>=1&&m->msg_iov[0].iov_len>0)
    { struct msghdr c=*m; struct iovec v=m->msg_iov[0]; v.iov_len=1+fault::rnd()%std::min<size_t>(v.iov_len,6); c.msg_iov=&v; c.msg_iovlen=1; ++fault::n_shortRead; return __real_recvmsg(fd,&c,f); }
    return __real_recvmsg(fd,m,f);
}
ssize_t __wrap_recv(int fd,void* b,size_t n,int f)
{
    if (fault::hit(fault::recvErr)) return rdErr();
    if (n&&fault::hit(fault::shortRead)) { n=1+fault::rnd()%std::min<size_t>(n,6); ++fault::n_shortRead; }
    return __real_recv(fd,b,n,f);
}
static int wrPre() { if (fault::hit(fault::sendErr)) return wrErr(); if (fault::hit(fault::again)) { ++fault::n_again; errno=EAGAIN; return -1; } return 0; }
ssize_t __wrap_sendmsg(int fd,const struct msghdr* m,int f)
{
    if (wrPre()) return -1;
    if (fault::hit(fault::shortWrite)&&m->msg_iovlen>=1&&m->msg_iov[0].iov_len>0)
    { struct msghdr c=*m; struct iovec v=m->msg_iov[0]; v.iov_len=1+fault::rnd()%v.iov_len; c.msg_iov=&v; c.msg_iovlen=1; ++fault::n_shortWrite; return __real_sendmsg(fd,&c,f); }
    return __real_sendmsg(fd,m,f);
}
ssize_t __wrap_send(int fd,const void* b,size_t n,int f)
{
    if (wrPre()) return -1;
    if (n&&fault::hit(fault::shortWrite)) { n=1+fault::rnd()%n; ++fault::n_shortWrite; }
    return __real_send(fd,b,n,f);
}
// not ECONNABORTED and EPROTO: asio waits for another connection after them
static int acErr() { static const int e[]={EMFILE,ENFILE,EINTR,ENOBUFS,ENOMEM}; ++fault::n_acceptErr; errno=e[fault::rnd()%5]; return -1; }
int __wrap_accept(int fd,struct sockaddr* a,socklen_t* l) { if (fault::hit(fault::acceptErr)) return acErr(); return __real_accept(fd,a,l); }
int __wrap_accept4(int fd,struct sockaddr* a,socklen_t* l,int f) { if (fault::hit(fault::acceptErr)) return acErr(); return __real_accept4(fd,a,l,f); }
int __wrap_poll(struct pollfd* p,nfds_t n,int t)
{
    if (fault::hit(fault::intrPoll)) { ++fault::n_intr; errno=EINTR; return -1; }
    if (fault::on&&n==1) fault::waitFd=p[0].fd;
    int r=__real_poll(p,n,t);
    if (fault::on&&n==1) { int e=errno; fault::waitFd=-1; errno=e; }
    return r;
}
}

inline int countFds() { int n=0; DIR* d=opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
// more descriptors than before: tried again, since something else in the process (a sanitizer's own thread) can have one open for a moment
inline bool moreFds(int before) { for (int i=0;i<200;++i) { if (countFds()<=before) return false; h::nap(2000); } return true; }
inline int countThreads() { int n=0; DIR* d=opendir("/proc/self/task"); if (!d) return -1; while (auto* e=readdir(d)) if (e->d_name[0]!='.') ++n; closedir(d); return n; }

// ---------------------------------------------------------------- client side
// the bytes a server sent, taken apart
struct Parsed { string text; vector<string> cmds; bool open=false; string bad; };
inline Parsed parse(const string& s)
{
    Parsed p; size_t i=0; auto b=[&](size_t k){ return static_cast<unsigned char>(s[k]); };
    while (i<s.size())
    {
        if (b(i)!=255) { p.text+=s[i++]; continue; }
        if (i+1>=s.size()) { p.open=true; break; }
        unsigned c=b(i+1);
        if (c==255) { p.text+=s[i]; i+=2; }
        else if (c>=251) { if (i+2>=s.size()) { p.open=true; break; } p.cmds.push_back(s.substr(i,3)); i+=3; }
        else if (c==250)
        {
            size_t j=i+2; bool done=false; 
            while (j<s.size()) { if (b(j)==255) { if (j+1>=s.size()) break; if (b(j+1)==240) { done=true; j+=2; break; } if (b(j+1)!=255) { p.bad="IAC in a subnegotiation"; } j+=2; } else ++j; }
            if (!done) { p.open=true; break; }
            p.cmds.push_back(s.substr(i,j-i)); i=j;
        }
        else if (c>=240) { p.cmds.push_back(s.substr(i,2)); i+=2; }
        else { p.bad=h::fmt("IAC followed by %u at offset %zu",c,i); break; }
    }
    return p;
}
inline string encodeText(const string& s) { string r; for (char c: s) { if (c=='\n') r+='\r'; r+=c; } return r; }

struct Client
{
    int fd=-1; string rx, tx; bool eof=false, reset=false; size_t parsedUpTo=0;
    Client()=default; Client(const Client&)=delete;
    ~Client() { close(); }
    bool connect(const string& addr,int port,int rcvbuf=0)
    {
        fd=socket(AF_INET,SOCK_STREAM|SOCK_CLOEXEC,0);
        if (fd<0) return false;
        if (rcvbuf) setsockopt(fd,SOL_SOCKET,SO_RCVBUF,&rcvbuf,sizeof rcvbuf);
        int one=1; setsockopt(fd,IPPROTO_TCP,TCP_NODELAY,&one,sizeof one);
        struct sockaddr_in a{}; a.sin_family=AF_INET; a.sin_port=htons(uint16_t(port)); inet_pton(AF_INET,addr.c_str(),&a.sin_addr);
        for (;;) { int r=::connect(fd,reinterpret_cast<struct sockaddr*>(&a),sizeof a); if (r==0) break; if (errno==EINTR) continue; close(); return false; }
        fcntl(fd,F_SETFL,fcntl(fd,F_GETFL)|O_NONBLOCK);
        return true;
    }
    void close() { if (fd>=0) { ::close(fd); fd=-1; } }
    void rst() { if (fd<0) return; struct linger l{1,0}; setsockopt(fd,SOL_SOCKET,SO_LINGER,&l,sizeof l); close(); }
    void halfClose() { if (fd>=0) shutdown(fd,SHUT_WR); }
    // moves bytes both ways for at most ms; returns whether something arrived
    bool pump(int ms,size_t maxRead=1u<<30)
    {
        if (fd<0) return false;
        struct pollfd p{fd,short((eof?0:POLLIN)|(tx.empty()?0:POLLOUT)),0};
        if (!p.events) { h::nap(unsigned(ms)*1000); return false; }
        int r=__real_poll(&p,1,ms); if (r<=0) return false;
        bool any=false;
        if (p.revents&POLLOUT&&!tx.empty()) { ssize_t n=__real_send(fd,tx.data(),tx.size(),MSG_NOSIGNAL); if (n>0) tx.erase(0,size_t(n)); else if (n<0&&errno!=EAGAIN&&errno!=EINTR) { tx.clear(); reset=true; } }
        if (p.revents&(POLLIN|POLLHUP|POLLERR))
        {
            static thread_local char b[65536];
            ssize_t n=__real_recv(fd,b,std::min(sizeof b,maxRead),0);
            if (n>0) { rx.append(b,size_t(n)); any=true; int q=1; setsockopt(fd,IPPROTO_TCP,TCP_QUICKACK,&q,sizeof q); }
            else if (n==0) eof=true;
            else if (errno!=EAGAIN&&errno!=EINTR) { eof=true; reset=true; }
        }
        return any;
    }
    void send(const string& s) { tx+=s; }
    void flush() { for (int i=0;!tx.empty()&&fd>=0&&!reset&&i<100000;++i) pump(10); }
    // sends s in random pieces
    void sendPieces(const string& s,Rng& r)
    {
        size_t i=0;
        while (i<s.size()) { size_t n=r.chance(50)?1+r.below(3):1+r.below(s.size()-i); tx+=s.substr(i,n); i+=n; flush(); if (r.chance(15)) h::nap(unsigned(r.below(300))); else if (r.chance(20)) pump(0); }
    }
};

// ---------------------------------------------------------------- server side
struct Event { string what; };
struct Box
{
    // observed on the server thread
    std::mutex m; vector<string> ev; vector<string> bad;
    std::unique_ptr<Sched> sched; std::unique_ptr<cli::Cli> c; 
    struct Srv : TServer
    {
        std::mutex* m; vector<std::weak_ptr<cli::detail::Session>> sessions; size_t gone=0;
        template<class... A> Srv(std::mutex* _m,A&&... a):TServer(std::forward<A>(a)...),m(_m) {}
        std::shared_ptr<cli::detail::Session> CreateSession(cli::detail::asiolib::ip::tcp::socket s) override { auto p=TServer::CreateSession(std::move(s)); std::lock_guard<std::mutex> l(*m); sessions.push_back(p); return p; }
    };
    std::shared_ptr<Srv> srv; string addr; int port=0;
    std::thread t; std::atomic<bool> ended{false}; std::atomic<std::thread::id> tid{};
    std::atomic<int> inside{0};
    static string loopback() { int p=int(getpid()); return h::fmt("127.%d.%d.%d",1+(p>>16)%250,(p>>8)&255,1+(p&255)%254); }
    void event(const string& s) { std::lock_guard<std::mutex> l(m); ev.push_back(s); }
    vector<string> events() { std::lock_guard<std::mutex> l(m); return ev; }
    size_t count(const string& s) { std::lock_guard<std::mutex> l(m); return size_t(std::count(ev.begin(),ev.end(),s)); }
    size_t alive() { std::lock_guard<std::mutex> l(m); size_t n=0; for (auto& w: srv->sessions) if (!w.expired()) ++n; return n; }
    size_t created() { std::lock_guard<std::mutex> l(m); return srv->sessions.size()+srv->gone; }
    // forgets the sessions destroyed (a weak pointer keeps memory)
    void prune() { std::lock_guard<std::mutex> l(m); vector<std::weak_ptr<cli::detail::Session>> v; for (auto& w: srv->sessions) if (w.expired()) ++srv->gone; else v.push_back(w); srv->sessions.swap(v); vector<string>().swap(ev); }
    // marks the execution of an handler: always on the thread of the scheduler, one at a time
    struct In { Box& b; explicit In(Box& x):b(x) { if (std::this_thread::get_id()!=b.tid.load()) h::fail("handler-thread","an handler runs on a thread that is not running the scheduler"); if (b.inside++) h::fail("handler-overlap","two handlers at the same time"); } ~In() { --b.inside; } };
    void makeServer(Rng& r,size_t hist=100)
    {
        addr=loopback();
        for (int tries=0;;++tries)
        {
            port=int(10000+r.below(22000));
            try { if (r.chance(15)) srv=std::make_shared<Srv>(&m,*c,*sched,static_cast<unsigned short>(port),hist); else srv=std::make_shared<Srv>(&m,*c,*sched,addr,static_cast<unsigned short>(port),hist); return; }
            catch (const std::exception& e) { if (tries>200) h::inconclusive(string("no port to listen to: ")+e.what()); }
        }
    }
    void run()
    {
        std::atomic<bool> up{false};
        t=std::thread([this,&up]{
            fault::on=true; tid=std::this_thread::get_id(); up=true;
            try { sched->Run(); } catch (const std::exception& e) { h::fail("server-exception",string("the thread running the scheduler got: ")+e.what()); } catch (...) { h::fail("server-exception","the thread running the scheduler got an unknown exception"); }
            ended=true; fault::on=false;
        });
        h::await("server start",[&]{ return up.load(); });
    }
    void checkRunning() { if (ended) h::fail("server-ended","the scheduler stopped running though nobody stopped it"); }
    void stop() { if (t.joinable()) { checkRunning(); sched->Stop(); h::await("the server thread did not return after Stop",[&]{ return ended.load(); }); t.join(); } }
    // runs f on the thread of the scheduler and waits
    template<class F> void on(F f) { auto done=std::make_shared<std::atomic<bool>>(false); sched->Post([f,done]{ f(); *done=true; }); h::await("posted function not run",[&]{ return done->load(); }); }
    ~Box() { stop(); srv.reset(); c.reset(); sched.reset(); }
};
template<class P> void until(const char* what,std::initializer_list<Client*> cs,P p,int secs=40)
{
    if (p()) return;
    h::watch().arm(what,secs);
    while (!p()) { bool any=false; for (auto* c: cs) any|=c->pump(cs.size()>1?0:1); if (!any) h::nap(100); }
    h::watch().off();
}
