// C14, C15: schedulers. SCHED: 0 LoopScheduler, 1 BoostAsioScheduler, 2 StandaloneAsioScheduler
#include "h.h"
#include "delay.h"
#include <thread>
#include <memory>
#include <functional>
#include <new>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#if SCHED==0
#include <cli/loopscheduler.h>
using Sched=cli::LoopScheduler;
#elif SCHED==1
#include <cli/boostasioscheduler.h>
using Sched=cli::BoostAsioScheduler;
#else
#include <cli/standaloneasioscheduler.h>
using Sched=cli::StandaloneAsioScheduler;
#endif
using h::Rng; using std::string; using std::vector;

static thread_local bool inPost=false;      // this thread is inside a posting call
static thread_local int runner=-1;          // this thread is running the scheduler
static thread_local int depth=0;            // functions in progress on this thread
static thread_local int ranHere=0;          // functions run by this thread

// what posted work throws: several types, all of them a Boom
struct Boom { int p,s; };
template<class B> struct BoomAs: B, Boom { template<class... A> explicit BoomAs(Boom b,A&&... a):B(std::forward<A>(a)...),Boom(b) {} };
[[noreturn]] static void boom(unsigned kind,int p,int s)
{
    const Boom b{p,s}; h::stat("exceptions-thrown");
    switch(kind%9)
    {
        case 1: throw BoomAs<std::runtime_error>(b,"boom");
        case 2: throw BoomAs<std::bad_alloc>(b);
        case 3: throw BoomAs<std::bad_function_call>(b);
        case 4: throw BoomAs<std::system_error>(b,std::make_error_code(std::errc::interrupted));
        case 5: throw BoomAs<std::system_error>(b,std::make_error_code(std::errc::operation_canceled));
        case 6: throw BoomAs<std::logic_error>(b,"boom");
        case 7: throw BoomAs<std::bad_cast>(b);
#if SCHED==1
        case 8: throw BoomAs<boost::system::system_error>(b,boost::asio::error::make_error_code(boost::asio::error::operation_aborted));
#endif
        default: throw b;
    }
}
struct Rec { std::atomic<int> runs{0}; };

struct Rig
{
    std::unique_ptr<Sched> s;
    enum { MAXP=8 }; const int MAXN;
    std::unique_ptr<Rec[]> rec[MAXP]; int posted[MAXP]={};   // posted[p]: only touched by the thread of producer p
    int lastSeq[MAXP];                          // only touched by the single runner (ordering mode)
    bool ordered=true; bool nestedOk=false;
    std::atomic<int> done{0},total{0},thrown{0},caught{0},started{0};
    std::atomic<bool> stopReturned{false}; std::atomic<int> afterStop{0};
    string order; std::mutex om;
    explicit Rig(int n=400):MAXN(n) { for (auto& x: rec) x.reset(new Rec[size_t(n)]); for (auto& x: lastSeq) x=-1; s=std::make_unique<Sched>(); }
    // posts function (p,n); extra runs inside it
    template<class F> void post(int p,F extra)
    {
        int n=posted[p]++;
        if (n>=MAXN) return;
        ++total;
        inPost=true;
        s->Post([this,p,n,extra,tk=h::Token()]{
            if (inPost) h::fail("inside-post","a function ran inside the posting call");
            if (runner<0) h::fail("wrong-thread","a function ran on a thread that is not running the scheduler");
            if (depth&&!nestedOk) h::fail("nested","a function ran inside another one");
            if (rec[p][n].runs++) h::fail("twice","function ran twice");
            if (ordered) { if (n<=lastSeq[p]) h::fail("order",h::fmt("function %d of producer %d ran after %d",n,p,lastSeq[p])); if (n!=lastSeq[p]+1) h::fail("order",h::fmt("function %d of producer %d ran but %d did not yet",n,p,lastSeq[p]+1)); lastSeq[p]=n; }
            { std::lock_guard<std::mutex> l(om); if (order.size()<4000) order+=char('a'+p); }
            ++started; ++ranHere; ++depth;
            struct D { ~D(){ --depth; } } d;
            struct E { Rig* r; ~E(){ ++r->done; } } e{this};
            if (stopReturned) ++afterStop;
            extra();
        });
        inPost=false;
    }
    void plain(int p) { post(p,[]{}); }
};
static void pause(Rng& r) { switch(r.below(8)) { case 0: sched_yield(); break; case 1: h::nap(unsigned(r.below(200))); break; case 2: { volatile int x=0; for (int i=0;i<int(r.below(2000));++i) x=x+1; break; } default: break; } }

// runs until stopped, counting what comes out
static void runLoop(Rig& g,int id,bool throwing)
{
    runner=id;
    if (!throwing) { g.s->Run(); }
    else for(;;)
    {
        try { g.s->Run(); if (!g.s->Stopped()) h::fail("run-returned","Run returned though nobody stopped the scheduler"); break; }
        catch (const Boom&) { ++g.caught; depth=0; }
    }
    runner=-1;
}

static bool leaks=false;                     // C25
static void postCase(Rng& r)
{
    const bool burst=r.chance(3);        // thousands of pending functions
    Rig g(burst?10000:400);
    const int R=r.chance(60)?1:r.range(2,4);
    g.ordered=(R==1);
    const int P=r.range(1,burst?3:6);            // external producers; the ids P.. are for functions posted by running work
    const bool throwing=r.chance(25);
    const bool early=r.chance(30);       // some functions posted before anybody runs
    const int N=burst?r.range(1000,6000):r.range(1,120);
    const int E=burst?r.range(0,3000):3;
    const int stopKind=int(r.below(4));
    const bool midStop=r.chance(20);     // stop while functions are pending
    const bool lock=!burst&&r.chance(25);        // lock step: one function at a time, the runner goes idle in between
    LOG("runners=%d producers=%d each=%d throwing=%d stop=%d mid=%d lockstep=%d",R,P,N,throwing,stopKind,midStop,lock);
    vector<Rng> pr; for (int i=0;i<P;++i) pr.emplace_back(r.next());
    std::atomic<int> returned{0};
    std::atomic<int> stopping{0};
    auto body=[&](int p,Rng& q)->std::function<void()>
    {
        int k=int(q.below(100));
        if (throwing&&k<15) { const unsigned kind=unsigned(q.below(9)); return [&g,kind]{ ++g.thrown; boom(kind,0,0); }; }
        if (k<30&&R==1) { const int m=q.range(1,3); return [&g,m]{ for (int i=0;i<m;++i) g.plain(7); }; } // one runner: producer 7 is its thread
        if (k<40) { unsigned us=unsigned(q.below(100)); return [us]{ h::nap(us); }; }
        return []{};
    };
    if (early) for (int i=0;i<E;++i) g.post(0,body(0,pr[0]));
    vector<std::thread> runners, prods;
    std::atomic<int> go{0};
    for (int i=0;i<R;++i) runners.emplace_back([&,i]{ ++go; runLoop(g,i,throwing); ++returned; });
    for (int p=0;p<P;++p) prods.emplace_back([&,p]{
        Rng q=pr[size_t(p)];
        for (int n=g.posted[p];n<N+E&&!(midStop&&stopping);++n) {
            g.post(p,body(p,q));
            if (lock) { int me=n; h::await("posted function not run",[&]{ return g.rec[p][me].runs.load()>0||stopping; }); }
            if (!burst) pause(q);
        }
    });
    if (burst) h::stat("bursts");
    if (midStop)
    {
        h::nap(unsigned(r.below(1500)));
    }
    else
    {
        for (auto& t: prods) t.join();
        // functions posted by running work are counted as they are posted
        h::await("posted function not run",[&]{ return g.done.load()==g.total.load(); });
        if (returned) h::fail("run-returned","Run returned before the stop");
        for (int p=0;p<Rig::MAXP;++p) for (int n=0;n<std::min(g.posted[p],g.MAXN);++n) if (g.rec[p][n].runs!=1) h::fail("count",h::fmt("function %d of %d ran %d times",n,p,g.rec[p][n].runs.load()));
        if (throwing) h::await("exception not propagated",[&]{ return g.caught.load()==g.thrown.load(); });
        if (leaks) { h::await("a posted function that has been run is still kept",[&]{ return h::Token::live()==0; }); h::stat("functions-released",g.total.load()); }
        if (g.caught!=g.thrown) h::fail("exceptions",h::fmt("thrown %d caught %d",g.thrown.load(),g.caught.load()));
        h::stat("settled");
    }
    stopping=1;
    if (g.s->Stopped()) h::fail("stopped-early","Stopped before the stop");
    switch(stopKind)
    {
        case 0: g.s->Stop(); break;
        case 1: { int n=r.range(2,5); vector<std::thread> st; for (int i=0;i<n;++i) st.emplace_back([&]{ g.s->Stop(); }); for (auto& t: st) t.join(); h::stat("concurrent-stops"); break; }
        case 2: { std::atomic<bool> did{false}; inPost=true; g.s->Post([&,tk=h::Token()]{ g.s->Stop(); did=true; }); inPost=false; h::await("stop posted not run",[&]{ return did.load(); }); break; }
        default: { std::thread t([&]{ h::nap(unsigned(100)); g.s->Stop(); }); t.join(); }
    }
    if (!g.s->Stopped()) h::fail("not-stopped","Stopped is false after Stop");
    int at=g.started; (void)at;
    g.stopReturned=true;
    if (midStop) for (auto& t: prods) t.join();
    h::await("Run did not return after the stop",[&]{ return returned.load()==R; });
    for (auto& t: runners) t.join();
    if (g.afterStop>R) h::fail("late",h::fmt("%d functions started after the stop had returned, with %d running threads",g.afterStop.load(),R));
    // nothing runs any more
    int dn=g.done; g.ordered=false; g.plain(6);
    runner=0; g.s->Run(); runner=-1;
    if (g.done!=dn) h::fail("run-after-stop","Run after the stop ran a function");
    h::stat("functions",g.done.load()); h::stat("exceptions",g.caught.load()); h::statMax("runners",R);
    h::distinct(g.order);
    if (r.chance(5)) h::sample(string(h::ctx().page->log,h::ctx().page->len)+" order "+g.order.substr(0,200));
    g.s.reset();
}

// stop semantics on one running thread, decided without time
static void stopCase(Rng& r)
{
    Rig g;
    int kind=int(r.below(4));
    LOG("stop kind %d",kind);
    if (kind==0)
    {   // stop comes first
        int n=r.range(0,5); for (int i=0;i<n;++i) g.plain(0);
        g.s->Stop();
        std::atomic<int> ret{0};
        std::thread t([&]{ runner=0; g.s->Run(); runner=-1; ret=1; });
        h::await("Run after Stop did not return",[&]{ return ret.load()==1; }); t.join();
        if (g.done) h::fail("late","functions run after the stop");
        if (!g.s->Stopped()) h::fail("not-stopped","not stopped");
        h::stat("stop-first");
    }
    else if (kind==1)
    {   // a function stops the scheduler: it is the last one
        int n=r.range(0,10),m=r.range(1,10);
        for (int i=0;i<n;++i) g.plain(0);
        g.post(0,[&]{ g.s->Stop(); });
        for (int i=0;i<m;++i) g.plain(0);
        std::atomic<int> ret{0};
        std::thread t([&]{ runner=0; g.s->Run(); runner=-1; ret=1; });
        h::await("Run did not return after Stop",[&]{ return ret.load()==1; }); t.join();
        if (g.done!=n+1) h::fail("late",h::fmt("stop in function %d, %d functions ran",n+1,g.done.load()));
        h::stat("stop-inside");
    }
    else if (kind==2)
    {   // many idle runners
        int R=r.range(1,6); std::atomic<int> ret{0},in{0}; vector<std::thread> v;
        for (int i=0;i<R;++i) v.emplace_back([&,i]{ runner=i; ++in; g.s->Run(); runner=-1; ++ret; });
        h::await("start",[&]{ return in==R; }); h::nap(unsigned(r.below(3000)));
        if (ret) h::fail("run-returned","Run returned with nothing to do");
        if (g.s->Stopped()) h::fail("stopped-early","Stopped though nobody stopped");
        g.ordered=false;
        if (r.chance(50)) { int n=r.range(1,10); for (int i=0;i<n;++i) g.plain(0); h::await("posted function not run",[&]{ return g.done.load()==n; }); h::nap(unsigned(r.below(1000))); if (ret) h::fail("run-returned","Run returned after the work"); }
        g.s->Stop();
        h::await("a thread did not return after Stop",[&]{ return ret==R; }); for (auto& t: v) t.join();
        h::stat("idle-runners",R);
    }
    else
    {   // throwing work: the exception comes out once, the rest is as if nothing happened
        int n=r.range(1,20); vector<int> thr; for (int i=0;i<n;++i) { bool th=r.chance(30); if (th) { thr.push_back(i); const unsigned kind=unsigned(r.below(9)); g.post(0,[i,kind]{ boom(kind,0,i); }); } else g.plain(0); }
        g.post(0,[&]{ g.s->Stop(); });
        g.plain(0);
        vector<int> got; runner=0;
        for(int guard=0;;++guard) { if (guard>100) h::fail("exceptions","endless exceptions"); try { g.s->Run(); break; } catch (const Boom& b) { got.push_back(b.s); depth=0; if (g.started!=b.s+1) h::fail("exception-late","other functions ran before the exception came out"); } }
        runner=-1;
        if (got!=thr) h::fail("exceptions",h::fmt("thrown %zu caught %zu",thr.size(),got.size()));
        if (g.done!=n+1) h::fail("count",h::fmt("posted %d ran %d",n+1,g.done.load()));
        h::stat("exceptions",(long long)thr.size());
    }
    h::distinct(string(h::ctx().page->log,h::ctx().page->len)+g.order);
}
// the loop scheduler tells whether a function was run
#if SCHED==0
static int pollOne(Sched& s) { return s.PollOne(); }
static int execOne(Sched& s) { return s.ExecOne(); }
#else
static int pollOne(Sched& s) { s.PollOne(); return -1; }
static int execOne(Sched& s) { s.ExecOne(); return -1; }
#endif
static void told(int ret,int ran) { if (ret>=0&&ret!=ran) h::fail("told",h::fmt("told %d, functions run %d",ret,ran)); }
// running and polling one function
static void oneCase(Rng& r)
{
    Rig g; runner=0;
    int pending=0; bool stopped=false;
    string seq;
    int steps=r.range(5,60);
    for (int i=0;i<steps;++i)
    {
        int k=int(r.below(100)); int before=g.started; ranHere=0;
        if (k<35) { g.plain(0); ++pending; seq+='p'; if (g.started!=before) h::fail("inside-post","ran while posting"); }
        else if (k<60)
        {   // polling never waits and runs at most one
            h::watch().arm("PollOne waited",40); const int ret=pollOne(*g.s); h::watch().off();
            int want=(pending&&!stopped)?1:0;
            if (ranHere!=want) h::fail("poll-one",h::fmt("PollOne ran %d functions, pending %d stopped %d",ranHere,pending,stopped));
            told(ret,want); pending-=want; seq+='q'; h::stat("polls");
        }
        else if (k<75||(k<85&&pending))
        {
            if (!pending&&!stopped)
            {   // waits for one
                std::atomic<bool> ret{false}; int d=r.range(0,1500);
                std::thread t([&]{ h::nap(unsigned(d)); if (ret) h::fail("exec-one-early","ExecOne returned though there was nothing to run"); g.plain(1); });
                h::watch().arm("ExecOne never returned",40); told(execOne(*g.s),1); h::watch().off();
                if (g.started!=before+1) h::fail("exec-one",h::fmt("ExecOne ran %d functions",g.started-before)); ret=true; t.join(); seq+='w'; h::stat("exec-waited");
            }
            else
            {
                h::watch().arm("ExecOne never returned",40); const int ret=execOne(*g.s); h::watch().off();
                int want=stopped?0:1; if (ranHere!=want) h::fail("exec-one",h::fmt("ExecOne ran %d functions, stopped %d",ranHere,stopped)); told(ret,want); pending-=want; seq+='e'; h::stat("execs");
            }
        }
        else if (k<83&&!stopped)
        {   // throwing work
            bool poll=r.chance(50);
            while (pending) { g.s->PollOne(); --pending; }
            int was=g.started;
            const unsigned kind=unsigned(r.below(9)); g.post(0,[kind]{ boom(kind,1,1); }); g.plain(0);
            bool got=false; try { if (poll) g.s->PollOne(); else g.s->ExecOne(); } catch (const Boom&) { got=true; depth=0; }
            if (!got) h::fail("exceptions","exception lost by ExecOne or PollOne");
            if (g.started!=was+1) h::fail("exec-one","more functions run");
            pending=1; seq+='x'; h::stat("exceptions");
        }
        else if (k<87&&!stopped)
        {   // stop releases a waiting ExecOne
            while (pending) { g.s->PollOne(); --pending; }
            std::thread t([&]{ h::nap(unsigned(r.below(500))); g.s->Stop(); });
            int was=g.started;
            h::watch().arm("ExecOne not released by Stop",40); told(execOne(*g.s),0); h::watch().off(); t.join();
            if (g.started!=was) h::fail("late","ran something after stop"); stopped=true; seq+='S'; h::stat("stop-releases-execone");
            if (!g.s->Stopped()) h::fail("not-stopped","not stopped");
        }
        else if (k<90&&r.chance(30)) { g.s->Stop(); stopped=true; seq+='s'; if (!g.s->Stopped()) h::fail("not-stopped","not stopped"); }
        else if (k<93&&pending&&!stopped)
        {   // nested polling from a running function
            g.nestedOk=true; while (pending) { g.s->PollOne(); --pending; }
            int was=g.started; g.post(0,[&]{ int b=g.started; g.s->PollOne(); if (g.started-b>1) h::fail("poll-one","nested PollOne ran more than one"); }); g.plain(0);
            g.s->ExecOne(); pending = g.started-was==2?0:1; seq+='n'; g.nestedOk=false; h::stat("nested");
        }
    }
    if (!stopped&&g.s->Stopped()) h::fail("stopped-early","Stopped though nobody stopped");
    runner=-1;
    h::distinct(seq); h::stat("functions",g.done.load());
}
// posting, stopping and running from everywhere at once; the result is only bounded
static void chaosCase(Rng& r)
{
    Rig g; g.ordered=false;
    int R=r.range(1,3),P=r.range(1,4); std::atomic<int> ret{0}; vector<std::thread> v;
    vector<Rng> pr; for (int i=0;i<P+R;++i) pr.emplace_back(r.next());
    for (int i=0;i<R;++i) v.emplace_back([&,i]{ Rng q=pr[size_t(P+i)]; runner=i; while (!g.s->Stopped()) { switch(q.below(3)) { case 0: g.s->Run(); break; case 1: g.s->PollOne(); break; default: g.s->ExecOne(); } } runner=-1; ++ret; });
    for (int p=0;p<P;++p) v.emplace_back([&,p]{ Rng q=pr[size_t(p)]; int n=q.range(1,100); for (int i=0;i<n;++i) { g.plain(p); pause(q); if (q.chance(2)) (void)g.s->Stopped(); } });
    h::nap(unsigned(r.below(2000)));
    std::thread s1([&]{ g.s->Stop(); }), s2([&]{ g.s->Stop(); });
    s1.join(); s2.join();
    h::await("threads did not return after Stop",[&]{ return ret==R; });
    for (auto& t: v) t.join();
    for (int p=0;p<P;++p) for (int n=0;n<g.posted[p];++n) if (g.rec[p][n].runs>1) h::fail("twice","ran twice");
    h::distinct(g.order); h::stat("chaos"); h::stat("functions",g.done.load());
}
// several threads running: functions that need one another must run at the same time while a thread is idle
static void meetCase(Rng& r)
{
    Rig g; g.ordered=false;
    const int R=r.range(2,5); std::atomic<int> ret{0},in{0}; vector<std::thread> v;
    for (int i=0;i<R;++i) v.emplace_back([&,i]{ runner=i; ++in; g.s->Run(); runner=-1; ++ret; });
    h::await("start",[&]{ return in==R; });
    int rounds=r.range(1,12); string seq;
    for (int k=0;k<rounds;++k)
    {
        if (r.chance(60)) h::nap(unsigned(r.below(1500)));     // all of them idle
        const int n=r.range(2,R); std::atomic<int> there{0};
        auto body=[&there,n]{ ++there; h::await("a posted function was not run though a running thread is idle",[&there,n]{ return there.load()>=n; }); };
        int before=g.done, extra=0;
        switch(r.below(3))
        {
            case 0: for (int i=0;i<n;++i) { g.post(0,body); if (r.chance(40)) pause(r); } break;
            case 1: { vector<std::thread> t; for (int i=0;i<n;++i) t.emplace_back([&,i]{ g.post(i,body); }); for (auto& x: t) x.join(); break; }
            default: g.post(0,[&]{ for (int i=1;i<n;++i) g.post(6,body); body(); });
        }
        h::await("posted function not run",[&]{ return g.done==before+n+extra; });
        seq+=char('0'+n); h::stat("rendezvous");
    }
    g.s->Stop(); h::await("Run did not return after the stop",[&]{ return ret==R; }); for (auto& t: v) t.join();
    h::stat("functions",g.done.load()); h::distinct("meet"+seq+std::to_string(R)+g.order);
}
#if SCHED!=0
// a scheduler on a context owned by the user
static void externalCase(Rng& r)
{
    auto ctx=std::make_unique<cli::detail::asiolib::io_context>();
    auto guard=std::make_unique<cli::detail::asiolib::executor_work_guard<cli::detail::asiolib::io_context::executor_type>>(ctx->get_executor());
    Rig g; g.s=std::make_unique<Sched>(*ctx);
    bool viaCtx=r.chance(50); int n=r.range(0,40);
    std::atomic<int> ret{0};
    std::thread t([&]{ runner=0; if (viaCtx) ctx->run(); else g.s->Run(); runner=-1; ++ret; });
    for (int i=0;i<n;++i) { g.plain(0); pause(r); }
    h::await("posted function not run",[&]{ return g.done==n; });
    if (ret) h::fail("run-returned","Run returned");
    if (&g.s->AsioContext()!=ctx.get()) h::fail("context","another context");
    g.s->Stop(); h::await("Run did not return",[&]{ return ret==1; }); t.join();
    if (!g.s->Stopped()||!ctx->stopped()) h::fail("not-stopped","not stopped");
    if (r.chance(50))
    {   // the context is the user's: it can be restarted, and what was posted in between is not lost
        const int m=r.range(1,20); for (int i=0;i<m;++i) g.plain(0);
        if (g.done!=n) h::fail("run-after-stop","ran while stopped");
        ctx->restart(); if (g.s->Stopped()) h::fail("stopped-early","Stopped after the restart of the context");
        ret=0; std::thread u([&]{ runner=0; if (viaCtx) g.s->Run(); else ctx->run(); runner=-1; ++ret; });
        h::await("posted function not run",[&]{ return g.done==n+m; });
        if (ret) h::fail("run-returned","Run returned");
        g.s->Stop(); h::await("Run did not return",[&]{ return ret==1; }); u.join();
        h::stat("restarted");
    }
    g.s.reset(); guard.reset(); ctx.reset();
    h::stat("external-context"); h::distinct("ext"+std::to_string(n)+std::to_string(viaCtx));
}
#endif
// nothing to do for seconds
static void idleCase(Rng& r)
{
    Rig g; g.ordered=false; const int R=r.range(1,3); std::atomic<int> ret{0},in{0}; vector<std::thread> v;
    for (int i=0;i<R;++i) v.emplace_back([&,i]{ runner=i; ++in; g.s->Run(); runner=-1; ++ret; });
    h::await("start",[&]{ return in==R; });
    int n=0; const int rounds=r.range(1,2);
    for (int k=0;k<rounds;++k)
    {
        const unsigned ms=r.chance(20)?unsigned(r.range(3000,5600)):unsigned(r.range(600,2600)); LOG("idle for %u ms",ms); h::stat("idle-ms",ms);
        for (unsigned i=0;i<ms;i+=100) h::nap(100000);
        if (ret) h::fail("run-returned","Run returned with nothing to do"); if (g.s->Stopped()) h::fail("stopped-early","Stopped though nobody stopped");
        const int m=r.range(1,5); for (int i=0;i<m;++i) g.plain(0); n+=m;
        h::await("function posted after a pause not run",[&]{ return g.done.load()==n; });
    }
    g.s->Stop(); h::await("a thread did not return after Stop",[&]{ return ret==R; }); for (auto& t: v) t.join();
    // waiting for one function
    Rig w; runner=0; std::thread t([&]{ const unsigned ms=unsigned(r.range(600,2600)); for (unsigned i=0;i<ms;i+=100) h::nap(100000); w.plain(0); });
    h::watch().arm("ExecOne never returned",40); told(execOne(*w.s),1); h::watch().off(); if (w.started!=1) h::fail("exec-one-early","ExecOne returned without running anything"); runner=-1; t.join();
    h::stat("idle-cases"); h::distinct(string(h::ctx().page->log,h::ctx().page->len));
}
int main(int argc,char** argv)
{
    h::init(argc,argv);
    const string P=h::ctx().prop; leaks=P=="C25";
    if (h::ctx().opt["--mode"]=="idle") return h::cases(idleCase,0);
    return h::cases([&](Rng& r){
        struct Delays { explicit Delays(Rng& q) { delay::arm(q); } ~Delays() { delay::done(); } } delays(r);
        int k=int(r.below(100));
#if SCHED!=0
        if (k<6) { externalCase(r); return; }
#endif
        if (k<20) { meetCase(r); return; }
        k=int(r.below(100));
        if (P=="C14") { if (k<75) postCase(r); else if (k<90) chaosCase(r); else oneCase(r); }
        else { if (k<30) postCase(r); else if (k<65) stopCase(r); else if (k<92) oneCase(r); else chaosCase(r); }
    },0);
}
