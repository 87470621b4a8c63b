// Properties decided on CliSession and random menus: C03 C04 C05 C06 C08 C09 C10 C11 C12 C21
#include "world.h"
#include <fstream>
#include <sys/stat.h>
using namespace world;

static string num(const char* f,long long v) { return h::fmt(f,v); }

// ---------------------------------------------------------------- worlds
static Opts optsFor(const string& p,Rng& r)
{
    Opts o;
    o.menus=r.range(0,5); o.cmds=r.range(2,10);
    if (p=="C04") { o.actions=true; }
    if (p=="C25") { o.actions=r.chance(70); o.throws=r.chance(30); }
    if (p=="C11") { o.throws=true; o.cmds=r.range(5,12); o.menus=r.range(0,3); }
    if (p=="C05"||p=="C03"||p=="C06") o.namesWithSpaces=r.chance(40);
    if (p=="C09"||p=="C08"||p=="C10") { o.menus=r.range(0,2); o.cmds=r.range(2,5); }
    if (r.chance(3)) { o.depth=14; o.menus=r.range(6,20); o.cmds=r.range(10,25); h::stat("deep-worlds"); }
    else if (r.chance(1)) { o.wide=r.chance(60); o.cmds=r.range(60,200); o.menus=r.range(0,5); h::stat("wide-worlds"); }
    if (p=="C21") { o.actions=r.chance(60); o.throws=r.chance(30); o.namesWithSpaces=true; }
    return o;
}
static string garbage(Rng& r)
{
    static const string al="a b\"'\\!.-0123\t\x7f\xff\x80\x01 help exit history sub foo";
    string s; int n=r.chance(95)?r.range(0,30):r.range(31,3000);
    bool bin=r.chance(30);
    for (int i=0;i<n;++i) s+=bin?char(r.below(256)):al[r.below(al.size())];
    return s;
}
static void worldCase(Rng& r)
{
    const string P=h::ctx().prop;
    World w(r,optsFor(P,r));
    w.buildTree();
    w.finish(std::make_unique<cli::VolatileHistoryStorage>(1000));
    int ns=r.range(1,P=="C21"?3:2);
    static const vector<size_t> sizes={0,1,2,3,5,10,100};
    for (int i=0;i<ns;++i) w.open(r.pick(sizes));
    const bool ops=(P=="C04"||P=="C25"||P=="C21"||P=="C05"||P=="C06"||(P=="C03"&&r.chance(30)));
    int steps=r.range(15,60);
    for (int i=0;i<steps&&!w.sess.empty();++i)
    {
        Sess* s=w.sess[r.below(w.sess.size())].get();
        int k=int(r.below(100));
        if (ops&&k<18)
        {
            int q=int(r.below(10));
            Node* n=w.anyNode();
            if (q<4) w.handleOp(n,2); else if (q<7) w.handleOp(n,3); else if (q<9) { if (r.chance(60)) w.handleOp(n,4); } else { if (r.chance(70)) w.addCmd(w.liveMenu()); else w.addMenu(w.liveMenu()); }
            if (r.chance(10)) { cli::CmdHandler d; d.Enable(); d.Disable(); d.Remove(); }
            // after each operation what can be seen agrees with the model
            for (auto& x: w.sess) { w.prompt(x.get()); if (r.chance(50)) w.complete(x.get(),""); if (r.chance(50)) w.feed(x.get(),"help","help"); }
            continue;
        }
        if (k<(P=="C05"?75:32)) { w.complete(s,w.genText(s)); if (P=="C05") continue; }
        if (k<(P=="C06"?60:36)) { w.feed(s,"help","help"); w.prompt(s); continue; }
        if (P=="C21"&&k<60) { string g=garbage(r); w.feed(s,g); w.complete(s,garbage(r)); continue; }
        if (P=="C03"&&k<38) { w.feed(s,garbage(r)); w.prompt(s); continue; }
        w.feed(s,w.genLine(s));
        w.prompt(s);
        if (P=="C11"&&r.chance(30)) { w.feed(s,"history"); w.feed(s,"help","help"); }
        if (P=="C03"&&r.chance(2)) w.feed(s,"exit");
        if (P=="C25"&&r.chance(2)) { w.close(s); if (r.chance(60)) w.open(r.pick(sizes)); }
    }
    h::statMax("depth",(long long)w.nodes.size());
    if (r.chance(30)) h::sample(string(h::ctx().page->log,std::min<size_t>(500,h::ctx().page->len)));
    // handles survive everything
    if (P=="C25"&&r.chance(50)) { while (!w.sess.empty()) { if (r.chance(30)) w.feed(w.sess[0].get(),"exit"); w.close(w.sess[0].get()); } }
    vector<cli::CmdHandler> hs; for (auto& n: w.nodes) for (auto& x: n->hs) hs.push_back(x);
    w.sess.clear(); w.c.reset();
    for (auto& x: hs) { switch(r.below(3)) { case 0: x.Enable(); break; case 1: x.Disable(); break; default: x.Remove(); } h::stat("op-handle-after-all"); }
}

// ---------------------------------------------------------------- C08 C09 C10
// many more lines than any small counter
static void manyLinesCase(Rng& r)
{
    int calls=0; string got; std::ostringstream os;
    auto m=std::make_unique<cli::Menu>("m");
    m->Insert("w",[&](std::ostream&,const string& a){ ++calls; got=a; });
    cli::Cli c(std::move(m));
    const size_t cap=r.chance(30)?200000:size_t(r.range(1,300));
    cli::CliSession s(c,os,cap); model::Hist hi; hi.cap=cap;
    const int n=r.range(66000,140000);
    LOG("many lines %d history %zu",n,cap);
    for (int i=0;i<n;++i) { string l="w "+std::to_string(i); s.Feed(l); hi.submit(l); if (calls!=i+1||got!=std::to_string(i)) h::fail("dispatch","line "+l); }
    os.str(""); s.ShowHistory(); if (os.str()!=hi.show()) h::fail("history-show","after many lines: '"+os.str().substr(0,200)+"' instead of '"+hi.show().substr(0,200)+"'");
    for (int i=0;i<20;++i)
    {
        size_t id=hi.firstId+r.below(hi.all.size()); string l="! "+std::to_string(id), e=hi.at(id);
        s.Feed(l); hi.submit(l); hi.undo(); hi.submit(e); if ("w "+got!=e) h::fail("history-recall","recall of "+std::to_string(id)+" ran '"+got+"' instead of '"+e+"'");
        string ed; string a=hi.up(ed), b=s.PreviousCmd(ed); if (a!=b) h::fail("history-up","after many lines '"+b+"' instead of '"+a+"'");
    }
    h::stat("many-lines"); h::distinct("many"+std::to_string(n)+"|"+std::to_string(cap));
}
static vector<string> lineSet(Rng& r,World& w,Sess* s)
{
    vector<string> v={"x1","x2","x3"};
    for (int i=0;i<3;++i) { string l=w.genLine(s); if (l.find('\n')==string::npos) v.push_back(l); }
    if (r.chance(40)) v.push_back(" x1");
    if (r.chance(25)) { static const vector<string> odd={"x1\r","\tx1","x2  ","#x1","x1\t","\x1a x","x\x1a","\\","x3\f"," \vx"}; v.push_back(r.pick(odd)); v.push_back(r.pick(odd)); }
    if (r.chance(20)) { string l="y"; int n=r.chance(90)?r.range(1,40):r.range(100,20000); for (int i=0;i<n;++i) { char c=char(r.below(256)); l+=c=='\n'?'\0':c; } v.push_back(l); }
    v.push_back("help");
    return v;
}
// long histories browsed back and forth
static void browseCase(Rng& r)
{
    std::ostringstream os;
    auto m=std::make_unique<cli::Menu>("m"); m->Insert("w",[](std::ostream&,const vector<string>&){});
    cli::Cli c(std::move(m)); c.WrongCommandHandler([](std::ostream&,const string&){});
    const size_t cap=size_t(r.range(1,600));
    cli::CliSession s(c,os,cap); model::Hist hi; hi.cap=cap;
    int n=r.range(0,900); const int kinds=r.chance(50)?3:1000; string ed;
    LOG("browse %d lines, history %zu",n,cap);
    for (int round=0;round<4;++round)
    {
        for (int i=0;i<n;++i) { string l="w "+std::to_string(r.below(size_t(kinds))); s.Feed(l); hi.submit(l); }
        ed.clear(); n=r.range(0,10);
        for (int i=0;i<12;++i)
        {
            const bool up=r.chance(60); const int k=r.chance(50)?r.range(1,5):r.range(1,700);
            for (int j=0;j<k;++j)
            {
                if (r.chance(1)) ed+='e';
                string a=up?hi.up(ed):hi.down(), b=up?s.PreviousCmd(ed):s.NextCmd();
                if (a!=b) h::fail(up?"history-up":"history-down",h::fmt("step %d: expected '%s' observed '%s'",j,h::esc(a).c_str(),h::esc(b).c_str()));
                ed=b;
            }
            h::stat(up?"up":"down",k); h::distinct(h::fmt("browse|%zu|%zu|%d|%s",hi.pos,hi.all.size(),up,ed.c_str()));
        }
        { string l=r.chance(70)&&!ed.empty()?ed:"w z"; s.Feed(l); hi.submit(l); }
        os.str(""); s.ShowHistory(); if (os.str()!=hi.show()) h::fail("history-show","after browsing");
    }
    h::stat("long-browsing");
}
static void historyCase(Rng& r)
{
    const string P=h::ctx().prop;
    if ((P=="C08"||P=="C09")&&h::ctx().caseNo%4000==17) { manyLinesCase(r); return; }
    if (P=="C08"&&r.chance(2)) { browseCase(r); return; }
    World w(r,optsFor(P,r));
    w.o.wrongH=90;
    w.buildTree();
    static const vector<size_t> caps={0,1,2,3,5,1000};
    string file; int kind=int(r.below(4));
    if (P!="C10"&&kind==3) kind=1;
    std::unique_ptr<cli::HistoryStorage> store;
    w.st->cap=r.pick(caps);
    if (P!="C10") w.st->cap=1000;
    bool unusable=false;
    if (kind<2) store=std::make_unique<cli::VolatileHistoryStorage>(w.st->cap);
    else
    {
        file=h::ctx().dir+"/hist"+std::to_string(getpid());
        unlink(file.c_str());
        if (kind==3) { unusable=true; file=r.chance(50)?h::ctx().dir:h::ctx().dir+"/no/such/dir/f"; }
        store=std::make_unique<cli::FileHistoryStorage>(file,w.st->cap);
    }
    // previous contents
    const bool chain=P=="C09"&&r.chance(3); // entries that recall one another, deep
    if (chain)
    {
        vector<string> pre={r.chance(50)?"help":"x1"}; int n=r.range(2,70); for (int i=0;i<n;++i) pre.push_back((r.chance(50)?"! ":"!")+std::to_string(r.chance(90)?i:r.range(0,n)));
        store->Store(pre); w.st->store(pre); for (auto& x: pre) LOG("pre %s",x.c_str()); h::stat("recall-chains");
    }
    else if (r.chance(60))
    {
        vector<string> pre; int n=r.range(0,7);
        for (int i=0;i<n;++i) { int q=int(r.below(6)); pre.push_back(q<3?"old"+std::to_string(r.below(3)):q==3?"! "+std::to_string(r.below(8)):q==4?"help":"!"+std::to_string(r.below(4))); }
        if (P=="C10"&&r.chance(20)) { static const vector<string> odd={"","x1\r"," lead","trail ","#x1","\t"}; for (int i=0;i<3;++i) pre.insert(pre.begin()+long(r.below(pre.size()+1)),r.pick(odd)); h::stat("odd-entries"); }
        if (P!="C09"&&!(P=="C10"&&r.chance(30))) for (auto& x: pre) if (x[0]=='!') x="old9";
        store->Store(pre); w.st->store(pre);
        for (auto& x: pre) LOG("pre %s",x.c_str());
    }
    cli::HistoryStorage* spy=store.get();
    w.finish(std::move(store));
    if (unusable) w.st->cap=0, w.st->v.clear();
    // a second Cli on the same file
    static const vector<size_t> sizes={0,1,2,3,4,5,8,100};
    int rounds=r.range(1,P=="C10"?5:2);
    for (int round=0;round<rounds;++round)
    {
        if (P=="C10"&&!unusable&&kind==2&&r.chance(40))
        {   // any later storage object on the same file
            w.sess.clear();
            size_t cap=r.pick(caps);
            LOG("new storage object cap=%zu",cap);
            cli::FileHistoryStorage other(file,cap);
            if (other.Commands()!=w.st->v) h::fail("storage-reopen","a new storage object on the file gives other contents");
            if (r.chance(40)) { vector<string> add={"ext1","ext2"}; size_t c0=w.st->cap; w.st->cap=cap; other.Store(add); w.st->store(add); w.st->cap=c0; if (other.Commands()!=w.st->v) h::fail("storage-store","contents after a store differ"); }
            if (r.chance(10)) { other.Clear(); w.st->v.clear(); }
            h::stat("storage-reopened");
        }
        if (P=="C10"&&!unusable&&r.chance(8)) { w.sess.clear(); LOG("storage cleared"); spy->Clear(); w.st->v.clear(); if (!spy->Commands().empty()) h::fail("storage-clear","not empty after being cleared"); h::stat("storage-cleared"); }
        if (P=="C10"&&kind==2&&r.chance(8)) { w.sess.clear(); LOG("file removed"); unlink(file.c_str()); w.st->v.clear(); h::stat("file-missing"); }
        if (P=="C10"&&round==0&&r.chance(1))
        {   // more lines than any default
            LOG("long session");
            Sess* s=w.open(r.chance(50)?100000:1000);
            for (int i=0,n=r.range(900,1300);i<n;++i) { string l="nocmd"+std::to_string(i); w.feed(s,l); }
            w.feed(s,"exit","storage"); w.close(s); h::stat("long-sessions");
        }
        int n=r.range(1,2);
        for (int i=0;i<n;++i) w.open(r.pick(sizes));
        Sess* s0=w.sess.back().get();
        auto lines=lineSet(r,w,s0);
        int steps=r.range(3,40);
        vector<string> edit(size_t(w.nextSess)); // edited line per session (simulating the terminal)
        for (int i=0;i<steps;++i)
        {
            Sess* s=w.sess[r.below(w.sess.size())].get();
            string& ed=edit[size_t(s->id)];
            int k=int(r.below(100));
            if (k<(P=="C08"?45:20))
            {   // browse
                if (r.chance(60))
                {
                    if (r.chance(25)) ed+=char("xyz"[r.below(3)]);
                    if (r.chance(6)) ed="! "+std::to_string(s->hist.firstId+r.below(s->hist.all.size()+1));
                    if (P!="C09"&&!ed.empty()&&ed[0]=='!') ed="e";
                    string e=s->hist.up(ed), g=s->s->PreviousCmd(ed);
                    LOG("up %d '%s' -> '%s'",s->id,h::esc(ed).c_str(),h::esc(g).c_str());
                    if (e!=g) h::fail("history-up","up on '"+ed+"': expected '"+e+"' observed '"+g+"'");
                    ed=g; h::stat("up"); h::distinct("up|"+std::to_string(s->hist.pos)+"|"+std::to_string(s->hist.all.size())+"|"+std::to_string(s->hist.cap)+"|"+ed);
                }
                else
                {
                    string e=s->hist.down(), g=s->s->NextCmd();
                    LOG("down %d -> '%s'",s->id,h::esc(g).c_str());
                    if (e!=g) h::fail("history-down","down: expected '"+e+"' observed '"+g+"'");
                    ed=g; h::stat("down"); h::distinct("down|"+std::to_string(s->hist.pos)+"|"+std::to_string(s->hist.all.size())+"|"+std::to_string(s->hist.cap)+"|"+ed);
                }
                continue;
            }
            string l;
            if (k<(P=="C09"?75:55)) { 
                size_t base=s->hist.firstId; 
                uint64_t id=r.chance(80)&&!s->hist.all.empty()? base+r.below(s->hist.all.size()) : r.chance(50)?base+s->hist.all.size()+r.below(3):r.chance(50)?(base?base-1-r.below(base):0):(r.chance(50)?4294967295u:r.next()>>(r.below(40)+20));
                l=(r.chance(50)?"! ":"!")+std::to_string(id);
            }
            else if (k<60) l="history";
            else if (k<70&&!ed.empty()) l=ed;
            else if (k<74) l=r.chance(50)?"   ":"''";
            else l=r.pick(lines);
            w.feed(s,l,"history"); ed.clear();
            if (r.chance(35)) w.feed(s,"history","history");
            if (P=="C10"&&r.chance(6)) { w.feed(s,"exit","storage"); if (s->exited) { w.close(s); if (w.sess.empty()) break; } }
        }
        for (size_t i=w.sess.size();i-->0;)
        {
            Sess* s=w.sess[i].get();
            if (P=="C10"||r.chance(50))
            {
                if (r.chance(60)) w.feed(s,"exit","storage");
                else if (!s->exited)
                {   // end of the input
                    LOG("eof %d",s->id);
                    w.ev.clear(); w.active=s;
                    auto own=s->hist.toStore(); s->s->Exit(); s->exited=true; w.active=nullptr;
                    string e="store"; for (auto& x: own) e+="|"+x;
                    if (!unusable) w.st->store(own);
                    vector<string> o=w.ev; string so=World::takeStore(o);
                    if (so!="("+e+")") h::fail("store","exit: expected to store {"+e+"} observed {"+so+"}");
                    if (o!=vector<string>{"sexit "+std::to_string(s->id),"gexit"}) h::fail("exit","exit actions not run once in order");
                }
                if (r.chance(30)) { LOG("exit again"); w.ev.clear(); s->s->Exit(); if (!w.ev.empty()) h::fail("exit-twice","second exit ran "+w.ev[0]); w.feed(s,"x1"); }
            }
            w.close(s);
            h::stat("sessions");
        }
        if (unusable) w.st->v.clear();
        else if (!file.empty()&&kind==2)
        {
            std::ifstream in(file); vector<string> v; string l; while (std::getline(in,l)) v.push_back(l);
            if (v!=w.st->v) { string a,b; for (auto& x: w.st->v) a+="|"+x; for (auto& x: v) b+="|"+x; h::fail("storage-file","file holds "+b+" expected "+a); }
            h::stat("file-compared");
        }
    }
    if (r.chance(30)) h::sample(string(h::ctx().page->log,std::min<size_t>(500,h::ctx().page->len)));
    if (kind==2) unlink(file.c_str());
}

// plain sessions: enter, exit, end of input in every order
static void lifecycleCase(Rng& r)
{
    Opts o; o.menus=2; o.cmds=5; o.exits=r.chance(30); o.actions=!o.exits&&r.chance(30);
    World w(r,o); w.buildTree(); w.finish(std::make_unique<cli::VolatileHistoryStorage>());
    int n=r.range(1,4);
    for (int i=0;i<n;++i)
    {
        Sess* s=w.open(size_t(r.range(0,5)));
        if (r.chance(10)) { s->s->ExitAction(nullptr); s->s->EnterAction(nullptr); }
        else
        {
            w.ev.clear(); w.active=s; s->s->Enter(); w.active=nullptr;
            if (w.ev!=vector<string>{"genter","senter "+std::to_string(s->id)}) h::fail("enter","enter actions not run once in order");
            int steps=r.range(0,12);
            for (int k=0;k<steps;++k) { w.prompt(s); w.feed(s,r.chance(12)?"exit":r.chance(15)?"! "+std::to_string(s->hist.firstId+r.below(s->hist.all.size()+1)):w.genLine(s)); }
            if (r.chance(70)) { w.feed(s,"exit"); w.prompt(s); w.feed(s,"help"); w.feed(s,w.genLine(s)); w.prompt(s); }
        }
        if (r.chance(50)) { int c0=0; (void)c0; w.ev.clear(); w.active=s; s->s->Exit(); vector<string> ev=w.ev; w.active=nullptr; bool was=s->exited; if (was&&!ev.empty()) h::fail("exit-twice","exit ran again: "+ev[0]); if (!was) { size_t g=0,st=0; for (auto& x: ev) { g+=x=="gexit"; st+=x.compare(0,5,"store")==0; } if (g!=1||st!=1) h::fail("exit","exit actions not run once"); s->exited=true; w.st->store(s->hist.toStore()); } s->s->Feed("help"); s->s->Prompt(); if (w.delta(s).find("help")!=string::npos&&false) {} }
        h::stat("sessions");
    }
    w.sess.clear();
}

int main(int argc,char** argv)
{
    h::init(argc,argv);
    const string P=h::ctx().prop, mode=h::ctx().opt["--mode"];
    if (P=="C08"||P=="C09"||P=="C10"||mode=="history") return h::cases(historyCase);
    if (P=="C12"||mode=="lifecycle") return h::cases(lifecycleCase);
    return h::cases(worldCase);
}
