// A random Cli (menus, commands, storage, handlers) together with its reference model.
#pragma once
#include <any>
#include <filesystem>
#include <future>
#include <optional>
#include <regex>
#include <system_error>
#include <variant>
#include "model.h"
#include <cli/cli.h>
#include <cli/clifilesession.h>
#include <cli/filehistorystorage.h>
#include <iostream>
#include <memory>
#include <typeinfo>
#include <new>
#include <ios>

namespace world {
using std::string; using std::vector; using h::Rng; using model::T;

struct VirtEx : virtual std::exception { string m; explicit VirtEx(string s):m(std::move(s)){} const char* what() const noexcept override { return m.c_str(); } };
struct CastEx : std::bad_cast { string m; explicit CastEx(string s):m(std::move(s)){} const char* what() const noexcept override { return m.c_str(); } };
struct OtherBase { int q=7; virtual ~OtherBase()=default; };
struct MultiEx : OtherBase, std::runtime_error { explicit MultiEx(const string& s):std::runtime_error(s){} };
struct NonStd { int a; };

enum class Kind { TYPED, FREE, MENU };

struct Node;
struct Action { int what=0; int target=-1; int ex=0; string text; };
// 10 end the session
// what: 0 text only, 1 throw, 2 disable target, 3 enable target, 4 remove target, 5 insert into target, 6 write to Cli::cout, 7 remove self, 8 disable self, 9 remove own menu

struct Node
{
    int id=0; Kind kind=Kind::TYPED; string name; vector<T> types; vector<string> parDesc; string help; string prompt;
    bool enabled=true, attached=true; int kept=0; // copies of what its handler captured (or the menu) that exist
    Node* parent=nullptr; vector<Node*> kids;
    cli::Menu* real=nullptr; vector<cli::CmdHandler> hs; std::shared_ptr<cli::CmdHandler> own;
    Action act;
    bool alive() const { for (const Node* n=this;n;n=n->parent) if (!n->attached) return false; return true; }
};

struct World;
// captured by the handler of a command: counted per command
struct Keep { Node* n; h::Token t; explicit Keep(Node* x):n(x) { ++n->kept; } Keep(const Keep& o):n(o.n),t(o.t) { ++n->kept; } Keep& operator=(const Keep&)=delete; ~Keep() { --n->kept; } };
struct KeptMenu : cli::Menu { Keep k; template<class... A> explicit KeptMenu(Node* n,A&&... a):cli::Menu(std::forward<A>(a)...),k(n){} };
struct KeptOf { int* n; explicit KeptOf(int* x):n(x) { ++*n; } KeptOf(const KeptOf& o):n(o.n) { ++*n; } KeptOf& operator=(const KeptOf&)=delete; ~KeptOf() { --*n; } };

struct Sess
{
    std::shared_ptr<int> kept=std::make_shared<int>(0);
    World* w; int id; std::ostringstream* os; string shown; // shown: output already accounted for
    std::unique_ptr<cli::CliSession> s;
    Node* cur; model::Hist hist; bool exited=false;
    bool sharedStream=false;
};

struct Storage // reference of the storage contents
{
    vector<string> v; size_t cap=1000;
    void store(const vector<string>& c) { v.insert(v.end(),c.begin(),c.end()); cut(); }
    void cut() { if (v.size()>cap) v.erase(v.begin(),v.end()-long(cap)); }
};

struct SpyStorage : cli::HistoryStorage
{
    World* w; std::unique_ptr<cli::HistoryStorage> in; h::Token tk;
    SpyStorage(World* _w,std::unique_ptr<cli::HistoryStorage> i):w(_w),in(std::move(i)){}
    void Store(const vector<string>& c) override;
    vector<string> Commands() const override { return in->Commands(); }
    void Clear() override { in->Clear(); }
};

struct Opts
{
    int menus=4, cmds=8;             // size of the tree
    bool actions=false, throws=false, coutActions=false, exits=false; // exits: handlers that end the session
    bool namesWithSpaces=false;
    int depth=4;                     // of nested menus
    bool wide=false;                 // many different names in one menu
    int wrongH=50, excH=50;          // probability of handlers being set
};

// a stream that knows whether what was written to it has been flushed (i.e., is visible to the user of a buffered stream)
struct VisBuf : std::streambuf
{
    std::streambuf* to=nullptr; size_t pending=0;
    int overflow(int c) override { if (c!=EOF) { to->sputc(char(c)); ++pending; } return c==EOF?0:c; }
    std::streamsize xsputn(const char* p,std::streamsize n) override { pending+=size_t(n); return to->sputn(p,n); }
    int sync() override { pending=0; return 0; }
};
struct VisStream : std::ostringstream
{
    VisBuf v; VisStream() { v.to=std::ostringstream::rdbuf(); static_cast<std::ios&>(*this).rdbuf(&v); }
    static size_t pending(std::ostream* o) { auto x=dynamic_cast<VisStream*>(o); return x?x->v.pending:0; }
};
struct World
{
    Rng& r; Opts o;
    vector<std::unique_ptr<Node>> nodes;
    Node* root=nullptr;
    std::unique_ptr<cli::Menu> rootMenu;
    std::unique_ptr<cli::Cli> c;
    vector<string> ev;               // observed events
    bool wrongSet=false, excSet=false;
    std::shared_ptr<Storage> st=std::make_shared<Storage>();
    vector<std::unique_ptr<std::ostringstream>> streams;
    vector<std::unique_ptr<Sess>> sess;
    Sess* active=nullptr;
    int nextSess=0; int usedFns=0;

    const bool leaks=h::ctx().prop=="C25";
    World(Rng& _r,Opts _o):r(_r),o(_o) {}
    ~World() { if (!leaks) return; vector<std::shared_ptr<int>> k; for (auto& s: sess) k.push_back(s->kept); sess.clear(); for (auto& x: k) if (*x) h::fail("release-session","a destroyed session keeps its actions"); c.reset(); rootMenu.reset(); for (auto& n: nodes) if (n->kept) h::fail("release-cli",h::fmt("after the destruction of the Cli the handler of command %d is kept (%d copies)",n->id,n->kept)); h::stat("clis-released"); h::stat("commands-released",(long long)nodes.size()); }
    // what has been removed, and is not running, is kept by nobody
    void removedAreReleased(const char* when)
    {
        if (!leaks||active) return;
        for (auto& n: nodes) if (n->kept&&!n->alive()) h::fail("release-removed",h::fmt("%s, the handler (or the menu) of the removed command %d is kept (%d copies)",when,n->id,n->kept));
        h::stat("removal-checks");
    }

    // -------- construction
    string newName()
    {
        static const vector<string> pool={"a","ab","abc","foo","foobar","foob","sub","sub2","set","s","test","test-x","f\xc3\xb6\xc3\xb6","help","exit","history","!","x.y","-1","3","A","bar","baz","quux","subtract","m","menu","..x","zz"};
        static const vector<string> sp={"a b","foo bar","sub x","'q'"};
        if (o.namesWithSpaces && r.chance(12)) return r.pick(sp);
        if (o.wide) return (r.chance(70)?string("w"):string(r.pick(pool)))+std::to_string(nodes.size());
        if (r.chance(1)) { h::stat("long-names"); string s=r.pick(pool)+string(size_t(r.range(20,r.chance(30)?400:120)),'n'); if (r.chance(50)) s+=r.pick(pool); return s; }
        if (r.chance(15)) { string s; int n=r.range(1,6); for (int i=0;i<n;++i) s+=char("abs"[r.below(3)]); return s; }
        return r.pick(pool);
    }
    vector<T> newTypes()
    {
        static const vector<vector<T>> sigs={{},{},{},{T::INT},{T::STR},{T::UINT},{T::BOOL},{T::CHAR},{T::DOUBLE},{T::INT,T::STR},{T::STR,T::INT},{T::BOOL,T::DOUBLE},{T::CHAR,T::INT,T::STR},{T::UINT,T::UINT},
            {T::SHORT},{T::UCHAR},{T::SCHAR},{T::USHORT},{T::LONG},{T::ULONG},{T::LL},{T::ULL},{T::FLOAT},{T::LDOUBLE},{T::PT},{T::STR,T::STR,T::STR,T::STR}};
        return r.pick(sigs);
    }
    string text(const char* p) { return string(p)+std::to_string(r.below(1000)); }

    Node* mk(Kind k,Node* parent)
    {
        nodes.push_back(std::make_unique<Node>());
        Node* n=nodes.back().get();
        n->id=int(nodes.size())-1; n->kind=k; n->parent=parent;
        n->name=newName();
        n->help=r.chance(80)?text("h "):"";
        if (k==Kind::TYPED) n->types=newTypes();
        if (k!=Kind::MENU)
        {
            size_t np=(k==Kind::FREE)?size_t(r.range(1,2)):n->types.size();
            if (np && r.chance(35)) for (size_t i=0;i<np;++i) n->parDesc.push_back(text("par"));
            n->act.text=r.chance(80)?text("out ")+"\n":"";
        }
        else n->prompt=r.chance(30)?text("pr"):"";
        return n;
    }

    void onCall(int id,std::ostream& out,const vector<string>& args);

    // typed insertions are compiled apart (world_ins.cpp), to build in parallel
    cli::CmdHandler ins0(cli::Menu& m,Node* n,bool& done);
    cli::CmdHandler ins1(cli::Menu& m,Node* n,bool& done);
    cli::CmdHandler ins2(cli::Menu& m,Node* n,bool& done);
    cli::CmdHandler ins3(cli::Menu& m,Node* n,bool& done);
    cli::CmdHandler insertReal(cli::Menu& m,Node* n)
    {
        if (leaks&&r.chance(30)) { n->own=std::make_shared<cli::CmdHandler>(); auto o2=n->own; *o2=insertCmd(m,n); n->own.reset(); h::stat("handles-kept-by-handlers"); return *o2; }
        return insertCmd(m,n);
    }
    cli::CmdHandler insertCmd(cli::Menu& m,Node* n)
    {
        bool done=true;
        cli::CmdHandler h0=ins0(m,n,done); if (done) return h0;
        done=true; h0=ins1(m,n,done); if (done) return h0;
        done=true; h0=ins2(m,n,done); if (done) return h0;
        done=true; h0=ins3(m,n,done); if (done) return h0;
        abort();
    }
    void onFree(int id,std::ostream& out,const vector<string>& a)
    {
        vector<string> v; for (auto& x: a) v.push_back("s"+x);
        onCall(id,out,v);
    }

    // insert a new command into a live menu (model and reality)
    Node* addCmd(Node* menu,Node* n=nullptr)
    {
        if (!n) n=mk(r.chance(25)?Kind::FREE:Kind::TYPED,menu);
        n->parent=menu;
        LOG("insert cmd %d '%s' types=%zu free=%d in %d",n->id,h::esc(n->name).c_str(),n->types.size(),n->kind==Kind::FREE,menu->id);
        menu->kids.push_back(n);
        n->hs.push_back(insertReal(*menu->real,n));
        setAction(n);
        return n;
    }
    // builds a menu subtree and returns the real menu (to be inserted by the caller)
    std::unique_ptr<cli::Menu> build(Node* m,int depth,int& menusLeft,int& cmdsLeft)
    {
        std::unique_ptr<cli::Menu> real=std::make_unique<KeptMenu>(m,m->name,m->help,m->prompt);
        m->real=real.get();
        int n=r.range(0,std::max(1,cmdsLeft/2)); if (depth==0) n=std::max(n,2); if (o.wide&&depth==0) n=cmdsLeft;
        for (int i=0;i<n && (cmdsLeft>0||menusLeft>0);++i)
        {
            if (menusLeft>0 && depth<o.depth && r.chance(o.depth>4?85:40))
            {
                --menusLeft;
                Node* s=mk(Kind::MENU,m);
                auto sub=build(s,depth+1,menusLeft,cmdsLeft);
                m->kids.push_back(s);
                LOG("insert menu %d '%s' in %d",s->id,h::esc(s->name).c_str(),m->id);
                s->hs.push_back(real->Insert(std::move(sub)));
            }
            else if (cmdsLeft>0) { --cmdsLeft; addCmd(m); }
        }
        return real;
    }
    Node* addMenu(Node* m)
    {
        int ml=1,cl=3;
        Node* s=mk(Kind::MENU,m);
        auto sub=build(s,3,ml,cl);
        m->kids.push_back(s);
        LOG("insert menu %d '%s' in %d",s->id,h::esc(s->name).c_str(),m->id);
        s->hs.push_back(m->real->Insert(std::move(sub)));
        return s;
    }
    void setAction(Node* n)
    {
        if (n->kind==Kind::MENU) return;
        if (o.exits && r.chance(25)) { n->act.what=10; return; }
        if (o.throws && r.chance(50)) { n->act.what=1; n->act.ex=int(r.below(34)); return; }
        if (o.actions && r.chance(45)) n->act.what=r.range(2,9);
        if (n->act.what==6 && !o.coutActions) n->act.what=0;
        if (!o.actions && o.coutActions && r.chance(40)) n->act.what=6;
    }

    // storage: 0 default volatile, 1 volatile with cap, 2 file
    void finish(std::unique_ptr<cli::HistoryStorage> storage)
    {
        c=std::make_unique<cli::Cli>(std::move(rootMenu),std::make_unique<SpyStorage>(this,std::move(storage)));
        wrongSet=r.chance(o.wrongH); excSet=r.chance(o.excH);
        if (wrongSet) c->WrongCommandHandler([this,tk=h::Token()](std::ostream& out,const string& cmd){ checkOut(out); ev.push_back("wrong "+cmd); });
        if (excSet) c->StdExceptionHandler([this,tk=h::Token()](std::ostream& out,const string& cmd,const std::exception& e){ checkOut(out); ev.push_back("exc "+cmd); ev.push_back(string("what (")+typeid(e).name()+") "+e.what()); });
        c->EnterAction([this,tk=h::Token()](std::ostream& out){ checkOut(out); ev.push_back("genter"); });
        c->ExitAction([this,tk=h::Token()](std::ostream& out){ checkOut(out); ev.push_back("gexit"); });
        if (r.chance(15)) { c=std::make_unique<cli::Cli>(std::move(*c)); h::stat("cli-moved"); }
    }
    void buildTree()
    {
        root=mk(Kind::MENU,nullptr);
        int ml=o.menus,cl=o.cmds;
        rootMenu=build(root,0,ml,cl);
        root->real=rootMenu.get();
    }
    void checkOut(std::ostream& out)
    {
        if (active && &out!=active->os) h::fail("stream","handler got the stream of another session");
    }

    // -------- sessions
    Sess* open(size_t histSize,std::ostringstream* shared=nullptr)
    {
        auto s=std::make_unique<Sess>();
        s->w=this; s->id=nextSess++;
        if (shared) { s->os=shared; }
        else { streams.push_back(std::make_unique<VisStream>()); s->os=streams.back().get(); }
        s->cur=root; s->hist.cap=histSize; s->hist.load(st->v);
        s->s=std::make_unique<cli::CliSession>(*c,*s->os,histSize);
        Sess* p=s.get();
        p->s->ExitAction([this,p,tk=h::Token(),k=KeptOf(p->kept.get())](std::ostream& out){ checkOut(out); ev.push_back("sexit "+std::to_string(p->id)); });
        p->s->EnterAction([this,p,tk=h::Token(),k=KeptOf(p->kept.get())](std::ostream& out){ checkOut(out); ev.push_back("senter "+std::to_string(p->id)); });
        sess.push_back(std::move(s));
        LOG("open session %d hist=%zu",p->id,histSize);
        return p;
    }
    void close(Sess* s)
    {
        LOG("close session %d",s->id);
        for (size_t i=0;i<sess.size();++i) if (sess[i].get()==s) { auto k=s->kept; sess.erase(sess.begin()+long(i)); if (leaks&&*k) h::fail("release-session","a destroyed session keeps its actions"); if (leaks) h::stat("sessions-released"); return; }
    }
    string delta(Sess* s) { string a=s->os->str(); string d=a.substr(s->shown.size()); s->shown=a; return d; }

    // -------- model of a line
    struct Exp { vector<string> ev; enum { EXACT, ONCE } mode=EXACT; string out; Node* called=nullptr; bool help=false; string chain; };

    static bool fits(const Node* n,const vector<string>& w,vector<string>& args)
    {
        if (n->kind==Kind::FREE) { for (size_t i=1;i<w.size();++i) args.push_back("s"+w[i]); return w[0]==n->name; }
        if (w[0]!=n->name||w.size()!=n->types.size()+1) return false;
        for (size_t i=0;i<n->types.size();++i) { string v; if (!model::value(n->types[i],w[i+1],v)) return false; args.push_back(v); }
        return true;
    }
    struct Hit { Node* n=nullptr; vector<string> args; };
    static bool inEntries(Node* m,const vector<string>& w,Hit& hit)
    {
        for (Node* k: m->kids)
        {
            if (!k->enabled||!k->attached) continue;
            if (k->kind==Kind::MENU) { if (inMenu(k,{k->name},w,hit)) return true; }
            else { vector<string> a; if (fits(k,w,a)) { hit.n=k; hit.args=a; return true; } }
        }
        return m->parent && inMenu(m->parent,{m->parent->name,".."},w,hit);
    }
    // the menu addressed by one of the names
    static bool inMenu(Node* m,const vector<string>& names,const vector<string>& w,Hit& hit)
    {
        if (!m->enabled) return false;
        if (std::find(names.begin(),names.end(),w[0])==names.end()) return false;
        if (w.size()==1) { hit.n=m; return true; }
        return inEntries(m,vector<string>(w.begin()+1,w.end()),hit);
    }
    Node* current(Sess* s) { if (!s->cur->alive()) s->cur=root; return s->cur; }

    static string helpEntry(const Node* n)
    {
        string r=" - "+n->name;
        if (n->kind==Kind::MENU) return r+"\n\t"+n->help+"\n";
        if (!n->parDesc.empty()) for (auto& p: n->parDesc) r+=" <"+p+">";
        else if (n->kind==Kind::FREE) r+=" <list of strings>";
        else for (T t: n->types) r+=string(" ")+model::typeName(t);
        return r+"\n\t"+n->help+"\n";
    }
    string helpText(Sess* s)
    {
        string r="Commands available:\n";
        r+=" - help\n\tThis help message\n - exit\n\tQuit the session\n - history\n\tShow the history\n - ! <history entry index>\n\tExec a command by index in the history\n";
        Node* m=current(s);
        if (m->enabled)
        {
            for (Node* k: m->kids) if (k->attached&&k->enabled) r+=helpEntry(k);
            if (m->parent&&m->parent->enabled) r+=helpEntry(m->parent);
        }
        return r;
    }

    // completions
    static bool starts(const string& s,const string& p) { return s.compare(0,p.size(),p)==0; }
    static string ltrim(const string& s) { size_t i=0; while (i<s.size()&&isspace(static_cast<unsigned char>(s[i]))) ++i; return s.substr(i); }
    static bool wordOf(const string& line,const string& w) { return starts(line,w)&&(line.size()==w.size()||isspace(static_cast<unsigned char>(line[w.size()]))); }
    static void compIn(Node* m,const string& line,const string& prefix,std::set<string>& out)
    {
        for (Node* k: m->kids)
        {
            if (!k->attached||!k->enabled) continue;
            if (k->kind==Kind::MENU && wordOf(line,k->name)) compIn(k,ltrim(line.substr(k->name.size())),prefix+k->name+" ",out);
            else if (starts(k->name,line)) out.insert(prefix+k->name);
        }
        Node* p=m->parent;
        if (p&&p->enabled)
        {
            if (wordOf(line,p->name)) compIn(p,ltrim(line.substr(p->name.size())),prefix+p->name+" ",out);
            else if (wordOf(line,"..")) compIn(p,ltrim(line.substr(2)),prefix+".. ",out);
            else if (starts(p->name,line)) out.insert(prefix+p->name);
        }
    }
    vector<string> completions(Sess* s,const string& l)
    {
        std::set<string> out;
        string line=ltrim(l);
        for (const char* b: {"help","exit","history","!"}) if (starts(b,line)) out.insert(b);
        Node* m=current(s);
        if (m->enabled) compIn(m,line,"",out);
        return vector<string>(out.begin(),out.end());
    }

    // what must happen for the line (the history model is updated)
    Exp expect(Sess* s,const string& line,vector<unsigned long> recalling={})
    {
        Exp e;
        if (s->exited) return e;
        auto w=model::words(line);
        if (w.empty()) return e;
        s->hist.submit(line);
        string v;
        if (w.size()==1 && w[0]=="help") { e.help=true; e.out=helpText(s); return e; }
        if (w.size()==1 && w[0]=="history") { e.out=s->hist.show(); return e; }
        if (w.size()==1 && w[0]=="exit")
        {
            e.ev={"sexit "+std::to_string(s->id),"gexit","store"}; auto own=s->hist.toStore();
            for (auto& x: own) e.ev.back()+="|"+x;
            s->exited=true; st->store(own); return e;
        }
        if (w.size()==2 && w[0]=="!" && model::value(T::UINT,w[1],v))
        {
            unsigned long n=strtoul(v.c_str(),0,10);
            s->hist.undo();
            bool cyc=std::find(recalling.begin(),recalling.end(),n)!=recalling.end();
            if (!s->hist.has(n)||cyc)
            {
                h::stat(cyc?"recall-cycle":"recall-unknown");
                if (excSet) e.ev={"exc "+line,"what *"}; else { e.mode=Exp::ONCE; e.out="\n"; }
                return e;
            }
            h::stat("recall-hit");
            recalling.push_back(n);
            string entry=s->hist.at(n);
            e=expect(s,entry,recalling);
            return e;
        }
        Hit hit;
        Node* cur=current(s);
        bool ok=cur->enabled && inEntries(cur,w,hit);
        if (!ok)
        {
            h::stat("line-wrong");
            if (wrongSet) e.ev={"wrong "+line}; else { e.mode=Exp::ONCE; e.out=line; }
            return e;
        }
        if (hit.n->kind==Kind::MENU) { h::stat("line-menu"); s->cur=hit.n; return e; }
        h::stat("line-call");
        e.called=hit.n;
        string c0="call "+std::to_string(hit.n->id);
        for (auto& a: hit.args) c0+=" ["+a+"]";
        e.ev={c0}; e.out=hit.n->act.text;
        if (hit.n->act.what==10)
        {
            e.ev.insert(e.ev.end(),{"sexit "+std::to_string(s->id),"gexit","store"}); auto own=s->hist.toStore();
            for (auto& x: own) e.ev.back()+="|"+x;
            s->exited=true; st->store(own);
        }
        if (hit.n->act.what==1)
        {
            string what,type; bool stdex=exText(hit.n,what,type);
            if (stdex) { if (excSet) { e.ev.push_back("exc "+line); e.ev.push_back("what ("+type+") "+what); } else e.out+=what+"\n"; }
            else { e.mode=Exp::ONCE; e.out=line; }
        }
        return e;
    }

    // runs the line for real and compares
    void feed(Sess* s,const string& line,const char* key="dispatch")
    {
        LOG("feed %d: %s",s->id,h::esc(line).c_str());
        h::stat("lines");
        active=s; ev.clear(); delta(s);
        string before=s->os->str();
        vector<Node*> curs; // nothing else moves
        Exp e=expect(s,line);
        s->s->Feed(line);
        active=nullptr; removedAreReleased("after the line");
        string d=delta(s);
        vector<string> o=ev;
        for (size_t i=0;i<e.ev.size()&&i<o.size();++i) if (e.ev[i]=="what *"&&o[i].compare(0,5,"what ")==0) o[i]="what *";
        // the moment in which the history is stored is free
        string so=takeStore(o), se=takeStore(e.ev);
        if (so!=se) h::fail("store","line '"+line+"': expected to store {"+se+"} observed {"+so+"}");
        if (o!=e.ev)
        {
            string a,b; for (auto& x: e.ev) a+=x+" ; "; for (auto& x: o) b+=x+" ; ";
            h::fail(string(key)+"-events","line '"+line+"': expected {"+a+"} observed {"+b+"} output '"+d+"'");
        }
        checkDelta(key,line,e,d);
        h::distinct(string(key)+"|"+std::to_string(e.called?e.called->id:-1)+"|"+line);
    }
    static string takeStore(vector<string>& v)
    {
        string r;
        for (size_t i=0;i<v.size();) { if (v[i].compare(0,5,"store")==0) { r+="("+v[i]+")"; v.erase(v.begin()+long(i)); } else ++i; }
        return r;
    }
    static size_t count(const string& a,const string& b) { size_t n=0; for (size_t i=a.find(b);i!=string::npos;i=a.find(b,i+std::max<size_t>(1,b.size()))) ++n; return n; }
    void checkDelta(const char* key,const string& line,const Exp& e,string d)
    {
        if (e.mode==Exp::EXACT) { if (d!=e.out) h::fail(string(key)+(e.help?"-help":"-output"),"line '"+line+"': expected output '"+e.out+"' observed '"+d+"'"); }
        else
        {
            if (e.called) { auto& t=e.called->act.text; if (!starts(d,t)) h::fail(string(key)+"-output","handler output lost: '"+d+"'"); d=d.substr(t.size()); }
            if (e.out=="\n") { if (d.empty()) h::fail(string(key)+"-report","line '"+line+"': nothing reported"); return; }
            static const string fixed="wrong command: Cli. Unknown exception caught handling command line \"\"\n";
            size_t n=count(d,e.out);
            if (n<1 || (n>1 && e.out.size()>2 && count(fixed,e.out)==0)) h::fail(string(key)+"-report","line '"+line+"': report '"+d+"'");
        }
    }
    void prompt(Sess* s)
    {
        delta(s);
        s->s->Prompt();
        string d=delta(s);
        Node* m=current(s);
        string e = s->exited ? "" : (m->prompt.empty()?m->name:m->prompt)+"> ";
        if (model::stripSgr(d)!=e) h::fail("prompt","expected prompt '"+e+"' observed '"+d+"'");
        h::stat("prompts");
    }
    void complete(Sess* s,const string& line)
    {
        auto e=completions(s,line); auto g=s->s->GetCompletions(line);
        LOG("complete %d '%s' -> %zu",s->id,h::esc(line).c_str(),g.size());
        h::stat("completions"); h::stat("completions-offered",(long long)g.size());
        h::distinct("comp|"+line+"|"+std::to_string(g.size()));
        if (e!=g) { string a,b; for (auto& x: e) a+="["+x+"]"; for (auto& x: g) b+="["+x+"]"; h::fail("completion","text '"+line+"': expected "+a+" observed "+b); }
    }

    // -------- generators
    string argFor(T t)
    {
        for (int i=0;i<6;++i) { string w=argAny(t),v; if (r.chance(25)||(!w.empty()&&model::value(t,w,v))) return w; }
        return argAny(t);
    }
    string argAny(T t)
    {
        switch(t)
        {
            case T::BOOL: { static const vector<string> v={"true","false","0","1","2","True","+1","01","-0","yes"}; return r.pick(v); }
            case T::CHAR: { static const vector<string> v={"x","!"," ","xy","\\","'","9"}; return r.pick(v); }
            case T::FLOAT: case T::DOUBLE: case T::LDOUBLE: { static const vector<string> v={"1","-2.5","1e3","1e400","nan","0x1p3",".5","1.","abc","1 ","1e","-inf","3.4e38","1e39"}; return r.pick(v); }
            case T::STR: { static const vector<string> v={"s","a b","","it's","x!y","\"q\"","\\n","tab\there","long-word-with-many-characters","\xff\xfe"}; return r.pick(v); }
            case T::PT: { static const vector<string> v={"1x","2 y","x","3","-4z "}; return r.pick(v); }
            default: { static const vector<string> v={"0","1","-1","7","127","128","-128","-129","255","256","300","32767","32768","-32768","65535","65536","2147483647","2147483648","-2147483648","4294967295","4294967296","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","99999999999999999999999","+5","","-","007","0x1","1a","--1"," 1"}; return r.pick(v); }
        }
    }
    // a line that reaches something from s (mostly)
    string genLine(Sess* s)
    {
        int k=int(r.below(100));
        if (k<6) return "help";
        if (k<10) return "history";
        if (k<12) return "  ";
        vector<string> w;
        Node* m=current(s);
        const bool far=o.depth>4&&r.chance(60);
        for (int steps=0;steps<(far?30:5);++steps)
        {
            if (m->parent && r.chance(far?5:25)) { w.push_back(r.chance(50)?"..":m->parent->name); m=m->parent; if (r.chance(35)) break; continue; }
            if (m->kids.empty()) { if (m->parent) { w.push_back(".."); m=m->parent; continue; } break; }
            Node* n=r.pick(m->kids);
            if (far) for (Node* q: m->kids) if (q->kind==Kind::MENU&&r.chance(70)) { n=q; break; }
            w.push_back(n->name);
            if (n->kind==Kind::MENU) { m=n; h::statMax("path",steps+1); if (r.chance(far?6:40)) break; continue; }
            if (n->kind==Kind::FREE) { int q=r.range(0,3); for (int i=0;i<q;++i) w.push_back(argFor(T::STR)); }
            else { for (T t: n->types) w.push_back(argFor(t)); if (r.chance(6)) w.push_back("extra"); if (r.chance(6)&&w.size()>1) w.pop_back(); }
            break;
        }
        if (r.chance(5)) w.insert(w.begin(),newName());
        if (r.chance(3)&&!w.empty()) w[r.below(w.size())]=newName();
        string l;
        if (r.chance(10)) l+="  ";
        for (size_t i=0;i<w.size();++i)
        {
            if (i) l+=r.chance(85)?" ":(r.chance(50)?"\t":"   ");
            l+=w[i].empty()?string("''"):model::quote(w[i],r);
        }
        if (r.chance(8)) l+=" ";
        return l;
    }
    string genText(Sess* s)
    {
        string l=genLine(s);
        // completion works on the text as typed: drop quoting most of the times
        if (r.chance(70)) { vector<string> w=model::words(l); l=""; for (size_t i=0;i<w.size();++i) l+=(i?" ":"")+w[i]; }
        if (r.chance(60)&&!l.empty()) l.resize(r.below(l.size()+1));
        if (r.chance(10)) l+=" ";
        if (r.chance(10)) l=" "+l;
        if (r.chance(5)) l+=newName();
        return l;
    }
    static bool exText(const Node* n,string& what,string& type);
    [[noreturn]] static void doThrow(const Node* n);

    // -------- handle operations
    Node* anyNode() { return nodes[r.below(nodes.size())].get(); }
    void handleOp(Node* n,int what)
    {
        if (n->hs.empty()) return;
        cli::CmdHandler hd=n->hs[r.below(n->hs.size())]; // copies of handles are as good as the original
        if (r.chance(10)) n->hs.push_back(hd);
        // a handle moved from can still be used: it does the same as the other, or nothing
        const bool moved=r.chance(10); cli::CmdHandler from(hd); if (moved) { hd=cli::CmdHandler(); hd=std::move(from); h::stat("moved-handles"); }
        const bool alive=n->alive(); // otherwise the handle does nothing
        switch(what)
        {
            case 2: LOG("disable %d",n->id); hd.Disable(); if (alive) n->enabled=false; h::stat("op-disable"); break;
            case 3: LOG("enable %d",n->id); hd.Enable(); if (alive) n->enabled=true; h::stat("op-enable"); break;
            case 4: LOG("remove %d",n->id); hd.Remove(); if (n->parent&&n->attached) n->attached=false; h::stat(alive?"op-remove":"op-remove-dead"); break;
        }
        if (what==4) removedAreReleased("after the removal");
        if (moved) switch(what) { case 2: from.Disable(); break; case 3: from.Enable(); break; case 4: from.Remove(); break; }
    }
    // a live menu where something can be inserted
    Node* liveMenu()
    {
        vector<Node*> v;
        for (auto& n: nodes) if (n->kind==Kind::MENU&&n->alive()) v.push_back(n.get());
        return r.pick(v);
    }
};

inline void SpyStorage::Store(const vector<string>& cm)
{
    string e="store"; for (auto& x: cm) e+="|"+x;
    w->ev.push_back(e);
    in->Store(cm);
}

// text and dynamic type of the exception thrown by n; false if it's not a standard one
inline bool World::exText(const Node* n,string& what,string& type)
{
    try { doThrow(n); } catch (const std::exception& e) { what=e.what(); type=typeid(e).name(); return true; } catch (...) { return false; }
}
inline void World::doThrow(const Node* n)
{
    string t="boom"+std::to_string(n->id);
    switch(n->act.ex)
    {
        case 0: throw std::runtime_error(t);
        case 1: throw std::bad_alloc();
        case 2: throw std::out_of_range(t);
        case 3: throw VirtEx(t);
        case 4: throw MultiEx(t);
        case 5: throw std::invalid_argument(t);
        case 6: throw std::bad_cast();
        case 7: throw CastEx(t);
        case 8: throw std::exception();
        case 9: throw std::logic_error("");
        case 10: throw 42;
        case 11: throw "literal";
        case 12: throw std::string("str");
        case 13: throw NonStd{1};
        case 14: throw std::bad_function_call();
        case 16: (void)cli::detail::from_string<int>("boom"); abort();
        case 17: (void)cli::detail::from_string<unsigned char>("256"); abort();
        case 18: { try { throw std::runtime_error(t); } catch (...) { std::rethrow_exception(std::current_exception()); } }
        // every other family of the standard library
        case 19: throw std::ios_base::failure(t);
        case 20: throw std::system_error(std::make_error_code(std::errc::io_error),t);
        case 21: throw std::bad_weak_ptr();
        case 22: throw std::bad_typeid();
        case 23: throw std::bad_exception();
        case 24: throw std::bad_array_new_length();
        case 25: throw std::regex_error(std::regex_constants::error_paren);
        case 26: throw std::future_error(std::future_errc::broken_promise);
        case 27: throw std::filesystem::filesystem_error(t,std::make_error_code(std::errc::not_a_directory));
        case 28: throw std::bad_variant_access();
        case 29: throw std::bad_optional_access();
        case 30: throw std::bad_any_cast();      // a std::bad_cast
        case 31: throw std::length_error(t);
        case 32: { try { throw std::overflow_error(t); } catch (...) { std::throw_with_nested(std::domain_error(t+" nested")); } }
        case 33: { static std::runtime_error e("pointer"); throw &e; }
        default: throw nullptr;
    }
}
inline void World::onCall(int id,std::ostream& out,const vector<string>& args)
{
    Node* n=nodes[size_t(id)].get();
    checkOut(out);
    string e="call "+std::to_string(id);
    for (auto& a: args) e+=" ["+a+"]";
    ev.push_back(e);
    out<<n->act.text;
    Node* t=nullptr;
    int what=n->act.what;
    switch(what)
    {
        case 1: doThrow(n);
        case 2: case 3: case 4: t=anyNode(); handleOp(t,what); break;
        case 5: { Node* m=liveMenu(); if (r.chance(80)) addCmd(m); else addMenu(m); h::stat("op-insert-in-handler"); break; }
        case 6: break; // see C13
        case 7: handleOp(n,4); h::stat("op-remove-self"); break;
        case 8: handleOp(n,2); break;
        case 9: if (n->parent&&n->parent->parent) { handleOp(n->parent,4); h::stat("op-remove-own-menu"); } break;
        case 10: { Sess* s=active; LOG("handler ends the session"); s->s->Exit(); if (r.chance(40)) s->s->Exit(); h::stat("handlers-exiting"); break; }
        default: break;
    }
}

} // namespace world
