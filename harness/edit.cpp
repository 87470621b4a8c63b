// Properties decided on the line editor driven by keys: C07 C05 (Tab) C08 (keys) C23 C21 (keys) C03
#include "world.h"
#include "term.h"
#include <cli/detail/commandprocessor.h>
#include <cli/detail/telnetscreen.h>
#include <cli/colorprofile.h>
#include <fstream>
using namespace world;
using cli::detail::KeyType;

struct SyncSched : cli::Scheduler
{
    std::deque<std::function<void()>> q;
    void Post(const std::function<void()>& f) override { q.push_back(f); }
    void run() { while (!q.empty()) { auto f=q.front(); q.pop_front(); f(); } }
};
struct Dev : cli::detail::InputDevice
{
    explicit Dev(cli::Scheduler& s):InputDevice(s) {}
    int depth=0,bad=0;
    void ActivateInput() override { --depth; }
    void DeactivateInput() override { ++depth; }
    void key(KeyType k,char c=0) { Notify({k,c}); }
};

struct Rig
{
    Rng& r; World w; Sess* s=nullptr; SyncSched sched; std::unique_ptr<Dev> dev; std::unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp;
    term::Emu emu; string line; size_t pos=0; string prefix; // text of the row before the line
    string color; bool everOn=false; bool sharp=true;
    Rig(Rng& _r,Opts o):r(_r),w(_r,o) {}
    string promptText() { Node* m=w.current(s); return (m->prompt.empty()?m->name:m->prompt)+"> "; }
    string take() { string d=w.delta(s); if (color=="never"&&hasSgr(d)) h::fail("color-never","colour sequence written although colours were never switched on: '"+d+"'"); return d; }
    static bool hasSgr(const string& d) { return model::stripSgr(d)!=d; }
    void start(size_t hist)
    {
        s=w.open(hist);
        w.active=s; w.ev.clear(); s->s->Enter(); w.active=nullptr;
        dev=std::make_unique<Dev>(sched);
        cp=std::make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s->s,*dev);
        s->s->Prompt();
        string d=take(); checkPromptColor(d);
        if (model::stripSgr(d)!=promptText()) h::fail("prompt","first prompt '"+d+"'");
        emu.feed(d); prefix=promptText();
        screen("start");
    }
    void screen(const char* what)
    {
        if (s->exited) return;
        if (h::ctx().prop=="C07"&&VisStream::pending(s->os)) h::fail("not-flushed",string("after ")+what+": "+std::to_string(VisStream::pending(s->os))+" characters are not flushed: a terminal does not show them yet");
        if (emu.unknown) return; // sequences this emulator does not know: no answer
        string e=prefix+line, g=emu.row(emu.r);
        if (g!=term::rtrim(e)) h::fail("screen",string("after ")+what+": the row shows '"+g+"' instead of '"+e+"'");
        if (emu.c!=prefix.size()+pos) h::fail("cursor",string("after ")+what+": cursor at "+std::to_string(emu.c)+" instead of "+std::to_string(prefix.size()+pos)+" line '"+line+"'");
        // nothing below
        for (size_t i=emu.r+1;i<emu.rows.size();++i) if (!emu.row(i).empty()) h::fail("screen-below",string("after ")+what+": '"+emu.row(i)+"' is left below");
        if (emu.col) h::fail("color-leak",string("after ")+what+": the colour is still on");
        h::stat("screens-checked");
        h::distinct(std::to_string(pos)+"|"+line+"|"+what);
    }
    void checkPromptColor(const string& d)
    {   // d ends with a prompt
        if (color!="on") return;
        string p=promptText();
        // first visible character of the prompt coloured, reset at the end
        term::Emu e; e.feed(d);
        string full=e.rowFull(e.r);
        if (full.size()<p.size()) return;
        size_t b=full.size()-p.size();
        if (d.find(p)==string::npos) return;
        if (!e.rows[e.r][b].col) h::fail("color-prompt","colours are on but the prompt '"+p+"' is not coloured: '"+d+"'");
        if (e.col) h::fail("color-prompt-reset","the colour is not reset after the prompt: '"+d+"'");
        h::stat("coloured-prompts");
    }
    void key(KeyType k,char c=0)
    {
        static const char* names[]={"ascii","up","down","left","right","backspace","canc","home","end","ret","eof","ignored","clear"};
        LOG("key %s %s",names[int(k)],k==KeyType::ascii?h::esc(string(1,c)).c_str():"");
        h::stat("keys");
        if (color=="toggle"&&r.chance(10)) { if (r.chance(50)) cli::SetColor(); else cli::SetNoColor(); h::stat("colour-switches"); }
        if (s->exited) { w.ev.clear(); size_t n=s->os->str().size(); dev->key(k,c); sched.run(); if (!w.ev.empty()) h::fail("after-exit","key after exit ran "+w.ev[0]); string d=s->os->str().substr(n); (void)d; h::stat("keys-after-exit"); return; }
        if (k==KeyType::ascii&&c=='\t') { tab(); return; }
        switch(k)
        {
            case KeyType::ret: enter(); return;
            case KeyType::eof: eof(); return;
            case KeyType::ascii: line.insert(line.begin()+long(pos),c); ++pos; break;
            case KeyType::backspace: if (pos) { --pos; line.erase(pos,1); } break;
            case KeyType::canc: if (pos<line.size()) line.erase(pos,1); break;
            case KeyType::left: if (pos) --pos; break;
            case KeyType::right: if (pos<line.size()) ++pos; break;
            case KeyType::home: pos=0; break;
            case KeyType::end: pos=line.size(); break;
            case KeyType::up: line=s->hist.up(line); pos=line.size(); h::stat("up"); break;
            case KeyType::clear: pos=line.size(); break;
            case KeyType::down: line=s->hist.down(); pos=line.size(); h::stat("down"); break;
            default: break;
        }
        w.ev.clear();
        dev->key(k,c); sched.run();
        if (!w.ev.empty()) h::fail("key-event","an editing key ran something: "+w.ev[0]);
        string d=take(); emu.feed(d);
        if (k==KeyType::clear)
        {
            prefix=promptText();
            for (size_t i=0;i<emu.rows.size();++i) if (i!=emu.r&&!emu.row(i).empty()) h::fail("clear","after clear-screen the screen still shows '"+emu.row(i)+"'");
            if (emu.r!=0) h::fail("clear","after clear-screen the cursor is on row "+std::to_string(emu.r));
            checkPromptColorIn(d); h::stat("clears");
        }
        if (k==KeyType::ascii&&cli::Color())
        {
            // the character typed is bracketed by a colour sequence and a reset
            term::Emu e; e.feed(d);
            if (e.rows[0].empty()||!e.rows[0][0].col) h::fail("color-input","colours are on but the typed character is not coloured: '"+d+"'");
            if (e.col) h::fail("color-input-reset","the colour is not reset after the typed character: '"+d+"'");
            h::stat("coloured-input");
        }
        screen(names[int(k)]);
    }
    void checkPromptColorIn(const string& d) { if (color=="on"&&!hasSgr(d)) h::fail("color-prompt","colours are on but the prompt is not coloured: '"+d+"'"); }
    void eof()
    {
        auto own=s->hist.toStore(); string e="store"; for (auto& x: own) e+="|"+x;
        w.ev.clear(); w.active=s; s->exited=true; w.st->store(own);
        dev->key(KeyType::eof); sched.run(); w.active=nullptr;
        vector<string> o=w.ev; string so=World::takeStore(o);
        if (so!="("+e+")") h::fail("store","end of input: expected {"+e+"} observed {"+so+"}");
        if (o!=vector<string>{"sexit "+std::to_string(s->id),"gexit"}) h::fail("exit","exit actions not run once in order at the end of the input");
        string d=model::stripSgr(take());
        if (d.find("> ")!=string::npos) h::fail("prompt-after-exit","'"+d+"'");
        h::stat("eofs");
    }
    void enter()
    {
        string l=line; line.clear(); pos=0;
        w.active=s; w.ev.clear();
        auto e=w.expect(s,l);
        bool wasColor=cli::Color();
        dev->key(KeyType::ret); sched.run(); w.active=nullptr;
        string raw=take(); emu.feed(raw);
        vector<string> o=w.ev;
        for (size_t i=0;i<e.ev.size()&&i<o.size();++i) if (e.ev[i]=="what *"&&o[i].compare(0,5,"what ")==0) o[i]="what *";
        string so=World::takeStore(o), se=World::takeStore(e.ev);
        if (so!=se) h::fail("store","line '"+l+"': expected to store {"+se+"} observed {"+so+"}");
        if (o!=e.ev) { string a,b; for (auto& x: e.ev) a+=x+" ; "; for (auto& x: o) b+=x+" ; "; h::fail("submit","line '"+l+"': expected {"+a+"} observed {"+b+"}"); }
        string d=model::stripSgr(raw);
        size_t k = d.compare(0,2,"\r\n")==0?2:d.compare(0,1,"\n")==0?1:0;
        if (!k) h::fail("submit-newline","Enter did not go to a new row: '"+d+"'");
        d=d.substr(k);
        if (s->exited) { if (d.find(promptText())!=string::npos&&e.out.empty()) h::fail("prompt-after-exit","'"+d+"'"); h::stat("exits"); return; }
        string p=promptText();
        if (d.size()<p.size()||d.compare(d.size()-p.size(),p.size(),p)!=0) h::fail("prompt-missing","after '"+l+"': '"+d+"' does not end with the prompt '"+p+"'");
        string mid=d.substr(0,d.size()-p.size());
        if (mid.size()>=p.size()&&e.out.find(p)==string::npos&&e.mode==World::Exp::EXACT&&mid!=e.out&&mid.find(p)!=string::npos) h::fail("prompt-twice","after '"+l+"': '"+d+"'");
        w.checkDelta("submit",l,e,mid);
        size_t nl=mid.rfind('\n'); prefix=(nl==string::npos?mid:mid.substr(nl+1))+p;
        // colours: the output of the handler is plain, the prompt is coloured
        if (wasColor&&cli::Color())
        {
            term::Emu c; c.feed(raw);
            if (c.col) h::fail("color-prompt-reset","the colour is not reset after the prompt: '"+raw+"'");
            auto& row=c.rows[c.r];
            size_t b=row.size()>=p.size()?row.size()-p.size():0;
            if (!row[b].col) h::fail("color-prompt","colours are on but the prompt is not coloured: '"+raw+"'");
            for (size_t i=0;i<c.rows.size();++i) for (size_t j=0;j<c.rows[i].size();++j) if (!(i==c.r&&j>=b)&&c.rows[i][j].col) h::fail("color-output","output '"+mid+"' is coloured: '"+raw+"'");
            h::stat("coloured-prompts");
        }
        h::stat("submitted");
        screen("enter");
    }
    void tab()
    {
        auto cs=w.completions(s,line);
        string before=line; size_t oldRow=emu.r; string oldText=prefix+line;
        w.ev.clear(); dev->key(KeyType::ascii,'\t'); sched.run();
        string d=take(); emu.feed(d);
        if (!w.ev.empty()) h::fail("key-event","Tab ran something: "+w.ev[0]);
        if (cs.empty()) { if (!model::stripSgr(d).empty()) { screen("tab without completions"); } h::stat("tab-none"); screen("tab without completions"); return; }
        if (cs.size()==1) { line=cs[0]+" "; pos=line.size(); h::stat("tab-one"); screen("tab with one completion"); return; }
        string cp0=cs[0]; for (auto& x: cs) { size_t i=0; while (i<cp0.size()&&i<x.size()&&cp0[i]==x[i]) ++i; cp0.resize(i); }
        if (cp0.size()>before.size()) { line=cp0; pos=line.size(); h::stat("tab-prefix"); screen("tab extending to the common prefix"); return; }
        // the list
        pos=line.size(); prefix=promptText();
        h::stat("tab-list"); if (cs.size()>50) h::stat("tab-list-wide");
        screen("tab listing");
        if (emu.r<=oldRow) h::fail("tab-list","no list shown");
        if (emu.row(oldRow)!=term::rtrim(oldText)) h::fail("tab-list-old","the row above changed to '"+emu.row(oldRow)+"' from '"+oldText+"'");
        string txt; for (size_t i=oldRow+1;i<emu.r;++i) txt+=emu.rowFull(i)+"\t";
        // each completion once, in order (they are separated by tabs)
        vector<string> items; { string cur; for (char ch: txt) { if (ch=='\t') { cur=term::rtrim(cur); size_t f=cur.find_first_not_of(' '); if (f!=string::npos) items.push_back(cur.substr(f)); cur.clear(); } else cur+=ch; } }
        vector<string> want; for (auto& x: cs) { string y=term::rtrim(x); want.push_back(y); }
        if (items!=want) { string a,b; for (auto& x: want) a+="["+x+"]"; for (auto& x: items) b+="["+x+"]"; h::fail("tab-list-items","expected "+a+" shown "+b); }
    }
};
static char printable(Rng& r) { return r.chance(88)?char(r.range(32,126)):char(r.range(128,254)); }
static void editCase(Rng& r)
{
    const string P=h::ctx().prop;
    Opts o; o.menus=r.range(0,4); o.cmds=r.range(2,8); o.throws=r.chance(20); o.namesWithSpaces=(P=="C05")&&r.chance(30); if (r.chance(P=="C05"?2:1)) { o.wide=true; o.cmds=r.range(60,r.chance(20)?1200:200); h::stat("wide-menus"); } else if (r.chance(1)) { o.depth=12; o.menus=r.range(5,14); h::stat("deep-menus"); }
    if (P=="C05"||P=="C25") o.actions=r.chance(40);
    Rig g(r,o);
    g.color=h::ctx().opt["--color"];
    if (g.color=="on") cli::SetColor(); else if (g.color!="toggle") cli::SetNoColor();
    if (r.chance(50)) setenv("TERM","xterm-256color",1); else unsetenv("TERM");
    g.w.buildTree();
    if (r.chance(40)) { vector<string> pre; int n=r.range(0,6); for (int i=0;i<n;++i) pre.push_back(r.chance(70)?"old"+std::to_string(r.below(4)):"a much longer line that was entered earlier"); g.w.st->store(pre); auto st=std::make_unique<cli::VolatileHistoryStorage>(1000); st->Store(pre); g.w.finish(std::move(st)); }
    else g.w.finish(std::make_unique<cli::VolatileHistoryStorage>(1000));
    static const vector<size_t> sizes={0,1,2,3,5,20,100};
    g.start(r.pick(sizes));
    int steps=r.range(10,P=="C07"?90:60); const bool longLine=r.below(P=="C07"?200:1000)==0;
    for (int i=0;i<steps;++i)
    {
        int k=int(r.below(100));
        const bool noise=r.chance(35);
        auto wipe=[&]{ g.key(KeyType::end); while (!g.line.empty()&&!g.s->exited) g.key(KeyType::backspace); };
        auto type=[&](const string& t){ for (char c: t) { if (c=='\n'||c=='\t'||c=='\0'||c==char(255)||(c>0&&c<32)||c==127) c=' '; g.key(KeyType::ascii,c); if (noise&&r.chance(8)) g.key(r.chance(50)?KeyType::left:KeyType::backspace); } };
        if (longLine&&i==2)
        {   // a line longer than any buffer, edited in the middle
            h::stat("long-lines-edited");
            for (int j=0,n=r.range(300,1600);j<n&&!g.s->exited;++j) { g.key(KeyType::ascii,printable(r)); if (r.chance(2)) g.key(r.chance(50)?KeyType::left:r.chance(50)?KeyType::home:KeyType::end); }
            continue;
        }
        if (o.wide&&(i==3||i==9)) { wipe(); if (r.chance(50)) type("w"); g.key(KeyType::ascii,'\t'); if (!g.s->exited) continue; }
        if (P=="C05"||P=="C25")
        {
            if (k<40) { if (r.chance(70)) wipe(); string t=g.w.genText(g.s); type(t); g.key(KeyType::ascii,'\t'); if (r.chance(50)) g.key(KeyType::ascii,'\t'); continue; }
            if (k<48) { g.key(KeyType::ascii,'\t'); continue; }
            if (k<60) { wipe(); string t=g.w.genLine(g.s); type(t); g.key(KeyType::ret); continue; }
        }
        if (k<14) { if (r.chance(50)) wipe(); string t=g.w.genLine(g.s); if (r.chance(40)) t=t.substr(0,r.below(t.size()+1)); type(t); if (r.chance(60)) g.key(KeyType::ret); continue; }
        if (k<(P=="C08"?50:24)) { g.key(r.chance(60)?KeyType::up:KeyType::down); continue; }
        if (k<30) { if (r.chance(40)) { wipe(); type(g.w.genText(g.s)); } g.key(KeyType::ascii,'\t'); continue; }
        if (k<32) { if (r.chance(80)) wipe(); type(r.chance(50)?"history":"! "+std::to_string(r.below(8))); g.key(KeyType::ret); continue; }
        static const KeyType ks[]={KeyType::left,KeyType::right,KeyType::backspace,KeyType::canc,KeyType::home,KeyType::end,KeyType::ret,KeyType::clear,KeyType::ignored,KeyType::left,KeyType::left,KeyType::canc,KeyType::backspace};
        if (k<75) { g.key(ks[r.below(13)]); continue; }
        if (k<76&&r.chance(20)) { g.key(KeyType::eof); continue; }
        int n=r.range(1,r.chance(5)?200:4); for (int j=0;j<n;++j) g.key(KeyType::ascii,printable(r));
    }
    if (r.chance(20)) h::sample(string(h::ctx().page->log,std::min<size_t>(500,h::ctx().page->len)));
}
// any key code and any character: only termination and memory safety
static void wildCase(Rng& r)
{
    Opts o; o.menus=r.range(0,4); o.cmds=r.range(1,8); o.throws=r.chance(30); o.namesWithSpaces=true; o.actions=r.chance(40);
    World w(r,o); w.buildTree(); w.finish(std::make_unique<cli::VolatileHistoryStorage>(size_t(r.range(0,5))));
    static const vector<size_t> sizes={0,1,2,3,100};
    Sess* s=w.open(r.pick(sizes));
    SyncSched sched; Dev dev(sched); 
    auto cp=std::make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s->s,dev);
    int n=r.range(5,400);
    for (int i=0;i<n;++i)
    {
        KeyType k=r.chance(60)?KeyType::ascii:KeyType(r.below(13));
        char c=r.chance(50)?char(r.below(256)):"ab \t\"'\\!hx0123"[r.below(14)];
        if (k==KeyType::eof&&r.chance(90)) k=KeyType::ret;
        LOG("key %d %d",int(k),int(static_cast<unsigned char>(c)));
        dev.key(k,c); if (r.chance(80)) sched.run();
        h::stat("keys");
    }
    h::distinct(string(h::ctx().page->log,h::ctx().page->len));
    sched.run();
}
// memory held by a session stays bounded: measured again and again at the same point of the life of the session
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_HEAP
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#endif
struct NullBuf : std::streambuf { int overflow(int c) override { return c==EOF?0:c; } std::streamsize xsputn(const char*,std::streamsize n) override { return n; } };
static void memoryCase(Rng& r)
{
#ifdef HAVE_HEAP
    NullBuf nb; std::ostream os(&nb);
    auto m=std::make_unique<cli::Menu>("m"); long n=0;
    m->Insert("a",[&,tk=h::Token()](std::ostream& o,const vector<string>& v){ ++n; o<<v.size(); });
    m->Insert("n",[&,tk=h::Token()](std::ostream&,int,double,char){ ++n; }); m->Insert("boom",[tk=h::Token()](std::ostream&){ throw std::runtime_error("boom"); }); m->Insert("odd",[tk=h::Token()](std::ostream&){ throw 7; });
    auto sub=std::make_unique<cli::Menu>("sub"); sub->Insert("b",[&,tk=h::Token()](std::ostream&){ ++n; }); auto hb=sub->Insert("c",[&,tk=h::Token()](std::ostream&){ ++n; }); m->Insert(std::move(sub));
    const size_t cap=r.chance(50)?5:50; cli::Cli c(std::move(m),std::make_unique<cli::VolatileHistoryStorage>(cap));
    c.WrongCommandHandler([tk=h::Token()](std::ostream&,const string&){}); c.StdExceptionHandler([tk=h::Token()](std::ostream&,const string&,const std::exception&){});
    static const vector<size_t> sizes={0,1,3,30}; const size_t H=r.pick(sizes); const int kind=int(r.below(3));
    SyncSched sched; std::unique_ptr<cli::CliSession> s; std::unique_ptr<Dev> dev; std::unique_ptr<cli::detail::CommandProcessor<cli::detail::TelnetScreen>> cp;
    auto open=[&]{ s=std::make_unique<cli::CliSession>(c,os,H); s->Enter(); if (kind!=1) { dev=std::make_unique<Dev>(sched); cp=std::make_unique<cli::detail::CommandProcessor<cli::detail::TelnetScreen>>(*s,*dev); } s->Prompt(); };
    auto close=[&]{ s->Exit(); cp.reset(); dev.reset(); s.reset(); };
    auto text=[&]{ static const vector<string> w={"a x y","a 'q w'","n 1 2 c","boom","odd","sub","b","sub b","m","history","help","! 1","!2","!999999","wrong"}; string t=r.pick(w); if (r.chance(30)) t+=std::to_string(r.below(100000)); return t.substr(0,40); };
    auto round=[&](int steps){
        for (int i=0;i<steps;++i)
        {
            if (kind==1) { s->Feed(text()); if (r.chance(30)) s->GetCompletions(text().substr(0,2)); if (r.chance(30)) s->PreviousCmd(text()); if (r.chance(20)) s->NextCmd(); }
            else { string t=text(); size_t b=0; for (char ch: t) { dev->key(KeyType::ascii,ch); if (r.chance(10)) { static const KeyType ks[]={KeyType::left,KeyType::right,KeyType::up,KeyType::down,KeyType::home,KeyType::end,KeyType::canc,KeyType::backspace,KeyType::clear,KeyType::ignored}; dev->key(ks[r.below(10)]); if (r.chance(20)) dev->key(KeyType::ascii,'\t'); } if (++b>40) break; } dev->key(KeyType::ret); sched.run(); }
            if (r.chance(2)) { hb.Disable(); hb.Enable(); }
            if (kind==2&&r.chance(20)) { close(); open(); }
            h::stat("memory-lines");
        }
        sched.run();
        close(); };
    size_t base=0; const int R=5; const int steps=h::ctx().thorough()?4000:700;
    open(); round(400); open(); round(400);
    for (int k=0;k<R;++k)
    {
        sched.q.shrink_to_fit();
        size_t now=__sanitizer_get_current_allocated_bytes();
        if (k==0) base=now;
        else if (now>base+16384) h::fail("memory-growth",h::fmt("after sessions of %d lines with history size %zu were closed %zu bytes are held instead of %zu",steps,H,now,base));
        h::statMax("memory-held",(long long)(now>base?now-base:0));
        // while the session is open
        open();
        size_t low=0; for (int q=0;q<3;++q) { for (int i=0;i<steps/3;++i) { if (kind==1) s->Feed(text()); else { for (char ch: text()) dev->key(KeyType::ascii,ch); if (r.chance(20)) { dev->key(KeyType::up); dev->key(KeyType::down); } dev->key(KeyType::ret); sched.run(); } h::stat("memory-lines"); }
            sched.q.shrink_to_fit(); size_t x=__sanitizer_get_current_allocated_bytes(); if (q==0) low=x; else if (x>low+16384) h::fail("memory-growth-open",h::fmt("an open session with history size %zu holds %zu bytes instead of %zu after %d more lines",H,x,low,q*steps/3)); }
        round(steps);
    }
    h::distinct(std::to_string(r.next())); h::stat("memory-cases");
#else
    (void)r; h::stat("memory-cases");
#endif
}
// output on the standard streams redirected to a file is not a terminal
static void stdStreams(Rng& r)
{
    if (h::ctx().caseNo%50) return;
    string f=h::ctx().dir+"/std"+std::to_string(getpid());
    fflush(stdout);
    int save1=dup(1),save2=dup(2); int fd=open(f.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
    dup2(fd,1); dup2(fd,2);
    setenv("TERM","xterm",1);
    {
        auto m=std::make_unique<cli::Menu>("std"); m->Insert("x",[tk=h::Token()](std::ostream& o){ o<<"X"; });
        cli::Cli c(std::move(m));
        for (auto* o: {&std::cout,&std::cerr,&std::clog})
        {
            std::istringstream in("x\nx 1\nhelp\nexit\n");
            cli::CliFileSession s(c,in,*o); s.Start(); o->flush();
        }
    }
    dup2(save1,1); dup2(save2,2); close(save1); close(save2);
    string t; char b[4096]; lseek(fd,0,SEEK_SET); ssize_t n; while ((n=read(fd,b,sizeof b))>0) t.append(b,size_t(n));
    close(fd); unlink(f.c_str());
    if (t.find("X")==string::npos) h::fail("std-output","nothing written: '"+t+"'");
    if (t.find('\x1b')!=string::npos) h::fail("color-never","colour sequence on a standard stream that is not a terminal: '"+t+"'");
    h::stat("std-streams");
}
int main(int argc,char** argv)
{
    h::init(argc,argv);
    const string P=h::ctx().prop;
    if (h::ctx().opt["--mode"]=="memory") return h::cases(memoryCase,60);
    if (P=="C21") return h::cases(wildCase);
    return h::cases([](Rng& r){ editCase(r); if (h::ctx().opt["--color"]=="never") stdStreams(r); });
}
