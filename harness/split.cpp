// C01, C13 and the file sessions of C12
#include "world.h"
#include <fstream>
using namespace world;

static string num(const char* f,long long v) { return h::fmt(f,v); }

// ---------------------------------------------------------------- C01
struct SplitRig
{
    vector<string> got; int calls=0,wrong=0,exc=0; std::ostringstream os;
    std::unique_ptr<cli::Cli> c; std::unique_ptr<cli::CliSession> s;
    SplitRig()
    {
        auto m=std::make_unique<cli::Menu>("m");
        m->Insert("w",[this,tk=h::Token()](std::ostream&,const vector<string>& a){ ++calls; got=a; });
        c=std::make_unique<cli::Cli>(std::move(m));
        c->WrongCommandHandler([this,tk=h::Token()](std::ostream&,const string&){ ++wrong; });
        c->StdExceptionHandler([this,tk=h::Token()](std::ostream&,const string&,const std::exception&){ ++exc; });
        s=std::make_unique<cli::CliSession>(*c,os,4);
    }
    void check(const string& line)
    {
        auto e=model::words(line);
        calls=wrong=exc=0; got.clear(); os.str("");
        bool builtin = !e.empty()&&(e[0]=="help"||e[0]=="exit"||e[0]=="history"||e[0]=="!");
        if (builtin) return;
        if (e.empty())
        {
            s->ShowHistory(); string h0=os.str(); os.str("");
            s->Feed(line);
            if (calls||wrong||exc||!os.str().empty()) h::fail("blank-line","line without words did something: '"+line+"'");
            s->ShowHistory();
            if (os.str()!=h0) h::fail("blank-history","line without words entered the history: '"+line+"'");
            h::stat("blank"); return;
        }
        s->Feed(line);
        if (exc) h::fail("split-exception","line '"+line+"'");
        if (e[0]!="w") { if (calls||wrong!=1) h::fail("split","line '"+line+"': first word should be '"+e[0]+"' but calls="+std::to_string(calls)); h::stat("firstword"); return; }
        e.erase(e.begin());
        if (calls!=1||wrong) h::fail("split","line '"+line+"' not dispatched");
        if (got!=e)
        {
            string a,b; for (auto& x: e) a+="<"+x+">"; for (auto& x: got) b+="<"+x+">";
            h::fail("split","line '"+line+"': expected words "+a+" observed "+b);
        }
        h::stat("words",(long long)e.size());
    }
};
static void c01(Rng& r)
{
    static SplitRig rig;
    static const string al="a \t\"'\\!b\n";
    // block of the exhaustive enumeration over 6 significant symbols
    static const string ex="a \"'\\!";
    const uint64_t per=2000;
    uint64_t base=h::ctx().caseNo*per;
    const int maxLen=h::ctx().thorough()?9:7;
    for (uint64_t k=base;k<base+per;++k)
    {
        uint64_t x=k; int len=0; uint64_t tot=1;
        while (x>=tot) { x-=tot; tot*=ex.size(); ++len; }
        if (len>maxLen) break;
        string s;
        for (int i=0;i<len;++i) { s+=ex[x%ex.size()]; x/=ex.size(); }
        rig.check("w "+s);
        rig.check("w"+s);
        if (len<=5) rig.check(s);
        h::stat("exhaustive-lines"); h::distinct(s);
    }
    for (int i=0;i<60;++i)
    {
        string s; int n=r.chance(90)?r.range(0,24):r.range(25,400);
        bool wild=r.chance(20);
        for (int j=0;j<n;++j) s+= wild&&r.chance(50)?char(r.below(256)):al[r.below(al.size())];
        if (i==0&&h::ctx().caseNo%50==0) { s.resize(20000); for (auto& c: s) c=al[r.below(al.size())]; }
        if (r.chance(2))
        {   // a character becomes a long run
            size_t at=r.below(s.size()+1); s.insert(at,string(size_t(r.range(50,6000)),r.chance(60)?'a':al[r.below(al.size())])); h::stat("long-runs");
        }
        if (r.chance(70)) s="w "+s;
        LOG("line %s",h::esc(s).c_str());
        rig.check(s);
        h::distinct(s); if (i==3) h::sample(s);
        h::stat("random-lines");
    }
}

// ---------------------------------------------------------------- C12: file sessions (and plain ones)
// input arriving in pieces, which can end in a read error instead of an end of file
struct PieceBuf : std::streambuf
{
    string s; size_t p=0; size_t piece; bool error; char b[64];
    PieceBuf(string x,size_t n,bool e):s(std::move(x)),piece(n),error(e) {}
    int underflow() override
    {
        if (p>=s.size()) { if (error) throw std::runtime_error("read error"); return EOF; }
        size_t n=std::min({piece,s.size()-p,sizeof b}); std::copy_n(s.data()+p,n,b); p+=n; setg(b,b,b+n); return static_cast<unsigned char>(b[0]);
    }
};
// interactive input: each line is typed when the session waits for it
struct LineBuf : std::streambuf
{
    vector<string> l; size_t i=0; std::function<void()> waiting;
    LineBuf(const string& x,std::function<void()> f):waiting(std::move(f)) { for (size_t b=0;b<x.size();) { size_t e=std::min(x.find('\n',b),x.size()-1); l.push_back(x.substr(b,e+1-b)); b=e+1; } }
    int underflow() override { if (i<l.size()||l.empty()||l.back().back()=='\n') waiting(); if (i>=l.size()) return EOF; string& x=l[i++]; setg(&x[0],&x[0],&x[0]+x.size()); return static_cast<unsigned char>(x[0]); }
};
static void fileSessionCase(Rng& r)
{
    // commands: rec (records), eat N (consumes N further lines), drain, thr, sub (menu), exit
    vector<string> ev; VisStream os; bool inside=false;
    std::istream* inp=nullptr;
    auto m=std::make_unique<cli::Menu>("fs");
    m->Insert("rec",[&,tk=h::Token()](std::ostream&,const vector<string>& a){ string e="rec"; for (auto& x: a) e+=" "+x; ev.push_back(e); });
    m->Insert("eat",[&,tk=h::Token()](std::ostream&,int n){ ev.push_back("eat"); inside=true; string l; for (int i=0;i<n;++i) std::getline(*inp,l); inside=false; });
    m->Insert("drain",[&,tk=h::Token()](std::ostream&){ ev.push_back("drain"); inside=true; string l; while (std::getline(*inp,l)) ; inside=false; });
    m->Insert("spoil",[&,tk=h::Token()](std::ostream&,bool bad){ ev.push_back("spoil"); inp->setstate(bad?std::ios::badbit:std::ios::failbit); }); // the input fails
    m->Insert("thr",[&,tk=h::Token()](std::ostream&){ ev.push_back("thr"); throw std::runtime_error("x"); });
    m->Insert("thr2",[&,tk=h::Token()](std::ostream&){ ev.push_back("thr2"); throw 5; });
    m->Insert("p",[&,tk=h::Token()](std::ostream& o){ ev.push_back("p"); o<<"P"; });
    auto sub=std::make_unique<cli::Menu>("sub"); sub->Insert("rec",[&,tk=h::Token()](std::ostream&,const vector<string>& a){ string e="subrec"; for (auto& x: a) e+=" "+x; ev.push_back(e); });
    m->Insert(std::move(sub));
    cli::Cli c(std::move(m));
    c.EnterAction([&,tk=h::Token()](std::ostream& o){ if (&o!=&os) h::fail("stream","enter action"); if (!os.str().empty()) h::fail("enter-late","enter action after the prompt"); ev.push_back("genter"); });
    c.ExitAction([&,tk=h::Token()](std::ostream& o){ if (&o!=&os) h::fail("stream","exit action"); ev.push_back("gexit"); });
    c.StdExceptionHandler([&,tk=h::Token()](std::ostream&,const string&,const std::exception&){ ev.push_back("exc"); });
    c.WrongCommandHandler([&,tk=h::Token()](std::ostream&,const string& l){ ev.push_back("wrong "+l); });
    bool userExit=r.chance(40), userEnter=r.chance(50);
    // generate the input
    string in; const bool many=r.chance(1)&&r.chance(50); int n=many?r.range(100,1500):r.range(0,14); if (many) h::stat("long-files"); vector<string> lines;
    for (int i=0;i<n;++i)
    {
        switch(r.below(12))
        {
            case 0: lines.push_back(""); break; case 1: lines.push_back("  \t "); break;
            case 2: lines.push_back("thr"); break; case 3: if (r.chance(40)) { static const vector<string> odd={"#rec x","# c","//x","--x",";x","\xef\xbb\xbfrec x","\\rec","@x","%x y","$HOME","~","rec #x","rec \"a b\" c","!x","! x","\xff","\x01","\x1a","\x04","rec\x0b","\x0crec","<x","|","&","rec;rec","rec x;p","\rrec x","\r","rec x # y","rec $x","rec ~","EXIT","Exit"," exit x","q","quit","history x","help x","rec \x1a y","rec a\x00b"}; lines.push_back(r.pick(odd)); h::stat("odd-lines"); break; } lines.push_back("nope "+std::to_string(i)); break;
            case 4: lines.push_back(r.chance(50)?"sub":".."); break; case 5: lines.push_back("eat "+std::to_string(r.below(3))); break;
            case 6: lines.push_back(!many&&r.chance(30)?"drain":!many&&r.chance(20)?(r.chance(50)?"spoil 0":"spoil true"):"p"); break; case 7: lines.push_back(!many&&r.chance(40)?"exit":"thr2"); break;
            case 8: lines.push_back("rec "+string(size_t(r.below(r.chance(4)?70000:3000)),'z')); break;
            default: lines.push_back("rec n"+std::to_string(i)+(r.chance(10)?"\r":""));
        }
        in+=lines.back()+"\n";
    }
    bool tail=r.chance(30); if (tail) in+="rec unterminated";
    LOG("input %s userExit=%d",h::esc(in,3000).c_str(),userExit);
    // model
    vector<string> e={"genter"}; if (userEnter) e.push_back("senter");
    size_t pos=0; bool insub=false; size_t prompts=0, readLines=0;
    string cur="fs";
    vector<string> own; string last;
    vector<string> promptSeq;
    while (true)
    {
        promptSeq.push_back(cur); ++prompts;
        if (pos>=lines.size()) break; // end of the input (an unterminated tail isn't a line)
        string l=lines[pos++]; ++readLines;
        auto w=model::words(l);
        if (w.empty()) continue;
        last=l;
        if (w[0]=="exit"&&w.size()==1) break;
        string root=insub?"..":"";
        if (!insub)
        {
            if (w[0]=="rec") { string x="rec"; for (size_t i=1;i<w.size();++i) x+=" "+w[i]; e.push_back(x); }
            else if (w[0]=="thr"&&w.size()==1) { e.push_back("thr"); e.push_back("exc"); }
            else if (w[0]=="thr2"&&w.size()==1) e.push_back("thr2");
            else if (w[0]=="p") e.push_back("p");
            else if (w[0]=="eat") { e.push_back("eat"); pos+=size_t(atoi(w[1].c_str())); if (pos>lines.size()) pos=lines.size(); }
            else if (w[0]=="spoil") { e.push_back("spoil"); pos=lines.size(); h::stat("failing-inputs"); }
            else if (w[0]=="drain") { e.push_back("drain"); pos=lines.size(); }
            else if (w[0]=="sub") { insub=true; cur="sub"; }
            else e.push_back("wrong "+l);
        }
        else
        {
            if (w[0]=="rec") { string x="subrec"; for (size_t i=1;i<w.size();++i) x+=" "+w[i]; e.push_back(x); }
            else if (w[0]=="..") { insub=false; cur="fs"; }
            else e.push_back("wrong "+l);
        }
    }
    if (userExit) e.push_back("sexit");
    e.push_back("gexit");
    const bool readError=r.chance(20); if (readError) { LOG("read error at the end"); h::stat("failing-inputs"); }
    std::unique_ptr<std::streambuf> ib; 
    size_t waits=0; auto onWait=[&]{ if (inside) return; ++waits; h::stat("prompts-waited");
        if (VisStream::pending(&os)) h::fail("prompt-not-shown","the session waits for a line but "+std::to_string(VisStream::pending(&os))+" characters of its output are not flushed");
        size_t p=World::count(model::stripSgr(os.str()),"> "); if (p!=waits) h::fail("prompt-order","the session waits for line "+std::to_string(waits)+" but "+std::to_string(p)+" prompts have been shown"); };
    if (!readError&&!many&&r.chance(40)) ib=std::make_unique<LineBuf>(in,onWait); else if (readError||r.chance(30)) ib=std::make_unique<PieceBuf>(in,size_t(r.range(1,40)),readError); else ib=std::make_unique<std::stringbuf>(in);
    std::istream is(ib.get()); inp=&is;
    struct Count: cli::HistoryStorage { int n=0; vector<string> v; void Store(const vector<string>& x) override { ++n; v=x; } vector<string> Commands() const override { return {}; } void Clear() override {} };
    {
        cli::CliFileSession s(c,is,os);
        if (userEnter) s.EnterAction([&,tk=h::Token()](std::ostream&){ ev.push_back("senter"); });
        if (userExit) s.ExitAction([&,tk=h::Token()](std::ostream&){ ev.push_back("sexit"); });
        s.Start();
        if (ev!=e) { string a,b; for (auto& x: e) a+=x.substr(0,40)+" ; "; for (auto& x: ev) b+=x.substr(0,40)+" ; "; h::fail("file-session","input '"+in+"': expected {"+a+"} observed {"+b+"}"); }
        size_t mark=os.str().size();
        s.Feed("rec after"); s.Prompt();
        if (ev!=e||os.str().size()!=mark) h::fail("after-exit","command or prompt after the exit");
    }
    // prompts: one before each line
    string d=model::stripSgr(os.str()); size_t q=0, seen=0;
    for (auto& p: promptSeq)
    {
        string t=p+"> ";
        size_t f=d.find(t,q);
        if (f==string::npos) { if (seen>=readLines) break; h::fail("prompt-missing","prompt "+std::to_string(seen)+" '"+t+"' not found in '"+d+"'"); }
        ++seen; q=f+t.size();
    }
    size_t total=World::count(d,"> ");
    if (total<readLines||total>readLines+1) h::fail("prompt-count","lines read "+std::to_string(readLines)+" prompts "+std::to_string(total));
    h::stat("file-sessions"); h::stat("lines",(long long)readLines); h::distinct(in); if (r.chance(10)) h::sample(in);
    // unusable streams are refused
    if (r.chance(5))
    {
        std::istringstream bad("x\n"); bad.setstate(std::ios::failbit); bool thrown=false;
        try { cli::CliFileSession s(c,bad,os); } catch (const std::invalid_argument&) { thrown=true; }
        if (!thrown) h::fail("bad-stream","invalid input stream accepted");
        h::stat("bad-stream");
    }
}
// ---------------------------------------------------------------- C13
struct SlowBuf : std::streambuf { string s; int overflow(int c) override { if (c!=EOF) s+=char(c); return c==EOF?0:c; } };            // only overflow
struct BufBuf : std::streambuf { string s; char b[7]; BufBuf(){ setp(b,b+sizeof b); } int overflow(int c) override { sync(); if (c!=EOF) s+=char(c); return 0; } int sync() override { s.append(pbase(),size_t(pptr()-pbase())); setp(b,b+sizeof b); return 0; } };
struct FullBuf : std::streambuf { std::streamsize room; explicit FullBuf(std::streamsize n):room(n) {} std::streamsize xsputn(const char*,std::streamsize n) override { n=std::min(n,room); room-=n; return n; } int overflow(int c) override { if (c==EOF||room==0) return EOF; --room; return c; } }; // like a full disk
static void coutCase(Rng& r)
{
    struct St { std::unique_ptr<std::streambuf> buf; std::unique_ptr<std::ostream> os; std::function<string()> get; string shown; int live=0; bool broken=false; };
    vector<std::unique_ptr<St>> sts; 
    struct S { St* st; std::unique_ptr<cli::CliSession> s; cli::Cli* c=nullptr; };
    vector<S> ss;
    vector<std::unique_ptr<cli::Cli>> clis;    // the stream is one for all of them
    struct Used { int n=0; };
    auto newSt=[&]{
        auto x=std::make_unique<St>(); auto* p=x.get();
        if (r.chance(4))
        {   // nothing is expected of a stream that takes no more; the others are not concerned
            p->buf=std::make_unique<FullBuf>(r.range(0,300)); p->get=[]{ return string(); }; p->broken=true; p->os=std::make_unique<std::ostream>(p->buf.get()); if (r.chance(30)) p->os->setstate(std::ios::failbit);
            sts.push_back(std::move(x)); h::stat("full-streams"); return p;
        }
        switch(r.below(3))
        {
            case 0: { auto b=std::make_unique<std::stringbuf>(); auto* q=b.get(); p->buf=std::move(b); p->get=[q]{ return q->str(); }; break; }
            case 1: { auto b=std::make_unique<SlowBuf>(); auto* q=b.get(); p->buf=std::move(b); p->get=[q]{ return q->s; }; break; }
            default: { auto b=std::make_unique<BufBuf>(); auto* q=b.get(); p->buf=std::move(b); p->get=[q]{ q->sync(); return q->s; }; break; }
        }
        p->os=std::make_unique<std::ostream>(p->buf.get());
        sts.push_back(std::move(x)); return p;
    };
    auto open=[&]{ St* st=(!sts.empty()&&r.chance(25))?r.pick(sts).get():newSt(); ++st->live; cli::Cli* c=r.pick(clis).get(); ss.push_back({st,std::make_unique<cli::CliSession>(*c,*st->os,5),c}); LOG("open session on stream %p live=%d",(void*)st,st->live); };
    auto close=[&](size_t i){ LOG("close session on stream %p",(void*)ss[i].st); --ss[i].st->live; ss.erase(ss.begin()+long(i)); h::stat("closed"); };
    auto settle=[&]{ for (auto& s: sts) s->shown=s->get(); };
    auto expectAll=[&](const string& t,const char* how){
        for (auto& s: sts) if (!s->broken)
        {
            string g=s->get(), d=g.substr(s->shown.size()); s->shown=g;
            // a stream shared by k sessions may show the text once per session
            bool ok=false; string e; for (int k=0;k<=s->live&&!ok;++k) { if ((k>=1)==(s->live>=1)) ok=(d==e); e+=t; }
            if (t.empty()) ok=d.empty();
            if (!ok) h::fail("cout",string(how)+": stream with "+std::to_string(s->live)+" sessions shows '"+h::esc(d,200)+"' instead of '"+h::esc(t,200)+"'");
        }
        h::stat("broadcasts"); h::statMax("live-sessions",(long long)ss.size());
    };
    auto write=[&]{
        if (r.chance(15)&&!sts.empty())
        {   // what a session's stream is set to is nothing to the others' text
            auto& x=*r.pick(sts)->os; x.width(r.range(1,30)); if (r.chance(50)) x.fill('#'); if (r.chance(50)) x.setf(std::ios::left,std::ios::adjustfield); h::stat("pending-width");
        }
        settle();
        auto& o=cli::Cli::cout();
        string t; int n=r.chance(90)?r.range(0,40):r.range(1000,100000); for (int i=0;i<n;++i) t+=char(r.chance(95)?r.range(32,126):int(r.below(256)));
        bool shared=false; for (auto& s: sts) shared|=s->live>1;
        switch(r.below(shared?4:10))
        {
            case 0: o<<t; expectAll(t,"string"); break;
            case 1: o.write(t.data(),long(t.size())); expectAll(t,"write"); break;
            case 2: { char ch=char(r.below(256)); o.put(ch); expectAll(string(1,ch),"put"); break; }
            case 3: { t.erase(std::remove(t.begin(),t.end(),'\0'),t.end()); o<<t.c_str(); expectAll(t,"cstr"); break; }
            case 4: { int v=int(r.next()); o<<v; expectAll(std::to_string(v),"int"); break; }
            case 5: o<<"a"<<1<<' '<<2.5<<"b"<<std::flush; expectAll("a1 2.5b","mix"); break;
            case 6: o<<t<<std::endl; expectAll(t+"\n","endl"); break;
            case 7: { for (char ch: t) o<<ch; expectAll(t,"chars"); break; }
            case 8: o<<std::hex<<255<<std::dec<<true; expectAll("ff1","manip"); break;
            default: { auto* b=static_cast<std::streambuf*>(&o); b->sputn(t.data(),long(t.size())); b->sputc('x'); expectAll(t+"x","buf"); }
        }
        if (!o.good()) h::fail("cout-state","global stream not good after a write");
    };
    int depth=0;
    S* self=nullptr;
    auto newCli=[&]{
    auto menu=std::make_unique<cli::Menu>("g");
    menu->Insert("w",[&,tk=h::Token()](std::ostream&){ write(); });
    menu->Insert("open",[&,tk=h::Token()](std::ostream&){ open(); if (r.chance(50)) write(); });
    // closes another session from a handler
    menu->Insert("close",[&,tk=h::Token()](std::ostream&){ if (ss.size()>1) { size_t i=r.below(ss.size()); if (ss[i].s.get()!=self->s.get()) close(i); } write(); });
    menu->Insert("out",[&,tk=h::Token()](std::ostream& o){ o<<"O"; });
    clis.push_back(std::make_unique<cli::Cli>(std::move(menu)));
    if (r.chance(10)) clis.back()=std::make_unique<cli::Cli>(std::move(*clis.back()));
    };
    (void)depth;
    for (int i=0,n=r.chance(70)?1:r.range(2,3);i<n;++i) newCli();
    const bool crowd=r.chance(1);
    if (crowd) { h::stat("crowds"); for (int i=0,n=r.range(20,400);i<n;++i) open(); }
    int steps=r.range(5,crowd?15:50);
    for (int i=0;i<steps;++i)
    {
        int k=int(r.below(100));
        if (clis.size()>1&&r.chance(5))
        {   // a whole cli goes, with its sessions; the others stay
            cli::Cli* c=r.pick(clis).get(); for (size_t q=ss.size();q-->0;) if (ss[q].c==c) close(q);
            for (size_t q=0;q<clis.size();++q) if (clis[q].get()==c) { clis.erase(clis.begin()+long(q)); break; }
            h::stat("clis-destroyed"); write(); continue;
        }
        if (r.chance(1)&&clis.size()<4) newCli();
        if (k<25||ss.empty()) { if (ss.size()<12||crowd) open(); }
        else if (k<40) close(r.below(ss.size()));
        else if (k<75) write();
        else
        {
            static const vector<string> cmds={"w","open","close","out","exit","help"};
            S sref; size_t ix=r.below(ss.size()); 
            auto* raw=ss[ix].s.get(); struct Tmp { S s; } ; (void)sref;
            S view; view.st=ss[ix].st; view.s.reset(raw); self=&view;
            string cmd=r.pick(cmds); LOG("handler %s",cmd.c_str());
            raw->Feed(cmd);
            view.s.release(); self=nullptr;
            h::stat("from-handler");
        }
    }
    h::distinct(string(h::ctx().page->log,h::ctx().page->len));
    while (!ss.empty()) close(r.below(ss.size()));
    settle(); cli::Cli::cout()<<"nobody"<<std::flush; expectAll("","after all");
    // other Cli objects share the global stream
    if (r.chance(20)) { clis.clear(); cli::Cli::cout()<<"x"; expectAll("","no cli"); }
}

int main(int argc,char** argv)
{
    h::init(argc,argv);
    const string P=h::ctx().prop;
    if (P=="C01"||P=="C21") return h::cases(c01);
    if (P=="C12"||h::ctx().opt["--mode"]=="files") return h::cases(fileSessionCase);
    return h::cases(coutCase);
}
