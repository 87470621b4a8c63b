// C16 C17 C18 C20 C21 C24 on remote sessions over the loopback
#include "net.h"
#include "keys.h"
#include "term.h"

static const vector<string>& names=keys::names();
static string initCmds[3]={string("\xff\xfd\x22",3),string("\xff\xfa\x22\x01\x00\xff\xf0",7),string("\xff\xfb\x01",3)};

static void checkFraming(const Parsed& p,const char* where) { if (!p.bad.empty()) h::fail("telnet-framing",string(where)+": "+p.bad); }
static void setFaults(Rng& r,bool reads,bool writes)
{
    fault::clear(); fault::seed=r.next();
    if (reads&&r.chance(60)) fault::shortRead=r.chance(50)?100:r.range(5,90);
    if (writes&&r.chance(60)) fault::shortWrite=r.chance(30)?100:r.range(5,90);
    if (writes&&r.chance(40)) fault::again=r.range(5,40);
    if (writes&&r.chance(40)) fault::intrPoll=r.range(5,40);
}

// ---------------------------------------------------------------- C16
using keys::Key;
static string negotiation(Rng& r,vector<string>& replies)
{
    auto opt=[&]{ static const unsigned char known[]={1,3,24,31,32,34,39,0,5,6}; return r.chance(60)?char(known[r.below(10)]):char(r.below(255)); };
    switch(r.below(6))
    {
        case 0: return string("\xff")+char(241+r.below(9)); // NOP .. GA
        case 1: { char o=opt(); replies.push_back(string("W")+o); return string("\xff\xfb")+o; }
        case 2: { char o=opt(); replies.push_back(string("D")+o); return string("\xff\xfd")+o; }
        case 3: return string("\xff\xfc")+opt();
        case 4: return string("\xff\xfe")+opt();
        default:
        {
            string s="\xff\xfa"; s+=opt(); int n=r.below(150)?r.range(0,12):r.range(100,3000);
            for (int i=0;i<n;++i) { char c=r.chance(30)?"\x0d\x0a\x00\x1b\x04"[r.below(5)]:char(r.below(256)); s+=c; if (c==char(255)) s+=c; }
            return s+"\xff\xf0";
        }
    }
}
static void inputCase(Rng& r)
{
    setFaults(r,true,r.chance(20));
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    keys::fill(*menu,[&b](const string& e){ Box::In in(b); b.event(e); });
    b.c=std::make_unique<cli::Cli>(std::move(menu));
    b.c->WrongCommandHandler([&b,tk=h::Token()](std::ostream&,const string& l){ Box::In in(b); b.event("line "+l); });
    b.c->StdExceptionHandler([tk=h::Token()](std::ostream&,const string& l,const std::exception& e){ h::fail("exception",l+": "+e.what()); });
    b.c->ExitAction([&b,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("exit"); });
    static const vector<size_t> sizes={0,1,2,5,100};
    size_t hs=r.pick(sizes);
    b.makeServer(r,hs); b.run();
    Client k; if (!k.connect(b.addr,b.port)) h::fail("connect","connection refused");
    // model
    keys::Line L; L.hist.cap=hs; vector<string> replies; auto& out=L.out; auto& want=L.want;
    string bytes; 
    auto press=[&](const Key& q){ L.press(q); };
    auto emit=[&](const Key& q){
        for (char c: q.bytes) { if (!out&&r.chance(7)) bytes+=negotiation(r,replies); bytes+=c; }
        press(q);
    };
    // bulk: everything sent at once, so that the server reads full buffers
    const bool bulk=r.below(40)==0; if (bulk) { fault::shortRead=0; h::stat("full-reads"); }
    const bool browsing=h::ctx().prop=="C08"&&r.chance(60);
    int n=bulk?r.range(400,2500):r.range(1,120); bool useEot=r.chance(12); int eotAt=useEot?r.range(0,n):-1;
    const bool heavy=r.chance(25);
    for (int i=0;i<n&&!out;++i)
    {
        if (i==eotAt) { if (r.chance(30)) { string x="\xff\xff"; emit({x,12}); } else emit({"\x04",12}); break; }
        if (r.chance(heavy?40:10)) bytes+=negotiation(r,replies);
        int q=int(r.below(100));
        if (browsing&&r.chance(60)) q=r.chance(40)?80:r.chance(50)?86:55;
        if (bulk&&r.chance(40)) q=r.chance(60)?55:r.range(67,96);
        if (q<50)
        {
            char c; do c=r.chance(92)?char(r.range(32,126)):char(r.range(128,254)); while (c=='!');
            if (r.chance(10)) { string w=r.pick(names)+" "; for (char x: w) emit({string(1,x),0,x}); continue; }
            emit({string(1,c),0,c});
        }
        else if (q<62) emit({r.chance(50)?string("\r\0",2):string("\r\n"),1});
        else if (q<67) emit({r.chance(50)?"\x08":"\x7f",2});
        else if (q<70) emit({"\x1b[3~",3});
        else if (q<76) emit({"\x1b[D",4});
        else if (q<79) emit({"\x1b[C",5});
        else if (q<85) emit({"\x1b[A",6});
        else if (q<88) emit({"\x1b[B",7});
        else if (q<91) emit({"\x1b[H",8});
        else if (q<94) emit({"\x1b[F",9});
        else if (q<97) emit({"\t",10});
        else emit({"\x0c",11});
    }
    if (!out) if (L.endsWithExit()) { press({"",9}); bytes+="\x1b[F"; emit({"z",0,'z'}); }
    LOG("bytes %s",h::esc(bytes,3000).c_str());
    if (out)
    {
        k.sendPieces(bytes,r);
        if (r.chance(50)) { k.send("alpha after\r\n"); }
        until("the server did not close the connection after the end of session",{&k},[&]{ return k.eof; });
        h::stat("eot");
    }
    else
    {
        if (bulk) { k.tx+=bytes; k.flush(); } else k.sendPieces(bytes,r);
        // what is left on the line is submitted, then the mark
        k.sendPieces(string("\r\0",2)+"sync 918273\r\n",r); L.submit();
        want.push_back("sync");
        string mark="SYNC918273\r\nm> ";
        until("the server did not answer to the keys sent",{&k},[&]{ if (k.eof) return true; auto p=parse(k.rx); checkFraming(p,"output"); size_t f=p.text.find(mark); return f!=string::npos; });
        if (k.eof) { auto e=b.events(); string g; for (auto& x: e) g+=x+" ; "; h::fail("closed","the connection was closed; events "+g); }
    }
    vector<string> got; h::await("exit event",[&]{ got=b.events(); return got.size()>=want.size(); },5);
    b.checkRunning();
    if (got!=want) { string a,c; for (auto& x: want) a+=h::esc(x,80)+" ; "; for (auto& x: got) c+=h::esc(x,80)+" ; "; h::fail("keys","bytes '"+bytes+"': expected {"+a+"} observed {"+c+"}"); }
    auto p=parse(k.rx);
    if (!out)
    {
        // negotiation
        if (p.open) h::fail("telnet-framing","incomplete command");
        if (p.cmds.size()<3||p.cmds[0]!=initCmds[0]||p.cmds[1]!=initCmds[1]||p.cmds[2]!=initCmds[2]) h::fail("negotiation-start","commands at the start altered");
        vector<string> rep(p.cmds.begin()+3,p.cmds.end());
        if (rep.size()!=replies.size()) h::fail("negotiation",h::fmt("%zu requests, %zu replies",replies.size(),rep.size()));
        for (size_t i=0;i<rep.size();++i)
        {
            unsigned char verb=static_cast<unsigned char>(rep[i].size()==3?rep[i][1]:0); char o=replies[i][1];
            bool known=o==1||o==3||o==31;
            bool ok=rep[i].size()==3&&verb>=251&&verb<=254&&rep[i][2]==o;
            if (ok&&!known) ok = replies[i][0]=='W'? verb==254 : verb==252; // refused
            if (!ok) h::fail("negotiation","request "+replies[i]+" answered '"+rep[i]+"'");
        }
        h::stat("negotiations",(long long)rep.size());
        // the terminal shows what the keys did
        term::Emu e; e.feed(p.text); 
        if (e.row(e.r)!="m>") h::fail("screen","the last row shows '"+e.row(e.r)+"'");
        // closing
        if (r.chance(50)) { k.send("exit\r\n"); until("exit did not close the connection",{&k},[&]{ return k.eof; }); if (b.count("exit")!=1) h::fail("exit","exit action"); h::stat("exits"); }
    }
    k.close();
    until("session not released after its connection was closed",{},[&]{ return b.alive()==0; });
    h::stat("keys",n); h::stat("events",(long long)got.size()); h::distinct(bytes); if (r.chance(3)) h::sample(bytes);
    b.stop(); fault::stats(); fault::clear();
}

// ---------------------------------------------------------------- C17
static void writeText(std::ostream& o,const string& t,Rng& r)
{
    size_t i=0;
    while (i<t.size())
    {
        size_t n=std::min(t.size()-i,size_t(1+r.below(r.chance(50)?4:r.chance(80)?3000:200000)));
        string s=t.substr(i,n); i+=n;
        switch(r.below(6))
        {
            case 0: o<<s; break;
            case 1: o.write(s.data(),long(s.size())); break;
            case 2: if (n<200) { for (char c: s) o.put(c); } else o<<s; break;
            case 3: if (n<200) { for (char c: s) o<<c; } else o<<s; break;
            case 4: o<<s<<std::flush; break;
            default: if (s.find('\0')==string::npos) o<<s.c_str(); else o<<s;
        }
    }
    if (r.chance(30)) o<<std::flush;
}
static string payload(Rng& r,bool big)
{
    string t; int n=r.chance(70)?r.range(0,60):r.range(60,big?400000:3000); bool bin=r.chance(50);
    Rng q(r.next());
    for (int i=0;i<n;++i) { unsigned k=unsigned(q.below(100)); t+= k<8?'\n':k<10?'\r':bin?(k<20?char(255):k<25?char(240+q.below(16)):char(q.below(256))):char(32+q.below(95)); }
    return t;
}
static void outputCase(Rng& r)
{
    setFaults(r,false,true);
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    const int S=r.range(1,4);
    struct Out { string text; uint64_t seed; int via; };
    vector<vector<Out>> outs(static_cast<size_t>(S));
    bool big=r.chance(15);
    if (big) { fault::shortWrite=std::min(fault::shortWrite.load(),40); fault::again=std::min(fault::again.load(),10); }
    for (auto& v: outs) { int n=r.range(1,big?2:6); for (int i=0;i<n;++i) v.push_back({payload(r,big),r.next(),int(r.below(10))}); }
    menu->Insert("o",[&,tk=h::Token()](std::ostream& o,int s,int i){
        Box::In in(b); auto& x=outs[size_t(s)][size_t(i)]; Rng q(x.seed);
        o<<"{{"<<s<<","<<i<<"}}"; writeText(o,x.text,q); o<<"{{/"<<s<<","<<i<<"}}\n";
        b.event("o");
    });
    string bcast=payload(r,false); bcast.erase(std::remove(bcast.begin(),bcast.end(),'\0'),bcast.end());
    uint64_t bs=r.next();
    menu->Insert("bc",[&,tk=h::Token()](std::ostream&,int id){ Box::In in(b); Rng q(bs); cli::Cli::cout()<<"[["<<id<<"]]"; writeText(cli::Cli::cout(),bcast,q); cli::Cli::cout()<<"[[/"<<id<<"]]\n"<<std::flush; b.event("bc"); });
    menu->Insert("done",[&,tk=h::Token()](std::ostream& o){ Box::In in(b); o<<"FINE\n"; });
    b.c=std::make_unique<cli::Cli>(std::move(menu));
    b.c->EnterAction([&,tk=h::Token()](std::ostream& o){ Box::In in(b); o<<"WELCOME\xff\n"; });
    b.c->ExitAction([&,tk=h::Token()](std::ostream& o){ Box::In in(b); o<<"GOODBYE\n"; });
    b.makeServer(r,10); 
    const bool sexit=r.chance(50); if (sexit) b.srv->ExitAction([&,tk=h::Token()](std::ostream& o){ Box::In in(b); o<<"SEEYOU\n"; });
    b.run();
    vector<std::unique_ptr<Client>> cs; vector<bool> slow;
    for (int i=0;i<S;++i) { cs.push_back(std::make_unique<Client>()); bool sl=r.chance(30); slow.push_back(sl); if (!cs.back()->connect(b.addr,b.port,sl?4096:0)) h::fail("connect","refused"); }
    // everybody is in before the broadcasts
    auto pumpAll=[&]{ bool any=false; for (int i=0;i<S;++i) any|=cs[size_t(i)]->pump(0,slow[size_t(i)]?size_t(1+r.below(3000)):1u<<20); if (!any) h::nap(50); };
    h::watch().arm("no prompt",40);
    for (int i=0;i<S;++i) while (cs[size_t(i)]->rx.find("m> ")==string::npos) { pumpAll(); if (cs[size_t(i)]->eof) h::fail("closed","closed at the start"); }
    h::watch().off();
    vector<size_t> next(static_cast<size_t>(S)); int nb=0; vector<string> neg(static_cast<size_t>(S)); vector<size_t> nreq(static_cast<size_t>(S));
    int total=0; for (auto& v: outs) total+=int(v.size());
    vector<vector<string>> cmds(static_cast<size_t>(S));
    auto cmd=[&](int s,const string& c){ cmds[size_t(s)].push_back(c); cs[size_t(s)]->send(c+(r.chance(50)?string("\r\0",2):string("\r\n"))); };
    while (total>0)
    {
        int s=int(r.below(size_t(S))); auto& nx=next[size_t(s)];
        if (nx>=outs[size_t(s)].size()) continue;
        if (r.chance(20)) { cs[size_t(s)]->send(string("\xff\xfd")+char(5+r.below(10))); ++nreq[size_t(s)]; } // a reply among the text
        cmd(s,"o "+std::to_string(s)+" "+std::to_string(nx)); ++nx; --total;
        if (r.chance(20)&&nb<4) { cmd(s,"bc "+std::to_string(nb++)); }
        for (int i=0;i<3;++i) pumpAll();
    }
    for (int s=0;s<S;++s) cmd(s,"done");
    for (int s=0;s<S;++s)
    {
        h::watch().arm("output incomplete",60); size_t seen=0;
        for (;;) { auto& rx=cs[size_t(s)]->rx; size_t f=rx.find("FINE\r\nm> ",seen>20?seen-20:0); if (f!=string::npos) break; seen=rx.size(); pumpAll(); if (cs[size_t(s)]->eof) h::fail("closed","connection closed while writing"); }
        h::watch().off();
    }
    // broadcasts reach everybody
    auto all=[&]{ for (int s=0;s<S;++s) for (int i=0;i<nb;++i) if (cs[size_t(s)]->rx.find("[[/"+std::to_string(i)+"]]\r\n")==string::npos) return false; return true; };
    h::watch().arm("broadcast incomplete",60); while (!all()) pumpAll(); h::watch().off();
    for (int s=0;s<S;++s)
    {
        cmd(s,"exit");
        h::watch().arm("exit did not close",40); while (!cs[size_t(s)]->eof) pumpAll(); h::watch().off();
    }
    b.checkRunning();
    for (int s=0;s<S;++s)
    {
        auto p=parse(cs[size_t(s)]->rx); checkFraming(p,"output"); if (p.open) h::fail("telnet-framing","incomplete command at the end");
        if (p.cmds.size()!=3+nreq[size_t(s)]) h::fail("negotiation","number of commands");
        string text=p.text; long long bytes=(long long)text.size();
        auto cut=[&](const string& a,const string& t,const string& z,int times,const char* key){
            string want=a+encodeText(t)+z; size_t f=text.find(want);
            if (f==string::npos) { size_t g=text.find(a); string near=g==string::npos?"(not found)":text.substr(g,want.size()+20); h::fail(key,"session "+std::to_string(s)+": expected '"+h::esc(want,600)+"' received '"+h::esc(near,600)+"'"); }
            text.erase(f,want.size());
            (void)times;
        };
        // broadcasts may come in the middle of nothing: handlers are not nested
        for (int i=0;i<nb;++i) cut("[["+std::to_string(i)+"]]",bcast,"[[/"+std::to_string(i)+"]]\r\n",1,"broadcast");
        for (size_t i=0;i<outs[size_t(s)].size();++i) cut("{{"+std::to_string(s)+","+std::to_string(i)+"}}",outs[size_t(s)][i].text,"{{/"+std::to_string(s)+","+std::to_string(i)+"}}\r\n",1,"output");
        // what remains are the welcome, the prompts, the echo of the commands and the goodbye
        string rest; for (char c: text) if (c!='\r'&&c!='\n'&&c!=' ') rest+=c;
        string want="WELCOME\xffm>"; 
        for (auto& c: cmds[size_t(s)]) { string e=c; e.erase(std::remove(e.begin(),e.end(),' '),e.end()); want+=e; if (c=="done") want+="FINE"; if (c=="exit") want+=string(sexit?"SEEYOU":"")+"GOODBYE"; else want+="m>"; }
        if (rest!=want) h::fail("output-rest","session "+std::to_string(s)+": besides the handlers' output expected '"+want+"' received '"+rest+"'");
        h::stat("bytes-compared",bytes);
    }
    h::stat("payloads",(long long)b.count("o")); h::stat("broadcasts",nb); h::statMax("sessions",S);
    h::distinct(std::to_string(r.next()));
    if (r.chance(5)) { string s="payloads:"; for (auto& v: outs) for (auto& o: v) s+=" "+std::to_string(o.text.size())+":"+o.text.substr(0,30); h::sample(s); }
    cs.clear();
    until("session not released",{},[&]{ return b.alive()==0; });
    b.stop(); fault::stats(); fault::clear();
}

// ---------------------------------------------------------------- C18
static string garbageBytes(Rng& r)
{
    string s; int n=r.range(1,r.chance(10)?3000:60);
    for (int i=0;i<n;++i) switch(r.below(6))
    {
        case 0: s+=char(240+r.below(16)); break; case 1: s+="\x1b\x5b\r\n\x04\x08\x7f\x0c\t!"[r.below(10)]; break;
        case 2: { static const vector<string> w={"\xff\xfa","\xff\xf0","\xff\xff","\xff\xfb","\x1b[3","history\r\n","! 0\r\n","! 1\r\n","help\r\n","say X\r\n","!0\r\n","sub\r\n","boom\r\n","exit","'","\"","\\"}; s+=r.pick(w); break; }
        default: s+=char(r.below(r.chance(50)?128:256));
    }
    return s;
}
struct Hostile { std::unique_ptr<Client> c; };
static void hostile(Box& b,Rng& r,Client* good)
{
    int k=int(r.below(12));
    LOG("hostile %d",k);
    auto c=std::make_unique<Client>();
    if (!c->connect(b.addr,b.port)) { b.checkRunning(); h::fail("refused","a new client is not served"); }
    h::stat("hostile-clients");
    auto pump=[&](int n){ for (int i=0;i<n;++i) { c->pump(0); if (good) good->pump(0); h::nap(30); } };
    switch(k)
    {
        case 0: c->rst(); break;                                    // reset at once
        case 1: c->close(); break;
        case 2: c->halfClose(); pump(int(r.below(20))); break;
        case 3: c->send(garbageBytes(r)); c->flush(); pump(int(r.below(10))); c->rst(); break;
        case 4: c->send(garbageBytes(r)); c->flush(); c->halfClose(); pump(int(r.below(30))); break;
        case 5: c->send("exit\r\n"+garbageBytes(r)); c->flush(); if (r.chance(50)) pump(5); c->rst(); break;
        case 6: c->send("exit\r\nexit\r\nsay X\r\n\x04\x04"); c->flush(); until("exit did not close",{c.get()},[&]{ return c->eof; }); break;
        case 7: c->send("flood 200000\r\n"); c->flush(); pump(int(r.below(4))); c->rst(); break;  // leaves while the server writes
        case 8: c->send("flood 300000\r\n"); c->flush(); c->close(); break;
        case 9: { string s="\xff\xfa"; c->send(s.substr(0,1+r.below(2))); c->flush(); pump(2); c->close(); break; } // stops in the middle of a command
        case 10: { static const vector<string> w={"\x1b","\x1b[","\x1b[3","\r","say \"unfinished","\xff","\xff\xfd"}; c->send(r.pick(w)); c->flush(); if (r.chance(50)) c->halfClose(); pump(3); c->close(); break; }
        default: { string s; int n=r.range(1,40); for (int i=0;i<n;++i) s+="\xff\xfd"+string(1,char(r.below(255))); c->send(s); c->flush(); pump(2); c->rst(); }
    }
}
static void hostileCase(Rng& r)
{
    setFaults(r,true,true);
    if (r.chance(30)) fault::acceptErr=r.range(5,60);
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    const bool enterA=r.chance(70), exitA=r.chance(70), senter=r.chance(70), sexit=r.chance(70), excH=r.chance(50);
    std::mutex om; std::map<std::ostream*,int> live;
    menu->Insert("say",[&,tk=h::Token()](std::ostream& o,const string& w){ Box::In in(b); b.event("say "+w); o<<"said "<<w<<"\n"; });
    menu->Insert("flood",[&,tk=h::Token()](std::ostream& o,int n){ Box::In in(b); string s(1000,'f'); s+='\n'; for (int i=0;i<n;i+=1000) o<<s; });
    menu->Insert("boom",[&,tk=h::Token()](std::ostream&){ Box::In in(b); throw std::runtime_error("boom"); });
    auto sub=std::make_unique<cli::Menu>("sub"); sub->Insert("insub",[&,tk=h::Token()](std::ostream& o,const string& w){ Box::In in(b); b.event("insub "+w); o<<"sub "<<w<<"\n"; });
    menu->Insert(std::move(sub));
    b.c=std::make_unique<cli::Cli>(std::move(menu));
    if (enterA) b.c->EnterAction([&,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("genter"); });
    if (exitA) b.c->ExitAction([&,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("gexit"); });
    if (excH) b.c->StdExceptionHandler([&,tk=h::Token()](std::ostream& o,const string&,const std::exception&){ Box::In in(b); o<<"EXC\n"; });
    b.makeServer(r,size_t(r.range(0,5)));
    if (senter) b.srv->EnterAction([&,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("senter"); });
    if (sexit) b.srv->ExitAction([&,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("sexit"); });
    b.run();
    int fd0=countFds();
    // the good clients: their sessions are as if they were alone
    const int G=r.range(1,3);
    struct Good { std::unique_ptr<Client> c; string partial; int n=0; bool sub=false; vector<string> want; size_t seen=0; };
    vector<Good> gs; 
    for (int i=0;i<G;++i) { Good g; g.c=std::make_unique<Client>(); if (!g.c->connect(b.addr,b.port)) h::fail("refused","the first clients are not served"); gs.push_back(std::move(g)); until("no prompt",{gs.back().c.get()},[&]{ if (gs.back().c->eof) h::fail("closed","closed at once"); return gs.back().c->rx.find("m> ")!=string::npos; }); }
    const bool errs=r.chance(25); // injected read/write errors: they may end any session, so only survival is checked
    if (errs) { fault::recvErr=r.range(1,10); fault::sendErr=r.range(1,10); }
    auto step=[&](Good& g,int gi){
        string tag="g"+std::to_string(gi)+"n"+std::to_string(g.n++);
        string expect;
        switch(r.below(5))
        {
            case 0: { // typed in pieces, with others in between
                string cmd=(g.sub?"insub ":"say ")+tag; size_t cut=r.below(cmd.size());
                g.c->send(cmd.substr(0,cut)); g.c->flush(); if (r.chance(50)) hostile(b,r,g.c.get());
                g.c->send(cmd.substr(cut)+"\r\n"); expect=(g.sub?"sub ":"said ")+tag; break; }
            case 1: g.c->send(string(g.sub?"..":"sub")+string("\r\0",2)+(g.sub?"say ":"insub ")+tag+"\r\n"); expect=(g.sub?"said ":"sub ")+tag; g.sub=!g.sub; break;
            case 2: g.c->send((g.sub?"insub ":"say ")+tag+"x\x7f\r\n"); expect=(g.sub?"sub ":"said ")+tag; break;
            case 3: g.c->send("nope\r\n\r\nhelp\r\n"+string(g.sub?"insub ":"say ")+tag+"\r\n"); expect=(g.sub?"sub ":"said ")+tag; break;
            default: g.c->send("'"+string(g.sub?"insub":"say")+"' \""+tag+"\"\r\n"); expect=(g.sub?"sub ":"said ")+tag;
        }
        g.c->flush();
        string mark=expect+"\r\n"+(g.sub?"sub> ":"m> ");
        if (errs) { for (int i=0;i<5;++i) g.c->pump(1); return; }
        until("a session is not served any more",{g.c.get()},[&]{ if (g.c->eof) h::fail("closed","the connection of another client was closed"); return g.c->rx.find(mark,g.seen)!=string::npos; });
        g.seen=g.c->rx.size(); h::stat("good-commands");
    };
    int steps=r.range(3,20);
    for (int i=0;i<steps;++i)
    {
        int gi=int(r.below(size_t(G)));
        if (r.chance(60)) hostile(b,r,gs[size_t(gi)].c.get());
        step(gs[size_t(gi)],gi);
        b.checkRunning();
    }
    fault::recvErr=0; fault::sendErr=0; fault::acceptErr=0;
    // new clients keep being served
    {
        Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","a new client is not served");
        c.send("say new\r\n"); until("a new client is not served",{&c},[&]{ if (c.eof) h::fail("closed","a new client's connection was closed"); return c.rx.find("said new\r\nm> ")!=string::npos; });
        c.send("exit\r\n"); until("exit did not close",{&c},[&]{ return c.eof; });
        // its session is released even though the client keeps its own side open
        until("a session is not released after its exit",{},[&]{ return b.alive()<=gs.size(); }); h::stat("exits-kept-open");
    }
    size_t before=gs.size();
    if (!errs)
    {
        // the exit of a session closes that connection only
        gs[0].c->send("exit\r\n"); until("exit did not close",{gs[0].c.get()},[&]{ return gs[0].c->eof; });
        for (size_t i=1;i<gs.size();++i) step(gs[i],int(i));
    }
    (void)before;
    for (auto& g: gs) if (r.chance(50)) g.c->close(); else g.c->rst();
    gs.clear();
    // descriptors and memory are released
    until("sessions still alive after their connections were closed",{},[&]{ return b.alive()==0; });
    until("descriptors still open after the connections were closed",{},[&]{ return countFds()<=fd0; });
    size_t made=b.created();
    if (enterA&&b.count("genter")!=made) h::fail("enter",h::fmt("%zu connections, %zu global enter actions",made,b.count("genter")));
    if (senter&&b.count("senter")!=made) h::fail("enter-server",h::fmt("%zu connections, %zu enter actions of the server",made,b.count("senter")));
    if (exitA&&sexit&&b.count("gexit")!=b.count("sexit")) h::fail("exit",h::fmt("global exit actions %zu, session exit actions %zu",b.count("gexit"),b.count("sexit")));
    h::stat("connections",(long long)made);
    b.stop(); fault::stats(); fault::clear();
    h::distinct(string(h::ctx().page->log,h::ctx().page->len)+std::to_string(r.next()));
    if (r.chance(10)) h::sample(string(h::ctx().page->log,std::min<size_t>(500,h::ctx().page->len)));
}

// ---------------------------------------------------------------- C20 / C18: destruction
static void destroyCase(Rng& r)
{
    setFaults(r,r.chance(30),r.chance(30));
    int th0=countThreads(), fd0=countFds();
    {
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    menu->Insert("say",[&,tk=h::Token()](std::ostream& o,const string& w){ Box::In in(b); b.event("say "+w); o<<"said "<<w<<"\n"; });
    menu->Insert("boom",[&,tk=h::Token()](std::ostream&){ throw 5; });
    menu->Insert("later",[&,tk=h::Token()](std::ostream&){ Box::In in(b); for (int i=0;i<3;++i) b.sched->Post([&b,tk=h::Token()]{ b.event("later"); }); });
    std::shared_ptr<Box::Srv> second;
    b.c=std::make_unique<cli::Cli>(std::move(menu));
    b.makeServer(r,5);
    const int kind=int(r.below(6));
    LOG("destroy kind %d",kind);
    if (kind==0)
    {   // never run: connections pending, then everything goes
        Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","refused"); c.send("say x\r\n"); c.flush();
        if (r.chance(50)) { b.srv.reset(); }
        h::stat("never-run");
    }
    else if (kind==1)
    {   // polled a few functions: keys are queued in the scheduler when all is destroyed
        Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","refused"); string s; int n=r.range(1,30); for (int i=0;i<n;++i) s+="say a\r\n"; c.send(s); c.flush();
        b.tid=std::this_thread::get_id();
        int polls=r.range(0,60); for (int i=0;i<polls;++i) b.sched->PollOne();
        if (r.chance(30)) { c.rst(); for (int i=0;i<5;++i) b.sched->PollOne(); }
        if (r.chance(50)) { b.srv.reset(); int m=r.range(0,200); for (int i=0;i<m;++i) b.sched->PollOne(); if (r.chance(50)) { Client d; d.connect(b.addr,b.port); for (int i=0;i<20;++i) b.sched->PollOne(); } }
        h::stat("polled");
    }
    else
    {
        b.run();
        vector<std::unique_ptr<Client>> cs; int n=r.range(1,4);
        for (int i=0;i<n;++i) { cs.push_back(std::make_unique<Client>()); if (!cs.back()->connect(b.addr,b.port)) h::fail("refused","refused"); }
        for (auto& c: cs) if (r.chance(80)) until("no prompt",{c.get()},[&]{ return c->rx.find("m> ")!=string::npos||c->eof; });
        for (auto& c: cs)
        {
            string s; int q=r.range(0,25); for (int i=0;i<q;++i) { static const vector<string> w={"say a\r\n","boom\r\n","later\r\n","exit\r\n","x\t\t","\x1b[A","\x1b[A\r\n","history\r\n","\x04"}; s+=r.pick(w); }
            c->send(s); c->flush(); if (r.chance(30)) c->rst();
        }
        if (kind==2)
        {   // the server goes while its scheduler runs; sessions go on
            Client keep; if (!keep.connect(b.addr,b.port)) h::fail("refused","refused");
            until("no prompt",{&keep},[&]{ return keep.rx.find("m> ")!=string::npos; });
            { std::shared_ptr<Box::Srv> s=b.srv; b.srv.reset(); auto sp=std::make_shared<std::shared_ptr<Box::Srv>>(std::move(s)); b.on([sp]{ sp->reset(); }); }
            Client late; bool conn=late.connect(b.addr,b.port); if (conn) { for (int i=0;i<5;++i) late.pump(1); if (!late.rx.empty()) h::fail("served-by-dead-server","a client was served by a destroyed server"); }
            keep.send("say still\r\n"); until("a session is not served after the server's destruction",{&keep},[&]{ if (keep.eof) h::fail("closed","closed"); return keep.rx.find("said still\r\nm> ")!=string::npos; });
            b.on([&]{ b.event("posted"); });
            if (b.count("posted")!=1) h::fail("scheduler","scheduler does not work after the destruction");
            b.checkRunning();
            h::stat("server-destroyed");
        }
        else if (kind==3)
        {   // stopped with everything in flight, then destroyed
            h::nap(unsigned(r.below(500))); b.stop(); h::stat("stopped-in-flight");
            if (r.chance(50)) { b.srv.reset(); }
        }
        else if (kind==4)
        {   // the server is destroyed with the scheduler stopped, then it is recreated
            b.on([&]{ b.srv.reset(); });
            b.on([&]{ b.makeServer(r,5); });
            Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","the new server does not accept");
            c.send("say again\r\n"); until("the new server does not serve",{&c},[&]{ if (c.eof) h::fail("closed","closed"); return c.rx.find("said again")!=string::npos; });
            h::stat("server-recreated");
        }
        else { for (auto& c: cs) { c->pump(0); if (r.chance(50)) c->close(); } h::stat("clients-left"); }
    }
    h::distinct(string(h::ctx().page->log,h::ctx().page->len)+std::to_string(r.next()));
    }
    h::await("threads left",[&]{ return countThreads()<=th0||th0==0; });
    if (moreFds(fd0)) h::fail("descriptors","descriptors left open after everything was destroyed");
    h::stat("destructions");
    fault::stats(); fault::clear();
}

// ---------------------------------------------------------------- C21: bytes
static void wildCase(Rng& r)
{
    setFaults(r,true,r.chance(30));
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    menu->Insert("say",[&,tk=h::Token()](std::ostream& o,const string& w){ o<<w<<"\n"; });
    menu->Insert("t",[&,tk=h::Token()](std::ostream&,char,int,bool,double){});
    menu->Insert("boom",[&,tk=h::Token()](std::ostream&){ throw std::runtime_error("x"); });
    auto sub=std::make_unique<cli::Menu>("sub"); sub->Insert("insub",[tk=h::Token()](std::ostream&){}); menu->Insert(std::move(sub));
    b.c=std::make_unique<cli::Cli>(std::move(menu));
    static const vector<size_t> sizes={0,1,2,100};
    b.makeServer(r,r.pick(sizes)); b.run();
    vector<std::unique_ptr<Client>> cs; int n=r.range(1,3);
    for (int i=0;i<n;++i) { cs.push_back(std::make_unique<Client>()); if (!cs.back()->connect(b.addr,b.port)) h::fail("refused","refused"); }
    int m=r.range(1,20); long long total=0;
    for (int i=0;i<m;++i) { auto& c=cs[r.below(cs.size())]; string s; int q=r.range(1,20); for (int j=0;j<q;++j) s+=r.chance(30)?string("\r\n"):garbageBytes(r); total+=(long long)s.size(); LOG("bytes %s",h::esc(s,800).c_str()); c->send(s); for (int j=0;j<5;++j) { c->pump(0); if (r.chance(20)) h::nap(50); } }
    for (auto& c: cs) { h::watch().arm("input not consumed",60); while (!c->tx.empty()&&!c->reset) c->pump(1); h::watch().off(); c->halfClose(); }
    // everything sent is consumed: the sessions see the end of their input
    until("sessions still alive after the end of their input",{},[&]{ for (auto& c: cs) c->pump(0); return b.alive()==0; });
    b.checkRunning();
    Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","refused");
    c.send("say fine\r\n"); until("not served after garbage",{&c},[&]{ return c.rx.find("fine\r\nm> ")!=string::npos; });
    h::stat("bytes",total); h::distinct(string(h::ctx().page->log,h::ctx().page->len));
    c.close(); b.stop(); fault::stats(); fault::clear();
}

#if defined(__SANITIZE_ADDRESS__)||(defined(__has_feature)&&__has_feature(address_sanitizer))
#define HEAP 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
// ---------------------------------------------------------------- C18, C21: memory of closed connections and of long sessions
static void memoryCase(Rng& r)
{
#ifdef HEAP
    setFaults(r,r.chance(50),r.chance(50));
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    menu->Insert("say",[&,tk=h::Token()](std::ostream& o,const string& w){ o<<w<<"\n"; });
    menu->Insert("boom",[&,tk=h::Token()](std::ostream&){ throw std::runtime_error("x"); });
    menu->Insert("big",[&,tk=h::Token()](std::ostream& o){ o<<string(20000,'x')<<"\n"; });
    auto sub=std::make_unique<cli::Menu>("sub"); sub->Insert("insub",[tk=h::Token()](std::ostream&){}); menu->Insert(std::move(sub));
    auto store=std::make_unique<cli::VolatileHistoryStorage>(5);
    b.c=std::make_unique<cli::Cli>(std::move(menu),std::move(store));
    b.makeServer(r,size_t(r.range(0,6))); b.run();
    auto heap=[&]{ size_t n=0; b.on([&]{ b.prune(); n=__sanitizer_get_current_allocated_bytes(); }); return n; };
    auto lines=[](Rng& q,int n){ string s; for (int i=0;i<n;++i) switch(q.below(10))
    {
        case 0: s+="sub\r\n"; break; case 1: s+="..\r\n"; break; case 2: s+="boom\r\n"; break; case 3: s+="big\r\n"; break; case 4: s+="\x1b[A\x1b[A\r\n"; break;
        case 5: s+="he\t\r\n"; break; case 6: s+="\xff\xfd\x03\xff\xfa\x1f"; s+=string("\0\x50\0\x20",4); s+="\xff\xf0"; break; case 7: s+=string(size_t(q.range(1,2000)),'w')+"\r\n"; break; case 8: s+="! "+std::to_string(q.below(9))+"\r\n"; break; default: s+="say word"+std::to_string(q.below(100))+"\r\n"; }
        return s; };
    size_t base=0, ref=0; 
    if (r.chance(60))
    {   // connections come and go
        const uint64_t sd=r.next(); const int K=r.range(20,60); LOG("connections %d per round",K);
        for (int round=0;round<5;++round)
        {
            Rng q(sd);   // the same in each round
            for (int i=0;i<K;++i)
            {
                Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","a client is not served");
                const int how=int(q.below(5)); c.send(lines(q,q.range(0,6)));
                if (how==0) c.send("\r\nexit\r\n"); if (how==1) c.send("\x04"); if (how==4) { c.send("half a line"); }
                if (how<=1) until("the session did not end",{&c},[&]{ return c.eof; });
                else { for (int k=0;k<3;++k) c.pump(1); c.flush(); if (how==2) c.rst(); else if (how==3) { c.halfClose(); until("the session did not end",{&c},[&]{ return c.eof; }); } }
                h::stat("memory-connections");
            }
            until("sessions still alive after their connections were closed",{},[&]{ return b.alive()==0; });
            size_t n=heap(); LOG("round %d: %zu bytes",round,n);
            if (round==2) base=n;
            if (round==4&&n>base+size_t(2*K)*100+4096) h::fail("memory-connections",h::fmt("after %d more connections, all closed, %zu bytes are held instead of %zu",2*K,n,base));
        }
    }
    else
    {   // a long session
        Client c; if (!c.connect(b.addr,b.port)) h::fail("refused","a client is not served");
        const uint64_t sd=r.next();
        for (int round=0;round<5;++round)
        {
            Rng q(sd);
            for (int i=0;i<15;++i) { c.send(lines(q,20)+"\r\n"); c.flush(); c.pump(0); if (c.rx.size()>100000) c.rx.clear(); }
            string mark="mark"+std::to_string(round); c.rx.clear(); c.send("\r\n..\r\nsay "+mark+"\r\n"+(round?"":""));
            until("commands not run",{&c},[&]{ if (c.eof) h::fail("closed","closed"); return c.rx.find(mark+"\r\nm> ")!=string::npos; });
            string().swap(c.rx); string().swap(c.tx);
            size_t n=heap(); LOG("round %d: %zu bytes",round,n); ref=n;
            if (round==2) base=n;
            if (round==4&&n>base+16384) h::fail("memory-session",h::fmt("a remote session holds %zu bytes instead of %zu after 600 more lines",n,base));
            h::stat("memory-lines",300);
        }
    }
    (void)ref;
    h::stat("memory-cases"); h::distinct(string(h::ctx().page->log,h::ctx().page->len));
    b.checkRunning(); b.stop(); fault::stats(); fault::clear();
#else
    (void)r;
#endif
}
// ---------------------------------------------------------------- C18 known finding: a client that does not read
static void stalledCase(Rng& r)
{
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m");
    menu->Insert("flood",[&,tk=h::Token()](std::ostream& o,int n){ Box::In in(b); string s(10000,'f'); s+='\n'; for (int i=0;i<n;i+=10000) o<<s; });
    menu->Insert("say",[&,tk=h::Token()](std::ostream& o,const string& w){ o<<"said "<<w<<"\n"; });
    b.c=std::make_unique<cli::Cli>(std::move(menu)); b.makeServer(r,5); b.run();
    Client a,c; if (!a.connect(b.addr,b.port,4096)||!c.connect(b.addr,b.port)) h::fail("refused","refused");
    until("no prompt",{&a},[&]{ return a.rx.find("m> ")!=string::npos; }); until("no prompt",{&c},[&]{ return c.rx.find("m> ")!=string::npos; });
    a.send("flood 40000000\r\n"); a.flush();
    // the server thread waits, alone, for room in the socket of the client that does not read: everybody else waits too
    bool stalled=false;
    for (int i=0;i<3000&&!stalled;++i) { h::nap(1000); if (fault::waitFd.load()>=0) { int f=fault::waitFd; h::nap(20000); stalled = f>=0&&fault::waitFd.load()==f; } }
    c.send("say hello\r\n"); c.flush();
    bool served=false; for (int i=0;i<200&&!served;++i) { c.pump(1); served=c.rx.find("said hello")!=string::npos; }
    if (stalled&&!served&&fault::waitFd.load()>=0) h::stat("known:stalled-reader");
    // once it reads, all goes on
    until("not served even after the slow client has read",{&a,&c},[&]{ return c.rx.find("said hello\r\nm> ")!=string::npos&&a.rx.size()>40000000; },60);
    h::stat("stalled-scenario"); h::distinct("stalled");
    b.stop();
}

// ---------------------------------------------------------------- clients that do nothing for seconds
static void idleCase(Rng& r)
{
    setFaults(r,true,r.chance(30));
    Box b; b.sched=std::make_unique<Sched>();
    auto menu=std::make_unique<cli::Menu>("m"); keys::fill(*menu,[&b](const string& e){ Box::In in(b); b.event(e); });
    b.c=std::make_unique<cli::Cli>(std::move(menu)); b.c->ExitAction([&b,tk=h::Token()](std::ostream&){ Box::In in(b); b.event("exit"); });
    b.makeServer(r,10); b.run();
    Client k,z; int n=0; const int rounds=r.range(1,3); bool second=false;
    auto rest=[&]{ const unsigned ms=r.chance(20)?unsigned(r.range(3000,5600)):unsigned(r.range(600,2600)); LOG("idle for %u ms",ms); h::stat("idle-ms",ms); for (unsigned i=0;i<ms;i+=100) { h::nap(100000); k.pump(0); z.pump(0); } b.checkRunning(); if (k.eof||z.eof) h::fail("closed","the connection of an idle client was closed"); };
    if (r.chance(50)) rest();
    if (!k.connect(b.addr,b.port)) h::fail("refused","refused after a pause");
    for (int i=0;i<rounds;++i)
    {
        rest();
        if (!second&&r.chance(50)) { second=true; if (!z.connect(b.addr,b.port)) h::fail("refused","refused after a pause"); }
        static const vector<string> parts={"sync 4","sync","sy\t4","\xff\xfb","\xff\xfa\x18\x01","\x1b"};
        const size_t w=r.below(6); string a=parts[w], rest2;
        switch(w) { case 1: rest2=" 4"; break; case 3: rest2="\x1fsync 4"; break; case 4: rest2="\x02\xff\xf0sync 4"; break; case 5: rest2="[Async 4"; if (n) { rest2="[A\x1b[Bsync 4"; } break; default: ; }
        if (w!=0&&w!=2&&r.chance(50)) { k.send(a); k.flush(); rest(); k.send(rest2); } else k.send(a+rest2);
        k.send("\r\n"); k.flush(); ++n;
        until("a command sent after a pause was not run",{&k},[&]{ size_t m=0,p=0; while ((p=k.rx.find("SYNC4\r\nm> ",p))!=string::npos) { ++m; ++p; } return k.eof||int(m)>=n; });
        if (k.eof) h::fail("closed","connection closed");
        if (int(b.count("sync"))!=n) h::fail("keys","after a pause: commands run "+std::to_string(b.count("sync"))+" instead of "+std::to_string(n));
    }
    if (second) { z.send("sync 9\r\n"); until("a command of the second client was not run",{&z},[&]{ return z.eof||z.rx.find("SYNC9")!=string::npos; }); if (z.eof) h::fail("closed","connection closed"); }
    if (r.chance(50)) rest();
    k.send("exit\r\n"); until("exit did not close the connection",{&k},[&]{ return k.eof; }); if (b.count("exit")!=1) h::fail("exit","exit action");
    k.close(); z.close(); until("session not released after its connection was closed",{},[&]{ return b.alive()==0; });
    h::stat("idle-cases"); h::distinct(string(h::ctx().page->log,h::ctx().page->len)); b.stop(); fault::stats(); fault::clear();
}

int main(int argc,char** argv)
{
    h::init(argc,argv);
    signal(SIGPIPE,SIG_IGN);
    const string P=h::ctx().prop, mode=h::ctx().opt["--mode"];
    std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit); // the library complains there about misplaced commands
    h::watch();
    if (mode=="memory") return h::cases(memoryCase,0);
    if (mode=="idle") return h::cases(idleCase,0);
    if (mode=="stalled") return h::cases(stalledCase,0);
    if (mode=="destroy") return h::cases(destroyCase,0);
    if (P=="C16"||mode=="input") return h::cases(inputCase,0);
    if (P=="C17"||mode=="output") return h::cases(outputCase,0);
    if (P=="C21"||mode=="wild") return h::cases(wildCase,0);
    if (P=="C20") return h::cases(destroyCase,0);
    return h::cases(hostileCase,0);
}
