// C02
#include "world.h"
#include <fstream>
#include <complex>
#include <sys/stat.h>
using namespace world;

static string num(const char* f,long long v) { return h::fmt(f,v); }

// ---------------------------------------------------------------- C02
struct TypeRig
{
    vector<string> got; int wrong=0; std::ostringstream os; std::unique_ptr<cli::Cli> c; std::unique_ptr<cli::CliSession> s;
    template<class A> void one(cli::Menu& m,const char* n) { m.Insert(n,[this,n](std::ostream&,A a){ got.push_back(string(n)+" "+model::rep(a)); }); }
    template<class A,class B> void two(cli::Menu& m,const char* n) { m.Insert(n,[this,n](std::ostream&,A a,B b){ got.push_back(string(n)+" "+model::rep(a)+" "+model::rep(b)); }); }
    vector<std::pair<string,T>> singles{{"ch",T::CHAR},{"uc",T::UCHAR},{"sc",T::SCHAR},{"sh",T::SHORT},{"us",T::USHORT},{"in",T::INT},{"ui",T::UINT},{"lo",T::LONG},{"ul",T::ULONG},{"ll",T::LL},{"ull",T::ULL},{"fl",T::FLOAT},{"do",T::DOUBLE},{"ld",T::LDOUBLE},{"bo",T::BOOL},{"st",T::STR},{"pt",T::PT}};
    // another type with a stream extraction of its own
    void cplx(const string& w,Rng& r)
    {
        if (w.empty()) return;
        std::istringstream is(w); std::complex<double> v; string e;
        if (is>>v) { const auto at=is.tellg(); if (is.eof()||w.find_first_not_of(" \t\n\v\f\r",size_t(at))==string::npos) e="cx "+model::rep(v.real())+","+model::rep(v.imag()); }
        run("cx "+model::quote(w,r),e,"convert-cx"); h::distinct("cx"+w); h::stat("complex-words");
    }
    // overloads: same name, tried in order
    struct Ov { string tag; vector<T> t; };
    vector<Ov> ovs{{"o1",{T::UCHAR}},{"o2",{T::SHORT}},{"o3",{T::INT,T::BOOL}},{"o4",{T::BOOL}},{"o5",{T::LL}},{"o6",{T::DOUBLE}},{"o7",{T::CHAR,T::INT}},{"o8",{T::STR,T::STR}},{"o9",{T::CHAR}}};
    template<class... A> void ov(cli::Menu& m,const char* tag) { m.Insert("ov",[this,tag](std::ostream&,A... a){ string e=tag; using X=int[]; (void)X{0,(e+=" "+model::rep(a),0)...}; got.push_back(e); }); }
    TypeRig()
    {
        auto m=std::make_unique<cli::Menu>("m");
        one<char>(*m,"ch"); one<unsigned char>(*m,"uc"); one<signed char>(*m,"sc"); one<short>(*m,"sh"); one<unsigned short>(*m,"us"); one<int>(*m,"in"); one<unsigned>(*m,"ui");
        one<long>(*m,"lo"); one<unsigned long>(*m,"ul"); one<long long>(*m,"ll"); one<unsigned long long>(*m,"ull"); one<float>(*m,"fl"); one<double>(*m,"do"); one<long double>(*m,"ld");
        one<bool>(*m,"bo"); one<const string&>(*m,"st"); one<model::Pt>(*m,"pt");
        m->Insert("cx",[this](std::ostream&,std::complex<double> v){ got.push_back("cx "+model::rep(v.real())+","+model::rep(v.imag())); });
        ov<unsigned char>(*m,"o1"); ov<short>(*m,"o2"); ov<int,bool>(*m,"o3"); ov<bool>(*m,"o4"); ov<long long>(*m,"o5"); ov<double>(*m,"o6"); ov<char,int>(*m,"o7"); ov<string,string>(*m,"o8"); ov<char>(*m,"o9");
        c=std::make_unique<cli::Cli>(std::move(m));
        c->WrongCommandHandler([this](std::ostream&,const string&){ ++wrong; });
        c->StdExceptionHandler([](std::ostream&,const string& cmd,const std::exception& e){ h::fail("conversion-exception","line '"+cmd+"' raised "+e.what()); });
        s=std::make_unique<cli::CliSession>(*c,os,2);
    }
    void run(const string& line,const string& expect,const char* key)
    {
        got.clear(); wrong=0;
        s->Feed(line);
        string g; for (auto& x: got) g+=x+";";
        string e=expect.empty()?"":expect+";";
        if (g!=e||wrong!=(expect.empty()?1:0)) h::fail(key,"line '"+line+"': expected {"+e+"} observed {"+g+"} wrong="+std::to_string(wrong));
        h::stat(expect.empty()?"rejected":"accepted");
    }
    void word(T t,const string& name,const string& w,Rng& r)
    {
        if (w.empty()) return;
        string v,e; if (model::value(t,w,v)) e=name+" "+v;
        run(name+" "+model::quote(w,r),e,(string("convert-")+name).c_str());
        h::distinct(name+w);
    }
    void overload(const vector<string>& ws,Rng& r)
    {
        string l="ov",e;
        for (auto& w: ws) { if (w.empty()) return; l+=" "+model::quote(w,r); }
        for (auto& o: ovs)
        {
            if (o.t.size()!=ws.size()) continue;
            string x=o.tag; bool ok=true; for (size_t i=0;ok&&i<ws.size();++i) { string v; ok=model::value(o.t[i],ws[i],v); x+=" "+v; }
            if (ok) { e=x; break; }
        }
        LOG("%s",h::esc(l).c_str());
        run(l,e,"overload"); h::distinct(l);
    }
};
static string addDec(const string& d,int k) // d + k, decimal strings, k may be negative, d+k>=0 assumed
{
    unsigned __int128 v=0; for (char c: d) v=v*10+unsigned(c-'0');
    v+= (unsigned __int128)(__int128)k; string s; if (!v) s="0"; while (v) { s+=char('0'+int(v%10)); v/=10; } std::reverse(s.begin(),s.end()); return s;
}
static string intWordGen(Rng& r)
{
    static const vector<string> lim={"0","1","127","128","255","256","32767","32768","65535","65536","2147483647","2147483648","4294967295","4294967296","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","36893488147419103232","184467440737095516150","1844674407370955161","42949672960","655360","2560"};
    string d; 
    switch(r.below(6))
    {
        case 0: case 1: case 2: { d=r.pick(lim); int k=r.range(-12,12); if (d.size()>2||k>=0) d=addDec(d,k); break; }
        case 3: { // multiples of powers of two plus a small number: wrap-around would make them small
            static const int sh[]={8,16,32,64}; unsigned __int128 v=((unsigned __int128)(1+r.below(r.chance(50)?20:1u<<30)) << sh[r.below(4)]) + r.below(200);
            while (v) { d+=char('0'+int(v%10)); v/=10; } std::reverse(d.begin(),d.end()); break; }
        case 4: { int n=r.range(1,45); for (int i=0;i<n;++i) d+=char('0'+r.below(10)); break; }
        default: d=std::to_string(r.next()>>r.below(64)); 
    }
    if (r.chance(12)) d=string(size_t(r.range(1,r.chance(10)?200:5)),'0')+d;
    int k=int(r.below(100));
    if (k<35) d="-"+d; else if (k<45) d="+"+d; else if (k<47) d="--"+d; else if (k<49) d="+-"+d; else if (k<51) d=" "+d; else if (k<53) d+=" "; else if (k<55) d+="."; else if (k<57&&!d.empty()) d.insert(r.below(d.size()+1),1,char(r.below(255)+1)); else if (k<58) d="-"; else if (k<59) d="+"; else if (k<60) d+="e1";
    return d;
}
static string floatWordGen(Rng& r)
{
    static const vector<string> f={"nan","NAN","nan(1)","inf","-inf","infinity","+infinity","0x1p3","0X1.8P-2","0x","1e","1e+","e5",".","-.","+.5","5.","1e400","-1e400","1e-400","1e-310","4.9e-324","1.7976931348623157e308","1.7976931348623159e308","3.4028235e38","3.4028236e38","1e39","1.17549435e-38","1e-45","1e-46","1e4932","1e4933","1e-4950","1e-5000","1,5","1_0","0b1","1f","1.5L","--1","1 2"," 1","1\v","\f2","1e5 ","00001.50000","99999999999999999999999999999999999999999999999999"};
    if (r.chance(55)) return r.pick(f);
    string d=r.chance(30)?"-":""; int n=r.range(0,r.chance(10)?120:12); for (int i=0;i<n;++i) d+=char('0'+r.below(10));
    if (r.chance(3)) { d+=string(size_t(r.below(4000)),'0'); h::stat("long-floating-words"); }
    if (r.chance(70)) { d+="."; n=r.range(0,r.chance(3)?4000:12); for (int i=0;i<n;++i) d+=char('0'+r.below(10)); }
    if (r.chance(50)) { d+="e"; if (r.chance(50)) d+=r.chance(50)?"-":"+"; d+=std::to_string(r.below(r.chance(70)?60:6000)); }
    if (r.chance(10)) d.insert(r.below(d.size()+1),1,char(r.below(256)));
    return d;
}
static string spaces(Rng& r) { string s; for (int i=0,n=r.range(0,2);i<n;++i) s+=" \t\n\v\f\r"[r.below(6)]; return s; }
// words for types read by their stream extraction, which may hold (quoted) spaces of every kind
static string streamWordGen(Rng& r,bool cx)
{
    string w;
    if (!cx) { w=spaces(r)+(r.chance(80)?std::to_string(r.range(-2000,2000)):intWordGen(r))+spaces(r)+char(r.range(33,126))+spaces(r); }
    else { auto n=[&]{ return spaces(r)+(r.chance(70)?std::to_string(r.range(-99,99)):floatWordGen(r))+spaces(r); }; switch(r.below(3)) { case 0: w=n(); break; case 1: w="("+n()+")"; break; default: w="("+n()+","+n()+")"; } w=spaces(r)+w+spaces(r); }
    if (r.chance(15)&&!w.empty()) w.erase(r.below(w.size()),1);
    if (r.chance(10)) w+=char(r.below(256));
    return w;
}
static void c02(Rng& r)
{
    static TypeRig rig;
    // block of an exhaustive sweep for the small types
    const int per=2600; const long long lim=h::ctx().thorough()?200000:70000;
    long long a=-lim+(long long)h::ctx().caseNo*per;
    for (long long v=a;v<a+per&&v<=lim;++v)
    {
        string w=num("%lld",v);
        rig.word(T::SHORT,"sh",w,r); rig.word(T::USHORT,"us",w,r);
        if (v>-1500&&v<1500) { rig.word(T::SCHAR,"sc",w,r); rig.word(T::UCHAR,"uc",w,r); rig.word(T::BOOL,"bo",w,r); rig.word(T::CHAR,"ch",w,r); rig.word(T::ULONG,"ul",w,r); rig.word(T::INT,"in",w,r); }
        h::stat("exhaustive-words");
    }
    for (int i=0;i<400;++i)
    {
        auto& p=r.pick(rig.singles);
        string w;
        switch(r.below(5)) { case 0: w=floatWordGen(r); break; case 1: { int n=r.range(1,5); for (int j=0;j<n;++j) w+=char(r.below(256)); break; } default: w=intWordGen(r); }
        if (r.chance(3)) { static const vector<string> b={"true","false","TRUE","tru","truee","1","0","2","-1","+0","3x","3 x"," 3x ","3xy"}; w=r.pick(b); }
        if (h::ctx().caseNo%7==0&&i==0) { w=string(5000,'9'); }
        LOG("%s %s",p.first.c_str(),h::esc(w).c_str());
        rig.word(p.second,p.first,w,r);
        if (i==5) h::sample(p.first+" "+w);
        h::stat("random-words");
    }
    for (int i=0;i<30;++i) { string w=streamWordGen(r,false); LOG("pt %s",h::esc(w).c_str()); rig.word(T::PT,"pt",w,r); w=streamWordGen(r,true); LOG("cx %s",h::esc(w).c_str()); rig.cplx(w,r); }
    for (int i=0;i<80;++i)
    {
        vector<string> ws; int n=r.range(1,3);
        for (int j=0;j<n;++j) ws.push_back(r.chance(60)?intWordGen(r):r.chance(50)?string(1,char(r.range(33,126))):(r.chance(50)?string("true"):floatWordGen(r)));
        rig.overload(ws,r);
    }
    // arity: never called with too few or too many words
    for (auto& p: rig.singles) { rig.run(p.first,"","arity"); rig.run(p.first+" 1 1","","arity"); h::stat("arity"); }
}

int main(int argc,char** argv)
{
    h::init(argc,argv);
    return h::cases(c02);
}
