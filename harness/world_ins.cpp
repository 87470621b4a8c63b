// typed command insertions of the random worlds, a part per translation unit (INS_PART)
#include "world.h"
namespace world {
// what a handler captured: alive for as long as the handler runs, whatever the handler does
struct Cap
{
    World* w; int id; vector<int> v; Keep k; std::shared_ptr<cli::CmdHandler> own; // a handler can keep the handle of its own command
    Cap(World* _w,int i):w(_w),id(i),v(9,i),k(_w->nodes[size_t(i)].get()),own(k.n->own){}
    template<class... A> void call(std::ostream& out,A&... a) const
    {
        World* ww=w; const int i=id; const vector<string> before{model::rep(a)...};
        ww->onCall(i,out,before);
        if (id!=i||v!=vector<int>(9,i)||before!=vector<string>{model::rep(a)...}) h::fail("handler-state","captured data or arguments changed under a running handler");
    }
    void free(std::ostream& out,const vector<string>& a) const
    {
        World* ww=w; const int i=id; const vector<string> before=a;
        ww->onFree(i,out,a);
        if (id!=i||v!=vector<int>(9,i)||before!=a) h::fail("handler-state","captured data or arguments changed under a running handler");
    }
};
template<class... A> static cli::CmdHandler ins(World& wo,cli::Menu& m,Node* n)
{
    const int id=n->id; World* w=&wo;
    auto f=[cap=Cap(w,id)](std::ostream& out,A... a){ cap.call(out,a...); };
    return m.Insert(n->name,f,n->help,n->parDesc);
}
// the other form of insertion
template<class... A> static cli::CmdHandler ins2f(World& wo,cli::Menu& m,Node* n)
{
    const int id=n->id; World* w=&wo;
    auto f=[cap=Cap(w,id)](std::ostream& out,A... a){ cap.call(out,a...); };
    if (!n->parDesc.empty()&&wo.r.chance(60)) return m.Insert(n->name,n->parDesc,f,n->help);
    if (wo.r.chance(30)&&n->parDesc.empty()&&n->help.empty()) return m.Insert(n->name,f);
    return m.Insert(n->name,f,n->help,n->parDesc);
}
// a command class of the user
struct Own : cli::Command
{
    World* w; int id; const Node* n; Keep k;
    Own(World* _w,Node* _n):cli::Command(_n->name),w(_w),id(_n->id),n(_n),k(_n){}
    bool Exec(const vector<string>& l,cli::CliSession& s) override
    {
        if (!IsEnabled()||l.empty()||l[0]!=Name()) return false;
        World* ww=w; int i=id; vector<string> a(l.begin()+1,l.end());
        ww->onFree(i,s.OutStream(),a);
        if (Name()!=ww->nodes[size_t(i)]->name||l.size()!=a.size()+1) h::fail("handler-state","command changed while it runs");
        return true;
    }
    void Help(std::ostream& o) const override { if (IsEnabled()) o<<World::helpEntry(n); }
};
// functions, by number
struct Fn { World* w; int id; };
static Fn fns[16]; static unsigned nfn=0;
template<int I,class... A> static int fun(std::ostream& out,A... a) { fns[I].w->onCall(fns[I].id,out,vector<string>{model::rep(a)...}); return I; }
template<class... A> static cli::CmdHandler insFn(World& wo,cli::Menu& m,Node* n)
{
    const int id=n->id; World* w=&wo;
    if (wo.usedFns<4)
    {
        const unsigned i=nfn++%4; wo.usedFns++;
        fns[i]=Fn{w,id};
        switch(i)
        {
            case 0: return m.Insert(n->name,fun<0,A...>,n->help,n->parDesc);
            case 1: return m.Insert(n->name,fun<1,A...>,n->help,n->parDesc);
            case 2: return m.Insert(n->name,fun<2,A...>,n->help,n->parDesc);
            default: return m.Insert(n->name,fun<3,A...>,n->help,n->parDesc);
        }
    }
    std::function<void(std::ostream&,A...)> f=[cap=Cap(w,id)](std::ostream& out,A... a){ cap.call(out,a...); };
    return m.Insert(n->name,f,n->help,n->parDesc);
}
#define IS(...) (n->kind==Kind::TYPED && n->types==vector<T>{__VA_ARGS__})
#if INS_PART==0
cli::CmdHandler World::ins0(cli::Menu& m,Node* n,bool& done)
{
    const int id=n->id; World* w=this;
    if (n->kind==Kind::FREE)
    {
        if (r.chance(25)) { h::stat("own-commands"); return m.Insert(std::make_unique<Own>(this,n)); }
        if (r.chance(30)) return m.Insert(n->name,n->parDesc,[cap=Cap(w,id)](std::ostream& out,const vector<string>& a){ cap.free(out,a); },n->help);
        if (r.chance(50)) return m.Insert(n->name,[cap=Cap(w,id)](std::ostream& out,const vector<string>& a){ cap.free(out,a); },n->help,n->parDesc);
        return m.Insert(n->name,[cap=Cap(w,id)](std::ostream& out,vector<string> a){ cap.free(out,a); return 5; },n->help,n->parDesc);
    }
    if (IS()) return r.chance(20)?insFn<>(*this,m,n):ins<>(*this,m,n);
    if (IS(T::INT)) return r.chance(20)?insFn<int>(*this,m,n):ins2f<int>(*this,m,n);
    if (IS(T::STR)) return r.chance(50)?ins<string>(*this,m,n):ins2f<const string&>(*this,m,n);
    if (IS(T::UINT)) return ins<unsigned>(*this,m,n);
    done=false; return {};
}
#elif INS_PART==1
cli::CmdHandler World::ins1(cli::Menu& m,Node* n,bool& done)
{
    if (IS(T::BOOL)) return ins<bool>(*this,m,n);
    if (IS(T::CHAR)) return ins<char>(*this,m,n);
    if (IS(T::DOUBLE)) return ins<double>(*this,m,n);
    if (IS(T::INT,T::STR)) return r.chance(30)?insFn<int,const string&>(*this,m,n):ins2f<int,const string&>(*this,m,n);
    if (IS(T::STR,T::INT)) return ins<string,const int&>(*this,m,n);
    if (IS(T::SHORT)) return ins<short>(*this,m,n);
    if (IS(T::UCHAR)) return ins<unsigned char>(*this,m,n);
    done=false; return {};
}
#elif INS_PART==2
cli::CmdHandler World::ins2(cli::Menu& m,Node* n,bool& done)
{
    if (IS(T::BOOL,T::DOUBLE)) return ins<bool,double>(*this,m,n);
    if (IS(T::CHAR,T::INT,T::STR)) return ins2f<char,int,string>(*this,m,n);
    if (IS(T::UINT,T::UINT)) return ins<unsigned,unsigned>(*this,m,n);
    if (IS(T::SCHAR)) return ins<signed char>(*this,m,n);
    if (IS(T::USHORT)) return ins<unsigned short>(*this,m,n);
    if (IS(T::LONG)) return ins<long>(*this,m,n);
    done=false; return {};
}
#else
cli::CmdHandler World::ins3(cli::Menu& m,Node* n,bool& done)
{
    if (IS(T::ULONG)) return ins<unsigned long>(*this,m,n);
    if (IS(T::LL)) return ins<long long>(*this,m,n);
    if (IS(T::ULL)) return ins<unsigned long long>(*this,m,n);
    if (IS(T::FLOAT)) return ins<float>(*this,m,n);
    if (IS(T::LDOUBLE)) return ins<long double>(*this,m,n);
    if (IS(T::PT)) return ins<model::Pt>(*this,m,n);
    if (IS(T::STR,T::STR,T::STR,T::STR)) return ins2f<string,string,string,const string&>(*this,m,n);
    done=false; return {};
}
#endif
} // namespace world
