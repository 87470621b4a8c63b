// What a sequence of keys means to a session: the line edited, its history, and what the session must then run.
// The menu is that of the keyboard harnesses: four commands, sync <int>, and those every session has.
#pragma once
#include "model.h"
namespace keys {
using std::string; using std::vector;
inline const vector<string>& names() { static const vector<string> v={"alpha","alpine","beta","b"}; return v; }
// what: 0 char,1 enter,2 bs,3 del,4 left,5 right,6 up,7 down,8 home,9 end,10 tab,11 clear,12 eot, 13 ignored
struct Key { string bytes; int what; char c=0; };
struct Line
{
    model::Hist hist; string line; size_t pos=0; vector<string> want; bool out=false; int commands=0;
    void submit()
    {
        string l=line; line.clear(); pos=0; ++commands;
        auto w=model::words(l); if (w.empty()) return;
        hist.submit(l);
        if (w.size()==1&&(w[0]=="help"||w[0]=="history")) return;
        if (w.size()==1&&w[0]=="exit") { want.push_back("exit"); out=true; return; }
        if (std::find(names().begin(),names().end(),w[0])!=names().end()) { string e="call "+w[0]; for (size_t i=1;i<w.size();++i) e+=" <"+w[i]+">"; want.push_back(e); return; }
        string v; if (w.size()==2&&w[0]=="sync"&&model::value(model::T::INT,w[1],v)) { want.push_back("sync"); return; }
        want.push_back("line "+l);
    }
    void press(const Key& q)
    {
        if (out) return;
        switch(q.what)
        {
            case 0: line.insert(line.begin()+long(pos),q.c); ++pos; break;
            case 1: submit(); break;
            case 2: if (pos) { --pos; line.erase(pos,1); } break;
            case 3: if (pos<line.size()) line.erase(pos,1); break;
            case 4: if (pos) --pos; break;
            case 5: if (pos<line.size()) ++pos; break;
            case 6: line=hist.up(line); pos=line.size(); break;
            case 7: line=hist.down(); pos=line.size(); break;
            case 8: pos=0; break;
            case 9: pos=line.size(); break;
            case 10:
            {
                std::set<string> s; string t=line; size_t f=t.find_first_not_of(' '); t=f==string::npos?"":t.substr(f);
                for (auto n: {"help","exit","history","!","alpha","alpine","beta","b","sync"}) if (string(n).compare(0,t.size(),t)==0) s.insert(n);
                if (s.empty()) break;
                if (s.size()==1) { line=*s.begin()+" "; pos=line.size(); break; }
                string c=*s.begin(); for (auto& x: s) { size_t i=0; while (i<c.size()&&i<x.size()&&c[i]==x[i]) ++i; c.resize(i); }
                if (c.size()>line.size()) line=c; pos=line.size(); break;
            }
            case 11: pos=line.size(); break;
            case 12: want.push_back("exit"); out=true; break;
        }
    }
    bool endsWithExit() const { auto w=model::words(line); return w.size()==1&&w[0]=="exit"; }
};
// the menu of the model; H(event) is told what is run
namespace h0=::h;
template<class Menu,class H> void fill(Menu& m,H h)
{
    using Out=std::ostream;
    for (auto& n: names()) m.Insert(n,[h,n,tk=h0::Token()](Out&,const vector<string>& a){ string e="call "+n; for (auto& x: a) e+=" <"+x+">"; h(e); });
    m.Insert("sync",[h,tk=h0::Token()](Out& o,int n){ h("sync"); o<<"SYNC"<<n<<"\n"; });
}
inline string show(const vector<string>& v) { string s; for (auto& x: v) s+=h::esc(x,80)+" ; "; return s; }
} // namespace keys
