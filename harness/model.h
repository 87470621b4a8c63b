// Reference models, written from the property statements (not from the code).
#pragma once
#include "h.h"
#include <sstream>
#include <cerrno>
#include <cstdlib>
#include <climits>
#include <cfloat>
#include <algorithm>
#include <functional>
#include <deque>

namespace model {
using std::string; using std::vector;

// ---- C01: words of a line
inline vector<string> words(const string& in)
{
    vector<string> out;
    size_t i=0; const size_t n=in.size();
    // one pass: `cur` is the open word (if any)
    bool open=false; string cur;
    auto close=[&]{ if (open && !cur.empty()) out.push_back(cur); open=false; cur.clear(); };
    // reads an escape at in[i]=='\\' : appends its meaning to cur, moves i past it
    auto escape=[&]{
        if (i+1>=n) { i=n; return; }            // lone trailing backslash: nothing
        char c=in[i+1];
        if (!(c=='"'||c=='\''||c=='\\')) cur+='\\';
        cur+=c; i+=2;
    };
    while (i<n)
    {
        char c=in[i];
        if (c==' '||c=='\t'||c=='\n') { close(); ++i; }
        else if (c=='!') { close(); out.push_back("!"); ++i; }
        else if (c=='"'||c=='\'')
        {
            close(); open=true; ++i;
            while (i<n && in[i]!=c) { if (in[i]=='\\') escape(); else cur+=in[i++]; }
            if (i<n) ++i;
            close();
        }
        else if (c=='\\') { open=true; escape(); }
        else { open=true; cur+=c; ++i; }
    }
    close();
    return out;
}

// a spelling of the word that reads back as exactly that word (never empty)
inline string quote(const string& w, h::Rng& r)
{
    bool plain=true;
    for (char c: w) if (c==' '||c=='\t'||c=='\n'||c=='"'||c=='\''||c=='\\'||c=='!') plain=false;
    if (plain && !r.chance(15)) return w;
    if (w=="!" && r.chance(50)) return w;
    char q=r.chance(50)?'"':'\'';
    string s(1,q);
    for (char c: w)
    {
        if (c==q||c=='\\') s+='\\';
        else if ((c=='"'||c=='\'')&&r.chance(30)) s+='\\';
        s+=c;
    }
    return s+q;
}

// ---- C02: values of words
enum class T { CHAR,UCHAR,SCHAR,SHORT,USHORT,INT,UINT,LONG,ULONG,LL,ULL,FLOAT,DOUBLE,LDOUBLE,BOOL,STR,PT };
struct Pt { int x; char c; };
inline std::istream& operator>>(std::istream& is,Pt& p) { return is>>p.x>>p.c; }

inline const char* typeName(T t)
{
    switch(t)
    {
        case T::CHAR: return "<char>"; case T::UCHAR: return "<unsigned char>"; case T::SCHAR: return "<signed char>";
        case T::SHORT: return "<short>"; case T::USHORT: return "<unsigned short>"; case T::INT: return "<int>"; case T::UINT: return "<unsigned int>";
        case T::LONG: return "<long>"; case T::ULONG: return "<unsigned long>"; case T::LL: return "<long long>"; case T::ULL: return "<unsigned long long>";
        case T::FLOAT: return "<float>"; case T::DOUBLE: return "<double>"; case T::LDOUBLE: return "<long double>"; case T::BOOL: return "<bool>"; case T::STR: return "<string>"; case T::PT: return "";
    }
    return "";
}

// textual form of a value, exact
inline string rep(char v) { return "c"+std::to_string(int(static_cast<unsigned char>(v))); }
inline string rep(unsigned char v) { return std::to_string(unsigned(v)); }
inline string rep(signed char v) { return std::to_string(int(v)); }
inline string rep(short v) { return std::to_string(v); }
inline string rep(unsigned short v) { return std::to_string(v); }
inline string rep(int v) { return std::to_string(v); }
inline string rep(unsigned v) { return std::to_string(v); }
inline string rep(long v) { return std::to_string(v); }
inline string rep(unsigned long v) { return std::to_string(v); }
inline string rep(long long v) { return std::to_string(v); }
inline string rep(unsigned long long v) { return std::to_string(v); }
inline string rep(float v) { return h::fmt("%a",double(v)); }
inline string rep(double v) { return h::fmt("%a",v); }
inline string rep(long double v) { return h::fmt("%La",v); }
inline string rep(bool v) { return v?"T":"F"; }
inline string rep(const string& v) { return "s"+v; }
inline string rep(const Pt& v) { return "p"+std::to_string(v.x)+","+rep(v.c); }

// decimal magnitude comparison on strings: is digits <= limit ?
inline bool decLe(string d, const string& lim)
{
    size_t k=d.find_first_not_of('0');
    d = k==string::npos ? "0" : d.substr(k);
    if (d.size()!=lim.size()) return d.size()<lim.size();
    return d<=lim;
}
inline bool allDigits(const string& s) { if (s.empty()) return false; for (char c: s) if (c<'0'||c>'9') return false; return true; }
inline string normDec(const string& d) { size_t k=d.find_first_not_of('0'); return k==string::npos?"0":d.substr(k); }

// is w an integer in [-neg, pos]?  neg empty: no minus sign allowed
inline bool intWord(const string& w, const string& neg, const string& pos, string& out)
{
    if (w.empty()) return false;
    if (w[0]=='-')
    {
        if (neg.empty()) return false;
        string d=w.substr(1);
        if (!allDigits(d)||!decLe(d,neg)) return false;
        out=normDec(d); if (out!="0") out="-"+out;
        return true;
    }
    string d = w[0]=='+' ? w.substr(1) : w;
    if (!allDigits(d)||!decLe(d,pos)) return false;
    out=normDec(d); return true;
}
inline bool hasSpace(const string& w) { for (char c: w) if (c==' '||(c>='\t'&&c<='\r')) return true; return false; }

// does the word denote a value of type t ?  out: its textual form
inline bool value(T t,const string& w,string& out)
{
    switch(t)
    {
        case T::CHAR: if (w.size()!=1) return false; out=rep(w[0]); return true;
        case T::UCHAR: return intWord(w,"","255",out);
        case T::SCHAR: return intWord(w,"128","127",out);
        case T::SHORT: return intWord(w,"32768","32767",out);
        case T::USHORT: return intWord(w,"","65535",out);
        case T::INT: return intWord(w,"2147483648","2147483647",out);
        case T::UINT: return intWord(w,"","4294967295",out);
        case T::LONG: case T::LL: return intWord(w,"9223372036854775808","9223372036854775807",out);
        case T::ULONG: case T::ULL: return intWord(w,"","18446744073709551615",out);
        case T::BOOL:
            if (w=="true") { out="T"; return true; }
            if (w=="false") { out="F"; return true; }
            if (!intWord(w,"9223372036854775808","9223372036854775807",out)) return false;
            if (out=="1") { out="T"; return true; }
            if (out=="0") { out="F"; return true; }
            return false;
        case T::FLOAT: case T::DOUBLE: case T::LDOUBLE:
        {
            if (w.empty()||hasSpace(w)) return false;
            errno=0; char* e=nullptr; const char* b=w.c_str();
            if (t==T::FLOAT) { float v=strtof(b,&e); if (errno==ERANGE) return false; out=rep(v); }
            else if (t==T::DOUBLE) { double v=strtod(b,&e); if (errno==ERANGE) return false; out=rep(v); }
            else { long double v=strtold(b,&e); if (errno==ERANGE) return false; out=rep(v); }
            return e==b+w.size();
        }
        case T::STR: out=rep(w); return true;
        case T::PT:
        {
            std::istringstream is(w); Pt p{};
            if (!(is>>p)) return false;
            if (!(is>>std::ws).eof()) return false;
            out=rep(p); return true;
        }
    }
    return false;
}

// ---- C08/C09/C10: history
struct Hist
{
    struct E { string s; bool own; };
    size_t cap=100;
    std::deque<E> all;     // oldest first, kept entries
    size_t firstId=0;
    bool browsing=false;
    size_t pos=0;          // while browsing: index in view (view = kept entries minus evicted oldest if full, then the edit line)
    string edit;           // the line being edited
    // for "as before" of recall
    bool added=false; std::deque<E> dropped;

    void push(const string& s,bool own)
    {
        if (cap==0) return;
        all.push_back({s,own}); added=true;
        if (all.size()>cap) { dropped.push_back(all.front()); all.pop_front(); ++firstId; }
    }
    void load(const vector<string>& v) { for (auto& s: v) push(s,false); added=false; dropped.clear(); }
    void submit(const string& s)
    {
        browsing=false;
        added=false; dropped.clear();
        if (all.empty()||all.back().s!=s) push(s,true);
    }
    void undo()
    {
        if (added) all.pop_back();
        if (!dropped.empty()) { all.push_front(dropped.back()); --firstId; }
        added=false; dropped.clear();
    }
    bool has(unsigned long id) const { return id>=firstId && id-firstId<all.size(); }
    string at(unsigned long id) const { return all[id-firstId].s; }
    size_t viewFirst() const { return (all.size()>=cap) ? all.size()-cap+1 : 0; } // oldest entry visible while browsing
    string up(const string& line)
    {
        if (cap==0) return line;
        if (!browsing)
        {
            browsing=true; edit=line;
            pos = all.size(); // the edit line
        }
        else store(line);
        if (pos>viewFirst()) --pos;
        return get();
    }
    string down()
    {
        if (!browsing||pos==all.size()) return "";
        ++pos; return get();
    }
    void store(const string& l) { if (pos==all.size()) edit=l; else all[pos].s=l; }
    string get() const { return pos==all.size()?edit:all[pos].s; }
    vector<string> toStore() const
    {
        vector<string> r;
        for (size_t i=browsing?viewFirst():0;i<all.size();++i) if (all[i].own) r.push_back(all[i].s);
        return r;
    }
    string show() const
    {
        string r="\n";
        for (size_t i=0;i<all.size();++i) r+=std::to_string(firstId+i)+"\t"+all[i].s+"\n";
        return r+"\n";
    }
};

inline string stripSgr(const string& s)
{
    string r;
    for (size_t i=0;i<s.size();)
    {
        if (s[i]=='\x1b'&&i+1<s.size()&&s[i+1]=='[')
        {
            size_t j=i+2; while (j<s.size()&&((s[j]>='0'&&s[j]<='9')||s[j]==';')) ++j;
            if (j<s.size()&&s[j]=='m') { i=j+1; continue; }
        }
        r+=s[i++];
    }
    return r;
}

} // namespace model
