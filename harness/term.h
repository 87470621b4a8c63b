// A terminal emulator, as wide as needed: what a user would see of the bytes written by a session.
#pragma once
#include "h.h"
namespace term {
struct Cell { char c=' '; bool col=false; };
struct Emu
{
    std::vector<std::vector<Cell>> rows{1};
    size_t r=0,c=0;
    bool col=false;          // an SGR attribute is active
    long long sgrOn=0,sgrOff=0,unknown=0;
    std::string csi; int st=0; // 0 text, 1 ESC, 2 CSI
    void cell(char ch) { while (rows.size()<=r) rows.emplace_back(); auto& row=rows[r]; if (row.size()<=c) row.resize(c+1); row[c].c=ch; row[c].col=col; ++c; }
    void put(char ch)
    {
        if (st==1) { st = ch=='['?2:0; csi.clear(); if (st==0) ++unknown; return; }
        if (st==2)
        {
            if ((ch>='0'&&ch<='9')||ch==';'||ch=='?') { csi+=ch; return; }
            st=0; exec(ch); return;
        }
        switch(ch)
        {
            case 27: st=1; break;
            case '\r': c=0; break;
            case '\n': c=0; ++r; while (rows.size()<=r) rows.emplace_back(); break;
            case '\b': if (c>0) --c; break;
            case '\t': { size_t t=(c/8+1)*8; auto& row=rows[r]; if (row.size()<t) row.resize(t); if (row[c].c==' ') row[c].c='\t'; c=t; break; }
            case 7: case 0: break;
            default: cell(ch);
        }
    }
    int num(int def) { int v=0; bool any=false; for (char x: csi) { if (x>='0'&&x<='9') { v=v*10+(x-'0'); any=true; } else break; } return any?v:def; }
    void exec(char f)
    {
        switch(f)
        {
            case 'm': { bool z=true; for (char x: csi) if (x>='1'&&x<='9') z=false; col=!z; if (z) ++sgrOff; else ++sgrOn; break; }
            case 'H': r=0; c=0; break;
            case 'J': if (num(0)==0) { rows.resize(r+1); if (rows[r].size()>c) rows[r].resize(c); } else { rows.assign(r+1,{}); } break;
            case 'K': if (num(0)==0) { if (rows[r].size()>c) rows[r].resize(c); } else if (num(0)==2) rows[r].clear(); break;
            case 'A': { size_t n=size_t(num(1)); r = r>n?r-n:0; break; }
            case 'B': r+=size_t(num(1)); while (rows.size()<=r) rows.emplace_back(); break;
            case 'C': c+=size_t(num(1)); break;
            case 'D': { size_t n=size_t(num(1)); c = c>n?c-n:0; break; }
            case 'G': { int n=num(1); c=size_t(n>0?n-1:0); break; }
            case 'P': { size_t n=size_t(num(1)); auto& row=rows[r]; if (c<row.size()) row.erase(row.begin()+long(c),row.begin()+long(std::min(row.size(),c+n))); break; }
            default: ++unknown;
        }
    }
    void feed(const std::string& s) { for (char x: s) put(x); }
    std::string row(size_t i) const { std::string s; if (i<rows.size()) for (auto& x: rows[i]) s+=x.c; while (!s.empty()&&s.back()==' ') s.pop_back(); return s; }
    std::string rowFull(size_t i) const { std::string s; if (i<rows.size()) for (auto& x: rows[i]) s+=x.c; return s; }
};
inline std::string rtrim(std::string s) { while (!s.empty()&&s.back()==' ') s.pop_back(); return s; }
} // namespace term
