// Running the header parser and a reference for what a declaration is
#pragma once
#include "tw.hpp"
#include <textwolf/xmlhdrparser.hpp>
namespace hdr {
using namespace tw;
enum {Rec,More,Err,Thrown};
struct Res { int r; std::string enc; bool hasenc, msg; bool operator==(const Res& o) const { return r==o.r&&enc==o.enc&&hasenc==o.hasenc&&msg==o.msg; } };
inline std::string show(const Res& r){ return std::string(r.r==Rec?"recognized":r.r==More?"more data requested":r.r==Err?"error":"exception")+(r.hasenc?" encoding '"+mc::esc(r.enc)+"'":" no encoding"); }
inline Res step(textwolf::XmlHdrParser& p)
{
	Res r; r.msg=false; try { r.r=p.parse()?Rec:p.lasterror()?Err:More; if (r.r==Err) { r.msg=*p.lasterror()!=0; if (!r.msg) throw mc::Violation("error without message"); } else if (p.lasterror()) throw mc::Violation("recognized but lasterror() is set"); } catch (const textwolf::exception& e) { r.r=Thrown; } const char* e=p.encoding(); r.hasenc=e!=0; if (e) r.enc=e; return r;
}
// feed in chunks, one call of parse per chunk until it is decided
inline Res feed(textwolf::XmlHdrParser& p, const std::string& s, const std::vector<std::size_t>& cuts, uint64_t* steps=0)
{
	std::size_t from=0; Res r; r.r=More; std::string put; for (std::size_t k=0;k<=cuts.size();k++) { std::size_t to=k<cuts.size()?cuts[k]:s.size(); { Mem m(s.substr(from,to-from)); p.putInput(m.p,m.n); put.append(m.p,m.n); memset(m.p,'#',m.n); } from=to; r=step(p); if (steps) ++*steps; if (p.consumedData()!=put) throw mc::Violation("consumed data is '"+mc::esc(p.consumedData())+"' instead of '"+mc::esc(put)+"'"); if (r.r!=More) break; } return r;
}
inline Res whole(const std::string& s){ textwolf::XmlHdrParser p; return feed(p,s,std::vector<std::size_t>()); }
inline Res bytewise(const std::string& s){ textwolf::XmlHdrParser p; std::vector<std::size_t> c; for (std::size_t i=1;i<s.size();i++) c.push_back(i); return feed(p,s,c); }
// reference, on ASCII bytes without NUL
struct Ref { unsigned allowed; bool enc; std::string encoding; bool judged(){ return allowed!=7; } };   // allowed: bits 1 recognized, 2 more, 4 error
inline Ref reference(const std::string& s)
{
	Ref r; r.enc=false; std::size_t i=0, n=s.size(); auto sp=[](unsigned char c){ return c<=32; }; auto al=[](unsigned char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'; }; auto is=[&](unsigned a)->Ref{ r.allowed=a; return r; }; const unsigned R=1,M=2,E=4,U=7; for (unsigned char c:s) if (c==0||c>=0x80) return is(U);
	while (i<n&&sp(s[i])) i++; if (i==n) return is(M); if (s[i++]!='<') return is(E); if (i==n) return is(M); if (al(s[i])||s[i]=='!') return is(R); if (sp(s[i])||s[i]==':') return is(U); if (s[i++]!='?') return is(E);
	std::string nm; while (i<n&&al(s[i])) nm.push_back(s[i++]); if (i==n) return is(std::string("xml").compare(0,nm.size(),nm)==0?M:M|E); if (nm!="xml"||!(sp(s[i])||s[i]=='?')) return is(E);
	std::set<std::string> seen; bool space=true; auto end=[&]()->Ref{ i++; if (i==n) return is(R|M); return is(s[i]=='>'?R:U); }; if (s[i]=='?') return end();
	for (;;)
	{
		bool s1=false; while (i<n&&sp(s[i])) i++,s1=true; if (i==n) return is(M); if (s[i]=='?') return end(); if (!al(s[i])) return is(E); if (!s1) return is(U);
		nm.clear(); while (i<n&&al(s[i])) nm.push_back(s[i++]); bool known=nm=="version"||nm=="encoding"||nm=="standalone"; if (i==n) { static const char* k[]={"version","encoding","standalone"}; for (auto x:k) if (std::string(x).compare(0,nm.size(),nm)==0) return is(M); return is(M|E); } if (!sp(s[i])&&s[i]!='=') return is(E); if (!known) return is(E); if (!seen.insert(nm).second) return is(U);
		while (i<n&&sp(s[i])) i++; if (i==n) return is(M); if (s[i++]!='=') return is(E); while (i<n&&sp(s[i])) i++; if (i==n) return is(M); unsigned char q=s[i++]; if (q!='"'&&q!='\'') return is(E); std::string v; bool odd=false; while (i<n&&(unsigned char)s[i]!=q) { if (!isalnum((unsigned char)s[i])&&s[i]!='.'&&s[i]!='-'&&s[i]!='_') odd=true; v.push_back(s[i++]); } if (i==n) return is(odd?U:M); i++; if (odd||v.empty()) return is(U); if (nm=="encoding") { r.enc=true; r.encoding=v; }
	}
}
inline void judge(const std::string& s, const Res& g)
{
	Ref w=reference(s); if (!w.judged()) return; unsigned bit=g.r==Rec?1:g.r==More?2:4; if (g.r==Thrown||!(w.allowed&bit)) throw mc::Violation(show(g)+" instead of "+(w.allowed==1?"recognized":w.allowed==2?"more data requested":w.allowed==4?"error":"other")+" on '"+mc::esc(s)+"'"); if (g.r==Rec&&(g.hasenc!=w.enc||g.enc!=w.encoding)) throw mc::Violation(show(g)+" instead of '"+w.encoding+"'");
}
inline std::string wide(const std::string& s, int cs){ return enc(cs,ustr(s)); }
} // namespace hdr
