// Reading printed documents: independent decoders and a strict parser of the part of XML the printer writes
#pragma once
#include "tw.hpp"
#include <textwolf/xmlprinter.hpp>
namespace print {
using namespace tw;
inline U dec(int cs, const std::string& s)
{
	U r; std::size_t i=0, n=s.size(); auto b=[&](std::size_t k)->uint32_t{ if (k>=n) throw mc::Violation("incomplete character at the end of the printed bytes"); return (unsigned char)s[k]; };
	auto bad=[&](){ throw mc::Violation("printed bytes are not valid "+std::string(csName(cs))+": '"+mc::esc(s)+"'"); };
	while (i<n) switch (cs)
	{
		case U8: { uint32_t a=b(i), x; int k; if (a<0x80) x=a,k=0; else if (a<0xC2) { bad(); } else if (a<0xE0) x=a&31,k=1; else if (a<0xF0) x=a&15,k=2; else if (a<0xF5) x=a&7,k=3; else bad(); if (a>=0x80) for (int j=1;j<=k;j++) { uint32_t y=b(i+j); if ((y&0xC0)!=0x80) bad(); x=x<<6|(y&63); } if ((k==2&&x<0x800)||(k==3&&x<0x10000)||x>0x10ffff||(x>=0xd800&&x<0xe000)) bad(); r.push_back(x); i+=k+1; break; }
		case U16L: case U16B: { bool be=cs==U16B; uint32_t x=be?b(i)<<8|b(i+1):b(i+1)<<8|b(i); i+=2; if (x>=0xdc00&&x<0xe000) bad(); if (x>=0xd800&&x<0xdc00) { uint32_t y=be?b(i)<<8|b(i+1):b(i+1)<<8|b(i); i+=2; if (y<0xdc00||y>0xdfff) bad(); x=0x10000+((x-0xd800)<<10)+(y-0xdc00); } r.push_back(x); break; }
		case C2L: r.push_back(b(i)|b(i+1)<<8); i+=2; break;
		case C2B: r.push_back(b(i)<<8|b(i+1)); i+=2; break;
		case C4L: r.push_back(b(i)|b(i+1)<<8|b(i+2)<<16|b(i+3)<<24); i+=4; break;
		case C4B: r.push_back(b(i)<<24|b(i+1)<<16|b(i+2)<<8|b(i+3)); i+=4; break;
		default: { uint32_t x=isoTable[cs-ISO1][b(i)]; if (x==0xFFFF) bad(); r.push_back(x); i++; }
	}
	return r;
}
struct Item { int t; U s; bool operator==(const Item& o) const { return t==o.t&&s==o.s; } };
typedef std::vector<Item> Items;
inline std::string show(const Items& v){ std::string r; for (auto& x:v) r+=std::string(r.empty()?"":" ")+tname(x.t)+"'"+tw::show(x.s)+"'"; return r; }
// strict parser; a document is  [header] [doctype] element, white space in between
struct Parser
{
	const U& s; std::size_t i; Items out;
	explicit Parser(const U& s_):s(s_),i(0){}
	[[noreturn]] void bad(const char* m){ throw mc::Violation("not well-formed, "+std::string(m)+" at "+std::to_string(i)+": "+tw::show(s)); }
	bool at(const char* k){ std::size_t j=i; for (;*k;k++,j++) if (j>=s.size()||s[j]!=(unsigned char)*k) return false; return true; }
	bool eat(const char* k){ if (!at(k)) return false; i+=strlen(k); return true; }
	static bool sp(uint32_t x){ return x==' '||x=='\n'||x=='\t'||x=='\r'; }
	bool ws(){ std::size_t b=i; while (i<s.size()&&sp(s[i])) i++; return i>b; }
	U name(){ U r; while (i<s.size()&&!sp(s[i])&&s[i]!='<'&&s[i]!='>'&&s[i]!='/'&&s[i]!='='&&s[i]!='"'&&s[i]!='\''&&s[i]!='&'&&s[i]!='?'&&s[i]!='!') r.push_back(s[i++]); if (r.empty()) bad("name expected"); return r; }
	uint32_t ref()
	{
		if (eat("#")) { uint32_t v=0; int n=0; bool hex=eat("x"); while (i<s.size()&&s[i]!=';') { uint32_t x=s[i++]; int d=x>='0'&&x<='9'?(int)(x-'0'):hex&&(x|32)>='a'&&(x|32)<='f'?(int)((x|32)-'a'+10):-1; if (d<0) bad("digit expected"); v=v*(hex?16:10)+d; n++; if (v>0x10ffff) bad("reference out of range"); } if (!n||!eat(";")) bad("unterminated reference"); return v; }
		static const struct { const char* n; char c; } e[]={{"lt;",'<'},{"gt;",'>'},{"amp;",'&'},{"apos;",'\''},{"quot;",'"'}}; for (auto& x:e) if (eat(x.n)) return x.c; bad("unknown reference");
	}
	U lit(bool raw){ uint32_t q=s[i]; if (i>=s.size()||(q!='"'&&q!='\'')) bad("quote expected"); i++; U r; while (i<s.size()&&s[i]!=q) { if (raw) { r.push_back(s[i++]); continue; } if (s[i]=='<') bad("'<' in value"); if (s[i]=='&') { i++; r.push_back(ref()); } else if (sp(s[i])) { r.push_back(' '); i++; } else r.push_back(s[i++]); } if (i>=s.size()) bad("unterminated literal"); i++; return r; }
	void attrs(int tn, int tv, bool& space){ std::set<U> seen; for (;;) { space=ws(); if (i>=s.size()||s[i]=='>'||s[i]=='/'||s[i]=='?') return; if (!space) bad("white space expected"); U n=name(); if (!seen.insert(n).second) bad("attribute repeated"); ws(); if (!eat("=")) bad("'=' expected"); ws(); out.push_back(Item{tn,n}); out.push_back(Item{tv,lit(false)}); } }
	const Items& operator()()
	{
		bool x; if (eat("<?xml")) { out.push_back(Item{B::HeaderStart,u("?xml")}); attrs(B::HeaderAttribName,B::HeaderAttribValue,x); if (!eat("?>")) bad("'?>' expected"); out.push_back(Item{B::HeaderEnd,U()}); }
		ws(); if (eat("<!DOCTYPE")) { out.push_back(Item{B::DocAttribValue,u("DOCTYPE")}); if (!ws()) bad("white space expected"); out.push_back(Item{B::DocAttribValue,name()}); if (ws()&&!at(">")) { U k=name(); out.push_back(Item{B::DocAttribValue,k}); int n=k==u("PUBLIC")?2:k==u("SYSTEM")?1:0; if (!n) bad("PUBLIC or SYSTEM expected"); while (n--) { if (!ws()) bad("white space expected"); out.push_back(Item{B::DocAttribValue,lit(true)}); } ws(); } if (!eat(">")) bad("'>' expected"); out.push_back(Item{B::DocAttribEnd,U()}); ws(); }
		std::vector<U> stk; if (!at("<")) bad("element expected"); do
		{
			if (i>=s.size()) bad("element not closed");
			if (eat("</")) { U n=name(); ws(); if (!eat(">")) bad("'>' expected"); if (n!=stk.back()) bad("end tag does not match"); stk.pop_back(); out.push_back(Item{B::CloseTag,n}); }
			else if (eat("<")) { U n=name(); out.push_back(Item{B::OpenTag,n}); attrs(B::TagAttribName,B::TagAttribValue,x); if (eat("/>")) out.push_back(Item{B::CloseTag,n}); else if (eat(">")) stk.push_back(n); else bad("'>' expected"); }
			else { U t; while (i<s.size()&&s[i]!='<') if (s[i]=='&') { i++; t.push_back(ref()); } else if (s[i]=='>') bad("'>' in content"); else if (s[i]=='\r') { t.push_back('\n'); i++; if (i<s.size()&&s[i]=='\n') i++; } else t.push_back(s[i++]); out.push_back(Item{B::Content,t}); }
		} while (!stk.empty());
		ws(); if (i!=s.size()) bad("something behind the root element"); return out;
	}
};
// the same document read with the scanner of the library (the definitions for every encoding are in printers.cpp)
Items scanBack(int cs, const std::string& bytes);
inline Items merged(const Items& v){ Items r; for (auto& x:v) { if (x.t==B::Content&&x.s.empty()) continue; if (x.t==B::Content&&!r.empty()&&r.back().t==B::Content) r.back().s+=x.s; else r.push_back(x); } return r; }
inline void check(int cs, const std::string& bytes, const Items& want0, bool scanner=true)
{
	Items want=merged(want0); U t=dec(cs,bytes); Parser p(t); if (p()!=want) throw mc::Violation("printed "+tw::show(t)+" reads as "+show(p.out)+" instead of "+show(want));
	if (scanner) { Items g=scanBack(cs,bytes); if (g!=want) throw mc::Violation("printed "+tw::show(t)+" scanned back as "+show(g)+" instead of "+show(want)); }
}
// printer of any pair of encodings, arguments given as bytes in the encoding of the application
struct Printer
{
	virtual ~Printer(){}
	virtual bool header(const char* e, const char* s, std::string& o)=0;
	virtual bool doctype(const char* r, const char* p, const char* s, std::string& o)=0;
	virtual bool open(const std::string& n, std::string& o)=0;
	virtual bool attribute(const std::string& n, std::string& o)=0;
	virtual bool value(const std::string& v, std::string& o)=0;
	virtual bool close(std::string& o)=0;
	virtual bool exit(std::string& o)=0;
	virtual void reset(bool sub)=0;
	virtual Printer* clone() const=0;
	virtual void assign(const Printer& o)=0;
	virtual const char* lasterror() const=0;
};
Printer* makePrinter(int cs, int as, bool sub);
} // namespace print
