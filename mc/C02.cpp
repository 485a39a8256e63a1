// C02: malformed multi-byte sequences are flagged
#include "tw.hpp"
// pointer like iterator on a text terminated by a null character (like char*): notices accesses behind the terminator
struct Terminated
{
	const char* p; std::size_t n,pos; bool* beyond;
	char operator*() const { if (pos>=n) { *beyond=true; return 'x'; } return p[pos]; }
	Terminated& operator++() { ++pos; if (pos>n) *beyond=true; return *this; }
};
namespace textwolf { template <> struct Traits<Terminated> { static std::size_t getPosition(const Terminated& a,const Terminated& b) { return b.pos-a.pos; } }; }
using namespace tw;
MC_PROPERTY("C02")

// --- reference: is the byte sequence starting at p a well-formed character followed by anything? returns its length or 0
static int good(int cs, const std::string& s, std::size_t p, uint32_t& cp)
{
	std::size_t n=s.size()-p; auto b=[&](std::size_t i){ return (uint32_t)(unsigned char)s[p+i]; };
	if (n==0) return 0;
	if (cs==U8)
	{
		if (b(0)<0x80) { cp=b(0); return 1; }
		int len=b(0)>=0xC2&&b(0)<=0xDF?2:(b(0)>=0xE0&&b(0)<=0xEF?3:(b(0)>=0xF0&&b(0)<=0xF4?4:0));
		if (!len || n<(std::size_t)len) return 0;
		cp=b(0)&(0xFF>>(len+1));
		for (int i=1;i<len;i++) { if ((b(i)&0xC0)!=0x80) return 0; cp=cp<<6|(b(i)&0x3F); }
		if (len==3 && (cp<0x800 || (cp>=0xD800&&cp<=0xDFFF))) return 0;
		if (len==4 && (cp<0x10000 || cp>0x10FFFF)) return 0;
		return len;
	}
	if (cs==U16L||cs==U16B)
	{
		auto w=[&](std::size_t i){ return cs==U16B?(b(i)<<8|b(i+1)):(b(i+1)<<8|b(i)); };
		if (n<2) return 0;
		cp=w(0);
		if (cp<0xD800||cp>0xDFFF) return 2;
		if (cp>=0xDC00||n<4) return 0;
		uint32_t lo=w(2); if (lo<0xDC00||lo>0xDFFF) return 0;
		cp=0x10000+((cp-0xD800)<<10)+(lo-0xDC00); return 4;
	}
	// UCS-4
	if (n<4) return 0;
	cp=cs==C4B?(b(0)<<24|b(1)<<16|b(2)<<8|b(3)):(b(3)<<24|b(2)<<16|b(1)<<8|b(0));
	return cp<=0x10FFFF && (cp<0xD800||cp>0xDFFF)?4:0;
}
static bool validChar(int cs, uint32_t v)
{
	if (v>0x10FFFF || (v>=0xD800&&v<=0xDFFF)) return false;
	if ((cs==U16L||cs==U16B) && v==0xFFFF) return false;   // noncharacter used as the invalid value
	return true;
}
// variant 0: ask the value directly, 1: classify first, 2: ASCII first, 3: copied raw first
template <class CS> static uint32_t first(int cs, const Mem& m, int variant, std::size_t& consumed)
{
	textwolf::TextScanner<textwolf::CStringIterator,CS> ts(Make<CS>::make(cs),textwolf::CStringIterator(m.p,(unsigned)m.n));
	CS out=Make<CS>::make(cs); std::string dummy;
	if (variant==1) ts.control(); else if (variant==2) ts.ascii(); else if (variant==3) ts.copychar(out,dummy);
	uint32_t v=ts.chr(); if (ts.chr()!=v) throw mc::Violation("value changes when read twice");
	++ts; consumed=ts.getPosition();
	// the rest is read to its end
	std::size_t steps=0; while (ts.getPosition()<m.n) { ts.chr(); ++ts; if (++steps>m.n+8) throw mc::Violation("reader does not advance"); }
	return v;
}
static void judge(mc::Choice& c, int cs, const std::string& s)
{
	c.show(std::string(csName(cs))+" "+s);
	Mem m(s); uint32_t cp=0; int n=good(cs,s,0,cp);
	int nv=c.thorough()?4:2;
	for (int variant=0;variant<nv;variant++)
	{
		uint32_t v=0; std::size_t consumed=0;
		TW_DISPATCH(cs, v=first<CS>(cs,m,variant==1&&!c.thorough()?3:variant,consumed));
		if (n) { if (v!=cp) c.fail("well-formed sequence "+mc::esc(s)+" read as "+std::to_string(v)); if ((int)consumed!=n) c.fail("well-formed sequence "+mc::esc(s)+": wrong number of bytes consumed: "+std::to_string(consumed)); }
		else if (validChar(cs,v)) c.fail("malformed sequence "+mc::esc(s)+" read as character "+std::to_string(v));
		c.outcome(mc::hcomb(v,consumed)); c.step();
	}
	c.trace(); c.state(mc::hstr(s,cs));
}
// read to the end as null terminated text in all ways of accessing a character; returns what is wrong
template <class CS> static std::string tillEnd(int cs, const std::string& s, int variant)
{
	std::string t=s+std::string(unit(cs),'\0'); bool beyond=false; Mem m(t); Terminated it={m.p,m.n,0,&beyond};
	textwolf::TextScanner<Terminated,CS> ts(Make<CS>::make(cs),it); CS out=Make<CS>::make(cs); std::string dummy; std::size_t steps=0;
	for (;;)
	{
		if (variant!=1 && ts.control()==textwolf::EndOfText) break;
		if (variant==1 && ts.chr()==0) break;
		if (variant==2) ts.chr(); else if (variant==3) ts.copychar(out,dummy); else if (variant==4) ts.ascii();
		++ts; if (beyond) return "the reader accesses memory behind the terminating null character of "+mc::esc(s);
		if (++steps>t.size()) return "the reader does not advance";
	}
	ts.chr(); ts.control(); ts.copychar(out,dummy); if (beyond) return "the reader accesses memory behind the terminating null character of "+mc::esc(s);
	if (ts.getPosition()!=s.size()) return "the end of "+mc::esc(s)+" is found at position "+std::to_string(ts.getPosition());
	return "";
}
static void judgeTerminated(mc::Choice& c, int cs, const std::string& s)
{
	c.show(std::string(csName(cs))+" terminated "+s);
	for (int v=0;v<5;v++) { std::string e; TW_DISPATCH(cs,e=tillEnd<CS>(cs,s,v)); c.step(); if (!e.empty()) c.fail(e); c.outcome(mc::hstr(e,v)); }
	c.trace(); c.state(mc::hstr(s,cs+100));
}
static void utf8terminated(mc::Choice& c)
{
	static const std::vector<int> q={0x41,0x80,0xbf,0xc3,0xe2,0xf0,0xf8,0xfc,0xfe,0xff}; std::string s; int n=c.pick(c.thorough()?8:6);
	for (int i=0;i<n;i++) s.push_back((char)c.of(q)); judgeTerminated(c,U8,s);
	if (n==1) for (int b=1;b<256;b++) for (int d=1;d<256;d++) { std::string w; w.push_back((char)b); w.push_back((char)d); judgeTerminated(c,U8,w); }
}
static void unitsTerminated(mc::Choice& c)
{
	static const std::vector<uint32_t> q={0x41,0xd7ff,0xd800,0xdbff,0xdc00,0xdfff,0xe000,0x4100,0x10ffff,0xd80041,0x41000000}; static const int css[]={U16L,U16B,C2L,C2B,C4L,C4B,ISO1};
	int cs=css[c.pick(7)]; std::string s; int n=c.pick(c.thorough()?6:5); uint32_t last=0;
	for (int i=0;i<n;i++) { uint32_t w=c.of(q); int k=unit(cs); if (k<4) w&=k==2?0xFFFF:0xFF; if (!w) w=0x41; put(cs==U16L?C2L:cs==U16B?C2B:cs,w,s); last=w; }
	if ((cs==U16L||cs==U16B) && (last>>10)==0x36) return;   // known finding: unpaired high surrogate at the end
	judgeTerminated(c,cs,s);
}
static const std::vector<int>& bytes8(bool t)
{
	static const std::vector<int> q={0x41,0x01,0x7f,0x80,0x8f,0x90,0x9f,0xa0,0xbf,0xc0,0xc2,0xdf,0xe0,0xed,0xf0,0xf4};
	static const std::vector<int> x={0x41,0x01,0x3f,0x7f,0x80,0x81,0x8f,0x90,0x9f,0xa0,0xaf,0xb0,0xbf,0xc0,0xc1,0xc2,0xdf,0xe0,0xed,0xef,0xf0,0xf4,0xf8,0xfe};
	return t?x:q;
}
// all 256 lead bytes, all continuation classes, all lengths incl. truncation
static void utf8(mc::Choice& c)
{
	int lead=c.pick(256); if (lead==0) lead=0x100; 
	std::string s; if (lead<0x100) s.push_back((char)lead); else { s.push_back('\x7f'); }
	int n=c.pick(6); const std::vector<int>& al=bytes8(c.thorough());
	int full=c.thorough()?4:3;
	for (int i=0;i<n;i++) s.push_back((char)(i<full?c.of(al):(c.thorough()&&c.flip()?0x41:0x80)));
	judge(c,U8,s);
}
// all 2 byte and all 3 byte sequences with any bytes
static void utf8all(mc::Choice& c)
{
	int a=c.pick(255)+1, b=c.pick(255)+1;
	std::string s; s.push_back((char)a); s.push_back((char)b);
	judge(c,U8,s);
	for (int d=1;d<256;d++) { std::string t=s; t.push_back((char)d); judge(c,U8,t); if (c.thorough()) for (int e:{0x41,0x7f,0x80,0xbf,0xc0}) { std::string w=t; w.push_back((char)e); judge(c,U8,w); } }
}
// UTF-16: all first units, classes of second units
static void utf16(mc::Choice& c)
{
	int cs=U16L+c.pick(2); int hi=c.pick(256); 
	static const uint32_t second[]={0x0041,0x0100,0xd7ff,0xd800,0xdbff,0xdc00,0xdc01,0xddff,0xdfff,0xe000,0xffff,0x00dc,0x00df};
	for (int lo=0;lo<256;lo++)
	{
		uint32_t w=hi<<8|lo; if (!w) continue;
		std::string one; put(cs==U16L?C2L:C2B,w,one); judge(c,cs,one);
		for (uint32_t x:second) { std::string two=one; put(cs==U16L?C2L:C2B,x,two); judge(c,cs,two); if (c.thorough()) { std::string three=two; put(cs==U16L?C2L:C2B,0x41,three); judge(c,cs,three); } }
	}
}
static void utf16seconds(mc::Choice& c)
{
	int cs=U16L+c.pick(2); static const uint32_t f[]={0xd800,0xd801,0xdaaa,0xdbff,0xdc00,0xdfff,0xd7ff,0xe000}; uint32_t a=f[c.pick(8)]; int hi=c.pick(256);
	for (int lo=0;lo<256;lo++) { std::string s; put(cs==U16L?C2L:C2B,a,s); put(cs==U16L?C2L:C2B,hi<<8|lo,s); judge(c,cs,s); }
}
static void ucs4(mc::Choice& c)
{
	int cs=C4L+c.pick(2); static const int by[]={0,1,0x10,0x11,0x41,0x7f,0x80,0xd7,0xd8,0xdf,0xe0,0xff};
	uint32_t v=0; for (int i=0;i<4;i++) v=v<<8|by[c.pick(12)];
	if (!v) return;
	std::string s; put(cs,v,s); judge(c,cs,s);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"utf8-lead-and-continuation-classes",utf8,0,0,3,"all 256 lead bytes followed by 0..5 bytes, the first three (thorough: four) over every byte class of the UTF-8 grammar"},
	{"utf8-all-short",utf8all,0,0,2,"all UTF-8 byte sequences without NUL of length 2 and 3 (thorough: and 4 with a fourth byte out of every class)"},
	{"utf16-first-units",utf16,0,0,2,"all 65535 first units alone and followed by second units of every class, both byte orders"},
	{"utf16-second-units",utf16seconds,0,0,2,"surrogate boundary first units followed by all 65536 second units, both byte orders"},
	{"ucs4",ucs4,0,0,2,"four byte units over byte classes"},
	{"utf8-terminated",utf8terminated,0,0,2,"all UTF-8 byte pairs and all sequences of up to 5 (thorough: 7) bytes out of 10 classes as null terminated text (char* like source), read to the end in 5 ways"},
	{"units-terminated",unitsTerminated,0,0,2,"all sequences of up to 4 (thorough: 5) units out of 11 in UTF-16, UCS-2, UCS-4 and ISO-8859-1 as null terminated text"}}; }
std::vector<Probe> probes(){ return {
	{"unpaired-surrogate-before-terminator",[]{ std::string s; put(C2B,0xd800,s); std::string e=tillEnd<textwolf::charset::UTF16BE>(U16B,s,0); if (e.empty()) { s.clear(); put(C2L,0xd800,s); e=tillEnd<textwolf::charset::UTF16LE>(U16L,s,0); } return e; }}}; }
std::vector<std::string> assumptions(){ return {"an input ending inside of a code unit is out of scope (the reader completes it with null bytes)","UTF-16: the noncharacter U+FFFF is the invalid value"}; }
}
