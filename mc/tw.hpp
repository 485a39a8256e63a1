// Common access to the code under test and independent reference encoders
#pragma once
#include "mc.hpp"
#include "iso_tables.hpp"
#include <textwolf.hpp>
#include <textwolf/istreamiterator.hpp>
#include <textwolf/cstringiterator.hpp>
#include <textwolf/sourceiterator.hpp>
#include <setjmp.h>
#include <memory>
#include <algorithm>
#include <array>

namespace tw {
typedef std::u32string U;
typedef textwolf::XMLScannerBase B;

// ---------------------------------------------------------------- character set encodings
enum Cs { U8,U16L,U16B,C2L,C2B,C4L,C4B,ISO1,ISO2,ISO3,ISO4,ISO5,ISO6,ISO7,ISO8,ISO9,NofCs };
inline const char* csName(int c){ static const char* n[]={"UTF-8","UTF-16LE","UTF-16BE","UCS-2LE","UCS-2BE","UCS-4LE","UCS-4BE","ISO-8859-1","ISO-8859-2","ISO-8859-3","ISO-8859-4","ISO-8859-9","ISO-8859-10","ISO-8859-13","ISO-8859-14","ISO-8859-15"}; return n[c]; }
inline int unit(int c){ return c==U8||c>=ISO1 ? 1 : (c<=C2B ? 2 : 4); }

inline int isoByte(int page /*0..8*/, uint32_t cp)
{
	static std::vector<std::map<uint32_t,int>> m;
	if (m.empty()) { m.resize(9); for (int p=0;p<9;p++) for (int b=0;b<256;b++) if (isoTable[p][b]!=0xFFFF) m[p][isoTable[p][b]]=b; }
	if (cp<0x80) return cp;
	auto i=m[page].find(cp); return i==m[page].end()?-1:i->second;
}
inline bool representable(int c, uint32_t cp)
{
	if (cp>=0xD800 && cp<=0xDFFF) return false;
	if (cp>0x10FFFF) return false;
	if (c==C2L||c==C2B) return cp<=0xFFFF;
	if (c>=ISO1) return isoByte(c-ISO1,cp)>=0;
	return true;
}
inline void put(int c, uint32_t cp, std::string& o)
{
	auto b=[&](uint32_t x){ o.push_back((char)(unsigned char)x); };
	auto u2=[&](uint32_t x,bool be){ if (be) { b(x>>8); b(x&255); } else { b(x&255); b(x>>8); } };
	switch (c)
	{
		case U8:
			if (cp<0x80) b(cp);
			else if (cp<0x800) { b(0xC0|cp>>6); b(0x80|(cp&63)); }
			else if (cp<0x10000) { b(0xE0|cp>>12); b(0x80|(cp>>6&63)); b(0x80|(cp&63)); }
			else if (cp<0x200000) { b(0xF0|cp>>18); b(0x80|(cp>>12&63)); b(0x80|(cp>>6&63)); b(0x80|(cp&63)); }
			else if (cp<0x4000000) { b(0xF8|cp>>24); b(0x80|(cp>>18&63)); b(0x80|(cp>>12&63)); b(0x80|(cp>>6&63)); b(0x80|(cp&63)); }   // ISO 10646, behind Unicode
			else { b(0xFC|cp>>30); b(0x80|(cp>>24&63)); b(0x80|(cp>>18&63)); b(0x80|(cp>>12&63)); b(0x80|(cp>>6&63)); b(0x80|(cp&63)); }
			break;
		case U16L: case U16B:
			if (cp<0x10000) u2(cp,c==U16B); else { cp-=0x10000; u2(0xD800+(cp>>10),c==U16B); u2(0xDC00+(cp&1023),c==U16B); }
			break;
		case C2L: case C2B: u2(cp,c==C2B); break;
		case C4L: b(cp&255); b(cp>>8&255); b(cp>>16&255); b(cp>>24); break;
		case C4B: b(cp>>24); b(cp>>16&255); b(cp>>8&255); b(cp&255); break;
		default: b(isoByte(c-ISO1,cp));
	}
}
inline std::string enc(int c, const U& s){ std::string o; for (uint32_t x:s) put(c,x,o); return o; }
// expected output of a writer: characters that can not be represented are written as hexadecimal character reference
inline std::string encRef(int c, const U& s)
{
	std::string o; char t[32];
	for (uint32_t x:s) if (representable(c,x)) put(c,x,o); else { snprintf(t,32,"&#x%x;",x); for (char* p=t;*p;p++) put(c,(unsigned char)*p,o); }
	return o;
}
// replace what an encoding can not represent
inline U fit(int c, const U& s){ U r; for (uint32_t x:s) r.push_back(representable(c,x)?x:(c>=ISO1?isoTable[c-ISO1][0xE0+(x%16)]:0xE9)); return r; }
inline U u(const char* s){ U r; for (;*s;s++) r.push_back((unsigned char)*s); return r; }
inline U ustr(const std::string& s){ U r; for (unsigned char c:s) r.push_back(c); return r; }
inline std::string show(const U& s){ std::string r; char t[16]; for (uint32_t x:s) if (x<128) { std::string c(1,(char)x); r+=mc::esc(c);} else { snprintf(t,16,"{U+%X}",x); r+=t; } return r; }

// ---------------------------------------------------------------- character set types of the library
template <int C> struct T;
template <> struct T<U8>{ typedef textwolf::charset::UTF8 type; };
template <> struct T<U16L>{ typedef textwolf::charset::UTF16LE type; };
template <> struct T<U16B>{ typedef textwolf::charset::UTF16BE type; };
template <> struct T<C2L>{ typedef textwolf::charset::UCS2LE type; };
template <> struct T<C2B>{ typedef textwolf::charset::UCS2BE type; };
template <> struct T<C4L>{ typedef textwolf::charset::UCS4LE type; };
template <> struct T<C4B>{ typedef textwolf::charset::UCS4BE type; };
template <> struct T<ISO1>{ typedef textwolf::charset::IsoLatin type; };
template <class CS> struct Make { static CS make(int){ return CS(); } };
template <> struct Make<textwolf::charset::IsoLatin> { static textwolf::charset::IsoLatin make(int c){ return textwolf::charset::IsoLatin(c-ISO1+1); } };

// dispatch a run time character set to a template: F<type>::call(args)
#define TW_DISPATCH(cs, CALL) \
	switch (cs) { \
		case tw::U8:   { typedef textwolf::charset::UTF8 CS; CALL; break; } \
		case tw::U16L: { typedef textwolf::charset::UTF16LE CS; CALL; break; } \
		case tw::U16B: { typedef textwolf::charset::UTF16BE CS; CALL; break; } \
		case tw::C2L:  { typedef textwolf::charset::UCS2LE CS; CALL; break; } \
		case tw::C2B:  { typedef textwolf::charset::UCS2BE CS; CALL; break; } \
		case tw::C4L:  { typedef textwolf::charset::UCS4LE CS; CALL; break; } \
		case tw::C4B:  { typedef textwolf::charset::UCS4BE CS; CALL; break; } \
		default:       { typedef textwolf::charset::IsoLatin CS; CALL; break; } \
	}

// ---------------------------------------------------------------- exactly sized heap copy (so that reads behind the end are seen)
struct Mem
{
	char* p; std::size_t n;
	explicit Mem(const std::string& s):p((char*)malloc(s.size()?s.size():1)),n(s.size()){ if (!p) throw std::bad_alloc(); memcpy(p,s.data(),n); }
	~Mem(){ free(p); }
	Mem(const Mem&)=delete; Mem& operator=(const Mem&)=delete;
};

// ---------------------------------------------------------------- tokens
struct Tok
{
	int t; std::string s; std::size_t tp; int err;
	bool operator==(const Tok& o) const { return t==o.t && s==o.s && tp==o.tp && err==o.err; }
	bool operator!=(const Tok& o) const { return !(*this==o); }
};
typedef std::vector<Tok> Toks;
inline const char* tname(int t){ static const char* n[]={"None","Error","HeaderStart","HeaderAttribName","HeaderAttribValue","HeaderEnd","DocAttribValue","DocAttribEnd","TagAttribName","TagAttribValue","OpenTag","CloseTag","CloseTagIm","Content","Exit","NEED"}; return t>=0&&t<16?n[t]:"?"; }
inline std::string show(const Toks& v, bool pos=false)
{
	std::string r; for (auto& x:v) { if (!r.empty()) r+=" "; r+=tname(x.t); if (!x.s.empty()) r+="'"+mc::esc(x.s)+"'"; if (x.err) r+="#"+std::to_string(x.err); if (pos) r+="@"+std::to_string(x.tp); } return r;
}
inline uint64_t hash(const Toks& v){ uint64_t h=1; for (auto& x:v) h=mc::hcomb(mc::hcomb(h,mc::hstr(x.s)),x.t*64+x.err); return h; }
enum { NEED=15 };

// drain a scanner: all tokens up to and including Exit or the first error
template <class SC>
Toks drain(SC& sc, std::size_t limit, unsigned short mask=0xFFFF)
{
	Toks r;
	for (;;)
	{
		int t=sc.nextItem(mask);
		Tok k; k.t=t; k.tp=0; k.err=0;
		if (t==B::ErrorOccurred) { k.err=(int)sc.getError(); r.push_back(k); return r; }
		k.tp=sc.getTokenPosition();
		k.s.assign(sc.getItemPtr(),sc.getItemSize());
		r.push_back(k);
		if (t==B::Exit) return r;
		if (r.size()>limit) throw mc::Violation("tokens without end: more than "+std::to_string(limit)+" delivered");
	}
}
inline std::size_t tokLimit(std::size_t bytes){ return 4*bytes+64; }

template <class IN, class OUT>
Toks scanAll(int incs, const std::string& bytes, unsigned short mask=0xFFFF)
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,std::string> SC;
	Mem m(bytes);
	SC sc(Make<IN>::make(incs),textwolf::CStringIterator(m.p,(unsigned)m.n));
	return drain(sc,tokLimit(m.n),mask);
}

// ---------------------------------------------------------------- scanner fed chunk by chunk
enum Style { Put, SetSource };
template <class IN, class OUT>
class Chunked
{
public:
	typedef textwolf::XMLScanner<textwolf::SrcIterator,IN,OUT,std::string> SC;
	explicit Chunked(int incs, Style st=Put):sc(Make<IN>::make(incs)),style(st),buf(0){}
	Chunked(int incs, Style st, const typename SC::EntityMap& em):sc(Make<IN>::make(incs),textwolf::SrcIterator(),em),style(st),buf(0){}
	~Chunked(){ free(buf); }
	void feed(const char* p, std::size_t n, bool last)
	{
		char* nb=(char*)malloc(n?n:1); memcpy(nb,p,n);
		if (style==Put) sc.getIterator().putInput(nb,n,last?0:&eom);
		else sc.setSource(textwolf::SrcIterator(nb,n,last?0:&eom));
		free(buf); buf=nb;
	}
	int next(unsigned short mask=0xFFFF)
	{
		if (setjmp(eom)!=0) return NEED;
		return sc.nextItem(mask);
	}
	Tok tok(int t)
	{
		Tok k; k.t=t; k.tp=0; k.err=0;
		if (t==B::ErrorOccurred) k.err=(int)sc.getError();
		else { k.tp=sc.getTokenPosition(); k.s.assign(sc.getItemPtr(),sc.getItemSize()); }
		return k;
	}
	SC sc; Style style; jmp_buf eom; char* buf;
	Chunked(const Chunked&)=delete; Chunked& operator=(const Chunked&)=delete;
};
// cuts: ascending positions (repeated = empty chunk); all chunks are fed with "more to come", then an empty last chunk unless lastWithData
template <class IN, class OUT>
Toks scanChunks(int incs, const std::string& bytes, const std::vector<std::size_t>& cuts, Style st, bool lastWithData, uint64_t* steps=0, unsigned short mask=0xFFFF)
{
	Chunked<IN,OUT> c(incs,st);
	std::size_t from=0, k=0; Toks r; std::size_t limit=tokLimit(bytes.size()); bool end=false;
	auto feed=[&]()
	{
		if (end) throw mc::Violation("more input requested after the last chunk");
		std::size_t to=k<cuts.size()?cuts[k]:bytes.size();
		if (k>cuts.size()) { c.feed("",0,true); end=true; }
		else
		{
			bool last=(k==cuts.size() && lastWithData);
			c.feed(bytes.data()+from,to-from,last); end=last; from=to;
		}
		++k;
	};
	feed();
	for (;;)
	{
		int t=c.next(mask); if (steps) ++*steps;
		if (t==NEED) { feed(); continue; }
		r.push_back(c.tok(t));
		if (t==B::Exit||t==B::ErrorOccurred) return r;
		if (r.size()>limit) throw mc::Violation("tokens without end");
	}
}
} // namespace tw
