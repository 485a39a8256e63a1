// S03: every input terminates without memory errors, the end of document is final
#include "corpus.hpp"
using namespace tw;
MC_PROPERTY("S03")
// scanning with continuation behind errors; every result must be an element type, progress must be made
struct MemStream :textwolf::IStream
{
	const char* p; std::size_t n,pos,err; MemStream(const char* p_, std::size_t n_):p(p_),n(n_),pos(0),err(0){}
	virtual std::size_t read(void* b, std::size_t k){ k=std::min(k,n-pos); memcpy(b,p+pos,k); pos+=k; return k; }
	virtual int errorcode() const { return 0; }
};
// ways of reading: 0 string with size, 1 the same with texts copied raw (output in the encoding of the input), 2 stream with a tiny buffer, 3 null terminated char*, 4 one chunk
template <class SC> static uint64_t consume(SC& sc, std::size_t size, unsigned short mask, uint64_t& steps)
{
	uint64_t h=1; std::size_t limit=tokLimit(size); int errors=0;
	for (std::size_t n=0;;n++)
	{
		int t=sc.nextItem(mask); ++steps;
		if (t<=0||t>14) throw mc::Violation("result "+std::to_string(t)+" is no element type");
		if (t==B::ErrorOccurred) { const char* e=0; if (sc.getError(&e)==B::Ok) throw mc::Violation("error without error code"); if (++errors>(int)size+16) break; h=mc::hcomb(h,99); if (errors>200) break; continue; }
		std::size_t sz=sc.getItemSize(); const char* p=sc.getItemPtr(); uint64_t hh=mc::hstr(p,sz);
		h=mc::hcomb(h,mc::hcomb(t,hh));
		if (t==B::Exit)
		{
			for (int i=0;i<3;i++) { if (sc.nextItem(mask)!=B::Exit) throw mc::Violation("a token is delivered behind the end of the document"); if (sc.getItemSize()) throw mc::Violation("the end of the document has a text"); }
			break;
		}
		if (n>limit) throw mc::Violation("tokens without end");
	}
	return h;
}
template <class CS> static uint64_t run(int cs, const std::string& bytes, unsigned short mask, int way, uint64_t& steps)
{
	typedef textwolf::charset::UTF8 OUT; using namespace textwolf; CS in=tw::Make<CS>::make(cs);
	switch (way)
	{
		case 1: { Mem m(bytes); XMLScanner<CStringIterator,CS,CS,std::string> sc(in,CStringIterator(m.p,(unsigned)m.n)); return consume(sc,m.n,mask,steps); }
		case 2: { Mem m(bytes); MemStream st(m.p,m.n); IStreamIterator it(&st,3); XMLScanner<IStreamIterator,CS,CS,std::string> sc(in,it); return consume(sc,m.n,mask,steps); }
		case 3: { Mem m(bytes+std::string(tw::unit(cs),'\0')); XMLScanner<char*,CS,OUT,std::string> sc(in,m.p); return consume(sc,m.n,mask,steps); }
		case 4: { Mem m(bytes); XMLScanner<SrcIterator,CS,OUT,std::string> sc(in,SrcIterator(m.p,m.n,0)); return consume(sc,m.n,mask,steps); }
		default: { Mem m(bytes); XMLScanner<CStringIterator,CS,OUT,std::string> sc(in,CStringIterator(m.p,(unsigned)m.n)); return consume(sc,m.n,mask,steps); }
	}
}
static void judge(mc::Choice& c, int cs, const std::string& bytes, unsigned short mask=0xFFFF, int way=0)
{
	if (way==3 && unit(cs)!=1) way=0;   // terminated by a single null byte
	c.show(std::string(csName(cs))+" way "+std::to_string(way)+" "+bytes); uint64_t h=0,steps=0;
	TW_DISPATCH(cs,(h=run<CS>(cs,bytes,mask,way,steps)));
	c.step(steps); c.trace(); c.outcome(h); c.state(mc::hstr(bytes,cs*655360+mask*8+way));
}
static const std::vector<U>& prefixes()
{
	static const std::vector<U> v={ U"",U"<",U"<?",U"<?xml",U"<?xml ",U"<?xml a",U"<?xml a ",U"<?xml a=",U"<?xml a='",U"<?xml a=\"",U"<?xml a=b",U"<?xml a='b'",U"<?xml a='b'?",U"<?xml?>",
		U"<!",U"<!D ",U"<!D 'x",U"<!D \"x",U"<!D [x",U"<!D x",U"<!-",U"<!--",U"<!-- x",U"<!-- -",U"<!-- --",U"<![CD",U"<![CDATA[",U"<![CDATA[ ]",U"<![CDATA[ ]]",
		U"<a",U"<a ",U"<a b",U"<a b ",U"<a b=",U"<a b='",U"<a b=\"x",U"<a b=x",U"<a b='x'",U"<a/",U"</",U"</a",U"</a ",U"<a>",U"<a>x",U"<a>&",U"<a>&#",U"<a>&#x",U"<a>&#1",U"<a>&#xf",U"<a>&a",U"<a b='&",U"<a b='&#x1",U"<a>&abcdefghijklmn",U"<a>&#99999999999999",U"<a>\r",U"<a><?p",U"<a><?p ?",U"<!a>",U"<a/>" };
	return v;
}
static const std::vector<uint32_t>& al()
{
	static const std::vector<uint32_t> v={'<','>','/','&',';','\'','"','=','?','!','-','[',']','a','x','#','0',' ','\n','\r',1,0xe9,0x1D11E,0}; return v;
}
static void contexts(mc::Choice& c)
{
	const U& p=c.of(prefixes()); int n=c.pick(c.thorough()?5:4); U w=p; for (int i=0;i<n;i++) w.push_back(c.of(al()));
	unsigned short mask=c.devof(std::vector<unsigned short>{0xFFFF,0,0x2000}); int way=c.dev(5);
	judge(c,U8,enc(U8,w),mask,way);
}
static void encodings(mc::Choice& c)
{
	int cs=c.pick(ISO2); const U& p=c.of(prefixes()); int n=c.pick(3); U w=p; for (int i=0;i<n;i++) w.push_back(c.of(al()));
	std::string b=enc(cs,fit(cs,w)); int cut=c.pick(unit(cs)==1?1:unit(cs)*2); b.resize(b.size()-std::min(b.size(),(std::size_t)cut));   // also truncated in the middle of a character
	judge(c,cs,b,0xFFFF,c.dev(5));
}
// all byte strings
static void bytes2(mc::Choice& c)
{
	static const int css[]={U8,U16L,U16B,C4B,ISO3}; int cs=css[c.pick(5)]; static const std::vector<U> ps={U"",U"<a>",U"<a b='",U"<!-- ",U"<a",U"<?xml a='",U"<a>&"}; std::string p=enc(cs,c.of(ps));
	int a=c.pick(256);
	for (int x=0;x<256;x++) { std::string s=p; s.push_back((char)a); s.push_back((char)x); judge(c,cs,s); if (c.thorough()) for (int y:{0,0x3c,0x3e,0x80,0xbf,0xc3,0xd8,0xdc,0xe2,0xf0,0xff,0x26,0x27}) { std::string t=s; t.push_back((char)y); judge(c,cs,t); for (int z:{0,0x3c,0xd8,0x80,0xff}) { std::string w=t; w.push_back((char)z); judge(c,cs,w);} } }
}
static void byteclasses(mc::Choice& c)
{
	static const std::vector<int> b={0,'<','>','a','&',0x80,0xbf,0xc3,0xe2,0xf0,0xf8,0xfc,0xfe,0xff}; static const std::vector<U> ps={U"",U"<a>",U"<a b='",U"<!-- ",U"<a"}; const U& p=c.of(ps);
	std::string s=enc(U8,p); int n=c.thorough()?6:5; for (int i=0;i<n;i++) s.push_back((char)c.of(b)); judge(c,U8,s,0xFFFF,c.dev(4));
}
static void utf16units(mc::Choice& c)
{
	static const std::vector<uint32_t> w={0,'<','>','a','&',0xd800,0xdbff,0xdc00,0xdfff,0x3c3c,0xffff,0x3c00}; int cs=U16L+c.pick(2); static const std::vector<U> ps={U"",U"<a>",U"<a b='",U"<!-- "}; 
	std::string s=enc(cs,c.of(ps)); int n=c.thorough()?5:4; for (int i=0;i<n;i++) put(cs==U16L?C2L:C2B,c.of(w),s); if (c.flip()) s.resize(s.size()-1); judge(c,cs,s,0xFFFF,c.dev(2));
}
// every truncation of every document, in all encodings, at every byte, then garbage
static void trunc(mc::Choice& c)
{
	int i=c.pick(corpus::docs().size()), cs=c.pick(NofCs); std::string b=enc(cs,fit(cs,corpus::docs()[i].text)); b.resize(c.pick(b.size()+1)); static const char* tail[]={"","\xff","<","\xd8","\0\0"}; int k=c.pick(5); b.append(tail[k],k==4?2:strlen(tail[k]));
	unsigned short mask=c.devof(std::vector<unsigned short>{0xFFFF,0}); judge(c,cs,b,mask,c.dev(5));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"contexts-x-continuations",contexts,1,1,2,"59 scanner contexts x all continuations of up to 3 (thorough: 4) characters out of 24 character classes including NUL, read as string with size (and, as deviation, raw copied, from a stream, null terminated, as one chunk, with types masked)"},
	{"encodings",encodings,1,1,2,"the same with up to 2 characters in 8 encodings, cut at every byte of the last characters"},
	{"all-byte-pairs",bytes2,0,0,2,"7 contexts x all 65536 byte pairs in 5 encodings"},
	{"utf8-byte-classes",byteclasses,1,1,2,"5 contexts x all sequences of 5 (thorough: 6) bytes out of every UTF-8 byte class, read in 4 ways"},
	{"utf16-unit-classes",utf16units,1,1,2,"4 contexts x all sequences of 4 (thorough: 5) UTF-16 unit classes, also cut within a unit, decoded and raw copied"},
	{"truncations",trunc,1,1,2,"every corpus document in all 16 encodings truncated at every byte, followed by nothing, NUL or malformed bytes, all or no types masked"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"memory accesses are checked by AddressSanitizer on exactly sized heap copies of the input"}; }
}
