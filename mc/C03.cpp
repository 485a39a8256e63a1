// C03: ISO-8859 code pages exact, characters not encodable become references
#include "tw.hpp"
#include <functional>
#include <textwolf/xmlprinter.hpp>
using namespace tw;
MC_PROPERTY("C03")

static void pages(mc::Choice& c)
{
	int p=c.pick(9), b=c.pick(256); c.show(std::string(csName(ISO1+p))+" byte "+std::to_string(b));
	textwolf::charset::IsoLatin cs(p+1);
	uint32_t want=isoTable[p][b]; if (want==0xFFFF) return;
	std::string s(1,(char)b); char buf[8]; unsigned pos=0; textwolf::CStringIterator it(s.data(),1);
	uint32_t got=cs.value(buf,pos,it);
	if (got!=want) c.fail("byte decoded as "+std::to_string(got)+" instead of "+std::to_string(want));
	std::string o; cs.print(want,o); if (o!=s) c.fail("character "+std::to_string(want)+" encoded as "+mc::esc(o)+" instead of "+mc::esc(s));
	// as text of a document: code page to UTF-8 and code page to the same page
	if (want>=0xA0)
	{
		textwolf::XMLScanner<textwolf::CStringIterator,textwolf::charset::IsoLatin,textwolf::charset::UTF8,std::string> sc(cs,textwolf::CStringIterator(0,0));
		std::string doc="<a>x"+s+"y</a>"; sc.setSource(textwolf::CStringIterator(doc.data(),doc.size()));
		sc.nextItem(); sc.nextItem(); std::string t(sc.getItemPtr(),sc.getItemSize()); U w=u("x"); w.push_back(want); w.push_back('y');
		if (t!=enc(U8,w)) c.fail("content delivered as "+mc::esc(t));
	}
	c.state(p*256+b); c.step(3); c.trace(); c.outcome(want);
}
static const int limited[]={C2L,C2B,U16L,U16B,ISO1,ISO2,ISO3,ISO4,ISO5,ISO6,ISO7,ISO8,ISO9};
static void one(mc::Choice& c, int cs, uint32_t cp)
{
	std::string got; TW_DISPATCH(cs, { Make<CS>::make(cs).print(cp,got); });
	std::string want=encRef(cs,U(1,cp));
	if (got!=want) c.fail(std::string(csName(cs))+": "+show(U(1,cp))+" written as "+mc::esc(got)+" expected "+mc::esc(want));
	c.step();
}
enum {BLK=1024};
static void allChars(mc::Choice& c)
{
	int cs=limited[c.pick(13)]; unsigned blk=c.pick(0x110000/BLK); c.show(std::string(csName(cs))+" code points from "+std::to_string(blk*BLK));
	for (uint32_t cp=blk*BLK;cp<(blk+1)*BLK;cp++) if (cp<0xD800||cp>0xDFFF) { one(c,cs,cp); c.state(mc::hcomb(cs,cp)); c.trace(); }
	c.outcome(mc::hcomb(cs,blk));
}
static void beyond(mc::Choice& c)
{
	int cs=limited[c.pick(13)]; int bit=16+c.pick(16); int d=c.pick(5)-2; uint32_t cp=(1u<<bit)+d; if (c.flip()) cp=(1u<<bit)*3/2+d; if (c.flip()) cp=~0u-(cp>>1);
	if (cp>=0xD800 && cp<=0xDFFF) return;
	c.show(std::string(csName(cs))+" "+std::to_string(cp)); one(c,cs,cp); c.state(mc::hcomb(cs,cp)); c.trace(); c.outcome(cp);
}
// sequences: a reference must not swallow or disturb its neighbours
static void seqs(mc::Choice& c)
{
	int cs=limited[c.pick(13)]; static const uint32_t al[]={'A',0x80,0xA4,0xE9,0x104,0x20AC,0x3042,0x10000,0x10FFFF}; U w; int n=c.thorough()?4:3;
	for (int i=0;i<n;i++) w.push_back(al[c.pick(9)]);
	std::string got; TW_DISPATCH(cs, { CS x=Make<CS>::make(cs); for (uint32_t ch:w) x.print(ch,got); });
	c.show(std::string(csName(cs))+" "+show(w));
	if (got!=encRef(cs,w)) c.fail("written as "+mc::esc(got));
	c.state(mc::hstr(got,cs)); c.step(n); c.trace(); c.outcome(mc::hstr(got));
}
// every character in one encoding, in another one and in the first one again, and the same for bytes of two code pages
static const std::vector<uint32_t>& pageChars(){ static const std::vector<uint32_t> v=[]{ std::set<uint32_t> x; for (int p=0;p<9;p++) for (int b=0;b<256;b++) { if (isoTable[p][b]!=0xFFFF) x.insert(isoTable[p][b]); x.insert(b); } for (uint32_t k:{0x3042,0x20AD,0xFFFD,0x10000,0x1F600,0x10FFFF}) x.insert(k); return std::vector<uint32_t>(x.begin(),x.end()); }(); return v; }
typedef std::function<void(uint32_t,std::string&)> Print;
static Print printer(int cs){ Print r; TW_DISPATCH(cs, { CS x=Make<CS>::make(cs); r=[x](uint32_t cp, std::string& o){ x.print(cp,o); }; }); return r; }
static void inTurn(mc::Choice& c)
{
	int a=c.of(std::vector<int>(limited,limited+13)), b=c.of(std::vector<int>(limited,limited+13)); c.show(std::string(csName(a))+" and "+csName(b)+" in turn");
	Print ca=printer(a), cb=printer(b);
	for (uint32_t cp:pageChars()) { U w(1,cp); std::string x,y,z; ca(cp,x); cb(cp,y); ca(cp,z); c.step(3); if (x!=encRef(a,w)||z!=x) c.fail(show(w)+" written as "+mc::esc(x)+" and as "+mc::esc(z)+" in "+csName(a)); if (y!=encRef(b,w)) c.fail(show(w)+" written as "+mc::esc(y)+" in "+csName(b)+" behind "+csName(a)); c.state(mc::hcomb(mc::hcomb(a,b),cp)); }
	if (a>=ISO1&&b>=ISO1) for (int k=0;k<256;k++) { char buf[8]; std::string s(1,(char)k); textwolf::charset::IsoLatin p(a-ISO1+1), q(b-ISO1+1); uint32_t r[3]; for (int i=0;i<3;i++) { unsigned pos=0; textwolf::CStringIterator it(s.data(),1); r[i]=(i==1?q:p).value(buf,pos,it); uint32_t want=isoTable[(i==1?b:a)-ISO1][k]; if (want!=0xFFFF&&r[i]!=want) c.fail("byte "+std::to_string(k)+" read as "+std::to_string(r[i])+" instead of "+std::to_string(want)); } c.step(3); }
	c.trace(); c.outcome(mc::hcomb(a,b));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"code-pages",pages,0,0,2,"all assigned bytes of all 9 code pages: decode, encode, as document content"},
	{"every-code-point",allChars,0,0,2,"every Unicode scalar value in all 13 limited encodings: exact bytes or hexadecimal reference"},
	{"beyond-unicode",beyond,0,0,2,"values around the powers of two above 2^16"},
	{"sequences",seqs,0,0,2,"all sequences of 3 (thorough: 4) representable and unrepresentable characters"},
	{"in-turn",inTurn,0,0,2,"every character of any of the code pages in all ordered pairs of the 13 limited encodings: one, the other, the first again; every byte in all ordered pairs of code pages"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"code page tables generated from the ISO mappings of the Python codecs; bytes the standard leaves unassigned (7 in ISO-8859-3) are not judged"}; }
}
