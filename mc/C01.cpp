// C01: encoding/decoding agrees with the standard
#include "tw.hpp"
using namespace tw;
MC_PROPERTY("C01")

template <class CS> static void readAll(int cs, const std::string& bytes, const U& want, const std::string& what)
{
	Mem m(bytes);
	textwolf::TextScanner<textwolf::CStringIterator,CS> ts(Make<CS>::make(cs),textwolf::CStringIterator(m.p,(unsigned)m.n));
	std::size_t pos=0; std::string one;
	for (std::size_t i=0;i<want.size();i++,++ts)
	{
		uint32_t got=ts.chr();
		if (got!=want[i]) throw mc::Violation(what+": character "+std::to_string(i)+" of ["+show(want)+"] read as "+std::to_string(got));
		if (ts.getPosition()!=pos) throw mc::Violation(what+": position "+std::to_string(ts.getPosition())+" instead of "+std::to_string(pos)+" in ["+show(want)+"]");
		one.clear(); put(cs,want[i],one); pos+=one.size();
	}
	if (ts.getPosition()!=bytes.size()) throw mc::Violation(what+": end position is not the end of the text");
	if (ts.chr()!=0) throw mc::Violation(what+": end of text not found");
}
static const std::vector<uint32_t>& alphabet(int cs)
{
	static std::map<int,std::vector<uint32_t> > m;
	auto& v=m[cs];
	if (v.empty())
	{
		for (uint32_t x:{1u,(unsigned)'A',0x7fu,0x80u,0x9fu,0xa0u,0xffu,0x100u,0x13fu,0x17eu,0x20acu,0x7ffu,0x800u,0xfffu,0x1000u,0xd7ffu,0xe000u,0xfeffu,0xfffdu,0xffffu,0x10000u,0x103ffu,0x10400u,0xfffffu,0x100000u,0x10ffffu})
			if (representable(cs,x)) v.push_back(x);
		if (cs>=ISO1) for (int b:{0xa1,0xa6,0xb8,0xd0,0xde,0xe0,0xfe}) if (isoTable[cs-ISO1][b]!=0xFFFF && std::find(v.begin(),v.end(),isoTable[cs-ISO1][b])==v.end()) v.push_back(isoTable[cs-ISO1][b]);
	}
	return v;
}
enum {BLK=1024};
static void allChars(mc::Choice& c)
{
	int cs=c.pick(NofCs); unsigned blk=c.pick(cs==U8||cs==U16L||cs==U16B||cs==C4L||cs==C4B?0x110000/BLK:(cs<ISO1?0x10000/BLK:64));
	c.show(std::string(csName(cs))+" code points from "+std::to_string(blk*BLK));
	const uint32_t ctxall[]={'x',0xe9,0x20ac,0x10437}; std::vector<uint32_t> ctx; for (uint32_t x:ctxall) if (representable(cs,x)) ctx.push_back(x);
	for (uint32_t cp=blk*BLK; cp<(blk+1)*BLK; cp++) if (representable(cs,cp))
	{
		std::string ref,got; put(cs,cp,ref);
		TW_DISPATCH(cs, { Make<CS>::make(cs).print(cp,got); });
		if (got!=ref) c.fail(std::string(csName(cs))+": U+"+show(U(1,cp))+" written as "+mc::esc(got)+" expected "+mc::esc(ref));
		TW_DISPATCH(cs, readAll<CS>(cs,ref,U(1,cp),csName(cs)));
		for (uint32_t x:ctx)
		{
			U w; w.push_back(x); w.push_back(cp); w.push_back(x); std::string b=enc(cs,w);
			TW_DISPATCH(cs, readAll<CS>(cs,b,w,csName(cs)));
			c.step(3);
		}
		c.state(mc::hcomb(cs,cp)); c.step(2); c.trace();
	}
	c.outcome(mc::hcomb(cs,blk));
}
static void sequences(mc::Choice& c)
{
	int cs=c.pick(NofCs); const std::vector<uint32_t>& al=alphabet(cs);
	std::size_t n=c.thorough()?4:3; U w; std::string got,ref;
	for (std::size_t i=0;i<n;i++) w.push_back(c.of(al));
	ref=enc(cs,w); c.show(std::string(csName(cs))+" "+show(w));
	TW_DISPATCH(cs, { CS x=Make<CS>::make(cs); for (uint32_t ch:w) x.print(ch,got); });
	if (got!=ref) c.fail(std::string(csName(cs))+": ["+show(w)+"] written as "+mc::esc(got));
	TW_DISPATCH(cs, readAll<CS>(cs,ref,w,csName(cs)));
	c.step(2*n); c.trace(); c.state(mc::hstr(ref,cs)); c.outcome(mc::hstr(ref,cs));
}
// characters of ISO 10646 behind the last one of Unicode: every group of 6 bits has a boundary value
static void behind(mc::Choice& c)
{
	static const std::vector<int> css={U8,C4L,C4B}; int cs=c.of(css); static const std::vector<uint32_t> q={0,1,0x1f,0x20,0x3e,0x3f}, t={0,1,2,3,4,7,8,0xf,0x10,0x15,0x1f,0x20,0x2a,0x30,0x3e,0x3f}; const std::vector<uint32_t>& g=c.thorough()?t:q; uint32_t top=c.pick(2), g4=c.of(g);
	c.show(std::string(csName(cs))+" characters behind U+10FFFF, first bits "+std::to_string(top)+","+std::to_string(g4)); static const uint32_t ctx[]={'x',0x20ac,0x10437,0x3ffffff,0x7fffffff};
	for (uint32_t g3:g) for (uint32_t g2:g) for (uint32_t g1:g) for (uint32_t g0:g)
	{
		uint32_t cp=top<<30|g4<<24|g3<<18|g2<<12|g1<<6|g0; if (cp<0x110000) continue; std::string ref,got; put(cs,cp,ref);
		TW_DISPATCH(cs, { Make<CS>::make(cs).print(cp,got); }); if (got!=ref) c.fail(std::string(csName(cs))+": U+"+show(U(1,cp))+" written as "+mc::esc(got)+" expected "+mc::esc(ref));
		for (uint32_t x:ctx) { U w; w.push_back(x); w.push_back(cp); w.push_back(x); std::string b=enc(cs,w); TW_DISPATCH(cs, readAll<CS>(cs,b,w,csName(cs))); }
		c.step(4); c.state(mc::hcomb(cs,cp)); c.trace();
	}
	c.outcome(mc::hcomb(cs,g4*2+top));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"every-code-point",allChars,0,0,2,"every Unicode scalar value the encoding represents, all 16 encodings: written, read alone and read between neighbours of every encoded length"},
	{"sequences",sequences,0,0,2,"all sequences of 3 (thorough: 4) characters over the boundary characters of every encoded length, all 16 encodings"},
	{"behind-unicode",behind,0,0,2,"UTF-8 (5 and 6 bytes) and UCS-4: characters from U+110000 to U+7FFFFFFF, every group of 6 bits out of 6 (thorough: 16) boundary values, written and read between 5 neighbours"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"reference encoders are written from the encoding standards; code page tables are generated from the ISO mapping of the Python codecs"}; }
}
