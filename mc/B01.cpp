// B01: a bounded output buffer is a string limited to its capacity
#include "tw.hpp"
#include <textwolf/staticbuffer.hpp>
#include <textwolf/xmlprinter.hpp>
#include <textwolf/ostreamoutput.hpp>
#include <sstream>
using namespace tw;
MC_PROPERTY("B01")
typedef textwolf::StaticBuffer SB;
struct Model { std::string s; std::size_t cap; bool ovf=false; void push(char x){ if (s.size()<cap) s.push_back(x); else ovf=true; } void append(const std::string& x){ if (s.size()+x.size()>cap) { ovf=true; s+=x.substr(0,cap-s.size()); } else s+=x; } };
static void check(mc::Choice& c, const SB& b, const Model& m, bool judgeovf)
{
	if (b.size()!=m.s.size()) c.fail("size is "+std::to_string(b.size())+" instead of "+std::to_string(m.s.size()));
	if (memcmp(b.ptr(),m.s.data(),m.s.size())) c.fail("content is '"+mc::esc(std::string(b.ptr(),b.size()))+"' instead of '"+mc::esc(m.s)+"'");
	if (judgeovf&&b.overflow()!=m.ovf) c.fail(std::string("overflow is ")+(b.overflow()?"reported":"not reported")+" with content '"+mc::esc(m.s)+"' of capacity "+std::to_string(m.cap));
	for (std::size_t i=0;i<m.s.size();i++) if (b[i]!=m.s[i]||b.at(i)!=m.s[i]) c.fail("element "+std::to_string(i)+" is wrong");
	for (std::size_t i:{m.s.size(),m.s.size()+1,m.cap,m.cap+1,(std::size_t)-1}) if (i>=m.s.size()) for (int k=0;k<2;k++) { bool thrown=false; try { if (k) b.at(i); else b[i]; } catch (const textwolf::exception& e) { thrown=true; } if (!thrown) c.fail("access to element "+std::to_string(i)+" is accepted with size "+std::to_string(m.s.size())); }
}
struct Holder   // owned or external memory with surroundings that must not change
{
	std::unique_ptr<Mem> mem; std::unique_ptr<SB> b; Model m; std::size_t cap; int how;
	Holder(std::size_t cap_, int how_):cap(cap_),how(how_)
	{
		m.cap=cap; if (how==0) b.reset(new SB(cap)); else { mem.reset(new Mem(std::string(cap,'#'))); std::size_t fill=how==2?std::min<std::size_t>(cap,2):0; m.s=std::string(fill,'#'); b.reset(fill?new SB(mem->p,cap,fill):new SB(mem->p,cap)); }
	}
};
static char pattern(int i){ static const char p[]="ab\0\xff<"; return p[i%5]; }
static void ops(mc::Choice& c)
{
	std::size_t cap=c.pick(5); int how=c.pick(3); if (cap==0&&how==2) return; Holder h(cap,how); SB& b=*h.b; Model& m=h.m; int n=c.thorough()?6:4, k=0; std::string tr="capacity "+std::to_string(cap)+(how?how==2?" external, prefilled":" external":"")+":"; bool shrunkovf=false;
	for (int i=0;i<n;i++)
	{
		unsigned op=c.pick(13);
		if (op==0) { char x=pattern(k++); tr+=" push_back"; b.push_back(x); m.push(x); }
		else if (op<7) { std::string x; for (unsigned j=0;j<op-1;j++) x.push_back(pattern(k++)); tr+=" append("+std::to_string(x.size())+")"; Mem mm(x); b.append(mm.p,mm.n); m.append(x); }
		else if (op==7) { tr+=" clear"; b.clear(); m.s.clear(); m.ovf=false; shrunkovf=false; }
		else if (op<12) { std::size_t to=op-8; if (to>cap) to=cap; tr+=" resize("+std::to_string(to)+")"; if (op&1) b.resize(to,'r'); else b.resize(to); m.s.resize(to,op&1?'r':'\0'); }
		else { if (m.s.empty()) return; tr+=" at()="; b.at(m.s.size()-1)='!'; m.s[m.s.size()-1]='!'; }
		c.show(tr); check(c,b,m,!shrunkovf); c.step(); uint64_t s=mc::hcomb(mc::hstr(m.s),m.ovf*8+cap*32+how); c.state(s); c.outcome(s);
	}
	c.trace();
}
// longer runs against every capacity
static void sizes(mc::Choice& c)
{
	std::size_t cap=c.pick(c.thorough()?300:70), step=c.pick(17); int how=c.pick(3); if (how==2&&!cap) return; Holder h(cap,how); c.show("capacity "+std::to_string(cap)+" writes of "+std::to_string(step)); int k=0;
	for (int round=0;round<2;round++)
	{
		for (int i=0;i<400&&!h.m.ovf;i++) { std::string x; for (std::size_t j=0;j<std::max<std::size_t>(step,1);j++) x.push_back(pattern(k++)); if (!step) { h.b->push_back(x[0]); h.m.push(x[0]); } else { Mem mm(x); h.b->append(mm.p,mm.n); h.m.append(x); } check(c,*h.b,h.m,true); c.step(); c.state(mc::hcomb(mc::hstr(h.m.s),cap)); }
		h.b->clear(); h.m.s.clear(); h.m.ovf=false; check(c,*h.b,h.m,true);
	}
	c.trace(); c.outcome(mc::hcomb(cap,step));
}
// every encoder
template <class CS> static void printAll(int cs, const U& s, SB& b, std::string& str){ CS o=Make<CS>::make(cs); for (uint32_t x:s) { o.print(x,b); o.print(x,str); } }
static void encoders(mc::Choice& c)
{
	int cs=c.pick(NofCs); static const std::vector<uint32_t> al={'a','&',0x7f,0x80,0xe9,0x7ff,0x800,0x20ac,0xffff,0x10000,0x10ffff,'\n'}; std::size_t cap=c.pick(c.thorough()?26:18); int how=c.pick(2), n=c.thorough()?4:3; U s; for (int i=0;i<n;i++) s.push_back(c.of(al)); c.show(std::string(csName(cs))+" capacity "+std::to_string(cap)+" "+show(s));
	Holder h(cap,how); std::string str; TW_DISPATCH(cs,printAll<CS>(cs,s,*h.b,str)); if (str!=encRef(cs,s)) c.fail("the string receives '"+mc::esc(str)+"'"); h.m.append(str); check(c,*h.b,h.m,true); c.step(n); c.trace(); c.state(mc::hcomb(mc::hstr(enc(C4B,s),cs),cap*2+how)); c.outcome(mc::hstr(h.m.s));
}
// printed to a string, a bounded buffer and a stream: the same bytes, the same answers
template <class IO, class AP> static void target(mc::Choice& c, int cs, int as, const std::vector<int>& ops, std::size_t cap, int how, bool sub)
{
	textwolf::XMLPrinter<IO,AP,std::string> p(Make<IO>::make(cs),sub); textwolf::XMLPrinter<IO,AP,SB> q(Make<IO>::make(cs),sub); textwolf::XMLPrinter<IO,AP,textwolf::OstreamOutput> r(Make<IO>::make(cs),sub); std::string out; Holder h(cap,how); std::ostringstream os; textwolf::OstreamOutput so(&os);
	auto run=[&](auto& pr, auto& o, int k)->bool{ static const U names[]={U"a",U"b\u00e9",U"x",U"v<\"\u20ac&\n",U"t"}; auto e=[&](int i){ return enc(as,fit(as,names[i])); }; std::string x; switch (k) { case 0: return pr.printHeader(0,"yes",o); case 1: return pr.printDoctype("a",0,"s",o); case 2: x=e(0); return pr.printOpenTag(x.data(),x.size(),o); case 3: x=e(1); return pr.printOpenTag(x.data(),x.size(),o); case 4: x=e(2); return pr.printAttribute(x.data(),x.size(),o); case 5: x=e(3); return pr.printValue(x.data(),x.size(),o); case 6: x=e(4); return pr.printValue(x.data(),x.size(),o); default: return pr.printCloseTag(o); } };
	for (int k:ops) { std::size_t l=out.size(); bool a=run(p,out,k), b=run(q,*h.b,k), d=run(r,so,k); c.step(3); if (a!=b||a!=d) c.fail("print call "+std::to_string(k)+" returns "+std::to_string(a)+" for a string, "+std::to_string(b)+" for a buffer, "+std::to_string(d)+" for a stream"); for (std::size_t i=l;i<out.size();i++) h.m.push(out[i]); check(c,*h.b,h.m,true); if (os.str()!=out) c.fail("the stream receives '"+mc::esc(os.str())+"', the string '"+mc::esc(out)+"'"); }
	c.trace(); c.state(mc::hcomb(mc::hstr(c.shown()),cap)); c.outcome(mc::hstr(h.m.s,h.m.ovf));
}
static void printers(mc::Choice& c)
{
	int pair=c.pick(3), n=1+c.pick(c.thorough()?5:4); bool sub=c.pick(2); std::vector<int> ops; std::string t; for (int i=0;i<n;i++) { ops.push_back(c.pick(8)); t+=" "+std::to_string(ops.back()); } static const std::vector<std::size_t> caps={0,1,2,3,5,8,13,16,17,30,50,100,1000}; std::size_t cap=caps[c.thorough()?c.pick(caps.size()):c.pick(5)*3]; int how=c.thorough()?c.pick(2):1; c.show("printer "+std::to_string(pair)+(sub?" sub document":"")+" capacity "+std::to_string(cap)+":"+t);
	if (pair==0) target<textwolf::charset::UTF8,textwolf::charset::UTF8>(c,U8,U8,ops,cap,how,sub); else if (pair==1) target<textwolf::charset::UTF16LE,textwolf::charset::IsoLatin>(c,U16L,ISO1,ops,cap,how,sub); else target<textwolf::charset::IsoLatin,textwolf::charset::UCS4BE>(c,ISO1+1,C4B,ops,cap,how,sub);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"operations",ops,0,0,3,"all sequences of 4 (thorough: 6) operations out of 13 (push_back, append of 0..5 bytes, clear, resize up to the capacity, write access) on capacities 0..4, owned, external and prefilled memory, everything observed after each"},
	{"sizes",sizes,0,0,2,"capacities 0..69 (thorough: 299) filled by writes of 0..16 bytes until overflow, cleared and filled again"},
	{"encoders",encoders,0,0,3,"all texts of 3 (thorough: 4) of 12 characters written by 16 encoders into capacities 0..17 (thorough: 25)"},
	{"printers",printers,0,0,4,"all sequences of 1 to 4 (thorough: 5) of 8 print calls, as document and sub document, 3 pairs of encodings, to a string, to buffers of 5 (thorough: 13) capacities and to a stream"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"resizing beyond the capacity is not judged","memory accesses are checked by AddressSanitizer on exactly sized heap blocks"}; }
}
