// H02: reading the declaration is chunk independent and total
#include "hdr.hpp"
using namespace hdr;
MC_PROPERTY("H02")
static const std::vector<std::string>& corpus()
{
	static const std::vector<std::string> v={"<?xml version=\"1.0\" encoding='UTF-8'?><a/>","<?xml encoding=\"ISO-8859-1\" version='1.0' standalone='yes' ?>\n<a/>","<?xml version = '1.0'\n\tencoding\r\n=\n\"x\"?>","<?xml version='1.0'?>","<?xml?>","<a/>","\n <_ab/>","<!DOCTYPE a>","<?xml nothing='1'?>","<?xml version='1.0' encoding=UTF-8?>","<?xml version='1.0'>","<?xmlx version='1.0'?>","text","<?xml version'1.0'?>","<?xml version='1.0' encoding='a' =''?>","<?xml encoding='never ends", "<?xml version='1.0' encoding"}; return v;
}
static void same(mc::Choice& c, const std::string& b, const std::vector<std::size_t>& cuts, const char* what){ textwolf::XmlHdrParser p; uint64_t n=0; Res w=whole(b), g=feed(p,b,cuts,&n); c.step(n); if (!(w==g)) c.fail(std::string(what)+": "+show(g)+", at once: "+show(w)); }
static void partitions(mc::Choice& c)
{
	static const std::vector<int> un={U8,U16L,U16B,C4L,C4B}; const std::string& d=c.of(corpus()); int cs=c.of(un); std::string b=wide(d,cs); std::vector<std::size_t> cuts; int n=c.thorough()&&cs<C4L?3:2; std::string txt; std::size_t at=0; for (int i=0;i<n;i++) { at+=c.pick(b.size()+1-at); cuts.push_back(at); txt+=" "+std::to_string(at); } c.show(std::string(csName(cs))+" "+d+" cut at"+txt); same(c,b,cuts,"chunks"); judge(d,whole(b)); c.trace(); c.state(mc::hcomb(mc::hstr(b),mc::hstr(txt))); c.outcome(whole(b).r);
}
// every prefix, bytewise and with repeated calls without new input
static void prefixes(mc::Choice& c)
{
	static const std::vector<int> un={U8,U16L,U16B,C4L,C4B}; const std::string& d=c.of(corpus()); int cs=c.of(un); std::string b=wide(d,cs); unsigned n=c.pick(b.size()+1); b.resize(n); c.show(std::string(csName(cs))+" "+d+" truncated to "+std::to_string(n)); Res w=whole(b), g=bytewise(b); if (!(w==g)) c.fail("bytewise: "+show(g)+", at once: "+show(w)); if (cs==U8||n%unit(cs)==0) judge(d.substr(0,n/unit(cs)),w);
	textwolf::XmlHdrParser p; Res r; r.r=More; for (unsigned i=0;i<n&&r.r==More;i++) { for (int k=0;k<3;k++) { p.putInput("",0); if (step(p).r!=More) c.fail("decided without new input"); } p.putInput(b.data()+i,1); r=step(p); c.step(4); } if (n&&!(r==w)) c.fail("with repeated calls: "+show(r)+", at once: "+show(w)); c.trace(); c.state(mc::hcomb(mc::hstr(b),n)); c.outcome(w.r);
}
static const std::string& classes(){ static const std::string s=std::string("<?!>='\" \nxmleva/-0:")+'\0'+'\xff'+'\x80'; return s; }
static void strings(mc::Choice& c)
{
	static const std::vector<std::string> pre={"","<","<?","<?xml","<?xml ","<?xml version","<?xml version=","<?xml encoding='","<?xml encoding=\"U\"","<?xml version='1.0' encoding","<?xml version='1.0' standalone=\"yes\" "}; const std::string& p=c.of(pre); std::string s=p; int n=c.pick(c.thorough()?6:5); for (int i=0;i<n;i++) s.push_back(classes()[c.pick(classes().size())]); if (n&&c.pick(2)) { static const std::string tail="?><a/>"; s+=tail; } c.show(mc::esc(s)); Res w=whole(s), g=bytewise(s); c.step(s.size()+1); if (!(w==g)) c.fail("bytewise: "+show(g)+", at once: "+show(w)); judge(s,w); c.trace(); c.state(mc::hstr(s)); c.outcome(w.r*2+w.hasenc);
}
// every byte value at every position, replaced or inserted
static void bytes(mc::Choice& c)
{
	static const std::vector<int> un={U8,U16L,U16B,C4L,C4B}; const std::string& d=corpus()[c.pick(c.thorough()?corpus().size():6)]; int cs=c.of(un); std::string b=wide(d,cs); unsigned at=c.pick(b.size()); int v=c.pick(256), how=c.pick(2); if (how) b.insert(b.begin()+at,(char)v); else b[at]=(char)v; c.show(std::string(csName(cs))+" "+mc::esc(b)); Res w=whole(b), g=bytewise(b); c.step(2); if (!(w==g)) c.fail("bytewise: "+show(g)+", at once: "+show(w)); if (cs==U8) judge(b,w); c.trace(); c.state(mc::hstr(b)); c.outcome(w.r*2+w.hasenc);
}
// input without end: long names, values, white space, NUL bytes
static void lengths(mc::Choice& c)
{
	static const std::vector<std::string> pre={"","<","<?","<?xml","<?xml ","<?xml version","<?xml version=","<?xml version='","<?xml encoding=\"","<?xml version='1'"}; static const std::vector<int> ls={0,1,2,3,4,5,6,7,8,15,16,255,256,257,4095,4096,65536,300000}; std::string s=c.of(pre); int n=c.of(ls); static const std::string fill=std::string("a \n'<\xff")+'\0'; char ch=fill[c.pick(fill.size())]; s.append(n,ch); if (c.flip()) s+="?><a/>"; c.show(mc::esc(s.substr(0,40))+"... "+std::to_string(s.size())+" bytes"); Res w=whole(s); std::vector<std::size_t> cuts; for (std::size_t i=1;i<s.size();i+=s.size()/50+1) cuts.push_back(i); same(c,s,cuts,"chunks"); judge(s,w); c.trace(); c.state(mc::hstr(s)); c.outcome(w.r);
}
// a cleared parser behaves as a new one
static void cleared(mc::Choice& c)
{
	static const std::vector<int> un={U8,U16L,U16B,C4L,C4B}; const std::string& d1=c.of(corpus()); int cs1=c.of(un); std::string b1=wide(d1,cs1); unsigned n=c.pick(b1.size()+1); int how=c.pick(3); const std::string& d2=c.of(corpus()); int cs2=c.of(un); std::string b2=wide(d2,cs2);
	c.show(std::string(csName(cs1))+" "+d1.substr(0,40)+", "+std::to_string(n)+" bytes, then cleared and "+csName(cs2)+" "+d2); textwolf::XmlHdrParser p; { Mem m(b1.substr(0,n)); p.putInput(m.p,m.n); if (how) try { p.parse(); } catch (const textwolf::exception&) {} if (how==2) { p.putInput(m.p,m.n/2); } p.clear(); }
	if (p.encoding()||p.lasterror()||!p.consumedData().empty()||p.charsConsumed()) c.fail("something is left after clear()"); uint64_t k=0; Res w=whole(b2), g=feed(p,b2,std::vector<std::size_t>(),&k); c.step(k+2); if (!(w==g)) c.fail("after clear(): "+show(g)+", new parser: "+show(w)); c.trace(); c.state(mc::hcomb(mc::hstr(b1.substr(0,n)),mc::hstr(b2,how))); c.outcome(g.r);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"partitions",partitions,0,0,3,"17 complete, malformed and truncated declarations in 5 units/byte orders, all partitions into 3 (thorough: 4 for 1 and 2 byte units) chunks, empty chunks included"},
	{"prefixes",prefixes,0,0,2,"every truncation of them, byte by byte, with calls without new input in between"},
	{"strings",strings,0,0,3,"all byte strings of up to 4 (thorough 5) of 22 bytes after 11 beginnings of a declaration, with and without end"},
	{"bytes",bytes,0,0,3,"every byte value replaced or inserted at every position of 6 (thorough 17) declarations in 5 units/byte orders"},
	{"lengths",lengths,0,0,3,"runs of up to 300000 letters, blanks, quotes, '<', 0xFF or NUL bytes at 10 places"},
	{"cleared",cleared,0,0,3,"a parser fed with every prefix of the 17 declarations in 5 units/byte orders, parsed or not, is cleared and reads each of them as a new parser does"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"feeding stops when the declaration is recognized or an error is reported","4 or more NUL bytes in a row throw an exception, that is an error reported","white space behind '<', repeated attributes, missing white space between attributes, values that are not names, '?' not followed by '>' and non ASCII element names are judged for chunk independence and termination only"}; }
}
