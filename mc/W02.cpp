// W02: any text printed as content or attribute value reads back unchanged
#if PART==0
#include "print.hpp"
using namespace print;
MC_PROPERTY("W02")
// white space alone between tags is text as well; white space in values is read back because it is written as reference
static void one(mc::Choice& c, int cs, int as, const U& text, int where, bool scanner=true)
{
	std::unique_ptr<Printer> p(makePrinter(cs,as,true)); std::string out, t=enc(as,text), r=enc(as,u("r")), x=enc(as,u("x")); Items want; auto ok=[&](bool b){ if (!b) c.fail("print operation refused"); };
	ok(p->open(r,out)); want.push_back(Item{B::OpenTag,u("r")});
	if (where!=0) { ok(p->attribute(x,out)); ok(p->value(t,out)); want.push_back(Item{B::TagAttribName,u("x")}); want.push_back(Item{B::TagAttribValue,text}); }
	if (where!=1) { ok(p->value(t,out)); want.push_back(Item{B::Content,text}); }
	if (where==2) { ok(p->open(x,out)); want.push_back(Item{B::OpenTag,u("x")}); ok(p->close(out)); want.push_back(Item{B::CloseTag,u("x")}); ok(p->value(t,out)); want.push_back(Item{B::Content,text}); }
	ok(p->close(out)); want.push_back(Item{B::CloseTag,u("r")}); check(cs,out,want,scanner); c.step(6); c.trace(); c.outcome(out.size());
}
static const U& special(){ static const U a=U"<>&'\"\n\t\r ;#x]!-/=\u0080\u0085\u00a0\u00e9\u00ff\u0100\u0104\u20ac\u2028\ufffd\U00010000\U0001D11E\U0010FFFF"; return a; }
static void showit(mc::Choice& c, int cs, int as, const U& t, int where){ c.show(std::string(csName(cs))+" from "+csName(as)+(where==0?" content ":where==1?" value ":" value and contents ")+tw::show(t.size()>100?t.substr(0,100):t)); c.state(mc::hcomb(mc::hstr(enc(C4B,t)),cs*64+as*4+where)); }
// all short texts, all pairs of encodings; characters the application encoding does not have are left out
static void texts(mc::Choice& c)
{
	int cs=c.pick(NofCs), as=c.pick(8), n=c.pick(c.thorough()?4:3); U t; for (int i=0;i<n;i++) { uint32_t x=special()[c.pick(special().size())]; if (!representable(as,x)) return; t.push_back(x); } int where=2; showit(c,cs,as,t,where); one(c,cs,as,t,where);
}
// longer texts of the characters that are escaped or look like markup
static void markup(mc::Choice& c)
{
	static const U a=U"<>&'\"\n\r ;#l]!-a1\u20ac"; int n=c.thorough()?5:4; int pair=c.pick(4); static const int ps[4][2]={{U8,U8},{U16B,U8},{ISO1,U16L},{U8,ISO1}}; U t; for (int i=0;i<n;i++) { uint32_t x=a[c.pick(a.size())]; if (!representable(ps[pair][1],x)) return; t.push_back(x); } int where=2; showit(c,ps[pair][0],ps[pair][1],t,where); one(c,ps[pair][0],ps[pair][1],t,where);
}
// every character
static void characters(mc::Choice& c)
{
	int cs=c.pick(NofCs), as=c.pick(8); unsigned blk=c.pick(0x440); if (as==ISO1&&blk) return; U t; for (unsigned x=blk*1024;x<blk*1024+1024;x++) { if ((x>=0xd800&&x<0xe000)||!representable(as,x)) continue; if ((x&0xffff)>=0xfffe||(x<32&&x!='\n'&&x!='\t'&&x!='\r')) continue; t.push_back(x); if (!c.thorough()&&blk>=64&&(x&0xff)>=2) x=x|0xfe; } int where=c.pick(2); showit(c,cs,as,t,where); one(c,cs,as,t,where);
}
// texts that are character references, comments, CDATA sections or tags themselves
static void looks(mc::Choice& c)
{
	static const std::vector<std::string> v={"&lt;","&amp;lt;","&#65;","&#x41;","&","&&","&;","&#;","<a/>","</r>","<![CDATA[x]]>","]]>","<!-- -->","<?pi?>","\r\n","\n\r","\n\n"," \n ","\t","  ","a ","a b"," a","' \" '","\"","'","\">","'>","=\"","a=\"b\"","%","&quot;","-->","?>","\r","\n"}; int cs=c.pick(NofCs), as=c.pick(8); U t=u(c.of(v).c_str())+u(c.of(v).c_str()); if (c.thorough()) t+=u(c.of(v).c_str()); int where=2; showit(c,cs,as,t,where); one(c,cs,as,t,where);
}
static void lengths(mc::Choice& c)
{
	static const std::vector<int> ls={1,2,15,16,17,63,64,127,128,255,256,257,1023,1024,1025,4096,65535,65536}; int n=c.of(ls); static const U a=U"a&\n\u20ac\U0001D11E"; uint32_t x=a[c.pick(a.size())]; int cs=c.pick(NofCs), as=c.thorough()?c.pick(8):c.of(std::vector<int>{U8,U16B,ISO1}); if (!representable(as,x)) return; U t(n,x); if (c.flip()) t[n/2]='<'; int where=c.pick(3); showit(c,cs,as,t,where); one(c,cs,as,t,where);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"texts",texts,0,0,3,"all texts of up to 2 (thorough 3) of 31 characters (markup, quotes, white space, control and boundary characters of all encodings) as value and content, all 16 document and 8 application encodings"},
	{"markup",markup,0,0,3,"all texts of 4 (thorough 5) of 18 characters that are escaped or part of markup, 4 pairs of encodings"},
	{"characters",characters,0,0,3,"every character up to U+FFFF, 2 of every 256 (thorough: every) character above, all pairs of encodings"},
	{"looks",looks,0,0,3,"all pairs (thorough: triples) of 36 texts that look like references, tags, sections or ends of literals, all pairs of encodings"},
	{"lengths",lengths,0,0,3,"texts of 18 lengths up to 65536 of ASCII, escaped and 3 and 4 byte characters, all document and 3 (thorough 8) application encodings"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"texts consist of characters allowed in XML 1.0 that exist in the application encoding, application encoding IsoLatin is ISO-8859-1","read back by an independent decoder and strict parser and by XMLScanner"}; }
}
#endif
