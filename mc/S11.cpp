// S11: token positions are exact, increasing and correct for every unit size
#include "expand.hpp"
#include <sstream>
using namespace tw;
MC_PROPERTY("S11")
struct Ev { int t; std::size_t lo, hi; };   // offsets in characters; tokens with text: lo==hi
struct Gen
{
	mc::Choice& c; U d; std::vector<Ev> ev; Gen(mc::Choice& c_):c(c_){}
	void e(int t){ ev.push_back(Ev{t,d.size(),d.size()}); }
	U name(){ static const std::vector<U> v={U"a",U"\u00e9\u20ac",U"\U0001D11Eb",U"nm-x"}; return c.devof(v); }
	U ws(){ static const std::vector<U> v={U" ",U"\r\n",U" \t\n "}; return c.devof(v); } U ows(){ static const std::vector<U> v={U"",U" ",U"\r\n"}; return c.devof(v); }
	void value(int t){ static const std::vector<U> v={U"v",U"",U"\u20acx",U"&amp;x",U"x&#8364;&lt;\r\ny",U" z"}; static const std::vector<U> q={U"'",U"\"",U""}; U k=c.devof(q), x=c.devof(v); if (k.empty()) { if (x.empty()||x[0]==' ') x=U"w"; if (x.size()>6) x=U"w\U0001D11E"; } d+=k; e(t); d+=x; d+=k; }
	void attr(int a, int b){ e(a); d+=name(); d+=ows(); d+=U"="; d+=ows(); value(b); }
	void content(){ static const std::vector<U> v={U"t",U" t ",U"\u00e9\U0001D11E",U"&amp;",U"\r\n",U"&#x20ac;\r\n&lt;",U"\u20ac>"}; e(B::Content); d+=c.devof(v); }
	void item(int& prev, bool header)
	{
		int k=c.pick(7); static const std::vector<U> cm={U"<!-- c -->",U"<!--\u20ac-\U0001D11E\r\n<x>-->"}, pi={U"<?p?>",U"<?p \u00e9\u20ac\U0001D11E?>"};
		switch (k)
		{
			case 0: if (prev==0) { d+=U"<?p?>"; } if (prev==2) { d+=U"<?p?>"; } content(); break;
			case 1: { d+=U"<"; e(B::OpenTag); d+=name(); d+=ows(); d+=U"/"; ev.push_back(Ev{B::CloseTagIm,d.size()-1,d.size()+1}); d+=U">"; break; }
			case 2: d+=c.devof(cm); break;
			case 3: d+=c.devof(pi); break;
			case 4: { d+=U"<"; e(B::OpenTag); d+=name(); d+=ws(); attr(B::TagAttribName,B::TagAttribValue); if (c.dev(2)) { d+=ws(); attr(B::TagAttribName,B::TagAttribValue); } d+=ows(); d+=U">"; break; }
			case 5: d+=U"</"; e(B::CloseTag); d+=name(); d+=ows(); d+=U">"; break;
			case 6: d+=U"<!"; e(B::DocAttribValue); d+=U"DOCTYPE"; d+=ws(); e(B::DocAttribValue); d+=name(); if (c.dev(2)) { d+=ws(); d+=U"'"; e(B::DocAttribValue); d+=U"l\u20ac"; d+=U"'"; } if (c.dev(2)) d+=U" [x\u00e9 <y>]"; d+=ows(); ev.push_back(Ev{B::DocAttribEnd,d.size(),d.size()+1}); d+=U">"; k=2; break;
		}
		prev=k; (void)header;
	}
	void document(int n)
	{
		int h=c.pick(3); if (h==0) d+=ows(); else { d+=U"<?xml"; ev.push_back(Ev{B::HeaderStart,0,5}); if (h==2) { d+=ws(); attr(B::HeaderAttribName,B::HeaderAttribValue); } d+=ows(); ev.push_back(Ev{B::HeaderEnd,d.size(),d.size()+2}); d+=U"?>"; }
		d+=U"<"; e(B::OpenTag); d+=U"r>"; int prev=1; for (int i=0;i<n;i++) item(prev,false);
	}
};
static void compare(mc::Choice& c, const Gen& g, int cs, const U& d, const Toks& t, std::size_t size)
{
	std::vector<std::size_t> off(1,0); for (uint32_t x:d) { std::string s; put(cs,x,s); off.push_back(off.back()+s.size()); }
	if (t.size()!=g.ev.size()+1) c.fail("delivered "+show(t,true)); std::size_t last=0;
	for (std::size_t i=0;i<g.ev.size();i++)
	{
		if (t[i].t!=g.ev[i].t) c.fail("token "+std::to_string(i)+" unexpected in "+show(t,true));
		std::size_t lo=off[g.ev[i].lo], hi=off[std::min(g.ev[i].hi,d.size())]; if (t[i].tp<lo||t[i].tp>hi) c.fail("position of token "+std::to_string(i)+" is "+std::to_string(t[i].tp)+" instead of "+std::to_string(lo)+(hi>lo?".."+std::to_string(hi):"")+" in "+show(t,true));
		if (t[i].tp<last) c.fail("positions decrease in "+show(t,true)); last=t[i].tp;
	}
	if (t.back().t!=B::Exit) c.fail("delivered "+show(t,true)); if (t.back().tp<last) c.fail("position of the end decreases");  if (t.back().tp<size) c.fail("position of the end lies before the end");
	c.step(t.size()); c.trace(); uint64_t h=0; for (auto& x:t) h=mc::hcomb(h,x.tp*16+x.t); c.outcome(h);
}
// scanning with observation of the reading position after each token
template <class SC> static Toks observe(SC& sc, std::size_t size, int un)
{
	Toks r; for (;;) { int t=sc.nextItem(); Tok k{t,"",0,0}; std::size_t rp=sc.getPosition(); if (t==B::ErrorOccurred) { k.err=sc.getError(); r.push_back(k); return r; } k.tp=sc.getTokenPosition(); k.s.assign(sc.getItemPtr(),sc.getItemSize()); r.push_back(k); if (rp<k.tp) throw mc::Violation("the reading position "+std::to_string(rp)+" lies before the token "+show(r,true)); if (rp>size+un) throw mc::Violation("the reading position "+std::to_string(rp)+" lies behind the end, after "+show(r,true)); if (t==B::Exit) return r; if (r.size()>tokLimit(size)) throw mc::Violation("tokens without end"); }
}
template <class CS> static Toks whole(int cs, const std::string& b, int src)
{
	Mem m(b); if (src==0) { textwolf::XMLScanner<textwolf::CStringIterator,CS,textwolf::charset::UTF8,std::string> sc(Make<CS>::make(cs),textwolf::CStringIterator(m.p,(unsigned)m.n)); return observe(sc,b.size(),unit(cs)); }
	if (src==1) { textwolf::XMLScanner<textwolf::SrcIterator,CS,textwolf::charset::UTF8,std::string> sc(Make<CS>::make(cs),textwolf::SrcIterator(m.p,m.n)); return observe(sc,b.size(),unit(cs)); }
	if (src==2) { std::string z=b+std::string(unit(cs),'\0'); Mem mz(z); char* p=mz.p; textwolf::XMLScanner<char*,CS,textwolf::charset::UTF8,std::string> sc(Make<CS>::make(cs),p); return observe(sc,b.size(),unit(cs)); }
	std::istringstream is(b); textwolf::StdInputStream si(is); textwolf::XMLScanner<textwolf::IStreamIterator,CS,textwolf::charset::UTF8,std::string> sc(Make<CS>::make(cs),textwolf::IStreamIterator(&si,src==3?7:8192)); return observe(sc,b.size(),unit(cs));
}
template <class CS> static Toks chunks(int cs, const std::string& b, const std::vector<std::size_t>& cuts)
{
	Chunked<CS,textwolf::charset::UTF8> ch(cs,Put); std::size_t from=0,k=0; bool end=false; Toks r; std::size_t fed=0,lastp=0,begin=0;
	auto feed=[&]{ if (end) throw mc::Violation("more input requested behind the end"); std::size_t to=k<cuts.size()?cuts[k]:b.size(); if (k>cuts.size()) { ch.feed("",0,true); end=true; } else { ch.feed(b.data()+from,to-from,false); begin=from; from=to; fed=to; } ++k; };
	feed();
	for (;;)
	{
		int t=ch.next(); std::size_t rp=ch.sc.getPosition(); if (rp<lastp) throw mc::Violation("the reading position went back from "+std::to_string(lastp)+" to "+std::to_string(rp)); lastp=rp; if (rp>fed+4) throw mc::Violation("the reading position lies behind the data fed"); 
		const textwolf::SrcIterator& itr=ch.sc.getIterator(); if (!end&&!(t==NEED&&!itr.endOfChunk())&&(itr.endOfChunk()?itr.getPosition()!=fed-begin:itr.getPosition()+begin!=itr.position())) throw mc::Violation("the position in the chunk is "+std::to_string(itr.getPosition())+" instead of "+std::to_string((itr.endOfChunk()?fed:itr.position())-begin)+" with a chunk of "+std::to_string(fed-begin)+" bytes");
		if (!end&&t==NEED&&!itr.endOfChunk()) throw mc::Violation("more input requested before the end of the chunk");
		if (t==NEED) { feed(); std::size_t r2=ch.sc.getPosition(); if (r2!=rp) throw mc::Violation("feeding changes the reading position from "+std::to_string(rp)+" to "+std::to_string(r2)); continue; }
		Tok x=ch.tok(t); r.push_back(x); if (x.err) return r; if (rp<x.tp) throw mc::Violation("the reading position "+std::to_string(rp)+" lies before the token "+show(r,true)); if (t==B::Exit) return r;
	}
}
static U fitAll(int cs, const U& d){ return fit(cs,d); }
static void documents(mc::Choice& c)
{
	Gen g(c); g.document(c.thorough()?4:3); U d=g.d;
	static const int q[]={U8,U16L,C4B}; for (int k=0;k<3;k++) { int cs=q[k]; U f=fitAll(cs,d); std::string b=enc(cs,f); c.show(std::string(csName(cs))+" "+show(f)); Toks t; TW_DISPATCH(cs,t=whole<CS>(cs,b,0)); compare(c,g,cs,f,t,b.size()); } c.state(mc::hstr(enc(U8,d)));
}
static void sources(mc::Choice& c)
{
	int cs=c.pick(NofCs), src=c.pick(5); Gen g(c); g.document(c.thorough()?3:2); U f=fitAll(cs,g.d); std::string b=enc(cs,f); c.show(std::string(csName(cs))+" source "+std::to_string(src)+" "+show(f)); Toks t; TW_DISPATCH(cs,t=whole<CS>(cs,b,src)); compare(c,g,cs,f,t,b.size()); c.state(mc::hstr(b,cs*8+src));
}
static void cuts(mc::Choice& c)
{
	static const int q[]={U8,U16L,ISO1,C4B}; int cs=q[c.pick(c.thorough()?4:3)]; Gen g(c); g.document(2); U f=fitAll(cs,g.d); std::string b=enc(cs,f); std::vector<std::size_t> all; 
	for (std::size_t i=0;i<=b.size();i++)
	{
		std::vector<std::size_t> cu(1,i); c.show(std::string(csName(cs))+" cut "+std::to_string(i)+" "+show(f)); Toks t; TW_DISPATCH(cs,t=chunks<CS>(cs,b,cu)); compare(c,g,cs,f,t,b.size());
		if (c.thorough()) for (std::size_t j=i;j<=b.size();j++) { cu.resize(1); cu.push_back(j); c.show(std::string(csName(cs))+" cuts "+std::to_string(i)+" "+std::to_string(j)+" "+show(f)); TW_DISPATCH(cs,t=chunks<CS>(cs,b,cu)); compare(c,g,cs,f,t,b.size()); }
	}
	for (std::size_t n=1;n<6;n++) for (int off=0;off<2;off++) { std::vector<std::size_t> cu; for (std::size_t i=off;i<b.size();i+=n) { cu.push_back(i); if (n==2) cu.push_back(i); } c.show(std::string(csName(cs))+" pieces of "+std::to_string(n)+" "+show(f)); Toks t; TW_DISPATCH(cs,t=chunks<CS>(cs,b,cu)); compare(c,g,cs,f,t,b.size()); }
	c.state(mc::hstr(b,cs));
}
// long documents: positions beyond 2^8, 2^13, 2^16, 2^17 
static void big(mc::Choice& c)
{
	int cs=c.pick(ISO2), src=c.pick(6); static const std::vector<int> len={100,300,5000,9000,40000,70000,140000,300000}; int n=c.of(len); Gen g(c); g.d=U"<"; g.e(B::OpenTag); g.d+=U"r>"; int k=0; while ((int)g.d.size()<n) { g.d+=U"<"; g.e(B::OpenTag); g.d+=k%3?U"a ":U"\u00e9lement "; g.e(B::TagAttribName); g.d+=U"b='"; g.e(B::TagAttribValue); g.d+=k%2?U"\u20ac'":U"\r\n'"; g.d+=U">"; g.e(B::Content); g.d+=U(1+(k*37)%200,U"x\u00fc\u20ac\U0001D11E"[k%4]); g.d+=U"</"; g.e(B::CloseTag); g.d+=U"a>"; ++k; }
	U f=fitAll(cs,g.d); std::string b=enc(cs,f); c.show(std::string(csName(cs))+" source "+std::to_string(src)+" document of "+std::to_string(b.size())); Toks t; if (src==5) { std::vector<std::size_t> cu; for (std::size_t i=1000;i<b.size();i+=1000+i%7) cu.push_back(i); TW_DISPATCH(cs,t=chunks<CS>(cs,b,cu)); } else TW_DISPATCH(cs,t=whole<CS>(cs,b,src)); compare(c,g,cs,f,t,b.size()); c.state(n*100+cs*10+src);
}
// texts with anything that is not copied as it is: the positions behind them
static void texts(mc::Choice& c)
{
	static const int q[]={U8,U16B,ISO1,C4L}; int cs=q[c.pick(4)], ctx=c.pick(3); static const std::vector<U> sy={U"x",U"&",U"#",U";",U"&lt;",U"&#x20ac;",U"&#65",U"&#xfffffffffffffffff;",U"&abcdefghijklmnopqrst",U"&#x",U"\r",U"\n",U" ",U"\u20ac",U"\U0001D11E",U"=",U"/",U">",U"]]>",U"\xb5"};
	U t; int n=c.thorough()?4:3; for (int i=0;i<n;i++) { unsigned k=c.pick(sy.size()+(i>0)); if (k<sy.size()) t+=sy[k]; }
	static const std::map<std::string,uint32_t> none; Exp x=expand(t,none); if (x.undefined) return; t=fitAll(cs,t); Gen g(c); g.d=U"<"; g.e(B::OpenTag); g.d+=U"r"; std::size_t lo;
	if (ctx==0) { g.d+=U">"; lo=g.d.size(); g.e(B::Content); g.d+=t+U"<"; }
	else { U k(1,ctx==1?'\'':'"'); g.d+=U" "; g.e(B::TagAttribName); g.d+=U"b="+k; lo=g.d.size(); g.e(B::TagAttribValue); g.d+=t+k+U" "; g.e(B::TagAttribName); g.d+=U"c="+k; g.e(B::TagAttribValue); g.d+=U"v"+k+U"><"; }
	std::size_t hi=lo+t.size(); g.e(B::OpenTag); g.d+=U"b>"; g.e(B::Content); g.d+=U"y"; std::string b=enc(cs,g.d); c.show(std::string(csName(cs))+" "+show(g.d)); c.state(mc::hstr(b,cs)); Toks r; TW_DISPATCH(cs,r=whole<CS>(cs,b,0));
	if (x.undetermined&&r.back().err==B::ErrUndefinedCharacterEntity) return; compare(c,g,cs,g.d,r,b.size());
	std::size_t from=enc(cs,g.d.substr(0,lo)).size(), to=enc(cs,g.d.substr(0,hi)).size();
	for (std::size_t i=from;i<=to+(std::size_t)unit(cs);i+=c.thorough()||cs==U8?1:unit(cs)==4?3:1) { std::vector<std::size_t> cu(1,i); c.show(std::string(csName(cs))+" cut "+std::to_string(i)+" "+show(g.d)); TW_DISPATCH(cs,r=chunks<CS>(cs,b,cu)); compare(c,g,cs,g.d,r,b.size()); }
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"documents",documents,2,3,3,"all documents of 3 (thorough: 4) items out of 7 with and without declaration, up to 2 (thorough: 3) deviations (white space, quoting, character widths, references), in UTF-8, UTF-16LE, UCS-4BE"},
	{"sources",sources,1,2,3,"documents of 2 (thorough: 3) items in 16 encodings from 5 kinds of sources"},
	{"cuts",cuts,1,2,3,"documents of 2 items fed in two (thorough: up to three) chunks cut at every byte, in pieces of 1..5 bytes and with empty chunks; the reading position is observed at every step"},
	{"long",big,0,0,2,"documents of 100..300000 characters"},
	{"texts",texts,0,0,2,"all texts of up to 3 (thorough: 4) of 20 symbols (references of all kinds, incomplete and too long ones, line ends, characters of all widths) in content and values, 4 encodings, whole and in two chunks cut at every byte: the positions of what follows"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"the position of a token with text is the offset of its first byte (inside of the quotes), the position of a token without text lies within its markup","setSource starts counting anew: positions are judged for chunks passed with putInput","position of tokens masked out is not judged"}; }
}
