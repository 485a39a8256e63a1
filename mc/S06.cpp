// S06: line ends in content and quoted values are normalized
#include "expand.hpp"
using namespace tw;
MC_PROPERTY("S06")
static const U pre[]={U"<a>",U"<a b='",U"<a b=\""}, post[]={U"</a>",U"'/>",U"\"/>"};
// expected tokens: the symbol MARK in content stands for an empty element
static const uint32_t MARK=0xE000;
static U source(const U& raw){ U r; for (uint32_t x:raw) if (x==MARK) r+=U"<c/>"; else r.push_back(x); return r; }
static bool expected(int outcs, int ctx, const U& raw, Toks& w)
{
	static const std::map<std::string,uint32_t> none; auto tk=[&](int ty, const U& s){ w.push_back(Tok{ty,encRef(outcs,s),0,0}); };
	tk(B::OpenTag,U"a"); if (ctx) tk(B::TagAttribName,U"b");
	std::size_t i=0;
	for (;;)
	{
		std::size_t j=raw.find(MARK,i); U seg=raw.substr(i,j==U::npos?U::npos:j-i); Exp e=expand(eol(seg),none); if (e.undetermined||e.undefined) return false;
		if (ctx||!seg.empty()) tk(ctx?B::TagAttribValue:B::Content,e.text);
		if (j==U::npos) break;
		tk(B::OpenTag,U"c"); tk(B::CloseTagIm,U()); i=j+1;
	}
	tk(ctx?B::CloseTagIm:B::CloseTag,ctx?U():U"a"); tk(B::Exit,U()); return true;
}
struct How { int cs=U8; bool same=false; int style=-1; bool lwd=false; std::vector<std::size_t> cuts; };
static void judge(mc::Choice& c, int ctx, const U& raw, const How& h)
{
	int oc=h.same?(h.cs>ISO1?(int)ISO1:h.cs):U8; Toks w; if (!expected(oc,ctx,raw,w)) return;
	std::string b=enc(h.cs,pre[ctx]+source(raw)+post[ctx]); std::string d; for (auto x:h.cuts) d+=std::to_string(x)+" ";
	c.show(std::string(csName(h.cs))+(h.same?" raw":"")+(h.style<0?"":h.style?" setSource ":" putInput ")+d+": "+b);
	for (auto x:h.cuts) if (x>b.size()) return;
	Toks t;
	if (h.style<0) { TW_DISPATCH(h.cs,t=(h.same?scanAll<CS,CS>(h.cs,b):scanAll<CS,textwolf::charset::UTF8>(h.cs,b))); }
	else { TW_DISPATCH(h.cs,t=(h.same?scanChunks<CS,CS>(h.cs,b,h.cuts,(Style)h.style,h.lwd):scanChunks<CS,textwolf::charset::UTF8>(h.cs,b,h.cuts,(Style)h.style,h.lwd))); }
	bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].s==w[i].s&&t[i].err==0;
	if (!eq) c.fail("delivered "+show(t)+" instead of "+show(w));
	c.step(t.size()); c.trace(); uint64_t hh=mc::hstr(b,h.cs*8+h.style*2+h.same); for (auto x:h.cuts) hh=mc::hcomb(hh,x); c.state(hh); c.outcome(hash(t));
}
static const std::vector<U>& syms(){ static const std::vector<U> v={U"\r",U"\n",U"x",U" ",U"\t",U"&#13;",U"&#10;",U"&amp;",U"&",U"\u20ac",U"&#xd;",U"&x\r",U"&#\n",U"'",U"\"",U">",U"\x0b",U"\u010d\u0a0d",U"\U00010d0a",U"\x01"}; return v; }
static U sym(mc::Choice& c, int ctx, unsigned from){ unsigned n=syms().size(); (void)from; unsigned k=c.pick(n+1); if (k==n) return ctx?U"/":U(1,MARK); if (ctx==1&&syms()[k]==U"'") return U"=";  if (ctx==2&&syms()[k]==U"\"") return U"="; return syms()[k]; }
static void strings(mc::Choice& c){ int ctx=c.pick(3); int n=c.thorough()?5:4; U r; for (int i=0;i<n;i++) r+=sym(c,ctx,0); How h; judge(c,ctx,r,h); }
static U short5(mc::Choice& c, int ctx, int n){ static const std::vector<U> s={U"\r",U"\n",U"x",U"&#13;",U"&#10;"}; U r; for (int i=0;i<n;i++) { unsigned k=c.pick(6); if (k==5) r+=ctx?U"&":U(1,MARK); else r+=s[k]; } return r; }
static void runs(mc::Choice& c){ int ctx=c.pick(3); U r=short5(c,ctx,c.thorough()?8:6); How h; judge(c,ctx,r,h); }
static void cuts(mc::Choice& c)
{
	int ctx=c.pick(3); U r; for (int i=0;i<(c.thorough()?4:3);i++) r+=sym(c,ctx,0); How h; h.style=c.pick(2); h.lwd=c.flip(); std::size_t n=enc(U8,pre[ctx]+source(r)+post[ctx]).size(), p=pre[ctx].size(); std::size_t a=p+c.pick(n-p+1); h.cuts.push_back(a);
	judge(c,ctx,r,h);
}
static void partitions(mc::Choice& c)
{
	int ctx=c.pick(3); static const std::vector<uint32_t> s={'\r','\n','x','&'}; U r; int n=c.thorough()?7:5; for (int i=0;i<n;i++) r.push_back(c.of(s)); How h; h.style=c.pick(2); h.lwd=c.flip(); h.same=c.flip(); std::size_t p=pre[ctx].size();
	for (int i=0;i<=n;i++) { unsigned k=c.thorough()||c.pick(2)?1:0; if (c.thorough()) k=c.pick(2); if (k) { h.cuts.push_back(p+i); } } 
	judge(c,ctx,r,h);
}
static void encodings(mc::Choice& c)
{
	int cs=c.pick(NofCs), ctx=c.pick(3); How h; h.cs=cs; h.same=c.flip(); static const std::vector<U> s={U"\r",U"\n",U"x",U"&#13;",U"&#10;",U"\u00e9",U"\u0d0d\u0a0a",U"\u0d00\u0a00",U"\U00010d0a"}; U r; for (int i=0;i<(c.thorough()?5:4);i++) { unsigned k=c.pick(s.size()+1); r+=k==s.size()?(ctx?U"y":U(1,MARK)):fit(cs,s[k]); }
	judge(c,ctx,r,h);
	if (c.thorough()||r.size()<6) { std::size_t p=enc(cs,pre[ctx]).size(), n=enc(cs,source(r)).size(); for (std::size_t k=0;k<=n;k+=c.thorough()?1:unit(cs)==4?3:1) { How g=h; g.style=0; g.cuts={p+k}; judge(c,ctx,r,g); } }
}
// references to line ends by names the user defined: not normalized
static void named(mc::Choice& c)
{
	int ctx=c.pick(3); static const std::map<std::string,uint32_t> user={{"cr",13},{"lf",10},{"c",0xd0a}}; static const std::vector<U> s={U"\r",U"\n",U"x",U"&cr;",U"&lf;",U"&c;",U"&amp;"}; U r; int n=c.thorough()?6:4; for (int i=0;i<n;i++) r+=c.of(s);
	int oc=c.pick(3); std::string b=enc(U8,pre[ctx]+r+post[ctx]); c.show(std::string(csName(oc))+" "+b); c.state(mc::hstr(b,oc)); Exp e=expand(eol(r),user); Toks w;
	auto tk=[&](int ty, const U& t){ w.push_back(Tok{ty,encRef(oc,t),0,0}); }; tk(B::OpenTag,U"a"); if (ctx) tk(B::TagAttribName,U"b"); tk(ctx?B::TagAttribValue:B::Content,e.text); tk(ctx?B::CloseTagIm:B::CloseTag,ctx?U():U"a"); tk(B::Exit,U());
	auto check=[&](const Toks& t){ bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].s==w[i].s&&t[i].err==0; if (!eq) c.fail("delivered "+show(t)+" instead of "+show(w)); c.step(t.size()); c.trace(); c.outcome(hash(t)); };
	std::size_t p=pre[ctx].size(), q=p+r.size();
	TW_DISPATCH(oc,({ typedef textwolf::XMLScanner<textwolf::CStringIterator,textwolf::charset::UTF8,CS,std::string> SC; typename SC::EntityMap em; for (auto& x:user) em[x.first.c_str()]=x.second;
		{ Mem m(b); SC sc(textwolf::charset::UTF8(),textwolf::CStringIterator(m.p,(unsigned)m.n),em); check(drain(sc,tokLimit(m.n))); }
		for (std::size_t k=p;k<=q;k++)
		{
			typename Chunked<textwolf::charset::UTF8,CS>::SC::EntityMap em2; for (auto& x:user) em2[x.first.c_str()]=x.second; Chunked<textwolf::charset::UTF8,CS> ch(U8,Put,em2); int f=0; auto feed=[&]{ if (f==0) ch.feed(b.data(),k,false); else if (f==1) ch.feed(b.data()+k,b.size()-k,false); else ch.feed("",0,true); if (++f>4) throw mc::Violation("too much input requested"); };
			feed(); Toks t; for (;;) { int x=ch.next(); if (x==NEED) { feed(); continue; } t.push_back(ch.tok(x)); if (x==B::Exit||x==B::ErrorOccurred) break; if (t.size()>tokLimit(b.size())) throw mc::Violation("tokens without end"); }
			check(t);
		} 0; }));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"strings",strings,0,0,3,"all texts of 4 (thorough: 5) of 21 symbols (CR, LF, references to CR and LF, other controls and characters, markup) in content and both attribute quotings"},
	{"runs",runs,0,0,3,"all runs of 6 (thorough: 8) out of CR, LF, letter, references to CR and LF, markup"},
	{"cuts",cuts,0,0,3,"all texts of 3 (thorough: 4) symbols in two chunks cut at every byte, both resumption styles"},
	{"partitions",partitions,0,0,3,"all texts of 5 (thorough: 7) out of CR, LF, letter, ampersand under every partition into chunks"},
	{"encodings",encodings,0,0,3,"all texts of 4 (thorough: 5) of 10 symbols in all 16 encodings, converted and raw copied, whole and in two chunks"},
	{"named",named,0,0,3,"all texts of 4 (thorough: 6) of 7 symbols with names defined as CR and LF, 3 output encodings, whole and in two chunks cut at every byte of the text"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"unquoted attribute values end at a line break and are not judged here"}; }
}
