// S05: references are replaced exactly, undefined ones are errors, anything else stays
#include "expand.hpp"
using namespace tw;
MC_PROPERTY("S05")
typedef textwolf::charset::UTF8 In;
typedef std::map<const char*,textwolf::UChar> Map;

static const U pre[]={U"<a>",U"<a b='",U"<a b=\""}, post[]={U"</a>",U"'/>",U"\"/>"};
static const std::map<std::string,uint32_t>& userdef(){ static const std::map<std::string,uint32_t> m={{"foo",0x20ac},{"fo",'F'},{"x",'X'},{"fooo",0x1D11E},{"abcdefghijklmno",0xe9},{"F00.d_",'<'},{"a",'&'}}; return m; }
static Map makeMap(const std::map<std::string,uint32_t>& u, std::vector<std::string>& store, bool reverse)
{
	for (auto& x:u) store.push_back(x.first); 
	if (reverse) std::reverse(store.begin(),store.end());
	Map m; for (auto& k:store) m[k.c_str()]=u.find(k)->second; return m;
}
template <class OUT> static Toks scan(const std::string& b, const Map* em, long cut)
{
	if (cut<0)
	{
		typedef textwolf::XMLScanner<textwolf::CStringIterator,In,OUT,std::string> SC; Mem m(b); textwolf::CStringIterator it(m.p,(unsigned)m.n);
		if (em) { SC sc(it,*em); return drain(sc,tokLimit(b.size())); }
		SC sc(it); return drain(sc,tokLimit(b.size()));
	}
	static const Map empty;
	Chunked<In,OUT> c(U8,Put,em?*em:empty); std::size_t k=0; Toks r; 
	auto feed=[&]{ if (k==0) c.feed(b.data(),cut,false); else if (k==1) c.feed(b.data()+cut,b.size()-cut,false); else c.feed("",0,true); if (++k>4) throw mc::Violation("too much input requested"); };
	feed();
	for (;;) { int t=c.next(); if (t==NEED) { feed(); continue; } r.push_back(c.tok(t)); if (t==B::Exit||t==B::ErrorOccurred||r.size()>40) return r; }
}
template <class OUT> static void judge(mc::Choice& c, int outcs, int ctx, const U& raw, bool usermap, bool rev, long cut)
{
	static const std::map<std::string,uint32_t> none; 
	Exp e=expand(eol(raw),usermap?userdef():none); if (e.undetermined) return;
	std::vector<std::string> store; Map em=makeMap(userdef(),store,rev);
	std::string b=enc(U8,pre[ctx]+raw+post[ctx]); c.show((cut>=0?"cut "+std::to_string(cut)+" ":std::string())+(usermap?"with entity map: ":"")+b);
	if (cut>(long)b.size()) return;
	Toks t=scan<OUT>(b,usermap?&em:0,cut), w; auto tk=[&](int ty, const U& s){ w.push_back(Tok{ty,encRef(outcs,s),0,0}); };
	tk(B::OpenTag,U"a"); if (ctx) tk(B::TagAttribName,U"b");
	if (e.undefined) w.push_back(Tok{B::ErrorOccurred,"",0,B::ErrUndefinedCharacterEntity});
	else { if (ctx||!raw.empty()) tk(ctx?B::TagAttribValue:B::Content,e.text); tk(ctx?B::CloseTagIm:B::CloseTag,ctx?U():U"a"); tk(B::Exit,U()); }
	bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].s==w[i].s&&t[i].err==w[i].err;
	if (!eq) c.fail("delivered "+show(t)+" instead of "+show(w));
	c.step(t.size()); c.trace(); c.state(mc::hstr(b,ctx*4+usermap)); c.outcome(hash(t));
}
static const std::vector<U>& syms(){ static const std::vector<U> v={U"&",U"#",U"x",U";",U"1",U"a",U"F",U"amp",U"lt",U"foo",U"\u00e9",U" ",U"\n",U"-",U"&amp;",U"&#65;",U"&#x10437;",U"g"}; return v; }
static U symstring(mc::Choice& c, int n){ U r; for (int i=0;i<n;i++) r+=c.of(syms()); return r; }
static void strings(mc::Choice& c){ int ctx=c.pick(3); bool um=c.flip(); int n=c.thorough()?5:4; U r=symstring(c,n); judge<textwolf::charset::UTF8>(c,U8,ctx,r,um,false,-1); }
static void cutstrings(mc::Choice& c){ int ctx=c.pick(3); bool um=c.flip(); int n=c.thorough()?4:3; U r=symstring(c,n); std::size_t len=enc(U8,pre[ctx]+r+post[ctx]).size(); judge<textwolf::charset::UTF8>(c,U8,ctx,r,um,false,pre[ctx].size()+c.pick(len-pre[ctx].size()+1)); }
// every code point, decimal and hexadecimal, in every output encoding
static U numref(uint32_t v, int style){ char t[40]; snprintf(t,40,style==0?"&#%u;":style==1?"&#x%x;":style==2?"&#x%X;":style==3?"&#%015u;":"&#x%015x;",v); return u(t); }
static void allrefs(mc::Choice& c)
{
	static const int outs[]={U8,U16L,U16B,C2L,C4L,C4B,ISO1}; int oc=outs[c.pick(7)]; int style=c.pick(5), ctx=c.pick(3); unsigned blk=c.pick(0x110000/256);
	if (!c.thorough() && blk>=0x20 && blk%16!=0 && blk%256!=255 && blk!=0xD7 && blk!=0xE0 && blk!=0xFF) { blk=blk%2; if (blk) return; }
	if (style>=2 && blk>0x10 && !c.thorough() && blk%256!=0) return;
	for (uint32_t s=0;s<256;s+=64)
	{
		U r; for (uint32_t k=0;k<64;k++) { uint32_t cp=blk*256+s+k; if (!cp||(cp>=0xD800&&cp<=0xDFFF)) continue; r+=numref(cp,style); if (k%8==7) r+=U"x\u20ac;"; }
		if (r.empty()) continue;
		TW_DISPATCH(oc,judge<CS>(c,oc,ctx,r,false,false,-1));
	}
}
static void names(mc::Choice& c)
{
	static const char al[]="amplqutogsnb"; std::string n; int k=1+c.pick(c.thorough()?5:4); for (int i=0;i<k;i++) n.push_back(al[c.pick(12)]);
	bool um=c.flip(); judge<textwolf::charset::UTF8>(c,U8,k%3,U"x&"+ustr(n)+U";y",um,false,-1);
}
static void nearNames(mc::Choice& c)
{
	static const std::vector<std::string> base={"quot","amp","apos","lt","gt","nbsp","foo","fo","x","fooo","abcdefghijklmno","F00.d_","a"}; static const std::string ch="aA0tpo;.x& -#";
	std::string n=c.of(base); int op=c.pick(5); 
	if (op==1) n.insert(c.pick(n.size()+1),1,ch[c.pick(ch.size())]); else if (op==2) n.erase(c.pick(n.size()),1); else if (op==3) { int p=c.pick(n.size()); n[p]=ch[c.pick(ch.size())]; } else if (op==4) { int p=c.pick(n.size()); n[p]^=32; }
	bool um=c.flip(), rev=c.flip(); int ctx=c.pick(3); static const std::vector<U> f={U";",U";;",U"",U";&amp;",U" ;",U";x",U"&lt;"}; U r=c.of(std::vector<U>{U"",U"x",U"&",U"&gt;"})+U"&"+ustr(n)+c.of(f);
	judge<textwolf::charset::UTF8>(c,U8,ctx,r,um,rev,-1);
}
static void limits(mc::Choice& c)
{
	int len=1+c.pick(18); std::string n; static const char dig[]="1a0x;&"; for (int i=0;i<len;i++) n.push_back(i==0||i+1==len?dig[c.pick(4)]:'0'); int ctx=c.pick(3); bool um=c.flip();
	static const std::vector<U> h={U"&#",U"&#x",U"&"}; U r=c.of(h)+ustr(n)+c.of(std::vector<U>{U";",U"",U" ",U"&#65;",U"\u20ac"});
	std::size_t L=enc(U8,pre[ctx]+r+post[ctx]).size(); long cut=c.pick(L+2)-1; judge<textwolf::charset::UTF8>(c,U8,ctx,r,um,false,cut);
}
static void big(mc::Choice& c)
{
	static const std::vector<U> v={U"&#4294967296;",U"&#x100000000;",U"&#99999999999;",U"&#xffffffffffffffff;",U"&#9999999999999999;",U"&#x1000000000000000;",U"&#X41;",U"&# 65;",U"&#-65;",U"&#+65;",U"&#6 5;",U"&#65",U"&#x41",U"& amp;",U"&a mp;",U"&amp",U"&\u20ac;",U"&a\u20ac;",U"&#\u20ac;",U"&#x\u20ac;",U"&#1\u00e9;",U"&a-b;",U"&a=b;",U"&a?b;",U"&a[b;",U"&a>;",U"&a/b;",U"&a!;",U"&&&;x",U"&#&#65;",U"&#x&#x41;",U"&#xg41;",U"&#4a;",U"&\n;",U"&#\r\n;",U"&a\r\n;"};
	int ctx=c.pick(3); bool um=c.flip(); U r=c.of(std::vector<U>{U"",U"x",U"&lt;"})+c.of(v)+c.of(std::vector<U>{U"",U";",U"y;",U"&gt;",U"\n&"}); std::size_t L=enc(U8,pre[ctx]+r+post[ctx]).size(); long cut=c.pick(L+2)-1;
	judge<textwolf::charset::UTF8>(c,U8,ctx,r,um,false,cut);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"strings",strings,0,0,3,"all texts of 4 (thorough: 5) of 18 symbols (parts of references, complete references, other character classes) in content and both attribute quotings, with and without user entity map, compared with the reference expansion"},
	{"strings-cut",cutstrings,0,0,3,"all texts of 3 (thorough: 4) symbols fed in two chunks cut at every byte"},
	{"numeric",allrefs,0,0,3,"numeric references in 5 notations to all code points of selected (thorough: all) blocks of 256, 3 contexts, 7 output encodings"},
	{"names",names,0,0,2,"all names of up to 4 (thorough: 5) letters of the predefined names"},
	{"near-names",nearNames,0,0,3,"all single character edits of the predefined and user names, all neighbourhoods"},
	{"length-limits",limits,0,0,3,"references and non references of 1..18 digits or letters, cut at every byte"},
	{"non-references",big,0,0,3,"36 constructs that are no reference, cut at every byte"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"not judged: references without name or digits, to U+0000, surrogates or values above 10FFFF that fit into 32 bits, names longer than 15 characters, more than 15 digits (limits of the scanner)"}; }
}
