// P03: expression texts mean what the expressions built by calls mean
#include "path.hpp"
#include <textwolf/xmlpathautomatonparse.hpp>
#include <algorithm>
#include <map>
#include <malloc.h>
#include <set>
using namespace path;
MC_PROPERTY("P03")
struct Op { enum K {Follow,Tag,Attr,If,Content,Close,Index,From,Rng} k; std::vector<std::string> names; std::string value; int a,b; Op(K k_):k(k_),a(0),b(0){} };   // names empty: wildcard
typedef std::vector<Op> Ops;
template <class A> static void buildOps(A& atm, const Ops& ops, int type)
{
	std::vector<typename A::PathElement> l(1,*atm);
	for (auto& o:ops)
	{
		if (o.k==Op::Tag||o.k==Op::Attr)
		{
			std::vector<typename A::PathElement> n; if (o.names.empty()) { for (auto& p:l) { if (o.k==Op::Tag) p.selectTag(0); else p.selectAttribute(0); } continue; }
			for (auto& x:o.names) for (auto p:l) { if (o.k==Op::Tag) p.selectTag(x.c_str()); else p.selectAttribute(x.c_str()); n.push_back(p); } l=n; continue;
		}
		for (auto& p:l) switch (o.k) { case Op::Follow: p.forAllDescendants(); break; case Op::If: p.ifAttribute(o.names[0].c_str(),o.value.c_str()); break; case Op::Content: p.selectContent(); break; case Op::Close: p.selectCloseTag(); break; case Op::Index: p.INDEX(o.a); break; case Op::From: p.FROM(o.a); break; case Op::Rng: p.RANGE(o.a,o.b); break; default: break; }
	}
	for (auto& p:l) p.assignType(type);
}
// ---- reference recognizer of the syntax
enum Verdict {Valid,Invalid,Open};
struct Parser
{
	const std::string& s; std::size_t i=0; Ops ops; Parser(const std::string& s_):s(s_){}
	char c() const { return i<s.size()?s[i]:0; }
	void ws(){ while (c()==' '||c()=='\t') i++; }
	static bool idc(char x){ return (unsigned char)x>127||isalnum((unsigned char)x)||(x&&strchr("-_.:#$%+^|\\`",x)); }
	std::string id(){ std::string r; while (i<s.size()&&idc(s[i])) r+=s[i++]; return r; }
	bool names(Op& o){ if (c()=='*') { i++; return true; } if (c()=='{') { do { i++; ws(); std::string n=id(); if (n.empty()) return false; o.names.push_back(n); ws(); } while (c()==','); if (c()!='}') return false; i++; return true; } std::string n=id(); if (n.empty()) return false; o.names.push_back(n); return true; }
	bool num(int& v){ std::string d; while (isdigit((unsigned char)c())) d+=s[i++]; if (d.empty()||d.size()>8) return false; v=atoi(d.c_str()); return true; }
	bool cond()   // behind '['
	{
		ws();
		if (c()=='@') { i++; ws(); Op o(Op::If); std::string n=id(); if (n.empty()) return false; o.names.push_back(n); ws(); if (c()!='=') return false; i++; ws(); if (c()=='"'||c()=='\'') { char q=c(); std::size_t e=s.find(q,i+1); if (e==std::string::npos) return false; o.value=s.substr(i+1,e-i-1); i=e+1; } else { o.value=id(); if (o.value.empty()) return false; } ws(); if (c()!=']') return false; i++; ops.push_back(o); return true; }
		Op o(Op::Index); if (!num(o.a)) return false; ws(); if (c()==',') { i++; ws(); if (c()==']') o.k=Op::From; else { o.k=Op::Rng; if (!num(o.b)) return false; ws(); } } if (c()!=']') return false; i++; ops.push_back(o); return true;
	}
	Verdict run()
	{
		if (s.find("::")!=std::string::npos) return Invalid; if (s.empty()||s.find('\n')!=std::string::npos||s[0]==' '||s[0]=='\t'||s.find('\0')!=std::string::npos) return Open;
		enum {Start,BehindSep,BehindTag,BehindCond,Done} st=Start;
		for (;;)
		{
			ws(); if (i>=s.size()) return st==BehindSep?Open:Valid;
			char x=c();
			if (st==Done) return Invalid;
			if (x=='@') { i++; ws(); Op o(Op::Attr); if (!names(o)) return Invalid; ops.push_back(o); st=Done; }
			else if (x=='/') { if (st==BehindSep) return Invalid; i++; if (c()=='/') { i++; ops.push_back(Op(Op::Follow)); } st=BehindSep; }
			else if (x=='[') { i++; if (!cond()) return Invalid; st=BehindCond; }
			else if (x=='(') { i++; ws(); if (c()!=')') return Invalid; i++; ops.push_back(Op(Op::Content)); st=Done; }
			else if (x=='~') { if (st==BehindSep) return Invalid; i++; ops.push_back(Op(Op::Close)); st=Done; }
			else { if (st!=Start&&st!=BehindSep) return Invalid; Op o(Op::Tag); if (!names(o)) return Invalid; ops.push_back(o); st=BehindTag; }
		}
	}
};
typedef textwolf::XMLPathSelectAutomatonParser<> PA;
template <class ATM> static uint64_t run(const ATM& atm, const std::vector<Doc>& docs, std::vector<int>& all)
{
	all.clear(); std::vector<int> got; typedef textwolf::XMLPathSelect<typename ATM::CharSet> SL; for (auto& d:docs) { SL sel(&atm); for (auto& e:d) { got.clear(); pushAll(sel,e,got); std::sort(got.begin(),got.end()); all.push_back(-1000); all.insert(all.end(),got.begin(),got.end()); } } return 0;
}
static std::string at(const std::vector<Doc>& docs, const std::vector<int>& a, const std::vector<int>& b)
{
	std::size_t k=0; while (k<a.size()&&k<b.size()&&a[k]==b[k]) k++; long ev=-1; for (std::size_t j=0;j<=k&&j<std::min(a.size(),b.size());j++) ev+=(a[j]==-1000); if (k<std::max(a.size(),b.size())&&k<a.size()&&a[k]==-1000&&ev>0&&k<b.size()) ev--; for (auto& d:docs) { if (ev<(long)d.size()) return show(d,ev+1); ev-=d.size(); } return "?";
}
static const std::vector<Doc>& smallDocs(){ static std::vector<Doc> r=[](){ std::vector<Doc> r; auto d=[&](std::initializer_list<Ev> l){ r.push_back(Doc(l)); }; const ET O=B::OpenTag, C=B::CloseTag, N=B::TagAttribName, V=B::TagAttribValue, T=B::Content, I=B::CloseTagIm;
	d({{O,"a"},{N,"a"},{V,"1"},{N,"b"},{V,"a"},{T,"t"},{O,"b"},{N,"1"},{V,"b"},{T,"t"},{O,"a"},{N,"b"},{V,"1"},{I,""},{T,"u"},{C,"b"},{T,"a"},{O,"1"},{T,"x"},{O,"b"},{C,"b"},{C,"1"},{C,"a"}});
	d({{O,"b"},{O,"a"},{T,"1"},{O,"a"},{N,"a"},{V,"a"},{T,"t"},{C,"a"},{T,"2"},{O,"a"},{N,"b"},{V,""},{T,"t"},{C,"a"},{T,"3"},{C,"a"},{O,"-"},{T,"t"},{C,"-"},{C,"b"}}); d({{O,"1"},{N,"1"},{V,"1"},{O,"1"},{I,""},{C,"1"}}); return r; }(); return r; }
static void check(mc::Choice& c, const std::string& text, Verdict v, const Ops& ops, const std::vector<Doc>& docs, int type)
{
	static const PA plain=[](){ PA p; p.addExpression(7,"/a()",4); p.addExpression(8,"//b",3); return p; }(); Mem m(text); PA atm; static const std::string e1="/a()", e2="//b"; atm.addExpression(7,e1.data(),4); atm.addExpression(8,e2.data(),3);
	int pos; bool thrown=false; try { pos=atm.addExpression(type,m.p,m.n); } catch (const textwolf::exception& e) { thrown=true; }
	if (thrown) c.fail("exception"); std::vector<int> a,b;
	if (pos==0)
	{
		if (v==Invalid) c.fail("accepted but it is not a valid expression"); if (v==Open) { c.outcome(1); return; }
		PA ref; ref.addExpression(7,e1.data(),4); ref.addExpression(8,e2.data(),3); buildOps(ref,ops,type); run(atm,docs,a); run(ref,docs,b); if (a!=b) c.fail("selects something else than the expression built by calls at the end of "+at(docs,a,b)); c.outcome(mc::hstr(std::string((const char*)b.data(),b.size()*sizeof(int))));
	}
	else
	{
		if (v==Valid) c.fail("rejected at "+std::to_string(pos)); if (pos<1||(pos>(int)text.size()+1&&v!=Open)) c.fail("error position "+std::to_string(pos)+" is outside of the text"); const std::vector<Doc>& sd=smallDocs(); run(atm,sd,a); static std::vector<int> pl; if (pl.empty()) run(plain,sd,pl); if (a!=pl) c.fail("rejected text changed the selection at the end of "+at(sd,a,pl)); c.outcome(2);
	}
	c.step(text.size()); c.trace(); c.state(mc::hstr(text));
}
// every string over the alphabet
static void strings(mc::Choice& c, const std::string& al, int maxlen)
{
	int n=c.pick(maxlen+1); std::string s; for (int i=0;i<n;i++) s+=al[c.pick(al.size())]; c.show(s); Parser p(s); Verdict v=p.run(); check(c,s,v,p.ops,smallDocs(),5);
}
static void strings1(mc::Choice& c){ strings(c,"/a*@[]='1,()~{} ",c.thorough()?6:5); }
static void strings2(mc::Choice& c){ static const std::vector<std::string> pre={"/","//","/a","/a[","/a[@a","/a[@a=","/a[@a='1'","/{a","/a{","/a@","/a(","/a[1","/a[1,","a:","/-","//*"}; std::string s=c.of(pre); static const std::string al="/a-*@[]='\"1,()~{}: \t"; int n=c.pick(c.thorough()?6:5); for (int i=0;i<n;i++) s+=al[c.pick(al.size())]; c.show(s); Parser p(s); Verdict v=p.run(); check(c,s,v,p.ops,smallDocs(),5); }
static void bytes(mc::Choice& c){ static const std::vector<std::string> pre={"","/","/a","//a[","/a[@","/a[@b=","/a[@b='","/a[1","/{a,","/a/{b","/a@{","/a@","/a(","/a()","/a~"}; std::string s=c.of(pre); int n=1+c.pick(c.thorough()?2:1); for (int i=0;i<n;i++) s+=(char)(1+c.pick(255)); static const std::vector<std::string> post={"","]","/b","'",")"}; s+=c.of(post); c.show(s); Parser p(s); Verdict v=p.run(); bool hi=false; for (char x:s) if ((unsigned char)x>126||(unsigned char)x<32) hi=true; if (hi) { U u; v=Open; (void)u; } check(c,s,v,p.ops,smallDocs(),5); }
// generated expressions in all layouts
struct Writer
{
	mc::Choice& c; std::string s; Writer(mc::Choice& c_):c(c_){}
	void gap(){ static const std::vector<std::string> g={""," ","  \t"}; s+=c.devof(g); }
	void names(Op& o, const std::vector<const char*>& al)
	{
		unsigned k=c.pick(al.size()+1); if (k==al.size()) { s+="*"; return; } std::string n=al[k]; o.names.push_back(n);
		switch (c.dev(3)) { case 0: s+=n; break; case 1: s+="{"; gap(); s+=n; gap(); s+="}"; break; case 2: { std::string m=al[(k+1)%al.size()]; o.names.push_back(m); s+="{"; gap(); s+=n; gap(); s+=","; gap(); s+=m; gap(); s+="}"; break; } }
	}
};
static const std::vector<Doc>& docs2(){ static std::vector<Doc> r=[](){ Alphabet a; a.tags={"a","b-c"}; a.attrs={{"a","1"},{"b-c","x y"}}; a.texts={"t"}; a.roots=1; std::vector<Doc> r=genDocs(a,6); Alphabet t; t.tags={"a","b-c"}; t.texts={"t"}; t.im=false; t.roots=1; for (auto& d:genDocs(t,7)) r.push_back(d); return r; }(); return r; }
static const std::vector<Doc>& layoutDocs(){ static std::vector<Doc> r=[](){ std::vector<Doc> r; const ET O=B::OpenTag, C=B::CloseTag, N=B::TagAttribName, V=B::TagAttribValue, T=B::Content, I=B::CloseTagIm; const char* n[2]={"a","b-c"}; for (int k=0;k<2;k++) { const char *p=n[k], *q=n[1-k]; r.push_back(Doc{{O,p},{N,p},{V,"1"},{N,q},{V,"x y"},{T,"t"},{O,q},{N,q},{V,"1"},{T,"u"},{O,p},{T,"v"},{C,p},{T,"w"},{C,q},{T,"z"},{O,p},{N,p},{V,"x y"},{I,""},{T,"q"},{O,p},{N,q},{V,"1"},{T,"1"},{O,p},{I,""},{T,"2"},{C,p},{T,"3"},{C,p}}); } return r; }(); return r; }
static void layouts(mc::Choice& c)
{
	static const std::vector<const char*> al={"a","b-c"}; Writer w(c); Ops ops; int n=1+c.pick(2);
	for (int i=0;i<n;i++)
	{
		unsigned sep=c.pick(i?2:3); if (sep<2) { w.s+=sep?"//":"/"; if (sep) ops.push_back(Op(Op::Follow)); w.gap(); } Op o(Op::Tag); w.names(o,al); ops.push_back(o); w.gap();
		unsigned nc=(i==n-1)?c.pick(4):c.dev(4); if (nc==0) continue;
		w.s+="["; w.gap(); if (nc==3) { Op k(Op::Index); unsigned f=c.pick(3); static const std::vector<int> ns={0,1,2}; k.a=c.of(ns); w.s+=std::string(c.dev(2)?"0":"")+std::to_string(k.a); w.gap(); if (f) { w.s+=","; w.gap(); k.k=Op::From; if (f==2) { k.k=Op::Rng; k.b=c.of(ns); w.s+=std::to_string(k.b); w.gap(); } } ops.push_back(k); }
		else { Op k(Op::If); w.s+="@"; w.gap(); std::string nm=al[nc-1]; k.names.push_back(nm); w.s+=nm; w.gap(); w.s+="="; w.gap(); unsigned vv=c.pick(2); k.value=vv?"x y":"1"; unsigned q=c.dev(vv?2:3); std::string qs=q==0?"'":q==1?"\"":""; w.s+=qs+k.value+qs; w.gap(); ops.push_back(k); }
		w.s+="]"; w.gap();
	}
	unsigned res=c.pick(7); if (res==1||res==4||res==5) { if (res==4) { w.s+="/"; w.gap(); } if (res==5) { w.s+="//"; ops.push_back(Op(Op::Follow)); w.gap(); } w.s+="("; w.gap(); w.s+=")"; ops.push_back(Op(Op::Content)); w.gap(); }
	if (res==2||res==6) { if (res==6) { w.s+="//"; ops.push_back(Op(Op::Follow)); w.gap(); } w.s+="@"; w.gap(); Op o(Op::Attr); w.names(o,al); ops.push_back(o); w.gap(); } if (res==3) { w.s+="~"; ops.push_back(Op(Op::Close)); w.gap(); }
	c.show(w.s); Parser p(w.s); if (p.run()!=Valid||p.ops.size()!=ops.size()) c.fail("reference recognizer and generator differ"); check(c,w.s,Valid,ops,c.deviations()?layoutDocs():docs2(),11);
}
// names and values in other encodings of the text
template <class SRC, class ATM> static void encoded(mc::Choice& c, int srccs, int atmcs, const U& name, const U& other, const U& value)
{
	typedef textwolf::XMLPathSelectAutomatonParser<SRC,ATM> P; P atm; unsigned f=c.pick(8); if (f==3&&name==other) return; auto A=[](const char* p){ U r; while (*p) r.push_back((unsigned char)*p++); return r; };
	U t; if (f==0) t=A("/")+name+A("()"); if (f==1) t=A("//")+name+A("@")+name; if (f==2) t=A("/")+name+A("[@")+name+A("='")+value+A("']"); if (f==3) t=A("/{")+other+A(",")+name+A("}~"); if (f==5) t=A("/")+name+A("::")+other; if (f==6) t=A("/{")+name+A(",")+other+A("]"); if (f==7) t=A("/")+name+A("[@")+other+A("='")+value; if (f==4) t=A("/")+name+A("[@")+name+A(" = \"")+value+A("\"]()"); c.show(std::string(csName(srccs))+" "+tw::show(t)); std::string b=enc(srccs,t); Mem m(b); int pos=atm.addExpression(3,m.p,m.n); if (f>=5) { if (!pos) c.fail("accepted but it is not a valid expression"); if (pos<1||pos>(int)b.size()+1) c.fail("error position "+std::to_string(pos)+" is outside of the text"); c.step(1); c.trace(); c.state(mc::hcomb(mc::hstr(b),srccs*16+atmcs)); c.outcome(f); return; } if (pos) c.fail("rejected at "+std::to_string(pos));
	auto K=[&](const U& x){ return enc(atmcs,x); }; std::vector<Doc> docs; for (int k=0;k<3;k++) { const U& n=k==1?other:name; const U& v=k==2?value+value:value; docs.push_back(Doc{{B::OpenTag,K(n)},{B::TagAttribName,K(n)},{B::TagAttribValue,K(v)},{B::Content,"t"},{B::CloseTag,K(n)}}); }
	for (int k=0;k<3;k++) { textwolf::XMLPathSelect<ATM> sel(&atm); std::vector<int> got; int hits=0, at=-1; for (std::size_t i=0;i<docs[k].size();i++) { got.clear(); pushAll(sel,docs[k][i],got); for (int x:got) { if (x!=3) c.fail("wrong number"); hits++; at=(int)i; } } bool samename=(k!=1||name==other), sv=(k!=2||value.empty()); int want=f==0?(samename?3:-1):f==1?(samename?2:-1):f==2?(samename&&sv?2:-1):f==3?4:(samename&&sv?3:-1); if (hits!=(want>=0)||at!=want) c.fail("document "+std::to_string(k)+": "+std::to_string(hits)+" matches, the last at token "+std::to_string(at)+" instead of "+std::to_string(want)); c.step(docs[k].size()); }
	c.trace(); c.state(mc::hcomb(mc::hstr(b),srccs*16+atmcs)); c.outcome(f);
}
static void encodings(mc::Choice& c)
{
	static const int filled=mallopt(M_PERTURB,0x5a); (void)filled;   // fresh memory is not zero: reading behind the end of a name shows
	static const std::vector<U> ns={U"a",U"\u00e9",U"a\u00fc-b",U"\u00ff\u00a0",U"-x",U"a:b"}, nb={U"a",U"\u00e9",U"\u20acx",U"\u3a3a",U"\u0141\u4100\u0141",U"-\u0394",U":"}, nw={U"a",U"\u00e9",U"\u20acx",U"\U0001D11E",U"\u0141\u4100\u0141",U"\u3a3a:x\u3a00",U"-\u0394"}, vs={U"",U"v w",U"<>=\u00e9",U"/[@*",U":"};
	enum {S=17}; unsigned k=c.pick(S); bool iso=(k==3||k==4||k==15), bmp=(k==11||k==12||k==16); const std::vector<U>& al=iso?ns:bmp?nb:nw; const U& n=c.of(al); const U& o=c.of(al); const U& v=c.of(vs); using namespace textwolf::charset;
	switch (k) { case 0: encoded<UTF8,UTF8>(c,U8,U8,n,o,v); break; case 1: encoded<UTF16BE,UTF8>(c,U16B,U8,n,o,v); break; case 2: encoded<UTF16LE,UTF8>(c,U16L,U8,n,o,v); break; case 3: encoded<IsoLatin,UTF8>(c,ISO1,U8,n,o,v); break; case 4: encoded<UTF8,IsoLatin>(c,U8,ISO1,n,o,v); break; case 5: encoded<UCS4BE,UTF8>(c,C4B,U8,n,o,v); break; case 6: encoded<UCS4LE,UTF8>(c,C4L,U8,n,o,v); break;
		case 7: encoded<UTF8,UTF16LE>(c,U8,U16L,n,o,v); break; case 8: encoded<UTF8,UTF16BE>(c,U8,U16B,n,o,v); break; case 9: encoded<UTF8,UCS4LE>(c,U8,C4L,n,o,v); break; case 10: encoded<UTF8,UCS4BE>(c,U8,C4B,n,o,v); break; case 11: encoded<UTF8,UCS2LE>(c,U8,C2L,n,o,v); break; case 12: encoded<UTF8,UCS2BE>(c,U8,C2B,n,o,v); break; case 13: encoded<UTF16LE,UTF16BE>(c,U16L,U16B,n,o,v); break; case 14: encoded<UCS4BE,UTF16LE>(c,C4B,U16L,n,o,v); break; case 15: encoded<IsoLatin,UTF16LE>(c,ISO1,U16L,n,o,v); break; case 16: encoded<UCS2BE,UCS4LE>(c,C2B,C4L,n,o,v); break; }
}
// numbers of every length in the ranges
static void numbers(mc::Choice& c)
{
	static const std::vector<std::string> vals={"0","1","2","7","10","11","12","99","255","256","65536","65537","99999999","100000001","4294967296","4294967297","18446744073709551617"}; std::string a=c.of(vals), b="0"; unsigned f=c.pick(3), z=c.pick(20); if (f==2) b=c.of(vals); auto pad=[](std::string x, unsigned n){ return std::string(n,'0')+x; }; unsigned which=f==2?c.pick(2):0; std::string ta=which==0?pad(a,z):a, tb=which==1?pad(b,z):b;
	std::string text2="/r["+ta+(f==0?"":f==1?",":","+tb)+"]()"; c.show(text2);
	static const Doc d=[](){ Doc r; r.push_back(Ev{B::OpenTag,"r"}); for (int i=0;i<300;i++) { r.push_back(Ev{B::Content,"t"}); r.push_back(Ev{B::OpenTag,"b"}); r.push_back(Ev{B::CloseTagIm,""}); } r.push_back(Ev{B::CloseTag,"r"}); return r; }();
	PA atm; Mem m(text2); int pos=atm.addExpression(5,m.p,m.n); bool mustBeAccepted=ta.size()<=8&&(f!=2||tb.size()<=8); c.step(text2.size()); c.trace(); c.state(mc::hstr(text2)); c.outcome(pos==0);
	if (pos) { if (mustBeAccepted) c.fail("rejected at "+std::to_string(pos)); if (pos<1||pos>(int)text2.size()+1) c.fail("error position "+std::to_string(pos)); return; }
	// an accepted number means what it says: behind the largest integer there is no match to be counted
	auto clip=[](const std::string& x){ return x.size()>9?1000000000:atoi(x.c_str()); }; int va=clip(a), vb=clip(b); PA ref; { Ops ops; Op t(Op::Tag); t.names.push_back("r"); ops.push_back(t); Op k(f==0?Op::Index:f==1?Op::From:Op::Rng); k.a=va; k.b=vb; ops.push_back(k); ops.push_back(Op(Op::Content)); buildOps(ref,ops,5); }
	std::vector<Doc> ds(1,d); std::vector<int> x,y; run(atm,ds,x); run(ref,ds,y); if (x!=y) c.fail("selects something else than the call with the same number");
}
// lengths of names and values, numbers of alternatives, steps and conditions
static void sizes(mc::Choice& c)
{
	unsigned shape=c.pick(7); const std::vector<int>& hs=hugeSizes(c.thorough()); int N=c.of(hs); static const char* sn[]={"tag name","attribute name","value","alternatives","steps","conditions","white space"}; if ((shape==3||shape==5)&&N>(c.thorough()?33000:5000)) return; c.show(std::string(sn[shape])+" "+std::to_string(N)); const ET O=B::OpenTag, C=B::CloseTag, T=B::Content, A=B::TagAttribName, V=B::TagAttribValue; PA atm;
	std::string x(N,'x'); if (N>2) { x[N/2]='-'; x[N-1]='y'; } std::string shorter=x.substr(0,N-1), longer=x+"y", other=x; other[N-1]='z'; std::string other2=x; other2[0]='z'; std::string low=N>256?x.substr(0,N%256):"q";
	auto add=[&](const std::string& t, int type){ Mem m(t); int p=atm.addExpression(type,m.p,m.n); if (p) c.fail("rejected at "+std::to_string(p)); }; auto expect=[&](Counted& d, int type, const std::string& w, const std::string& what){ if (d.of(type)!=w) c.fail(what+": expression "+std::to_string(type)+" matches "+d.of(type)+" instead of "+w); c.step(d.n); };
	const std::vector<std::string> all={x,shorter,longer,other,other2,low};
	if (shape==0) { add("/"+x+"()",1); add("//{b,"+x+"}",2); for (auto& n:all) { if (n.empty()) continue; Counted d(&atm); d.push(O,n); d.push(T,"t"); d.push(C,n); expect(d,1,n==x?matches(1,1,1):"none","tag of length "+std::to_string(n.size())); expect(d,2,n==x||n=="b"?matches(1,0,0):"none","tag of length "+std::to_string(n.size())); } }
	if (shape==1||shape==2)
	{
		if (shape==1) { add("/r@"+x,1); add("/r[@"+x+"=v]()",2); add("//@{b,"+x+"}",3); } else { add("/r[@a="+x+"]()",2); add("/r[@a='"+x+"']()",1); add("/r[@a = \""+x+"\" ]@*",3); }
		for (auto& n:all) { if (n.empty()&&shape==1) continue; bool h=n==x; Counted d(&atm); d.push(O,"r"); d.push(A,shape==1?n:"a"); d.push(V,shape==1?"v":n); d.push(A,"c"); d.push(V,"w"); d.push(T,"t"); d.push(C,"r"); std::string what="text of length "+std::to_string(n.size()); expect(d,1,!h?"none":shape==1?matches(1,2,2):matches(1,5,5),what); expect(d,2,h?matches(1,5,5):"none",what); expect(d,3,!h&&n!="b"?"none":shape==1?(n=="b"||h?matches(1,2,2):"none"):matches(1,4,4),what); }
	}
	if (shape==3) { std::string t="/{"; for (int i=0;i<N;i++) { if (i) t+=i%3?",":" , "; t+="n"+std::to_string(i); } t+="}()"; add(t,1); std::set<int> probe={0,N/2,N-1,N}; for (int i=0;i<N;i=i*2+1) probe.insert(i); for (int i:probe) { std::string n="n"+std::to_string(i); Counted d(&atm); d.push(O,n); d.push(T,"t"); d.push(C,n); expect(d,1,i<N?matches(1,1,1):"none","alternative "+std::to_string(i)); } }
	if (shape==4) { std::string t; for (int i=0;i<N;i++) t+=i%2?"/a":"/b"; add(t+"()",1); add(t+"@x",2); if (N<3000) add("//"+t.substr(1),3); for (int k=-1;k<2;k++) { Counted d(&atm); int n=N+k; for (int i=0;i<n;i++) d.push(O,i%2?"a":"b"); d.push(A,"x"); d.push(V,"1"); d.push(T,"t"); for (int i=n;i-->0;) d.push(C,i%2?"a":"b"); if (n==0) continue; std::string what="depth "+std::to_string(n); expect(d,1,k==0?matches(1,n+2,n+2):"none",what); expect(d,2,k==0?matches(1,n+1,n+1):"none",what); if (k<1&&N<3000) expect(d,3,k==0?matches(1,n-1,n-1):"none",what); } }
	if (shape==5) { std::string t="/r"; for (int i=0;i<N;i++) t+="[@x"+std::to_string(i)+"='"+std::to_string(i)+"']"; add(t+"()",1); for (int k=-1;k<N;k=k<0?N-1:N) { Counted d(&atm); d.push(O,"r"); for (int i=0;i<N;i++) { d.push(A,"x"+std::to_string(i)); d.push(V,i==k?"q":std::to_string(i)); } d.push(T,"t"); d.push(C,"r"); expect(d,1,k<0?matches(1,2*N+1,2*N+1):"none",k<0?"all conditions":"last condition not fulfilled"); } }
	if (shape==6) { std::string w; for (int i=0;i<N;i++) w+=i%7?' ':'\t'; for (int where=0;where<9;where++) { PA a; std::string t="/"; auto g=[&](int k){ if (k==where) t+=w; }; g(0); t+="r"; g(1); t+="["; g(2); t+="@"; g(3); t+="x"; g(4); t+="="; g(5); t+="'1'"; g(6); t+="]"; g(7); t+="("; g(8); t+=")"; Mem m(t); int p=a.addExpression(1,m.p,m.n); if (p) c.fail("rejected at "+std::to_string(p)); Counted d(&a); d.push(O,"r"); d.push(A,"x"); d.push(V,"1"); d.push(T,"t"); d.push(C,"r"); expect(d,1,matches(1,3,3),"white space at place "+std::to_string(where)); } }
	c.trace(); c.state(mc::hcomb(shape,N)); c.outcome(shape);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"strings",strings1,0,0,4,"all strings of up to 5 (thorough: 6) of the 16 characters /a*@[]='1,()~{} and blank: accepted or rejected as the reference recognizer says, the accepted ones select what the expression built by calls selects, the rejected ones change nothing"},
	{"continued",strings2,0,0,4,"16 beginnings of expressions followed by all strings of up to 4 (thorough: 5) of 19 characters"},
	{"bytes",bytes,0,0,3,"15 beginnings followed by every byte (thorough: every two bytes) and 5 endings"},
	{"layouts",layouts,1,2,4,"all expressions of 1 or 2 tags, conditions, index ranges and 7 kinds of results written with up to 1 (thorough: 2) variations of white space, quotes and alternatives, on all documents of 6 tokens and all trees of 7 (with variations on 2 documents of 31 tokens)"},
	{"numbers",numbers,0,0,2,"17 numbers up to 20 digits with 0..19 leading zeros as index, start and bounds of a range: those of up to 8 digits are accepted, the accepted ones mean what the call with the number means (300 contents)"},
	{"sizes",sizes,0,0,2,"lengths of tag names, attribute names and values, numbers of alternatives, steps, conditions and blanks: 15 (thorough: 37) sizes up to 65537 (200000), alternatives and conditions up to 5000 (33000)"},
	{"encodings",encodings,0,0,3,"names and values with characters of every length class in 17 pairs of encodings of the text (UTF-8, UTF-16, UCS-2, UCS-4, ISO-8859-1) and of the automaton (the same), 5 accepted and 3 rejected forms"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"not judged: the empty text, a text beginning with a blank or ending with '/', line feeds and bytes that are no UTF-8","the meaning of the expression built by calls is judged by P01"}; }
}
