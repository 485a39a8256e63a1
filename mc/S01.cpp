// S01: a well-formed document yields exactly the tokens the XML grammar prescribes
#include "tw.hpp"
#include "sized.hpp"
using namespace tw;
MC_PROPERTY("S01")

struct Ev { int t; U s; };
struct Gen
{
	mc::Choice& c; U d; std::vector<Ev> ev; int nodes; int nameno=0; bool afterMarkupDecl=false;
	Gen(mc::Choice& c_, int n):c(c_),nodes(n){}
	void e(int t, const U& s=U()){ ev.push_back(Ev{t,s}); }
	void ws(){ static const U v[]={U" ",U"\n",U"\t",U"\r\n",U" \t "}; d+=v[c.dev(5)]; }
	void ows(){ static const U v[]={U"",U" ",U"\n",U"\r\n"}; d+=v[c.dev(4)]; }
	U name(){ static const U v[]={U"",U"a-b",U"\u00e9",U"n:s",U"_x.y9",U"\u20ac\U0001D11E",U"ABCdefghijklmnopqrstuvwxyz",U"xml"}; int k=c.dev(8); if (!k) { U n; n.push_back('a'+nameno++%3); return n; } return v[k]; }
	void value(int t)
	{
		// text inside of the quotes and what it denotes; Q = the other quote character
		static const char32_t* v[][2]={{U"v",U"v"},{U"",U""},{U" x  y ",U" x  y "},{U"a>b",U"a>b"},{U"&lt;&amp;",U"<&"},{U"\u00e9\u20ac\U0001D11E",U"\u00e9\u20ac\U0001D11E"},{U"/=?!-[]",U"/=?!-[]"},{U"QxQ",U"QxQ"},{U"&quot;&#x41;",U"\"A"},{U"l\r\nm",U"l\nm"},{U"--> ]]> ?>",U"--> ]]> ?>"}};
		int k=c.dev(11); char32_t q=c.dev(2)?'\'':'"'; U raw=v[k][0], val=v[k][1];
		for (auto* p:{&raw,&val}) for (auto& x:*p) if (x=='Q') x=q=='"'?'\'':'"';
		d.push_back(q); d+=raw; d.push_back(q); e(t,val);
	}
	void attr(int tn, int tv, const U* fixed=0, const U* fixval=0)
	{
		U n=fixed?*fixed:name(); d+=n; e(tn,n); ows(); d+=U"="; ows();
		if (fixval) { char32_t q=c.dev(2)?'\'':'"'; d.push_back(q); d+=*fixval; d.push_back(q); e(tv,*fixval); } else value(tv);
	}
	void text()
	{
		static const char32_t* v[][2]={{U"x",U"x"},{U" ",U" "},{U"&amp;",U"&"},{U"x y\n z ",U"x y\n z "},{U"a>b'c\"d",U"a>b'c\"d"},{U"&#65;&#x42;;",U"AB;"},{U"\u00e9\u20ac\U0001D11E",U"\u00e9\u20ac\U0001D11E"},{U"]]",U"]]"},{U"\r\n",U"\n"},{U"=/-!?[]",U"=/-!?[]"},{U"x&lt;y&gt;",U"x<y>"},{U"-->",U"-->"}};
		int k=c.pick(2); if (k==1) k=1+c.dev(11); // blank only, or any other
		d+=v[k][0]; U val=v[k][1];
		if (afterMarkupDecl) while (!val.empty() && val[0]<=32) val.erase(0,1);   // white space following a comment is not delivered
		if (!val.empty()) e(B::Content,val);
		afterMarkupDecl=false;
	}
	void comment(){ static const U v[]={U" c ",U"",U"-x",U"<b>",U"&u;",U"- - x",U"\u00e9\u20ac\U0001D11E",U">",U"->",U"?>",U"]]>",U"'\"",U"\r\n<!"}; d+=U"<!--"; d+=v[c.dev(13)]; d+=U"-->"; afterMarkupDecl=true; }
	void pi(){ static const U v[]={U"p x",U"p",U"p a?b",U"p ?",U"p >",U"p <b>",U"p &u;'\"",U"xml-s x='y'",U"\u00e9 \u20ac\U0001D11E",U"p -->",U"p ]]>"}; d+=U"<?"; d+=v[c.dev(11)]; d+=U"?>"; afterMarkupDecl=false; }
	void cdata(){ static const U v[]={U"x",U"",U"<b>",U"&u;",U"]",U"]]",U"a>b",U"]>",U"\u00e9\u20ac\U0001D11E",U"<![CDATA[",U"]] >"}; d+=U"<![CDATA["; d+=v[c.dev(11)]; d+=U"]]>"; afterMarkupDecl=false; }
	void element(int depth)
	{
		U n=name(); d+=U"<"; d+=n; e(B::OpenTag,n);
		while (nodes>0 && c.flip()) { --nodes; ws(); attr(B::TagAttribName,B::TagAttribValue); }
		ows();
		if (c.flip()) { d+=U"/>"; e(B::CloseTagIm); afterMarkupDecl=false; return; }
		d+=U">"; afterMarkupDecl=false; bool lasttext=false;
		while (nodes>0)
		{
			int k=c.pick(6); if (!k) break;
			if (k==5 && lasttext) { k=4; }
			--nodes;
			switch (k) { case 1: element(depth+1); break; case 2: comment(); break; case 3: pi(); break; case 4: cdata(); break; case 5: text(); }
			lasttext=(k==5);
		}
		d+=U"</"; d+=n; ows(); d+=U">"; e(B::CloseTag,n); afterMarkupDecl=false;
	}
	void misc(bool allowpi){ int k=c.dev(4); if (k==1) d+=U"\n"; else if (k==2) comment(); else if (k==3 && allowpi) pi(); }
	void doctype()
	{
		d+=U"<!DOCTYPE"; e(B::DocAttribValue,U"DOCTYPE"); ws(); U n=name(); d+=n; e(B::DocAttribValue,n);
		switch (c.dev(3))
		{
			case 1: ws(); d+=U"SYSTEM"; e(B::DocAttribValue,U"SYSTEM"); ws(); value(B::DocAttribValue); break;
			case 2: ws(); d+=U"PUBLIC"; e(B::DocAttribValue,U"PUBLIC"); ws(); d+=U"'-//p'"; e(B::DocAttribValue,U"-//p"); ws(); d+=U"\"u\""; e(B::DocAttribValue,U"u"); break;
		}
		static const U sub[]={U"",U"[]",U"[ <!ELEMENT a (#PCDATA|b)*>\n<!ATTLIST a b CDATA #IMPLIED> ]",U"[<!ENTITY e \"v\"> <?p x?> <!-- c -->]",U"[\u00e9\u20ac]"};
		int k=c.dev(5); if (k) { ows(); d+=sub[k]; } 
		ows(); d+=U">"; e(B::DocAttribEnd);
	}
	void document()
	{
		bool decl=c.flip();
		if (decl)
		{
			static const U xv=U"version",v1=U"1.0",xe=U"encoding",v2=U"UTF-8",xs=U"standalone",v3=U"yes";
			d+=U"<?xml"; e(B::HeaderStart,U"?xml"); ws(); attr(B::HeaderAttribName,B::HeaderAttribValue,&xv,&v1);
			int k=c.dev(4); if (k&1) { ws(); attr(B::HeaderAttribName,B::HeaderAttribValue,&xe,&v2); } if (k&2) { ws(); attr(B::HeaderAttribName,B::HeaderAttribValue,&xs,&v3); }
			ows(); d+=U"?>"; e(B::HeaderEnd);
		}
		else ows();
		misc(decl); bool dt=c.dev(2)!=0; if (dt) { doctype(); misc(true); }
		element(0); misc(true); misc(true);
		e(B::Exit);
	}
};
static void body(mc::Choice& c, int nodes, bool allenc)
{
	Gen g(c,nodes); g.document();
	static const int encs[]={U8,U16L,U16B,C4L,C4B}; int cs=allenc?encs[c.dev(5)]:(int)U8;
	std::string bytes=enc(cs,g.d); c.show(std::string(csName(cs))+" "+show(g.d));
	Toks t; TW_DISPATCH(cs,(t=scanAll<CS,textwolf::charset::UTF8>(cs,bytes)));
	std::vector<Tok> got; int depth=0; bool fin=false;
	for (auto& x:t)
	{
		if (x.t==B::OpenTag) { ++depth; } if (x.t==B::CloseTag||x.t==B::CloseTagIm) --depth;
		if (x.t==B::Content && depth==0) { bool blank=true; for (char ch:x.s) if ((unsigned char)ch>32) blank=false; if (blank) continue; }
		got.push_back(x);
	}
	(void)fin; Toks want; for (auto& x:g.ev) want.push_back(Tok{x.t,enc(U8,x.s),0,0});
	bool eq=got.size()==want.size(); for (std::size_t i=0;eq&&i<got.size();i++) eq=got[i].t==want[i].t && got[i].s==want[i].s && !got[i].err;
	if (!eq) c.fail("delivered: "+show(got)+" | grammar: "+show(want));
	c.step(t.size()); c.trace(); c.state(mc::hstr(bytes)); c.outcome(hash(want));
}
static void wide(mc::Choice& c){ body(c,c.thorough()?5:4,false); }
static void varied(mc::Choice& c){ body(c,c.thorough()?3:2,false); }
static void encs(mc::Choice& c){ body(c,2,true); }
static void tiny(mc::Choice& c){ body(c,0,false); }
// every text over an alphabet of all the characters with a meaning, in every construct that contains free text
static void check(mc::Choice& c, const U& d, const std::vector<Ev>& ev)
{
	std::string bytes=enc(U8,d); c.show(show(d));
	Toks t=scanAll<textwolf::charset::UTF8,textwolf::charset::UTF8>(U8,bytes), want; for (auto& x:ev) want.push_back(Tok{x.t,enc(U8,x.s),0,0});
	bool eq=t.size()==want.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==want[i].t && t[i].s==want[i].s && !t[i].err;
	if (!eq) c.fail("delivered: "+show(t)+" | grammar: "+show(want));
	c.step(t.size()); c.trace(); c.state(mc::hstr(bytes)); c.outcome(hash(want));
}
static void texts(mc::Choice& c)
{
	static const char32_t A[]={'x',' ','-','?','>',']','[','<','!','&',';','/','=','\'','"','\n',0xe9,'#','%','X','\t'};
	int kind=c.pick(9), n=c.pick(c.thorough()?6:5); U s; for (int i=0;i<n;i++) s.push_back(A[c.pick(21)]);
	auto has=[&](const char32_t* x){ return s.find(x)!=U::npos; };
	U d=U"<a>"; std::vector<Ev> ev{{B::OpenTag,U"a"}};
	if (kind<=3 || kind>=7)
	{
		if (kind==0) { if (has(U"--")||(n&&s.back()=='-')) return; d+=U"<!--"+s+U"-->"; }
		if (kind==1) { if (has(U"?>")) return; d+=U"<?p "+s+U"?>"; }
		if (kind==2) { if (has(U"]]>")) return; d+=U"<![CDATA["+s+U"]]>"; }
		if (kind==3)
		{
			if (has(U"<")||has(U"&")||has(U"]]>")) return;
			d+=s; U v=s; if (!v.empty()) ev.push_back(Ev{B::Content,v});
		}
		if (kind==7) { if (n>3||has(U"<")||has(U"&")||has(U"]]>")) return; d+=U"<b>"+s+U"</b>"; ev.push_back(Ev{B::OpenTag,U"b"}); if (n) ev.push_back(Ev{B::Content,s}); ev.push_back(Ev{B::CloseTag,U"b"}); }
		if (kind==8) { if (n>3||has(U"<")||has(U"&")||has(U"]]>")) return; d+=U"<b/>"+s; ev.push_back(Ev{B::OpenTag,U"b"}); ev.push_back(Ev{B::CloseTagIm,U""}); if (n) ev.push_back(Ev{B::Content,s}); }
		d+=U"<c>z</c></a>"; ev.push_back(Ev{B::OpenTag,U"c"}); ev.push_back(Ev{B::Content,U"z"}); ev.push_back(Ev{B::CloseTag,U"c"}); ev.push_back(Ev{B::CloseTag,U"a"});
	}
	else if (kind<=5)
	{
		char32_t q=kind==4?'"':'\''; if (s.find(q)!=U::npos||has(U"<")||has(U"&")) return;
		d+=U"<b c="; d.push_back(q); d+=s; d.push_back(q); d+=U" d='w'>z</b></a>";
		ev.push_back(Ev{B::OpenTag,U"b"}); ev.push_back(Ev{B::TagAttribName,U"c"}); ev.push_back(Ev{B::TagAttribValue,s}); ev.push_back(Ev{B::TagAttribName,U"d"}); ev.push_back(Ev{B::TagAttribValue,U"w"});
		ev.push_back(Ev{B::Content,U"z"}); ev.push_back(Ev{B::CloseTag,U"b"}); ev.push_back(Ev{B::CloseTag,U"a"});
	}
	else
	{
		// internal subset (no quotes, brackets, markup: see the finding doctype-subset-bracket)
		if (has(U"]")||has(U"[")||has(U"<")||has(U"'")||has(U"\"")) return;
		d=U"<!DOCTYPE a [ "+s+U"]><a/>"; ev.clear(); ev={{B::DocAttribValue,U"DOCTYPE"},{B::DocAttribValue,U"a"},{B::DocAttribEnd,U""},{B::OpenTag,U"a"},{B::CloseTagIm,U""}};
	}
	ev.push_back(Ev{B::Exit,U""}); check(c,d,ev);
}
// every sequence of white space at every place where the grammar allows it, every short name
static void layouts(mc::Choice& c)
{
	static const char32_t W[]={' ','\n','\r','\t'}, N[]={'a','Z','_',':',0xe9,0x20ac,'0','-','.',0xb7};
	auto ws=[&]{ int n=c.pick(c.thorough()?5:4); U s; for (int i=0;i<n;i++) s.push_back(W[c.pick(4)]); return s; };
	auto nm=[&]{ int n=1+c.pick(3); U s; for (int i=0;i<n;i++) s.push_back(N[c.pick(i?10:6)]); return s; };
	int place=c.pick(18); U w=place<15?ws():U(), n=place>=15?nm():U();
	auto at=[&](int p, const char32_t* def){ return p==place?(w.empty()?U(def):w):U(def); };
	auto na=[&](int p, const char32_t* def){ return p==place?n:U(def); };
	U A=na(15,U"a"), Bn=na(16,U"b"), Dn=na(17,U"a");
	U d=U"<?xml"+at(0,U" ")+U"version"+at(1,U"")+U"="+at(2,U"")+U"'1.0'"+at(3,U"")+U"?>"+at(4,U"")+U"<!DOCTYPE"+at(5,U" ")+Dn+at(6,U"")+U">"+at(7,U"")+U"<"+A+at(8,U" ")+Bn+at(9,U"")+U"="+at(10,U"")+U"'v'"+at(11,U"")+U"><e"+at(12,U"")+U"/></"+A+at(13,U"")+U">"+at(14,U"");
	std::vector<Ev> ev{{B::HeaderStart,U"?xml"},{B::HeaderAttribName,U"version"},{B::HeaderAttribValue,U"1.0"},{B::HeaderEnd,U""},{B::DocAttribValue,U"DOCTYPE"},{B::DocAttribValue,Dn},{B::DocAttribEnd,U""},{B::OpenTag,A},{B::TagAttribName,Bn},{B::TagAttribValue,U"v"},{B::OpenTag,U"e"},{B::CloseTagIm,U""},{B::CloseTag,A}};
	std::string bytes=enc(U8,d); c.show(show(d));
	ev.push_back(Ev{B::Exit,U""});
	Toks t=scanAll<textwolf::charset::UTF8,textwolf::charset::UTF8>(U8,bytes), got, want; for (auto& x:ev) want.push_back(Tok{x.t,enc(U8,x.s),0,0});
	for (std::size_t i=0;i<t.size();i++) { if (t[i].t==B::Content && t[i].s.find_first_not_of(" \t\r\n")==std::string::npos) continue; got.push_back(t[i]); }
	bool eq=got.size()==want.size(); for (std::size_t i=0;eq&&i<got.size();i++) eq=got[i].t==want[i].t && got[i].s==want[i].s && !got[i].err;
	if (!eq) c.fail("delivered: "+show(t)+" | grammar: "+show(want));
	c.step(t.size()); c.trace(); c.state(mc::hstr(bytes)); c.outcome(hash(want));
}
// every character in every construct, in four neighbourhoods
static bool nameChar(uint32_t x, bool start)
{
	if (x=='_'||x==':'||(x>='a'&&x<='z')||(x>='A'&&x<='Z')) return true;
	if (!start && (x=='-'||x=='.'||x==0xb7||(x>='0'&&x<='9')||(x>=0x300&&x<=0x36f)||(x>=0x203f&&x<=0x2040))) return true;
	return (x>=0xc0&&x<=0x2ff&&x!=0xd7&&x!=0xf7)||(x>=0x370&&x<=0x1fff&&x!=0x37e)||(x>=0x200c&&x<=0x200d)||(x>=0x2070&&x<=0x218f)||(x>=0x2c00&&x<=0x2fef)||(x>=0x3001&&x<=0xd7ff)||(x>=0xf900&&x<=0xfdcf)||(x>=0xfdf0&&x<=0xfffd)||(x>=0x10000&&x<=0xeffff);
}
static void characters(mc::Choice& c)
{
	int place=c.pick(14), nb=c.pick(5), blk=c.pick(c.thorough()?8704:64); static const int encs[]={U8,U16L,U16B,C4L,C4B}; int cs=encs[c.thorough()?0:c.pick(5)];
	if (c.thorough() && place>3 && blk>=32 && blk%8) return;
	c.show("place "+std::to_string(place)+" neighbourhood "+std::to_string(nb)+" block "+std::to_string(blk));
	for (unsigned i=0;i<128;i++)
	{
		uint32_t x=c.thorough()||blk<24?blk*128+i:blk<48?(blk-23)*0x800-64+i:(blk-47)*0x10000-64+i;
		if (x>0x10ffff||(x>=0xd800&&x<0xe000)||(x&0xfffe)==0xfffe||(x<32&&x!='\t'&&x!='\n')) continue;
		U s; if (nb==1||nb==3) s.push_back('x'); s.push_back(x); if (nb==4) s.push_back(x); if (nb>=2) s.push_back('y');
		auto has=[&](const char32_t* k){ return s.find(k)!=U::npos; };
		U d; std::vector<Ev> ev; if (place<4) ev={{B::OpenTag,U"a"}}; U tail=U"<c>z</c></a>"; bool wt=false;
		switch (place)
		{
			case 0: if (has(U"<")||has(U"&")) continue; d=U"<a>"+s+tail; ev.push_back({B::Content,s}); wt=true; break;
			case 1: if (has(U"--")||s.back()=='-') continue; d=U"<a><!--"+s+U"-->"+tail; wt=true; break;
			case 2: if (nb==0||nb==2||nb==4) continue; d=U"<a><?"+s+U"?>"+tail; wt=true; break;
			case 3: d=U"<a><![CDATA["+s+U"]]>"+tail; wt=true; break;
			case 4: case 5: { char32_t q=place==4?'"':'\''; if (x==q||x=='<'||x=='&'||x=='\n'||x=='\t') continue; d=U"<a b="; d.push_back(q); d+=s; d.push_back(q); d+=U">"+tail; ev={{B::OpenTag,U"a"},{B::TagAttribName,U"b"},{B::TagAttribValue,s}}; wt=true; break; }
			case 6: case 7: { char32_t q=place==6?'"':'\''; if (x==q||x=='<'||x=='&'||x=='\n'||x=='\t') continue; d=U"<!DOCTYPE a SYSTEM "; d.push_back(q); d+=s; d.push_back(q); d+=U"><a/>"; ev={{B::DocAttribValue,U"DOCTYPE"},{B::DocAttribValue,U"a"},{B::DocAttribValue,U"SYSTEM"},{B::DocAttribValue,s},{B::DocAttribEnd,U""},{B::OpenTag,U"a"},{B::CloseTagIm,U""}}; break; }
			case 8: if (has(U"]")||has(U"[")||has(U"<")||has(U"'")||has(U"\"")) continue; d=U"<!DOCTYPE a ["+s+U"]><a/>"; ev={{B::DocAttribValue,U"DOCTYPE"},{B::DocAttribValue,U"a"},{B::DocAttribEnd,U""},{B::OpenTag,U"a"},{B::CloseTagIm,U""}}; break;
			case 9: if (!nameChar(x,nb==0||nb==2||nb==4)) continue; d=U"<"+s+U"/>"; ev={{B::OpenTag,s},{B::CloseTagIm,U""}}; break;
			case 10: if (!nameChar(x,nb==0||nb==2||nb==4)) continue; d=U"<a "+s+U"='v'/>"; ev={{B::OpenTag,U"a"},{B::TagAttribName,s},{B::TagAttribValue,U"v"},{B::CloseTagIm,U""}}; break;
			case 11: if (!nameChar(x,nb==0||nb==2||nb==4)) continue; d=U"<"+s+U"></"+s+U">"; ev={{B::OpenTag,s},{B::CloseTag,s}}; break;
			case 12: if (!nameChar(x,nb==0||nb==2||nb==4)) continue; d=U"<!DOCTYPE "+s+U"><a/>"; ev={{B::DocAttribValue,U"DOCTYPE"},{B::DocAttribValue,s},{B::DocAttribEnd,U""},{B::OpenTag,U"a"},{B::CloseTagIm,U""}}; break;
			case 13: { char h[32]; snprintf(h,sizeof(h),i%2?"&#x%x;":"&#%u;",(unsigned)x); U r; for (char* p=h;*p;p++) r.push_back((unsigned char)*p); U a=nb==1||nb==3?U"x":U"", b=nb>=2?U"y":U""; d=U"<a b='"+a+r+b+U"'>"+a+r+b+tail; U v=a; v.push_back(x); v+=b; ev={{B::OpenTag,U"a"},{B::TagAttribName,U"b"},{B::TagAttribValue,v},{B::Content,v}}; wt=true; break; }
		}
		if (wt) { ev.push_back({B::OpenTag,U"c"}); ev.push_back({B::Content,U"z"}); ev.push_back({B::CloseTag,U"c"}); ev.push_back({B::CloseTag,U"a"}); }
		ev.push_back({B::Exit,U""});
		std::string bytes=enc(cs,d); Toks t, want; TW_DISPATCH(cs,(t=scanAll<CS,textwolf::charset::UTF8>(cs,bytes))); for (auto& e:ev) want.push_back(Tok{e.t,enc(U8,e.s),0,0});
		bool eq=t.size()==want.size(); for (std::size_t k=0;eq&&k<t.size();k++) eq=t[k].t==want[k].t && t[k].s==want[k].s && !t[k].err;
		if (!eq) c.fail(std::string(csName(cs))+" "+show(d)+" delivered: "+show(t)+" | grammar: "+show(want));
		c.step(t.size()); c.trace();
	}
	c.state(mc::hcomb(mc::hcomb(place,nb),mc::hcomb(blk,cs))); c.outcome(place);
}
// lengths and numbers of everything
static void sizes(mc::Choice& c)
{
	int k=c.pick(sized::NofKinds); std::size_t N=c.of(sized::numbers(c.thorough())); static const int encs[]={U8,U16L,C4B}; int cs=encs[c.thorough()||N<=300?c.pick(3):0]; c.show(std::string(sized::kindName(k))+" "+std::to_string(N)+" "+csName(cs));
	U d; std::vector<sized::Ev> ev; sized::doc(k,N,d,ev); Toks t, want=sized::tokens(U8,ev); std::string bytes=enc(cs,d); TW_DISPATCH(cs,(t=scanAll<CS,textwolf::charset::UTF8>(cs,bytes)));
	std::string e=sized::differs(t,want); if (!e.empty()) c.fail(e); c.step(t.size()); c.trace(); c.state(mc::hcomb(mc::hcomb(k,N),cs)); c.outcome(k);
}
static std::string probe(const char32_t* doc, const char* expect)
{
	std::string bytes=enc(U8,doc); Toks t=scanAll<textwolf::charset::UTF8,textwolf::charset::UTF8>(U8,bytes); std::string g=show(t); return g==expect?std::string():"["+bytes+"] delivers "+g;
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"document-structures",wide,1,1,5,"all document structures with up to 4 (thorough: 5) nodes (elements, attributes, texts, comments, processing instructions, CDATA sections) with one variation of white space, quoting, names, texts, prolog"},
	{"varied-documents",varied,2,3,5,"all structures with up to 2 (thorough: 3) nodes with up to 2 (thorough: 3) variations at once"},
	{"prolog",tiny,3,4,1,"all prologs (declaration, document type, comments, instructions) with up to 3 (thorough: 4) variations"},
	{"texts",texts,0,0,3,"every text of up to 4 (thorough: 5) characters from an alphabet of 21 (all the control characters of the scanner, white space, ASCII, non-ASCII) that is well-formed there, as comment, processing instruction, CDATA section, content at three places, attribute value in both quotes, DOCTYPE internal subset; the constructs behind must be intact"},
	{"layouts",layouts,0,0,2,"every sequence of up to 3 (thorough: 4) white space characters at each of 15 places of a document, every name of up to 3 characters from 10 at 3 places"},
	{"characters",characters,0,0,3,"every XML character of 64 selected blocks of 128 in 5 encodings (thorough: every character up to U+10FFFF in UTF-8) in 14 constructs (content, comment, instruction, CDATA, values, document type literals and subset, names, references) in 5 neighbourhoods"},
	{"sizes",sizes,0,0,2,"20 kinds of parts of a document (names, values, texts, comments, instructions, sections, white space; numbers of attributes, siblings, levels, comments, references, texts) with 102 (thorough: 1140) lengths up to 65537 (262146), up to 300 in 3 encodings, longer ones in UTF-8"},
	{"encodings",encs,2,2,5,"the same in UTF-16 and UCS-4, both byte orders"}}; }
std::vector<Probe> probes(){ return {
	{"cdata-dropped",[]{ return probe(U"<a><![CDATA[x<y]]></a>","OpenTag'a' Content'x<y' CloseTag'a' Exit"); }},
	{"pi-before-declaration",[]{ return probe(U"<?p x?><a/>","OpenTag'a' CloseTagIm Exit"); }},
	{"doctype-subset-bracket",[]{ return probe(U"<!DOCTYPE a [<!ENTITY e \"]\"><!--]-->]><a/>","DocAttribValue'DOCTYPE' DocAttribValue'a' DocAttribEnd OpenTag'a' CloseTagIm Exit"); }},
	{"blank-behind-comment",[]{ return probe(U"<a>x<!-- c --> y</a>","OpenTag'a' Content'x' Content' y' CloseTag'a' Exit"); }}
	}; }
std::vector<std::string> assumptions(){ return {"names are built from the characters the scanner supports in names","white space directly behind a comment or outside of the root element is not compared","the listed findings (CDATA text, processing instruction without preceding declaration, ']' quoted in the internal subset) are modelled as the library behaves"}; }
}
