// X07: the effort is proportional to what is processed, and does not depend on what was processed before
#include "effort.hpp"
#include "objects.hpp"
#include "corpus.hpp"
using namespace obj;
MC_PROPERTY("X07")
// All rounds behind the first ones need not more than the first ones did
struct Meter { mc::Choice& c; unsigned warm,n=0; unsigned long top=0; Meter(mc::Choice& c_, unsigned w):c(c_),warm(w){} void round(unsigned long w){ n++; c.step(w); if (n<=warm) { if (w>top) top=w; } else if (w>top+top/100+20) c.fail("effort "+num(w)+" in round "+num(n)+", at most "+num(top)+" in the first "+num(warm)+" rounds"); } };
// ---- scanners: long documents. Windows of rounds are compared
static const std::vector<U>& parts(){ static const std::vector<U> v={U"<b>t</b>",U"<b x='1'/>",U"t&lt;u\r\n ",U"<![CDATA[c]]>",U"<!-- c -->",U"<?p i?>",U"<b y=\"&amp;\" ><c/>v</b>",U"&#x20ac;",U"\n \n",U"<b>&euro;</b >"}; return v; }
struct Feeder { const std::string *head,*part; unsigned rounds; std::size_t pos=0; unsigned round=0; bool headdone=false; bool get(char& x){ if (!headdone) { if (pos<head->size()) { x=(*head)[pos++]; return true; } headdone=true; pos=0; } while (round<rounds) { if (pos<part->size()) { x=(*part)[pos++]; return true; } pos=0; round++; } return false; } };
struct Windows { mc::Choice& c; unsigned w; unsigned long start=0,first=0; std::size_t t0=0; effort::Count k; Windows(mc::Choice& c_,unsigned w_):c(c_),w(w_){} void round(unsigned n){ unsigned long x=k.get(); if (n==w) start=x; if (n==2*w) { first=x-start; } if (n==4*w) start=x; if (n==5*w) { c.step(x); unsigned long l=x-start; if (l>first+first/16+600) c.fail("effort "+num(l)+" for rounds "+num(4*w)+" to "+num(5*w)+", but "+num(first)+" for rounds "+num(w)+" to "+num(2*w)); } } };
template <class IN, class OUT, class BUF> static void scanRounds(mc::Choice& c, int cs, const std::string& head, const std::string& part, unsigned w, int way, unsigned size)
{
	Feeder f{&head,&part,5*w+2};
	if (way==0)
	{
		typedef textwolf::XMLScanner<textwolf::SrcIterator,IN,OUT,BUF> SC; struct Run { SC sc; jmp_buf e; Run(int cs):sc(Make<IN>::make(cs),textwolf::SrcIterator(),entities()){} int next(){ if (setjmp(e)!=0) return NEED; return sc.nextItem(); } }; std::vector<char> buf(size); Run r(cs); unsigned last=0; Windows m(c,w);
		for (;;) { std::size_t n=0; while (n<size&&f.get(buf[n])) n++; r.sc.getIterator().putInput(buf.data(),n,&r.e); int t; do { t=r.next(); if (t==B::ErrorOccurred) c.fail("scanner error "+num(r.sc.getError())); } while (t!=NEED&&t!=B::Exit); while (last<f.round) { last++; m.round(last); } if (!n) break; }
	}
	else if (way==1)
	{
		struct In :public textwolf::IStream { Feeder& f; explicit In(Feeder& f_):f(f_){} std::size_t read(void* p, std::size_t n){ std::size_t k=0; while (k<n&&f.get(((char*)p)[k])) k++; return k; } int errorcode() const { return 0; } } in(f);
		typedef textwolf::XMLScanner<textwolf::IStreamIterator,IN,OUT,BUF> SC; SC sc(Make<IN>::make(cs),textwolf::IStreamIterator(&in,size),entities()); unsigned last=0; Windows m(c,w); for (;;) { int t=sc.nextItem(); sc.getTokenPosition(); if (t==B::Exit||t==B::ErrorOccurred) break; while (last<f.round) { last++; m.round(last); } }
	}
	else
	{
		std::string d=head; std::vector<std::size_t> ends; for (unsigned i=0;i<5*w+2;i++) { d+=part; ends.push_back(d.size()); } typedef textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,BUF> SC; SC sc(Make<IN>::make(cs),textwolf::CStringIterator(d.data(),(unsigned)d.size()),entities()); unsigned last=0; unsigned short mask=way==2?0xFFFF:0; Windows m(c,w); for (;;) { int t=sc.nextItem(mask); std::size_t p=sc.getPosition(); if (t==B::Exit||t==B::ErrorOccurred) break; while (last<ends.size()&&ends[last]<=p) { last++; m.round(last); } }
	}
}
static void scanners(mc::Choice& c)
{
	unsigned n=1+c.pick(c.thorough()?3:2); U p; std::string t; for (unsigned i=0;i<n;i++) { unsigned k=c.pick(parts().size()); p+=parts()[k]; t+=" "+num(k); } p+=U"<q/>"; int way=c.pick(4); static const std::vector<unsigned> sizes={1,7,64}; unsigned size=way<2?c.of(sizes):1; unsigned en=c.pick(3); bool root=c.pick(2);
	int cs=en==0?U8:en==1?U16B:ISO9; std::string head=enc(cs,root?U"<?xml version='1.0'?><!DOCTYPE a><a>":U"<a>"), part=enc(cs,fit(cs,p)); static const char* ways[]={"chunks","stream","memory","memory, masked"}; c.show("document with"+t+" repeated, "+ways[way]+" of "+num(size)+" "+csName(cs)); unsigned w=std::max<unsigned>(20,64*size/part.size());
	if (en==0) scanRounds<K8,K8,std::string>(c,cs,head,part,w,way,size); else if (en==1) scanRounds<K16B,K4L,std::vector<char> >(c,cs,head,part,w,way,size); else scanRounds<KI,KI,std::string>(c,cs,head,part,w,way,size);
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(mc::hcomb(way*4+en,size));
}
// ---- path selection
static void selections(mc::Choice& c)
{
	static const char* ex[]={"/a/b()","//a","//b~","//a[1]()","//@x","//b[@x='1']/c","//b/","//()","/a/b[0,2]()","//b[@x='1']()","//a//b","/a()","/a@x","//b//c@x","/a/*/c~","//c[@x='2']//b()","/a/b[@x='2']@y"}; const int ne=17; typedef std::vector<Ev> V;
	static const std::vector<V> frag={{{B::OpenTag,"b"},{B::Content,"t"},{B::CloseTag,"b"}},{{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::CloseTagIm,""}},{{B::Content,"u"}},{{B::OpenTag,"c"},{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"2"},{B::TagAttribName,"y"},{B::TagAttribValue,"1"},{B::OpenTag,"c"},{B::CloseTagIm,""},{B::CloseTag,"b"},{B::Content,"t"},{B::CloseTag,"c"}},{{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::OpenTag,"a"},{B::Content,"t"},{B::CloseTag,"a"},{B::CloseTag,"b"}},{{B::OpenTag,"d"},{B::CloseTag,"d"}}};
	int m=1+c.pick(c.thorough()?5:4); std::vector<unsigned> es; for (int i=0;i<m;i++) es.push_back(i?es.back()+c.pick(ne-es.back()):c.pick(ne)); int n=1+c.pick(c.thorough()?3:2); std::string t; V part; for (int i=0;i<n;i++) { unsigned k=c.pick(frag.size()); part.insert(part.end(),frag[k].begin(),frag[k].end()); t+=" "+num(k); } unsigned where=c.pick(3); for (unsigned e:es) t+=std::string(" ")+ex[e]; c.show(std::string(where==0?"in the root":where==1?"as roots":"in a root with header and attribute")+", events and expressions"+t);
	Parser::AP a; for (std::size_t i=0;i<es.size();i++) if (a.addExpression(i+1,ex[es[i]],std::strlen(ex[es[i]]))) c.fail(std::string("expression rejected: ")+ex[es[i]]);
	std::size_t total=0; Meter mt(c,6); Sel s(&a); auto ev=[&](const Ev& v){ Sel::iterator i=s.push(v.t,v.key.data(),(int)v.key.size()), e=s.end(); for (;i!=e;++i) if (++total>1000000) c.fail("matches without end"); };
	if (where==2) { for (auto& v:path::header()) ev(v); } if (where!=1) ev(Ev{B::OpenTag,"a"}); if (where==2) { ev(Ev{B::TagAttribName,"x"}); ev(Ev{B::TagAttribValue,"1"}); } for (int r=0;r<30;r++) { unsigned long w; { effort::Count k; for (auto& v:part) ev(v); w=k.get(); } mt.round(w); }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(total);
}
static void printers(mc::Choice& c)
{
	static const std::vector<std::vector<std::string> > ops={{"Ob","C"},{"Ob","Ax","V1","C"},{"Vtext<"},{"Ob","Vt","C"},{"Ob","Oc","C","Vx","C"},{"O0123456789012345678901234567890123456789","Ob","C","C"},{"Ob","Oc","Od","Ve","C","C","C"}};
	int n=1+c.pick(c.thorough()?5:4); std::vector<std::string> o; std::string t; for (int i=0;i<n;i++) { unsigned k=c.pick(ops.size()); o.insert(o.end(),ops[k].begin(),ops[k].end()); t+=" "+num(k); } c.show("printing"+t);
	Meter m(c,6); textwolf::XMLPrinter<K16L,K8,std::string> p(true); std::string out; auto op=[&](const std::string& x, std::string& b){ bool r=x[0]=='O'?p.printOpenTag(x.data()+1,x.size()-1,b):x[0]=='A'?p.printAttribute(x.data()+1,x.size()-1,b):x[0]=='V'?p.printValue(x.data()+1,x.size()-1,b):p.printCloseTag(b); if (!r) c.fail("not printed: "+x); };
	op("Oa",out); op("Vx",out); for (int r=0;r<40;r++) { out.clear(); unsigned long w; { effort::Count k; for (auto& x:o) op(x,out); w=k.get(); } m.round(w); }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(n);
}
// ---- four times the size needs about four times the effort
static const char* sized[]={"tag name","value in double quotes","value without quotes","content","content of references","blanks in content","CDATA","comment","processing instruction","document type","attributes","elements","nested elements","tokens of 0 to 9 characters","declaration: blanks, in one piece","declaration: blanks, byte by byte","declaration: long value, byte by byte","declaration: many attributes, pieces of 7","text printed","value printed","tag name printed","nested tags printed","attributes printed","nested elements selected (/a/b)","attributes selected","condition in an expression","steps of an expression","result numbers for one expression","tag stack","text to a buffer","text to a stream","static text decoded"};
template <class CS> static unsigned long run(mc::Choice& c, int cs, const std::string& b, unsigned way)
{
	auto end=[&](int t){ if (t==B::ErrorOccurred) c.fail("scanner error"); return t==B::Exit; };
	if (way<2) { typedef textwolf::XMLScanner<textwolf::CStringIterator,CS,K8,std::string> SC; SC sc(Make<CS>::make(cs),textwolf::CStringIterator(b.data(),(unsigned)b.size())); effort::Count k; while (!end(sc.nextItem(way?0:0xFFFF))) sc.getTokenPosition(); return k.get(); }
	if (way==2) { effort::Count k; Chunked<CS,K8> ch(cs,Put); std::size_t fed=0; bool last=false; for (int t=NEED;;t=ch.next()) { if (t==NEED) { if (last) c.fail("more input requested"); std::size_t n=std::min<std::size_t>(5,b.size()-fed); last=!n; ch.feed(b.data()+fed,n,last); fed+=n; } else if (end(t)) return k.get(); } }
	struct In :public textwolf::IStream { const std::string& s; std::size_t p=0; explicit In(const std::string& s_):s(s_){} std::size_t read(void* o, std::size_t n){ std::size_t k=std::min(n,s.size()-p); memcpy(o,s.data()+p,k); p+=k; return k; } int errorcode() const { return 0; } } in(b); typedef textwolf::XMLScanner<textwolf::IStreamIterator,CS,K8,std::string> SC; SC sc(Make<CS>::make(cs),textwolf::IStreamIterator(&in,16)); effort::Count k; while (!end(sc.nextItem())) sc.getTokenPosition(); return k.get();
}
template <class IO, class AP> static unsigned long print(mc::Choice& c, unsigned what, std::size_t n, int cs, int as)
{
	textwolf::XMLPrinter<IO,AP,std::string> p(Make<IO>::make(cs),true); std::string o; auto e=[&](const U& x){ return enc(as,x); }; std::string a=e(U"a"), x=e(U"x"), l=e(U(n,U'v')), y=e(U"<\u20ac&"), t; for (std::size_t i=0;i<n;i++) t+=y; effort::Count k;
	switch (what) { case 18: p.printOpenTag(a.data(),a.size(),o); p.printValue(t.data(),t.size(),o); break; case 19: p.printOpenTag(a.data(),a.size(),o); p.printAttribute(x.data(),x.size(),o); p.printValue(t.data(),t.size(),o); break; case 20: p.printOpenTag(l.data(),l.size(),o); p.printCloseTag(o); break; case 21: for (std::size_t i=0;i<n;i++) p.printOpenTag(a.data(),a.size(),o); for (std::size_t i=0;i<n;i++) p.printCloseTag(o); break; default: p.printOpenTag(a.data(),a.size(),o); for (std::size_t i=0;i<n;i++) { p.printAttribute(x.data(),x.size(),o); p.printValue(x.data(),x.size(),o); } }
	return k.get();
}
static void proportional(mc::Choice& c)
{
	static const std::vector<std::size_t> q={250,1000,4000}, t={100,250,1000,4000,16000}; unsigned what=c.pick(32); std::size_t N=c.of(c.thorough()?t:q); unsigned en=what<14?c.pick(NofCs):what<18?c.pick(3):what<23?c.pick(3):0; unsigned way=what<14?c.pick(4):0; if (en>ISO1&&en<ISO9) return; c.show(std::string(sized[what])+" "+num(N)+" and "+num(4*N)+(what<14?std::string(" ")+csName(en)+" way "+num(way):what<23?" encoding "+num(en):""));
	auto use=[&](std::size_t n)->unsigned long{
		auto rep=[&](const U& x){ U s; for (std::size_t i=0;i<n;i++) s+=x; return s; }; U d; static const U bl[]={U"t",U"uv<b/>",U"<c d='e'/>",U"fghijklmn"};
		switch (what) { case 0: d=U"<"+rep(U"n")+U"/>"; break; case 1: d=U"<a x=\""+rep(U"v")+U"\"/>"; break; case 2: d=U"<a x="+rep(U"v")+U" />"; break; case 3: d=U"<a>"+rep(U"t")+U"</a>"; break; case 4: d=U"<a>"+rep(U"&#x20ac;&lt;")+U"</a>"; break; case 5: d=U"<a>"+rep(U" ")+U"</a>"; break; case 6: d=U"<a><![CDATA["+rep(U"c")+U"]]></a>"; break; case 7: d=U"<a><!--"+rep(U"- ")+U"--></a>"; break; case 8: d=U"<a><?"+rep(U"p")+U"?></a>"; break; case 9: d=U"<!DOCTYPE "+rep(U"d")+U"><a/>"; break; case 10: d=U"<a"+rep(U" x='y'")+U"/>"; break; case 11: d=U"<a>"+rep(U"<b/>")+U"</a>"; break; case 12: d=rep(U"<a>")+rep(U"</a>"); break; case 13: d=U"<a>"; for (std::size_t i=0;i<n;i++) d+=bl[i%4]; d+=U"</a>"; break; default: break; }
		if (what<14) { std::string b=enc(en,fit(en,d)); unsigned long w=0; std::string err; TW_DISPATCH(en,w=run<CS>(c,en,b,way)); return w; }
		std::string o; static const U vals[]={U"e",U"e",U"\u20ac"};
		switch (what)
		{
			case 14: case 15: case 16: case 17: { std::string s(n,' '), v(n,'v'), x="<?xml version='1.0'"; if (what==16) x+=" standalone='"+v+"'"; else if (what==17) for (std::size_t i=0;i<n;i++) x+=" version='1'"; else x+=s; x+=" encoding='UTF-8'?>"; std::string b=en==0?x:enc(en==1?U16L:C4B,ustr(x)); std::size_t step=what==14?b.size():what==17?7:1; effort::Count k; textwolf::XmlHdrParser p; for (std::size_t i=0;i<b.size();i+=step) { p.putInput(b.data()+i,std::min(step,b.size()-i)); if (p.parse()||p.lasterror()) break; } return k.get(); }
			case 18: case 19: case 20: case 21: case 22: return en==0?print<K8,K8>(c,what,n,U8,U8):en==1?print<K16L,K8>(c,what,n,U16L,U8):print<KI,K16B>(c,what,n,ISO2,U16B);
			case 23: { Parser::AP a; a.addExpression(1,"/a/b",4); Sel s(&a); effort::Count k; for (std::size_t i=0;i<n;i++) { Sel::iterator x=s.push(B::OpenTag,"a",1), e=s.end(); for (;x!=e;++x) {} } for (std::size_t i=0;i<n;i++) { Sel::iterator x=s.push(B::CloseTag,"a",1), e=s.end(); for (;x!=e;++x) {} } return k.get(); }
			case 24: { Parser::AP a; a.addExpression(1,"/a@x0",5); a.addExpression(2,"//a[@x1='2']",12); std::vector<std::string> names; for (std::size_t i=0;i<n;i++) names.push_back("x"+num(i)); Sel s(&a); { Sel::iterator x=s.push(B::OpenTag,"a",1), e=s.end(); for (;x!=e;++x) {} } effort::Count k; for (std::size_t i=0;i<n;i++) { Sel::iterator x=s.push(B::TagAttribName,names[i].data(),(int)names[i].size()), e=s.end(); for (;x!=e;++x) {} x=s.push(B::TagAttribValue,"3",1); for (;x!=e;++x) {} } return k.get(); }
			case 25: { Parser::AP a; std::string e="/a[@x='"; for (std::size_t i=0;i<n;i++) e+="v&#x20;"; e+="']()"; effort::Count k; if (a.addExpression(1,e.data(),e.size())) c.fail("expression rejected"); return k.get(); }
			case 26: { Parser::AP a; std::string e; for (std::size_t i=0;i<n;i++) e+="/a"; effort::Count k; if (a.addExpression(1,e.data(),e.size())) c.fail("expression rejected"); return k.get(); }
			case 27: { Parser::AP a; for (std::size_t i=0;i<n&&i<2000;i++) a.addExpression(i+1,"//b",3); Sel s(&a); effort::Count k; for (int j=0;j<3;j++) { Sel::iterator x=s.push(B::OpenTag,"b",1), e=s.end(); for (;x!=e;++x) {} } return k.get(); }
			case 28: { effort::Count k; textwolf::TagStack s; for (std::size_t i=0;i<n;i++) s.push("abcdefghij",1+i%10); for (std::size_t i=0;i<n;i++) { const void* e; std::size_t l; s.top(e,l); s.pop(); } return k.get(); }
			case 29: { textwolf::StaticBuffer b(n*2); textwolf::XMLPrinter<K8,K8,textwolf::StaticBuffer> p(true); std::string v(n,'v'); effort::Count k; p.printOpenTag("a",1,b); p.printValue(v.data(),v.size(),b); return k.get(); }
			case 30: { std::ostringstream os; textwolf::OstreamOutput so(&os); textwolf::XMLPrinter<K8,K8,textwolf::OstreamOutput> p(true); std::string v(n,'v'); effort::Count k; p.printOpenTag("a",1,so); p.printValue(v.data(),v.size(),so); return k.get(); }
			default: { std::string v(n,'v'); v+="&#x20;"; v+=v; v+='\''; typedef textwolf::XMLScanner<textwolf::CStringIterator,K8,K8,std::string> SC; effort::Count k; std::string out; SC::parseStaticToken(textwolf::XMLScannerBase::IsSQStringCharMap(),SC::InputReader(K8(),textwolf::CStringIterator(v.data(),(unsigned)v.size())),out); return k.get(); }
		}
	};
	use(8); unsigned long x=use(N), y=use(4*N); c.step(x+y); if (what!=27&&x<N/2) c.fail("effort "+num(x)+" only"); if (y>x*9/2+3000) c.fail("effort "+num(x)+" for "+num(N)+", but "+num(y)+" for "+num(4*N)); c.trace(); c.state(mc::hstr(c.shown())); c.outcome(what);
}
// ---- larger chunks, blocks and buffers do not cost more than small ones
static void chunked(mc::Choice& c)
{
	static const std::vector<unsigned> sz={1,16,256,4096}; unsigned n=1+c.pick(c.thorough()?3:2); U p; std::string t; for (unsigned i=0;i<n;i++) { unsigned k=c.pick(parts().size()); p+=parts()[k]; t+=" "+num(k); } unsigned way=c.pick(4); unsigned cs=c.of(std::vector<unsigned>{U8,U16L,C4B,ISO2}); if (way==3&&cs!=U8) return; c.show("document with"+t+" repeated, "+(way==0?"chunks":way==1?"stream":way==2?"declaration":"text to a buffer")+" "+csName(cs)); U u; while (u.size()<12000) u+=p; u=U"<a>"+u+U"</a>"; if (way==2) { u=U"<?xml"; while (u.size()<12000) u+=U" version='1.0'"; u+=U"?>"; } std::string d=enc(cs,fit(cs,u)), err; unsigned long first=0;
	for (unsigned s:sz)
	{
		unsigned long w=0; auto scan=[&](auto* dummy){ typedef typename std::remove_pointer<decltype(dummy)>::type CS;
			if (way==0) { typedef textwolf::XMLScanner<textwolf::SrcIterator,CS,K8,std::string> SC; struct Run { SC sc; jmp_buf e; Run(int cs):sc(Make<CS>::make(cs),textwolf::SrcIterator(),entities()){} int next(){ if (setjmp(e)!=0) return NEED; return sc.nextItem(); } }; Run r(cs); std::size_t fed=0; effort::Count k; for (;;) { std::size_t m=std::min<std::size_t>(s,d.size()-fed); r.sc.getIterator().putInput(d.data()+fed,m,m?&r.e:0); fed+=m; int t; do t=r.next(); while (t!=NEED&&t!=B::Exit&&t!=B::ErrorOccurred); if (t!=NEED) break; } w=k.get(); }
			else { struct In :public textwolf::IStream { const std::string& s; std::size_t p=0; explicit In(const std::string& s_):s(s_){} std::size_t read(void* o, std::size_t n){ std::size_t k=std::min(n,s.size()-p); memcpy(o,s.data()+p,k); p+=k; return k; } int errorcode() const { return 0; } } in(d); typedef textwolf::XMLScanner<textwolf::IStreamIterator,CS,K8,std::string> SC; effort::Count k; SC sc(Make<CS>::make(cs),textwolf::IStreamIterator(&in,s),entities()); for (;;) { int t=sc.nextItem(); sc.getTokenPosition(); if (t==B::Exit||t==B::ErrorOccurred) break; } w=k.get(); } };
		if (way<2) { if (cs==U8) scan((K8*)0); else if (cs==U16L) scan((K16L*)0); else if (cs==C4B) scan((textwolf::charset::UCS4BE*)0); else scan((KI*)0); }
		else if (way==2) { effort::Count k; textwolf::XmlHdrParser h; for (std::size_t i=0;i<d.size();i+=s) { h.putInput(d.data()+i,std::min<std::size_t>(s,d.size()-i)); if (h.parse()||h.lasterror()) break; } w=k.get(); }
		else { textwolf::StaticBuffer b(d.size()*7+s*64); textwolf::XMLPrinter<K8,K8,textwolf::StaticBuffer> q(true); effort::Count k; q.printOpenTag("a",1,b); q.printValue(d.data(),d.size(),b); w=k.get(); }
		c.step(w); if (s==1) first=w; else if (w>first+first/50+s*4+1000) c.fail("effort "+num(w)+" for a size of "+num(s)+", but "+num(first)+" for 1");
	}
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(way*4+cs);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"scanners",scanners,0,0,3,"documents that repeat all sequences of 1 or 2 (thorough: 3) of 10 parts, in chunks and streams of 3 sizes, from memory with and without values, 3 encodings: the rounds 4w to 5w need no more than the rounds w to 2w"},
	{"selections",selections,0,0,3,"1 to 4 (thorough: 5) of 17 expressions, 1 or 2 (thorough: 3) of 6 groups of events repeated 30 times in 3 surroundings"},
	{"printers",printers,0,0,3,"all sequences of 1 to 4 (thorough: 5) of 7 balanced groups of print calls repeated 40 times"},
	{"proportional",proportional,0,0,3,"32 kinds of sizes in 3 (thorough: 5) orders of magnitude, 9 input encodings and 4 ways of reading: four times the size needs at most 4.5 times the effort"},
	{"chunked",chunked,0,0,3,"documents of 12000 characters of 1 or 2 (thorough: 3) of 10 parts, long declarations, printing to a buffer; chunks, blocks and buffers of 4 sizes, 4 encodings: larger ones cost no more"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"effort: basic blocks of the code compiled that are executed, and bytes moved by functions of the C library","not judged: the effort with the number of different expressions, and of nested elements with more than one descendant step (both have to visit all of them), and of many attributes of one element that match the same name or '*' (all of them stay selected for the element)"}; }
}
