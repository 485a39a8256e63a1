// X03: memory use does not grow with the amount of what is processed
#include "memory.hpp"
#include "objects.hpp"
#include "corpus.hpp"
using namespace obj;
MC_PROPERTY("X03")
// Processing in rounds: in the rounds of the second period not more memory may be in use at any time, and at the end of it not more, than in the first
struct Meter
{
	mc::Choice& c; unsigned warm, n=0; long end=0, top=0, base; Meter(mc::Choice& c_, unsigned w):c(c_),warm(w){ mem::peak()=mem::live(); base=mem::live(); }
	void round(){ n++; if (n==warm) { end=mem::live(); top=mem::peak(); mem::peak()=mem::live(); } if (n>warm) { if (mem::peak()>top) c.fail(num(mem::peak()-base)+" bytes in use in round "+num(n)+", at most "+num(top-base)+" in the first "+num(warm)+" rounds"); if (mem::live()>end) c.fail(num(mem::live()-base)+" bytes in use behind round "+num(n)+", "+num(end-base)+" behind round "+num(warm)); } }
};
// ---- scanners
static const std::vector<U>& parts(){ static const std::vector<U> v={U"<b>t</b>",U"<b x='1'/>",U"t&lt;u\r\n ",U"<![CDATA[c]]>",U"<!-- c -->",U"<?p i?>",U"<b y=\"&amp;\" ><c/>v</b>",U"&#x20ac;",U"\n \n",U"<b>&euro;</b >"}; return v; }
// one document of 'rounds' repetitions, given bytewise
template <class IN> struct Feeder { const std::string *head,*part; unsigned rounds; std::size_t pos=0; unsigned round=0; bool headdone=false; bool get(char& x){ if (!headdone) { if (pos<head->size()) { x=(*head)[pos++]; return true; } headdone=true; pos=0; } while (round<rounds) { if (pos<part->size()) { x=(*part)[pos++]; return true; } pos=0; round++; } return false; } };
template <class IN, class OUT, class BUF> static void scanRounds(mc::Choice& c, int cs, const std::string& head, const std::string& part, unsigned rounds, unsigned warm, int way, unsigned size)
{
	Feeder<IN> f{&head,&part,rounds};
	if (way==0)   // chunks
	{
		typedef textwolf::XMLScanner<textwolf::SrcIterator,IN,OUT,BUF> SC; struct Run { SC sc; jmp_buf e; Run(int cs):sc(Make<IN>::make(cs),textwolf::SrcIterator(),entities()){} int next(){ if (setjmp(e)!=0) return NEED; return sc.nextItem(); } }; std::vector<char> buf(size); Meter m(c,warm); Run r(cs); unsigned last=0;
		for (;;) { std::size_t n=0; while (n<size&&f.get(buf[n])) n++; r.sc.getIterator().putInput(buf.data(),n,&r.e); int t; do { t=r.next(); c.step(); if (t==B::ErrorOccurred) c.fail("scanner error "+num(r.sc.getError())); } while (t!=NEED&&t!=B::Exit); while (last<f.round) { last++; m.round(); } if (!n) break; }
	}
	else
	{
		struct In :public textwolf::IStream { Feeder<IN>& f; explicit In(Feeder<IN>& f_):f(f_){} std::size_t read(void* p, std::size_t n){ std::size_t k=0; while (k<n&&f.get(((char*)p)[k])) k++; return k; } int errorcode() const { return 0; } } in(f);
		typedef textwolf::XMLScanner<textwolf::IStreamIterator,IN,OUT,BUF> SC; Meter m(c,warm); SC sc(Make<IN>::make(cs),textwolf::IStreamIterator(&in,size),entities()); unsigned last=0; if (way==1) { for (;;) { int t=sc.nextItem(); c.step(); if (t==B::Exit||t==B::ErrorOccurred) break; while (last<f.round) { last++; m.round(); } } } else { typename SC::iterator i=sc.begin(), e=sc.end(); for (;i!=e;++i) { c.step(); while (last<f.round) { last++; m.round(); } } }
	}
}
static void scanners(mc::Choice& c)
{
	unsigned n=1+c.pick(c.thorough()?4:3); U p; std::string t; for (unsigned i=0;i<n;i++) { unsigned k=c.pick(parts().size()); p+=parts()[k]; t+=" "+num(k); } p+=U"<q/>"; int way=c.pick(3); static const std::vector<unsigned> sizes={1,5,64,1024}; unsigned size=c.of(sizes); unsigned enc_=c.pick(3); bool root=c.pick(2);
	int cs=enc_==0?U8:enc_==1?U16B:ISO9; std::string head=enc(cs,root?U"<?xml version='1.0'?><!DOCTYPE a><a>":U"<a>"), part=enc(cs,fit(cs,p)); unsigned per=(part.size()+size-1)/size; unsigned warm=std::max<unsigned>(6,2*size/part.size()+4), rounds=warm*3+8; c.show("document with"+t+" repeated "+num(rounds)+" times, "+(way==0?"chunks":way==1?"stream":"stream, iterator")+" of "+num(size)+" "+csName(cs)); (void)per;
	if (enc_==0) scanRounds<K8,K8,std::string>(c,cs,head,part,rounds,warm,way,size); else if (enc_==1) scanRounds<K16B,K4L,std::vector<char> >(c,cs,head,part,rounds,warm,way,size); else scanRounds<KI,KI,std::string>(c,cs,head,part,rounds,warm,way,size);
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(mc::hcomb(way*4+enc_,size));
}
// ---- path selection
static void selections(mc::Choice& c)
{
	static const char* ex[]={"/a/b()","//a","//b~","//a[1]()","//@x","//b[@x='1']/c","//b/","//()","/a/b[0,2]()","//b[@x='1']()","//a//b","/a()","/a@x","//b//c@x","/a/*/c~","//c[@x='2']//b()","/a/b[@x='2']@y"}; const int ne=17; typedef std::vector<Ev> V;
	static const std::vector<V> frag={{{B::OpenTag,"b"},{B::Content,"t"},{B::CloseTag,"b"}},{{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::CloseTagIm,""}},{{B::Content,"u"}},{{B::OpenTag,"c"},{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"2"},{B::TagAttribName,"y"},{B::TagAttribValue,"1"},{B::OpenTag,"c"},{B::CloseTagIm,""},{B::CloseTag,"b"},{B::Content,"t"},{B::CloseTag,"c"}},{{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::OpenTag,"a"},{B::Content,"t"},{B::CloseTag,"a"},{B::CloseTag,"b"}},{{B::OpenTag,"d"},{B::CloseTag,"d"}}};
	int m=1+c.pick(c.thorough()?6:5); std::vector<unsigned> es; for (int i=0;i<m;i++) es.push_back(i?es.back()+c.pick(ne-es.back()):c.pick(ne)); int n=1+c.pick(c.thorough()?3:2); std::string t; V part; for (int i=0;i<n;i++) { unsigned k=c.pick(frag.size()); part.insert(part.end(),frag[k].begin(),frag[k].end()); t+=" "+num(k); } unsigned where=c.pick(3); for (unsigned e:es) t+=std::string(" ")+ex[e]; c.show(std::string(where==0?"in the root":where==1?"as roots":"in a root with header and attribute")+", events and expressions"+t);
	Parser::AP a; for (std::size_t i=0;i<es.size();i++) if (a.addExpression(i+1,ex[es[i]],std::strlen(ex[es[i]]))) c.fail(std::string("expression rejected: ")+ex[es[i]]);
	std::size_t total=0; { Meter mt(c,4); Sel s(&a); auto ev=[&](const Ev& v){ Sel::iterator i=s.push(v.t,v.key.data(),(int)v.key.size()), e=s.end(); for (;i!=e;++i) if (++total>10000000) c.fail("matches without end"); c.step(); };
		if (where==2) { for (auto& v:path::header()) ev(v); } if (where!=1) ev(Ev{B::OpenTag,"a"}); if (where==2) { ev(Ev{B::TagAttribName,"x"}); ev(Ev{B::TagAttribValue,"1"}); } for (int r=0;r<40;r++) { for (auto& v:part) ev(v); mt.round(); } }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(total);
}
// ---- printers and tag stacks
static void printers(mc::Choice& c)
{
	// operations that leave the printer as it was
	static const std::vector<std::vector<std::string> > ops={{"Ob","C"},{"Ob","Ax","V1","C"},{"Vtext<"},{"Ob","Vt","C"},{"Ob","Oc","C","Vx","C"},{"O0123456789012345678901234567890123456789","Ob","C","C"},{"Ob","Oc","Od","Ve","C","C","C"}};
	int n=1+c.pick(c.thorough()?6:5); std::vector<std::string> o; std::string t; for (int i=0;i<n;i++) { unsigned k=c.pick(ops.size()); o.insert(o.end(),ops[k].begin(),ops[k].end()); t+=" "+num(k); } bool fix=c.flip(); c.show("printing"+t+(fix?" to one buffer emptied":" to new buffers"));
	{ Meter m(c,4); textwolf::XMLPrinter<K16L,K8,std::string> p(true); std::string out; auto op=[&](const std::string& x, std::string& b){ bool r=x[0]=='O'?p.printOpenTag(x.data()+1,x.size()-1,b):x[0]=='A'?p.printAttribute(x.data()+1,x.size()-1,b):x[0]=='V'?p.printValue(x.data()+1,x.size()-1,b):p.printCloseTag(b); if (!r) c.fail("not printed: "+x); c.step(); };
		op("Oa",out); op("Vx",out); for (int r=0;r<40;r++) { out.clear(); if (fix) { for (auto& x:o) op(x,out); } else for (auto& x:o) { std::string b; op(x,b); } m.round(); } }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(n);
}
static void stacks(mc::Choice& c)
{
	static const std::vector<int> lens={0,1,7,8,9,100,300}; int n=1+c.pick(c.thorough()?6:5); std::vector<int> l; std::string t; for (int i=0;i<n;i++) { l.push_back(c.of(lens)); t+=" "+num(l.back()); } unsigned how=c.pick(4); c.show("tag stack"+t+" how "+num(how)); std::string x(400,'x');
	{ Meter m(c,3); textwolf::TagStack s; for (int r=0;r<60;r++) { for (int k:l) { s.push(x.data(),k); c.step(); if (how==1) { s.pop(); s.push(x.data(),k); } } if (how==2) { textwolf::TagStack d(s); s=d; } if (how==3) s.clear(); else for (std::size_t i=0;i<l.size();i++) s.pop(); m.round(); } }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(how);
}
// ---- every kind of object: used, assigned and reset again and again
static void reuse(mc::Choice& c)
{
	unsigned k=c.pick(kinds().size()), v=c.pick(kinds()[k].variants), v2=c.pick(kinds()[k].variants); std::size_t at=c.pick(alone(k,v).size()+1); unsigned how=c.pick(2); c.show(std::string(kinds()[k].name)+" assigned again and again from variant "+num(v)+" at step "+num(at)+(how?" and from variant "+num(v2):", used")); alone(k,v2);
	{ std::unique_ptr<Obj> a(kinds()[k].make(v)), b(kinds()[k].make(v2)); std::unique_ptr<Obj> z(b->clone()); for (std::size_t i=0;i<at;i++) { std::string s; a->step(s); } Meter m(c,4); for (int r=0;r<16;r++) { b->assign(*a); for (int i=0;i<2;i++) { std::string s; b->step(s); } if (how) b->assign(*z); m.round(); c.step(); } }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(k);
}
// ---- proportional to the size of the longest item, the depth and the number of definitions
static void proportional(mc::Choice& c)
{
	static const std::vector<std::size_t> q={8,64,100,512,1000,4096,10000}, t={8,64,100,512,1000,4096,10000,32768,100000,300000}; unsigned what=c.pick(12); std::size_t N=c.of(c.thorough()?t:q); static const char* name[]={"tag name","attribute value","content","content of references","depth (scanner)","depth (printer)","depth (path selection)","depth (tag stack)","attributes","expressions","declaration","matches"}; if ((what==9||what==11)&&N>10000) N/=10; if (what==11&&N>1000) return; c.show(std::string(name[what])+" "+num(N)+" and "+num(4*N));
	auto use=[&](std::size_t n)->long{
		std::string d; std::string r; auto rep=[&](const std::string& x){ std::string s; for (std::size_t i=0;i<n;i++) s+=x; return s; }; switch (what) { case 0: d="<"+rep("n")+">"; break; case 1: d="<a x='"+rep("v")+"'>"; break; case 2: d="<a>"+rep("t")+"<b/>"; break; case 3: d="<a>"+rep("&#x20ac;")+"<b/>"; break; case 4: d=rep("<a>")+rep("</a>"); break; case 8: d="<a"+rep(" x='y'")+">"; break; case 10: d="<?xml version='1.0' "+rep(" ")+"encoding='UTF-8'?>"; break; default: break; }
		mem::peak()=mem::live(); long b=mem::live();
		switch (what)
		{
			case 5: { textwolf::XMLPrinter<K8,K8,std::string> p(true); for (std::size_t i=0;i<n;i++) { std::string o; p.printOpenTag("abc",3,o); } break; }
			case 6: { Parser::AP a; a.addExpression(1,"//b/c",5); a.addExpression(2,"//a/b",5); Sel s(&a); for (std::size_t i=0;i<n;i++) { Sel::iterator x=s.push(B::OpenTag,"b",1), e=s.end(); for (;x!=e;++x) {} } break; }
			case 7: { textwolf::TagStack s; for (std::size_t i=0;i<n;i++) s.push("abcdefgh",8); break; }
			case 9: { Parser::AP a; for (std::size_t i=0;i<n;i++) { std::string e="/r/n"+num(i); a.addExpression(i+1,e.data(),e.size()); if (i>2000) break; } break; }
			case 10: { textwolf::XmlHdrParser p; for (std::size_t i=0;i<d.size();i+=100) { p.putInput(d.data()+i,std::min<std::size_t>(100,d.size()-i)); if (p.parse()) break; } break; }
			case 11: { Parser::AP a; for (std::size_t i=0;i<n;i++) a.addExpression(i+1,"//b",3); Sel s(&a); for (int k=0;k<3;k++) { Sel::iterator x=s.push(B::OpenTag,"b",1), e=s.end(); for (;x!=e;++x) {} } break; }
			default: { textwolf::XMLScanner<textwolf::CStringIterator,K8,K8,std::string> sc(K8(),textwolf::CStringIterator(d.data(),(unsigned)d.size())); for (;;) { int x=sc.nextItem(); c.step(); if (x==B::Exit||x==B::ErrorOccurred) break; } }
		}
		return mem::peak()-b;
	};
	long x=use(N), y=use(4*N); if (y>8*x+8192) c.fail("at most "+num(x)+" bytes in use with "+num(N)+", but "+num(y)+" with "+num(4*N));
	if (what==4||what==8) { if (y>x+64) c.fail("at most "+num(x)+" bytes in use with "+num(N)+", but "+num(y)+" with "+num(4*N)); }
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(what);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"scanners",scanners,0,0,3,"documents that repeat all sequences of 1 to 3 (thorough: 4) of 10 parts, in chunks and streams of 4 sizes, 3 encodings and output buffers, with and without declarations: three times as many rounds as needed to warm up"},
	{"selections",selections,0,0,3,"1 to 4 (thorough: 5) of 17 expressions, 1 or 2 (thorough: 3) of 6 groups of events repeated 40 times in 3 surroundings"},
	{"printers",printers,0,0,3,"all sequences of 1 to 5 (thorough: 6) of 7 balanced groups of print calls repeated 40 times"},
	{"stacks",stacks,0,0,2,"1 to 5 (thorough: 6) tags of 7 lengths pushed and popped 60 times, 4 ways"},
	{"reuse",reuse,0,0,3,"28 kinds of objects in all variants at every step, assigned 16 times to an object of every variant"},
	{"proportional",proportional,0,0,2,"long items, deep documents, many expressions and matches: four times the size needs at most eight times the memory; 7 (thorough: 10) sizes"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"containers of the standard library grow geometrically; memory is what is requested from the allocator"}; }
}
