// X04: objects release all memory they requested
#include "memory.hpp"
#include "objects.hpp"
#include "corpus.hpp"
using namespace obj;
MC_PROPERTY("X04")
// runs the scenario; what it leaves behind must be nothing. Tables of the harness and of the standard library that are built once are not counted: the scenario is run again before a leak is reported
template <class F> static void balanced(mc::Choice& c, F f)
{
	for (int n=0;n<3;n++) { mem::Use a=mem::use(); f(); mem::Use b=mem::use(); c.step(); if (a.b==b.b&&a.l==b.l) return; if (n==2) c.fail(std::to_string(b.b-a.b)+" blocks with "+std::to_string(b.l-a.l)+" bytes are still in use behind the end of all objects"); }
}
static const char* hows[]={"no copy","copy","assigned to a new one","assigned to a used one","assigned to itself","assigned to a finished one","original assigned from its copy","copy of a temporary copy"};
static const char* ends[]={"as they are","both finished","original finished","copy finished","original assigned again","one step each"};
static void histories(mc::Choice& c)
{
	unsigned k=c.pick(kinds().size()), v=c.pick(kinds()[k].variants); std::size_t n=alone(k,v).size(), at=c.pick(n+2); unsigned how=c.pick(8), end=c.pick(6), order=c.pick(2), v2=0, j=0; if (how==3||how==5) { v2=c.pick(kinds()[k].variants); if (how==3) j=c.pick(std::min<std::size_t>(alone(k,v2).size(),c.thorough()?1000:4)+1); } if (how==0&&(end!=0&&end!=2||order)) return;
	c.show(std::string(kinds()[k].name)+" variant "+num(v)+" at step "+num(at)+": "+hows[how]+(how==3||how==5?" ("+num(v2)+" at "+num(j)+")":"")+", destroyed "+ends[end]+(order?", original first":""));
	balanced(c,[&]{
		std::unique_ptr<Obj> a(kinds()[k].make(v)), b; auto go=[](Obj& o, std::size_t m){ for (std::size_t i=0;i<m;i++) { std::string s; if (!o.step(s)) return; } }; go(*a,at);
		switch (how) { case 0: break; case 1: b.reset(a->clone()); break; case 2: b.reset(kinds()[k].make(v)); b->assign(*a); break; case 3: case 5: b.reset(kinds()[k].make(v2)); go(*b,how==3?j:100000); b->assign(*a); break; case 4: a->assign(*a); b.reset(a->clone()); b->assign(*b); break; case 6: b.reset(a->clone()); go(*b,2); a->assign(*b); break; default: { std::unique_ptr<Obj> t(a->clone()); b.reset(t->clone()); } }
		switch (end) { case 0: break; case 1: go(*a,100000); go(*b,100000); break; case 2: go(*a,100000); break; case 3: go(*b,100000); break; case 4: go(*b,3); a->assign(*b); break; default: go(*a,1); go(*b,1); }
		if (order) { a.reset(); b.reset(); } else { b.reset(); a.reset(); }
	});
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(k*64+v);
}
// sequences of operations on three places that hold an object or not
static void sequences(mc::Choice& c)
{
	unsigned k=c.pick(kinds().size()), v=c.pick(std::min(kinds()[k].variants,c.thorough()?8u:2u)); int n=c.thorough()?6:5; std::vector<int> ops; for (int i=0;i<n;i++) ops.push_back(c.pick(9)); static const char* on[]={"make","step0","step2","finish1","1=0","2=copy(1)","0=2","drop0","0=copy(2)"}; std::string t=std::string(kinds()[k].name)+" "+num(v)+":"; for (int o:ops) t+=std::string(" ")+on[o]; c.show(t);
	balanced(c,[&]{
		std::unique_ptr<Obj> o[3]; for (auto& x:o) x.reset(kinds()[k].make(v)); std::string s; for (int i=0;i<2;i++) o[0]->step(s);
		for (int x:ops) switch (x) { case 0: o[0].reset(kinds()[k].make(v)); break; case 1: if (o[0]) o[0]->step(s); break; case 2: o[2]->step(s); break; case 3: for (int i=0;i<100000&&o[1]->step(s);i++) {} break; case 4: if (o[0]) o[1]->assign(*o[0]); break; case 5: o[2].reset(o[1]->clone()); break; case 6: if (o[0]) o[0]->assign(*o[2]); break; case 7: o[0].reset(); break; default: o[0].reset(o[2]->clone()); }
	});
	c.trace(); c.state(mc::hstr(t)); c.outcome(k*64+v);
}
// ---- what ends with an exception or an error
struct BadStream :public textwolf::IStream { unsigned n,at; bool failed; BadStream(unsigned a):n(0),at(a),failed(false){} std::size_t read(void* p, std::size_t k){ if (++n>=at) { failed=true; return 0; } std::memset(p,n%2?'<':'a',k); return k; } int errorcode() const { return failed?5:0; } };
static void exceptions(mc::Choice& c)
{
	unsigned what=c.pick(12), x=c.pick(14), y=c.pick(14); if ((what<2||what==4||what==5||what==7||what>=10)&&y>5) return; c.show("exception "+num(what)+" "+num(x)+" "+num(y));
	bool thrown=false; balanced(c,[&]{
		thrown=false; try { switch (what)
		{
			case 0: { BadStream s(x+1); textwolf::IStreamIterator i(&s,8<<y); for (int k=0;k<2000;k++) ++i; break; }
			case 1: { BadStream s(x+1); textwolf::XMLScanner<textwolf::IStreamIterator,K8,K8,std::string> sc(K8(),textwolf::IStreamIterator(&s,8<<y)); for (int k=0;k<200;k++) if (sc.nextItem()<2) break; break; }
			case 2: { BadStream s(x+2), s2(y+1); textwolf::IStreamIterator i(&s,16); for (unsigned k=0;k<x*7;k++) ++i; i=textwolf::IStreamIterator(&s2,32); for (int k=0;k<1000;k++) ++i; break; }
			case 3: { BadStream s(x+2); textwolf::TextScanner<textwolf::IStreamIterator,K8> t(K8(),textwolf::IStreamIterator(&s,16)); textwolf::TextScanner<textwolf::IStreamIterator,K8> t2(t); for (unsigned k=0;k<y*5;k++) { t2.chr(); ++t2; } t2=t; for (int k=0;k<1000;k++) { t.chr(); ++t; } break; }
			case 4: { textwolf::charset::IsoLatin i(x+y*10); textwolf::XMLPrinter<KI,KI,std::string> p(i); std::string o; p.printOpenTag("a",1,o); break; }
			case 5: { textwolf::StaticBuffer b(x+1); b.append("0123456789",y); b.at(x); textwolf::StaticBuffer b2(b); b2.at(y+x); break; }
			case 6: { Atm a; Atm::PathElement p=*a; auto d=[&](int o){ switch (o) { case 0: p["a"]; break; case 1: p--; break; case 2: p("x"); break; case 3: p("x","1"); break; case 4: p(); break; case 5: p.INDEX(1); break; case 6: p.RANGE(2,1); break; case 7: p.FROM(-1); break; case 8: p.TO(0); break; case 9: p.selectCloseTag(); break; case 10: p=0; break; case 11: p=-1; break; case 12: p[""]; break; default: p=5; } }; d(x); d(y); d((x+y)%14); d(13); Sel s(&a); break; }
			case 7: { static const unsigned char o[][6]={{0,0,0,0,0,0},{'<',0,0,0,0,0},{'<','?','x','m','l','<'},{'<','?','x','m','?','>'},{255,254,'<','?',0,0},{'a','b','c','d','e','f'}}; textwolf::XmlHdrParser p; for (unsigned k=0;k<x+1;k++) { p.putInput((const char*)o[y]+k%4,1+k%2); p.parse(); } textwolf::XmlHdrParser q(p); q.putInput("=<<",3); q.parse(); p=q; break; }
			case 8: { textwolf::TagStack s; for (unsigned k=0;k<x*x;k++) s.push("0123456789abcdef",k%17); for (unsigned k=0;k<y*y;k++) s.pop(); textwolf::TagStack t(s); s.clear(); t=s; break; }
			case 9: { textwolf::XMLPrinter<KI,K8,std::string> p(KI(1),x%2); std::string o; for (unsigned k=0;k<4+x;k++) switch ((k*3+y)%7) { case 0: p.printOpenTag("abc",3,o); break; case 1: p.printAttribute("x",1,o); break; case 2: p.printValue("<\xc5\x81",3,o); break; case 3: p.printCloseTag(o); break; case 4: p.printHeader("x","y",o); break; case 5: p.printDoctype("a","b","c",o); break; default: p.exitTagContext(o); } p.reset(y%2); break; }
			case 10: { textwolf::XMLPathSelectAutomatonParser<textwolf::charset::UTF16LE,textwolf::charset::UCS4BE> a; std::string e=enc(U16L,x%2?U"/a[@b='c']/d()[1,2]/":U"//\u00e9/::"); for (unsigned k=0;k<=y;k++) a.addExpression(1,e.data(),e.size()-2*k); break; }
			default: { Atm a; for (unsigned k=0;k<x;k++) addExpr(a,k%nofExprs); Sel s(&a); for (auto& d:pathdocs()) for (auto& e:d) { std::vector<int> v; path::pushAll(s,e,v); Sel t(s); s=t; } Sel* n=new Sel(&a); Atm b(a); *n=s; delete n; b=a; if (y) (*b)["q"]("")("")=0; break; }
		} } catch (const mc::Violation&) { throw; } catch (const std::exception&) { thrown=true; }
	});
	c.trace(); c.state(what*1000+x*20+y); c.outcome(what*2+thrown);
}
// every expression text, accepted or not, to an automaton that has expressions or not
static void expressions(mc::Choice& c)
{
	static const std::vector<std::string> sym={"/","a","@","[","]","=","'","(","1","~","*",":","//","@x='1'","()",","}; int n=1+c.pick(c.thorough()?5:4); std::string e; for (int i=0;i<n;i++) e+=c.of(sym); unsigned pre=c.pick(2); c.show("expression "+e+(pre?" after others":"")); int r=0;
	balanced(c,[&]{ Parser::AP a; if (pre) { a.addExpression(7,"/a/b",4); a.addExpression(8,"//@x",4); } r=a.addExpression(1,e.data(),e.size()); if (pre) { Parser::AP b(a); a.addExpression(2,e.data(),e.size()); b=a; } });
	c.trace(); c.state(mc::hstr(e,pre)); c.outcome(r!=0);
}
// documents given up in the middle: at every token, at every byte, at the end of every chunk
template <class IN, class OUT, class BUF> static void upto(int cs, const std::string& b, std::size_t tokens, bool copy)
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,BUF> SC; Mem m(b); SC sc(Make<IN>::make(cs),textwolf::CStringIterator(m.p,(unsigned)m.n)); for (std::size_t i=0;i<tokens;i++) { int t=sc.nextItem(); if (t==B::Exit||t==B::ErrorOccurred) break; } if (copy) { SC d(sc); typename SC::iterator i=d.begin(), e=d.end(); for (int n=0;n<3&&i!=e;n++) ++i; sc=d; }
}
template <class IN> static void chunked(int cs, const std::string& b, std::size_t chunk, std::size_t times)
{
	typedef textwolf::XMLScanner<textwolf::SrcIterator,IN,K8,std::string> SC; struct Run { SC sc; jmp_buf e; Run(int cs):sc(Make<IN>::make(cs),textwolf::SrcIterator()){} int next(){ if (setjmp(e)!=0) return NEED; return sc.nextItem(); } }; Run r(cs); std::vector<std::unique_ptr<Mem> > mm; std::size_t pos=0; auto feed=[&]{ std::size_t n=std::min(chunk,b.size()-pos); mm.emplace_back(new Mem(b.substr(pos,n))); r.sc.getIterator().putInput(mm.back()->p,n,&r.e); pos+=n; };
	for (std::size_t i=0;i<times;i++) { feed(); int t; do t=r.next(); while (t!=NEED&&t!=B::Exit&&t!=B::ErrorOccurred); if (t!=NEED||pos>=b.size()) break; }
}
static void documents(mc::Choice& c)
{
	std::size_t nd=corpus::docs().size(), i=c.pick(nd+corpus::micro().size()); const U& d=i<nd?corpus::docs()[i].text:corpus::micro()[i-nd]; unsigned way=c.pick(3); std::size_t at, k=0; int cs=U8;
	if (way==0) { at=c.pick(d.size()+1); k=c.pick(2)*1000; } else if (way==1) { at=c.pick(24); k=c.pick(2); } else { static const int q[]={U8,U16B,C4L}; cs=q[c.pick(3)]; k=1+c.pick(5)*3; at=1+c.pick(c.thorough()?60:25); }
	c.show((way==0?"document cut at "+num(at):way==1?"document left at token "+num(at):"document in chunks of "+num(k)+" left at chunk "+num(at))+" "+csName(cs)+": "+tw::show(d));
	std::string b=enc(cs,fit(cs,way==0?d.substr(0,at):d)); balanced(c,[&]{ if (way==0) { upto<K8,K16L,std::vector<char> >(U8,b,100000,k!=0); } else if (way==1) upto<K8,KI,std::string>(U8,b,at,k!=0); else { TW_DISPATCH(cs,chunked<CS>(cs,b,k,at)); } });
	c.trace(); c.state(mc::hcomb(i,way*1000000+at*1000+k*4+cs)); c.outcome(way*8+cs);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"histories",histories,0,0,3,"28 kinds of objects in all their variants, used up to every step and once more, 8 ways of copying and assigning (to targets used up to step 4, thorough: all steps), 6 continuations, both orders of destruction"},
	{"sequences",sequences,0,0,4,"every kind of object, 2 (thorough: 8) variants: all sequences of 5 (thorough: 6) of 9 operations on three objects (make, use, finish, copy, assign, drop)"},
	{"exceptions",exceptions,0,0,2,"12 groups of calls that end with an exception or an error, at all of 14 x 14 places: failing streams, code pages, buffer indices, path definitions, header bytes, tag stacks, printer calls"},
	{"expressions",expressions,0,0,3,"all expression texts of 1 to 4 (thorough: 5) of 16 symbols, accepted and rejected, alone and in an automaton with others that is copied"},
	{"documents",documents,0,0,2,"corpus documents cut at every character, left at every token, left behind every chunk of 5 sizes in 3 encodings (thorough: 60 chunks)"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"memory requested by the standard library for the library (std::string, std::vector) counts as memory of the library; what is built once per process does not count"}; }
}
