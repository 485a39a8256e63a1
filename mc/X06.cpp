// X06: objects in different threads need no synchronization
#include "race.hpp"
#include "objects.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace obj;
MC_PROPERTY("X06")
#define NS __attribute__((no_sanitize("thread")))
// Two threads, only one of them runs at a time: the harness decides which one does its next operation
struct Thread
{
	int id; sem_t go, back; pthread_t t; bool stop=false, more=true; std::function<bool()> op; std::string error;
	static void* main(void* p){ ((Thread*)p)->loop(); return 0; }
	NS void loop(){ for (;;) { sem_wait(&go); if (stop) return; run(); sem_post(&back); } }
	NS void run(){ race::cur=id; race::on=true; try { more=op(); race::on=false; } catch (const mc::Violation& e) { race::on=false; error=e.msg; more=false; } catch (const std::exception& e) { race::on=false; error=e.what(); more=false; } race::cur=0; }
	Thread(int i, std::function<bool()> f):id(i),op(f){ sem_init(&go,0,0); sem_init(&back,0,0); pthread_create(&t,0,main,this); }
	bool step(){ sem_post(&go); sem_wait(&back); return more; }
	~Thread(){ stop=true; sem_post(&go); pthread_join(t,0); }
};
// in a process of its own: the static objects of the library are as at the start of a program
template <class F> static void isolated(mc::Choice& c, F f)
{
	int p[2]; if (pipe(p)) c.fail("pipe"); fflush(0); pid_t k=fork(); if (k==0)
	{
		prctl(PR_SET_PDEATHSIG,SIGKILL); close(p[0]); std::string r; try { race::init(); f(); } catch (const mc::Violation& e) { r=e.msg; } catch (const std::exception& e) { r=std::string("exception ")+e.what(); } if (race::message[0]&&r.empty()) r=race::message; r+='\0'; r+=std::to_string(race::accesses); for (std::size_t i=0;i<r.size();) { ssize_t n=write(p[1],r.data()+i,r.size()-i); if (n<=0) break; i+=n; } _exit(0);
	}
	close(p[1]); std::string r; char b[512]; for (;;) { ssize_t n=read(p[0],b,sizeof(b)); if (n<=0) break; r.append(b,n); } close(p[0]); int st=0; waitpid(k,&st,0); if (!WIFEXITED(st)||r.empty()) c.fail("crash in a thread"); std::size_t i=r.find('\0'); if (i) c.fail(r.substr(0,i)); c.step(strtoul(r.c_str()+i+1,0,10));
}
static const char* schedNames[]={"first, then second","second, then first","alternating"};
// runs both to the end in the order of the schedule. The switches are chosen before by the explorer: one of 3 schedules or a list of step numbers
static void drive(Thread& a, Thread& b, int sched, const std::vector<std::size_t>& sw)
{
	Thread* t[2]={&a,&b}; bool m[2]={true,true}; int x=sched==1; std::size_t n=0, s=0; while (m[0]||m[1]) { if (!m[x]) x=1-x; m[x]=t[x]->step(); if (++n>5000) throw mc::Violation("does not end"); if (sched==2) x=1-x; else if (s<sw.size()&&n==sw[s]) { x=1-x; s++; } }
	for (int i=0;i<2;i++) if (!t[i]->error.empty()) throw mc::Violation("thread "+num(i+1)+" raised "+t[i]->error);
}
struct Side { std::unique_ptr<Obj> o; Log l; int phase=0; };
// constructs an object, uses it to the end and destroys it
static std::function<bool()> life(Side& s, std::function<Obj*()> make, std::size_t from=0)
{
	return [&s,make]{ if (s.phase==0) { s.o.reset(make()); s.phase=1; return true; } if (s.phase==1) { std::string x; if (s.o->step(x)) { s.l.push_back(x); s.o->now(); return true; } s.phase=2; return true; } s.o.reset(); return false; };
}
static void warm(){ static bool done=false; if (done) return; done=true; for (int cs=0;cs<NofCs;cs++) for (unsigned i=0;i<nofDocs;i++) docmem(cs,i); entities(0); entities(1); kinds(); }
static void compare(const Side& s, unsigned k, unsigned v, std::size_t from, const char* who){ const Log& l=alone(k,v); Log w(l.begin()+std::min(from,l.size()),l.end()); if (s.l!=w) throw mc::Violation(std::string(who)+" delivers '"+mc::esc(s.l.empty()?"":s.l.back())+"' as step "+num(s.l.size())+" of "+num(w.size())); }
static std::vector<std::size_t> switches(mc::Choice& c){ std::vector<std::size_t> sw; std::size_t at=0; for (int i=0;i<2;i++) { std::size_t d=c.dev(8); if (!d) break; at+=d; sw.push_back(at); } return sw; }
static bool isSel(unsigned k){ return std::string(kinds()[k].name)=="path selection"; }
static void pairs(mc::Choice& c)
{
	warm(); unsigned k1=c.pick(kinds().size()), v1=c.pick(kinds()[k1].variants), k2=c.pick(kinds().size()), v2=c.pick(kinds()[k2].variants); if (k2<k1||(k1==k2&&v2<v1)) return; int s=c.pick(3); std::vector<std::size_t> sw; if (s<2) sw=switches(c); c.show(std::string(kinds()[k1].name)+" "+num(v1)+" and "+kinds()[k2].name+" "+num(v2)+", "+schedNames[s]+(sw.empty()?"":", switches "+num(sw.size())));
	isolated(c,[&]{ if (isSel(k1)) sharedAtm(v1%2); if (isSel(k2)) sharedAtm(v2%2); Side a,b; { Thread t(1,life(a,[&]{ return kinds()[k1].make(v1); })), u(2,life(b,[&]{ return kinds()[k2].make(v2); })); drive(t,u,s,sw); } if (!race::message[0]) { compare(a,k1,v1,0,"first"); compare(b,k2,v2,0,"second"); } });
	c.trace(); c.state(mc::hstr(c.shown(),sw.size()?sw[0]*8+sw.back():0)); c.outcome(k1*64+k2);
}
// both threads copy the same object
static void copies(mc::Choice& c)
{
	warm(); unsigned k=c.pick(kinds().size()), v=c.pick(kinds()[k].variants); std::string n=kinds()[k].name; if (n.find("chunks")!=n.npos||n.find("stream")!=n.npos||n=="IStreamIterator") return; std::size_t at=c.pick(c.thorough()?14:8); int how=c.pick(2), s=c.pick(3); std::vector<std::size_t> sw; if (s<2) sw=switches(c); c.show(std::string(how?"assignment of ":"copy of ")+n+" "+num(v)+" behind step "+num(at)+", "+schedNames[s]);
	isolated(c,[&]{ std::unique_ptr<Obj> o(kinds()[k].make(v)); std::size_t from=0; for (;from<at;from++) { std::string x; if (!o->step(x)) break; } Side a,b; auto mk=[&]{ if (!how) return o->clone(); Obj* x=kinds()[k].make(v); x->assign(*o); return x; }; { Thread t(1,life(a,mk)), u(2,life(b,mk)); drive(t,u,s,sw); } if (!race::message[0]) { compare(a,k,v,from,"first"); compare(b,k,v,from,"second"); } });
	c.trace(); c.state(mc::hstr(c.shown(),sw.size()?sw[0]*8+sw.back():0)); c.outcome(k);
}
// one automaton, two selections
static const char* exprs[]={"/a/b()","//a","//b~","//a[1]()","//@x","//b[@x='1']/c","//b/","//()","/a/b[0,2]()","//b[@x='1']()","//a//b","/a@x","//b//c@x","/a/*/c~"};
static const std::vector<std::vector<Ev> >& streams(){ static const std::vector<std::vector<Ev> > v={{{B::OpenTag,"a"},{B::Content,"t"},{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::Content,"u"},{B::OpenTag,"c"},{B::TagAttribName,"x"},{B::TagAttribValue,"2"},{B::CloseTagIm,""},{B::CloseTag,"b"},{B::OpenTag,"b"},{B::Content,"w"},{B::CloseTag,"b"},{B::CloseTag,"a"}},{{B::OpenTag,"b"},{B::OpenTag,"a"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::OpenTag,"b"},{B::Content,"x"},{B::CloseTag,"b"},{B::CloseTag,"a"},{B::CloseTag,"b"}}}; return v; }
static void automatons(mc::Choice& c)
{
	unsigned n=1+c.pick(2); std::vector<unsigned> e; for (unsigned i=0;i<n;i++) e.push_back(c.pick(14)); unsigned d1=c.pick(2), d2=c.pick(2); int s=c.pick(3); std::vector<std::size_t> sw; if (s<2) sw=switches(c); std::string t; for (unsigned i:e) t+=std::string(" ")+exprs[i]; c.show("selections with"+t+" of documents "+num(d1)+" and "+num(d2)+", "+schedNames[s]); streams();
	isolated(c,[&]{
		Parser::AP a; for (std::size_t i=0;i<e.size();i++) if (a.addExpression(i+1,exprs[e[i]],std::strlen(exprs[e[i]]))) throw mc::Violation("expression rejected"); struct Run { std::unique_ptr<Sel> s; std::vector<int> r; std::size_t at=0; }; Run r[2]; auto op=[&](int i, unsigned d)->std::function<bool()>{ return [&a,&r,i,d]{ Run& x=r[i]; if (!x.s) { x.s.reset(new Sel(&a)); return true; } if (x.at==streams()[d].size()) { x.s.reset(); return false; } const Ev& v=streams()[d][x.at++]; Sel::iterator k=x.s->push(v.t,v.key.data(),(int)v.key.size()), z=x.s->end(); for (;k!=z;++k) x.r.push_back(x.at*100+*k); return true; }; };
		{ Thread t(1,op(0,d1)), u(2,op(1,d2)); drive(t,u,s,sw); } for (int i=0;i<2&&!race::message[0];i++) { Run x; Sel z(&a); std::vector<int> w; const std::vector<Ev>& ev=streams()[i?d2:d1]; for (std::size_t j=0;j<ev.size();j++) { Sel::iterator k=z.push(ev[j].t,ev[j].key.data(),(int)ev[j].key.size()), y=z.end(); for (;k!=y;++k) w.push_back((j+1)*100+*k); } if (w!=r[i].r) throw mc::Violation("selection "+num(i+1)+" has other matches"); }
	});
	c.trace(); c.state(mc::hstr(c.shown(),sw.size()?sw[0]*8+sw.back():0)); c.outcome(mc::hstr(t));
}
// calls without an object, construction of character sets, exceptions
typedef std::string (*Call)();
template <class CS> static std::string charset(int cs){ CS x=Make<CS>::make(cs); std::string b,r; for (uint32_t k:{0x41u,0x80u,0xe9u,0x141u,0x20acu,0xffffu,0x1d11eu}) { x.print(k,b); } textwolf::TextScanner<textwolf::CStringIterator,CS> t(x,textwolf::CStringIterator(b.data(),(unsigned)b.size())); for (int i=0;i<12&&t.chr();i++,++t) r+=num(t.chr())+","+num((int)t.control())+" "; return b+r; }
static const std::vector<Call>& calls()
{
	static const std::vector<Call> v={
		[]{ std::string r; for (int i=0;i<(int)B::NofElementTypes;i++) r+=B::getElementTypeName((B::ElementType)i); return r; },
		[]{ std::string r; for (int i=1;i<16;i++) r+=B::getErrorString((B::Error)i); return r; },
		[]{ std::string r; for (int i=0;i<=16;i++) { try { throw textwolf::exception((textwolf::throws_exception::Cause)i); } catch (const std::exception& e) { r+=e.what(); } } return r; },
		[]{ try { textwolf::charset::IsoLatin x(99); return std::string("none"); } catch (const textwolf::exception& e) { return std::string(e.what()); } },
		[]{ return charset<K8>(U8); }, []{ return charset<K16L>(U16L); }, []{ return charset<K16B>(U16B); }, []{ return charset<K2B>(C2B); }, []{ return charset<K4L>(C4L); }, []{ return charset<K4B>(C4B); },
		[]{ return charset<KI>(ISO1); }, []{ return charset<KI>(ISO2); }, []{ return charset<KI>(ISO3); }, []{ return charset<KI>(ISO1+3); }, []{ return charset<KI>(ISO1+4); }, []{ return charset<KI>(ISO1+5); }, []{ return charset<KI>(ISO1+6); }, []{ return charset<KI>(ISO1+7); }, []{ return charset<KI>(ISO9); },
		[]{ Parser::AP a; std::string r; for (const char* e:{"/a[","//","/a@b='x","/a/b[1,0]","/a[@x=\"&#x20ac;\"]()","/\xc3\xa9()"}) r+=num(a.addExpression(1,e,std::strlen(e)))+" "; return r; }};
	return v;
}
static void statics(mc::Choice& c)
{
	unsigned a=c.pick(calls().size()), b=c.pick(calls().size()); int s=c.pick(3); c.show("calls "+num(a)+" and "+num(b)+", "+schedNames[s]);
	isolated(c,[&]{ std::string r[2]; int n[2]={0,0}; auto op=[&](int i, unsigned k)->std::function<bool()>{ return [&r,&n,i,k]{ r[i]+=calls()[k]()+";"; return ++n[i]<2; }; }; { Thread t(1,op(0,a)), u(2,op(1,b)); drive(t,u,s,{}); } if (!race::message[0]) { std::string x=calls()[a]()+";", y=calls()[b]()+";"; if (r[0]!=x+x||r[1]!=y+y) throw mc::Violation("other results"); } });
	c.trace(); c.state(a*1000+b*10+s); c.outcome(a);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"pairs",pairs,0,1,4,"every pair of 28 kinds of objects with all histories, each constructed, used to the end and destroyed in its thread, one behind the other in both orders and alternating (thorough: one switch, too)"},
	{"copies",copies,0,1,3,"objects of 23 kinds behind every step (7, thorough: 13), copied or assigned from in both threads at the same time and used to the end"},
	{"automatons",automatons,0,1,3,"one automaton with 1 or 2 of 14 expressions used by selections in both threads, 2 documents each"},
	{"calls",statics,0,0,2,"all pairs of 20 static functions, character sets, exceptions and rejected expressions, twice in each thread"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"every execution is a process of its own with the static objects not constructed yet","accesses are recorded by the instrumentation of the compiler for -fsanitize=thread in all code compiled, the functions of the C library used on memory and the allocator; the compiled parts of the streams of the standard library are not recorded","without a conflict between accesses not ordered by synchronization all interleavings of two threads have the same result (partial order reduction), so one schedule for every order of constructing static objects stands for all"}; }
}
