// X02: objects used alternately deliver what they deliver when used alone
#include "objects.hpp"
using namespace obj;
MC_PROPERTY("X02")
static bool one(mc::Choice& c, Obj& o, const Log& l, std::size_t& at, const std::string& who){ std::string s; bool r=o.step(s); c.step(); if (at>=l.size()) { if (r) c.fail(who+" does not end"); return false; } if (!r||s!=l[at]) c.fail(who+", step "+std::to_string(at)+": '"+mc::esc(s)+"' instead of '"+mc::esc(l[at])+"'"); at++; return true; }
static uint64_t key(unsigned a, unsigned b, const std::string& sched){ return mc::hcomb(a*4096+b,mc::hstr(sched)); }
// every interleaving of two objects whose histories are cut into at most n blocks of steps
static void interleavings(mc::Choice& c)
{
	const std::vector<Kind>& ks=kinds(); unsigned k1=c.pick(ks.size()), k2=c.pick(ks.size()); if (k2<k1) return; unsigned v1=c.pick(std::min(ks[k1].variants,c.thorough()?4u:2u)), v2=c.pick(std::min(ks[k2].variants,c.thorough()?4u:2u)); const Log &l1=alone(k1,v1), &l2=alone(k2,v2); unsigned n=c.thorough()?7:5; std::size_t b1=(l1.size()+n-1)/n, b2=(l2.size()+n-1)/n; if (!b1) b1=1; if (!b2) b2=1;
	std::unique_ptr<Obj> o1(ks[k1].make(v1)), o2(ks[k2].make(v2)); std::size_t p1=0, p2=0; std::string sched; std::string head=std::string(ks[k1].name)+" "+std::to_string(v1)+" and "+ks[k2].name+" "+std::to_string(v2)+": "; c.show(head); while (p1<l1.size()||p2<l2.size()) { bool first=p2>=l2.size()?true:p1>=l1.size()?false:c.flip()==0; sched+=first?'1':'2'; c.show(head+sched); if (first) for (std::size_t i=0;i<b1&&p1<l1.size();i++) one(c,*o1,l1,p1,ks[k1].name); else for (std::size_t i=0;i<b2&&p2<l2.size();i++) one(c,*o2,l2,p2,ks[k2].name); } one(c,*o1,l1,p1,ks[k1].name); one(c,*o2,l2,p2,ks[k2].name); c.trace(); c.state(key(k1*64+v1,k2*64+v2,sched)); c.outcome(k1*64+k2);
}
// single steps, up to a number of switches, more variants
static void switches(mc::Choice& c)
{
	const std::vector<Kind>& ks=kinds(); unsigned k1=c.pick(ks.size()), k2=c.pick(ks.size()), v1=c.pick(ks[k1].variants), v2=c.pick(ks[k2].variants); const Log &l1=alone(k1,v1), &l2=alone(k2,v2); std::unique_ptr<Obj> o1(ks[k1].make(v1)), o2(ks[k2].make(v2)); std::size_t p1=0, p2=0; std::string sched, head=std::string(ks[k1].name)+" "+std::to_string(v1)+" and "+ks[k2].name+" "+std::to_string(v2)+": "; bool first=true; c.show(head);
	while (p1<l1.size()||p2<l2.size()) { bool m1=p1<l1.size(), m2=p2<l2.size(); if (first&&!m1) first=false; else if (!first&&!m2) first=true; else if (m1&&m2&&!sched.empty()&&c.dev(2)) first=!first; sched+=first?'1':'2'; c.show(head+sched); if (first) one(c,*o1,l1,p1,ks[k1].name); else one(c,*o2,l2,p2,ks[k2].name); }
	one(c,*o1,l1,p1,ks[k1].name); one(c,*o2,l2,p2,ks[k2].name); c.trace(); c.state(key(k1*64+v1,k2*64+v2,sched)); c.outcome(k1*64+k2);
}
// objects are constructed, used and destroyed at any point
static void others(mc::Choice& c)
{
	const std::vector<Kind>& ks=kinds(); unsigned k=c.pick(ks.size()), v=c.pick(ks[k].variants); const Log& l=alone(k,v); std::size_t at=c.pick(l.size()+1), k2=c.pick(ks.size()), v2=c.pick(ks[k2].variants); const Log& l2=alone(k2,v2); static const std::vector<int> uses={0,1,2,1000}; std::size_t use=c.of(uses), keep=c.pick(2); c.show(std::string(ks[k].name)+" "+std::to_string(v)+", at step "+std::to_string(at)+" another "+ks[k2].name+" "+std::to_string(v2)+" used "+std::to_string(use)+(keep?" and kept":" and destroyed"));
	std::unique_ptr<Obj> o(ks[k].make(v)), x; std::size_t p=0; while (p<at) one(c,*o,l,p,ks[k].name); std::string now=o->now(); x.reset(ks[k2].make(v2)); std::size_t q=0; for (std::size_t i=0;i<use&&q<l2.size();i++) one(c,*x,l2,q,ks[k2].name); if (!keep) x.reset(); if (o->now()!=now) c.fail("changed by another object"); while (p<l.size()) one(c,*o,l,p,ks[k].name); one(c,*o,l,p,ks[k].name); if (keep) while (q<l2.size()) one(c,*x,l2,q,ks[k2].name); c.trace(); c.state(mc::hcomb(key(k*64+v,k2*64+v2,""),at*8+use*2+keep)); c.outcome(k*64+k2);
}
// three objects of the same kind, blocks of steps in every order
static void three(mc::Choice& c)
{
	const std::vector<Kind>& ks=kinds(); unsigned k=c.pick(ks.size()), nv=ks[k].variants; unsigned v[3]; v[0]=c.pick(std::min(nv,2u)); v[1]=(v[0]+1)%nv; v[2]=c.pick(2)?v[0]:(v[0]+2)%nv; const Log* l[3]; std::unique_ptr<Obj> o[3]; std::size_t p[3]={0,0,0}, b[3]; unsigned n=c.thorough()?4:3; for (int i=0;i<3;i++) { l[i]=&alone(k,v[i]); o[i].reset(ks[k].make(v[i])); b[i]=std::max<std::size_t>(1,(l[i]->size()+n-1)/n); } std::string sched, head=std::string("3 times ")+ks[k].name+": "; for (;;) { std::vector<int> e; for (int i=0;i<3;i++) if (p[i]<l[i]->size()) e.push_back(i); if (e.empty()) break; int i=e.size()==1?e[0]:c.of(e); sched+=(char)('1'+i); c.show(head+sched); for (std::size_t j=0;j<b[i]&&p[i]<l[i]->size();j++) one(c,*o[i],*l[i],p[i],ks[k].name); } for (int i=0;i<3;i++) one(c,*o[i],*l[i],p[i],ks[k].name); c.trace(); c.state(key(k*64+v[0],v[1]*64+v[2],sched)); c.outcome(k);
}
// all pairs of code pages in use at the same time: character set objects share the tables
static void codepages(mc::Choice& c)
{
	int a=1+c.pick(9), b=1+c.pick(9), order=c.pick(3); c.show("code pages "+std::to_string(a)+" and "+std::to_string(b)+" order "+std::to_string(order)); typedef textwolf::charset::IsoLatin I; std::unique_ptr<I> x, y; if (order==1) { y.reset(new I(b)); x.reset(new I(a)); } else { x.reset(new I(a)); y.reset(new I(b)); } if (order==2) { *y=*x; *y=I(b); } auto chk=[&](I& i, int page, int byte){ char ch=(char)byte; textwolf::CStringIterator it(&ch,1); char buf[8]; unsigned st=0; uint32_t g=i.value(buf,st,it), w=isoTable[page-1][byte]; if (w==0xFFFF) return; if (g!=w) c.fail("byte "+std::to_string(byte)+" of page "+std::to_string(page)+" is "+std::to_string(g)); std::string o; i.print(w,o); std::string wo; wo.push_back(ch); if (o!=wo) c.fail("character "+std::to_string(w)+" is written as '"+mc::esc(o)+"' in page "+std::to_string(page)); };
	for (int k=160;k<256;k++) { chk(*x,a,k); chk(*y,b,415-k); c.step(2); } { I z(1+(a+b)%9); chk(z,1+(a+b)%9,200); } chk(*x,a,250); chk(*y,b,251); y.reset(); chk(*x,a,245); c.trace(); c.state(a*64+b*4+order); c.outcome(a);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"interleavings",interleavings,0,0,4,"every pair of 28 kinds of objects with 2 (thorough 4) histories each, all interleavings of 5 (thorough 7) blocks of steps of each"},
	{"switches",switches,2,3,4,"every pair of kinds and histories, single steps, all schedules with up to 2 (thorough 3) switches before the end"},
	{"others",others,0,0,4,"another object constructed, used and destroyed at every step of every history of every kind"},
	{"three",three,0,0,3,"three objects of the same kind, all orders of 3 (thorough 4) blocks of steps of each"},
	{"codepages",codepages,0,0,2,"all pairs of code pages used alternately"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"one thread; the schedule of the steps is the only concurrency","shared: automatons, entity map, code pages, the jump buffer of the caller; not shared: streams and memory printed to","reference: the same object used alone"}; }
}
