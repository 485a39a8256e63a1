// X05: running out of memory is reported and does no damage
#include "memory.hpp"
#include "objects.hpp"
using namespace obj;
MC_PROPERTY("X05")
// output streams of the standard library do not raise failures, but keep them as state
static const std::vector<Kind>& kinds5(){ static const std::vector<Kind> v=[]{ std::vector<Kind> r; for (auto& k:kinds()) if (std::string(k.name)!="printer to stream") r.push_back(k); return r; }(); return v; }
static const Log& alone5(unsigned k, unsigned v){ for (unsigned i=0;;i++) if (kinds()[i].make==kinds5()[k].make) return alone(i,v); }
static const char* modes[]={"this request fails","this and all later requests fail"};
// runs an operation with the n-th request for memory failing. Returns 0: no request failed, 1: it failed and an exception was raised, 2: it failed and nothing was raised
template <class F> static int failing(mc::Choice& c, long n, int mode, F f)
{
	bool thrown=false; std::string other; { mem::Arm arm(n,mode!=0); try { f(); } catch (const mc::Violation&) { throw; } catch (const std::bad_alloc&) { thrown=true; } catch (const textwolf::exception&) { thrown=true; } catch (const std::exception& e) { mem::armed()=false; other=e.what(); } catch (...) { mem::armed()=false; other="an unknown exception"; } }
	if (!other.empty()) c.fail("request "+num(n)+": raised "+other); c.step(); if (thrown&&!mem::hit()) c.fail("exception without a failing request"); return mem::hit()?thrown?1:2:0;
}
template <class F> static void balanced(mc::Choice& c, long n, F f)
{
	for (int i=0;i<3;i++) { mem::Use a=mem::use(); f(); mem::Use b=mem::use(); if (a.b==b.b&&a.l==b.l) return; if (i==2) c.fail("request "+num(n)+" failing: "+num(b.b-a.b)+" blocks with "+num(b.l-a.l)+" bytes are still in use behind the end of all objects"); }
}
static void go(Obj& o, std::size_t n){ for (std::size_t i=0;i<n;i++) { std::string s; if (!o.step(s)) return; } }
static void follow(mc::Choice& c, long n, Obj& o, const Log& l, std::size_t at, const char* who){ for (;;at++) { std::string s; bool r=o.step(s); if (at>=l.size()) { if (r) c.fail("request "+num(n)+" failing: "+who+" does not end"); return; } if (!r||s!=l[at]) c.fail("request "+num(n)+" failing: "+who+", step "+num(at)+": '"+mc::esc(s)+"' instead of '"+mc::esc(l[at])+"'"); } }
static void copies(mc::Choice& c)
{
	static const char* how[]={"construction","copy","assignment to a new one","assignment to a used one","assignment to a finished one","assignment to itself"};
	unsigned k=c.pick(kinds5().size()), v=c.pick(kinds5()[k].variants); const Log& l=alone5(k,v); unsigned h=c.pick(6), mode=c.pick(2), after=c.pick(4); std::size_t at=0, j=0; unsigned v2=0; if (h>0) at=c.pick(l.size()+1); else if (after) return; if (h==3||h==4) v2=c.pick(kinds5()[k].variants); if (h==3) j=1+c.pick(c.thorough()?5:2);
	c.show(std::string(how[h])+" of "+kinds5()[k].name+" variant "+num(v)+" at step "+num(at)+(h==3||h==4?" (variant "+num(v2)+" at "+num(j)+")":"")+", "+modes[mode]+", then "+num(after));
	for (long n=1;;n++)
	{
		if (n>2000) c.fail("requests without end"); int r=0;
		balanced(c,n,[&]{
			if (h==0) { Obj* p=0; r=failing(c,n,mode,[&]{ p=kinds5()[k].make(v); }); std::unique_ptr<Obj> o(p); if (r==2) follow(c,n,*o,l,0,"object"); if (r==1) { o.reset(kinds5()[k].make(v)); follow(c,n,*o,l,0,"next object"); } return; }
			std::unique_ptr<Obj> a(kinds5()[k].make(v)), b; go(*a,at); std::string na=a->now(); if (h==5) b.reset(a->clone()); else if (h>1) { b.reset(kinds5()[k].make(h==2?v:v2)); go(*b,h==2?0:h==3?j:100000); }
			r=failing(c,n,mode,[&]{ if (h==1) b.reset(a->clone()); else if (h==5) b->assign(*b); else b->assign(*a); });
			if (r==2&&b->now()!=na) c.fail("request "+num(n)+" failing without exception: the copy is '"+mc::esc(b->now())+"' instead of '"+mc::esc(na)+"'");
			if (a->now()!=na) c.fail("request "+num(n)+" failing: the source is '"+mc::esc(a->now())+"' instead of '"+mc::esc(na)+"'");
			switch (after) { case 0: if (r==2) follow(c,n,*b,l,at,"copy"); b.reset(); follow(c,n,*a,l,at,"source"); break; case 1: if (h==1&&r==1) b.reset(a->clone()); else b->assign(*a); a.reset(); follow(c,n,*b,l,at,"copy made again"); break; case 2: follow(c,n,*a,l,at,"source"); b.reset(); break; default: if (!b) b.reset(kinds5()[k].make(v)); else { std::unique_ptr<Obj> t(kinds5()[k].make(v)); b->assign(*t); } follow(c,n,*b,l,0,"target assigned from a new one"); follow(c,n,*a,l,at,"source"); }
		});
		if (!r) break;
	}
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(k*8+h);
}
static void steps(mc::Choice& c)
{
	unsigned k=c.pick(kinds5().size()), v=c.pick(kinds5()[k].variants); const Log& l=alone5(k,v); std::size_t at=c.pick(l.size()); unsigned mode=c.pick(2), after=c.pick(3); c.show("step "+num(at)+" of "+kinds5()[k].name+" variant "+num(v)+", "+modes[mode]+", then "+num(after));
	for (long n=1;;n++)
	{
		if (n>20000) c.fail("requests without end"); int r=0;
		balanced(c,n,[&]{
			std::unique_ptr<Obj> a(kinds5()[k].make(v)); go(*a,at); std::unique_ptr<Obj> s(a->clone()); std::string x; bool res=false; r=failing(c,n,mode,[&]{ res=a->step(x); }); if (r!=1) { if (!res||x!=l[at]) c.fail("request "+num(n)+" failed, no exception, but the step gave '"+mc::esc(x)+"' instead of '"+mc::esc(l[at])+"'"); follow(c,n,*a,l,at+1,"object"); return; }
			switch (after) { case 0: a.reset(); follow(c,n,*s,l,at,"copy made before"); break; case 1: a->assign(*s); s.reset(); follow(c,n,*a,l,at,"object assigned from the copy made before"); break; default: { std::unique_ptr<Obj> t(kinds5()[k].make(v)); t->assign(*s); a->assign(*t); t.reset(); follow(c,n,*s,l,at,"copy made before"); follow(c,n,*a,l,at,"object assigned"); } }
		});
		if (!r) break; if (mode&&after==0&&n>c.thorough()*1000+100) break;
	}
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(k);
}
// stacks: what was pushed before remains, pushing again works
static void stack(mc::Choice& c)
{
	static const std::vector<int> lens={0,1,8,100,239,240,241,248,256,500,1000,5000}; int n=1+c.pick(c.thorough()?5:4); std::vector<int> ls; for (int i=0;i<n;i++) ls.push_back(c.of(lens)); unsigned how=c.pick(3); std::string t="push"; for (int x:ls) t+=" "+num(x); c.show(t+" then "+num(how)); uint64_t rejected=0;
	balanced(c,0,[&]{
		textwolf::TagStack s; std::vector<std::string> ref; auto same=[&](const char* w){ textwolf::TagStack x(s); for (std::size_t i=ref.size();i-->0;) { const void* p=0; std::size_t k=0; if (!x.top(p,k)||std::string((const char*)p,k)!=ref[i]) c.fail(std::string(w)+": tag "+num(i)+" is wrong"); x.pop(); } if (!x.empty()) c.fail(std::string(w)+": more tags than pushed"); };
		for (int x:ls)
		{
			std::string p((std::size_t)x,(char)('a'+ref.size())); Mem m(p); for (long n=1;;n++) { int r=failing(c,n,0,[&]{ s.push(m.p,m.n); }); if (r!=1) { ref.push_back(p); break; } rejected++; same("behind a push that failed");
				if (how==1) { for (int y:{3,10,50}) { std::string q((std::size_t)y,'z'); s.push(q.data(),q.size()); ref.push_back(q); same("push behind a push that failed"); } s.pop(); s.pop(); s.pop(); for (int i=0;i<3;i++) ref.pop_back(); }
				if (how==2) { for (int i=0;i<60;i++) { std::string q((std::size_t)i%9,'y'); bool ok=failing(c,1,0,[&]{ s.push(q.data(),q.size()); })!=1; if (!ok) break; ref.push_back(q); } same("pushes until it fails again"); } }
			same("behind a push");
		}
		while (!ref.empty()) { s.pop(); ref.pop_back(); same("pop"); }
	});
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(rejected);
}
// exceptions are handed on when no memory is left
static void exceptions(mc::Choice& c)
{
	typedef textwolf::exception E; typedef textwolf::throws_exception T; int k=c.pick(17); unsigned how=c.pick(6); int mode=c.pick(2); static const char* ways[]={"copied","caught by value","thrown as copy","assigned","stored in a list","copied twice"}; E orig((T::Cause)k); std::string want=orig.what(); c.show("exception "+want+" "+ways[how]+", "+modes[mode]); uint64_t reported=0; struct Got { int cause; const char* what; };
	balanced(c,0,[&]{ for (long n=1;;n++) { Got g={-1,""}; bool again=false; { E target((T::Cause)((k+1)%17)); std::vector<E> list; list.reserve(2);
		int r=0; { bool thrown=false; { mem::Arm arm(n,mode!=0); try { switch (how) { case 0: { E x(orig); g.cause=x.cause; g.what=x.what(); } break; case 1: try { throw E((T::Cause)k); } catch (E x) { g.cause=x.cause; g.what=x.what(); } break; case 2: try { throw orig; } catch (const E& x) { g.cause=x.cause; g.what=x.what(); } break; case 3: target=orig; g.cause=target.cause; g.what=target.what(); break; case 4: list.push_back(orig); g.cause=list[0].cause; g.what=list[0].what(); break; default: { E x(orig); E y(x); target=y; g.cause=target.cause; g.what=target.what(); } } } catch (const std::bad_alloc&) { thrown=true; } } r=mem::hit()?thrown?1:2:0; if (thrown&&!mem::hit()) c.fail("exception without a failing request"); }
		if (r!=1&&(g.cause!=k||want!=g.what)) c.fail("it is "+std::string(g.what)+" then"); reported+=r==1?1:0; again=r!=0; } c.step(); if (!again) break; } });
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(reported);
}
// automatons: a definition that failed leaves those before usable, and can be repeated
static std::string select8(const Atm& a){ return select(a); }
static void definitions(mc::Choice& c)
{
	unsigned by=c.pick(2); static const char* ex[]={"/a/b()","//a","//b~","/a[1]()","//@x","/a[@x='1']/b","/a/b","//()","/a/a[0,2]/b@x","/a/b[@x='1']()","//a//b"}; int ne=by?11:(int)nofExprs; int m=c.pick(c.thorough()?3:2); std::vector<unsigned> pre; m=c.pick(m+1); for (int i=0;i<m;i++) pre.push_back(c.pick(ne)); unsigned e=c.pick(ne), mode=c.pick(2), after=c.pick(3); std::string t=by?"expressions":"builder"; for (unsigned x:pre) t+=" "+num(x); c.show(t+" / "+num(e)+", "+modes[mode]+" then "+num(after)); uint64_t cnt=0;
	auto add=[&](Parser::AP& a, unsigned i){ if (by) { if (a.addExpression(i+20,ex[i],std::strlen(ex[i]))) c.fail("expression rejected"); } else addExpr(a,i); };
	for (long n=1;;n++)
	{
		int r=0; balanced(c,n,[&]{
			Parser::AP a, b; for (unsigned x:pre) { add(a,x); add(b,x); } std::string before=select8(b); std::unique_ptr<Sel> running; if (after==2) { running.reset(new Sel(&b)); } r=failing(c,n,mode,[&]{ add(a,e); }); if (r==1) { if (select8(a)!=before) c.fail("request "+num(n)+" failing: what was defined before selects '"+select8(a)+"' instead of '"+before+"'"); if (after==0) return; if (after==2) { Parser::AP t(a); a=b; a=t; if (select8(a)!=before) c.fail("request "+num(n)+" failing: a copy selects something else"); } add(a,e); }
			add(b,e); if (select8(a)!=select8(b)) c.fail("request "+num(n)+" failing"+(r==1?", definition repeated":r==2?" without exception":"")+": selects '"+select8(a)+"' instead of '"+select8(b)+"'"); unsigned last=(e+1)%ne; add(a,last); add(b,last); if (select8(a)!=select8(b)) c.fail("request "+num(n)+" failing, another definition: selects '"+select8(a)+"' instead of '"+select8(b)+"'");
		});
		if (!r) break; cnt++; if (n>5000) c.fail("requests without end");
	}
	c.trace(); c.state(mc::hstr(c.shown())); c.outcome(cnt);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"copies",copies,0,0,3,"27 kinds of objects (all but the printer to a stream) in all variants at every step: construction, copying and assigning to new, used and finished targets with every single request for memory failing, alone and with all later ones; the source, the target and the repeated operation are followed to the end"},
	{"steps",steps,0,0,3,"every step of all these histories with every single request for memory failing, alone and with all later ones; afterwards a copy made before and the object assigned from it are followed to the end"},
	{"stack",stack,0,0,3,"tag stacks with up to 4 (thorough: 5) tags of 12 lengths, every request failing; content compared, pushes repeated, pushed on until it fails again"},
	{"exceptions",exceptions,0,0,2,"exceptions of all 17 causes copied, caught by value, thrown as copy, assigned and stored with every single request failing, alone and with all later ones"},
	{"definitions",definitions,0,0,3,"path automatons with up to 2 (thorough: 3) expressions: adding each of 10 built and 11 parsed expressions with every request failing; selections compared, addition repeated, another expression added"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"reported is a failure if std::bad_alloc or textwolf::exception is raised; an operation in which no exception is raised must have its usual result","the state of an object is not judged behind a failed operation, except for tag stacks and path automatons; it can be destroyed and be assigned to","requests made by the harness inside of a step fail, too"}; }
}
