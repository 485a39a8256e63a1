// W03: closing tags always match the innermost open tag
#if PART==0
#include "print.hpp"
using namespace print;
MC_PROPERTY("W03")
static std::string nameOf(std::size_t len, std::size_t salt){ std::string r(len,'a'); for (std::size_t i=0;i<len;i++) r[i]=(char)('a'+(i*7+salt*5+i/26)%26); return r; }
static const std::vector<int>& lens(bool th){ static const std::vector<int> q={1,7,8,9,240,247,248,249,497}, t={1,2,7,8,9,15,16,17,100,231,232,239,240,241,247,248,249,255,256,257,496,504,505,1000}; return th?t:q; }
static void same(mc::Choice& c, textwolf::TagStack& s, const std::vector<std::string>& ref)
{
	const void* p=0; std::size_t n=77; bool t=s.top(p,n); if (s.empty()!=ref.empty()) c.fail(ref.empty()?"not empty":"empty although tags are open"); if (t!=!ref.empty()) c.fail(t?"top() on empty stack":"top() fails"); if (t&&(n!=ref.back().size()||memcmp(p,ref.back().data(),n)!=0)) c.fail("top is "+std::string((const char*)p,std::min<std::size_t>(n,60))+" of length "+std::to_string(n)+" instead of "+ref.back().substr(0,60)+" of length "+std::to_string(ref.back().size())); c.step();
}
static void drainStack(mc::Choice& c, textwolf::TagStack& s, std::vector<std::string>& ref){ while (!ref.empty()) { s.pop(); ref.pop_back(); same(c,s,ref); } }
// all sequences of operations on the stack: push of every length, pop, clear; the whole stack is compared at the end
static void stack(mc::Choice& c)
{
	textwolf::TagStack s; std::vector<std::string> ref; const std::vector<int>& ls=lens(c.thorough()); int n=c.thorough()?5:6; std::string txt; uint64_t h=1; for (int i=0;i<n;i++) { unsigned op=c.pick(ls.size()+2); if (op<ls.size()) { Mem m(nameOf(ls[op],i)); s.push(m.p,m.n); ref.push_back(std::string(m.p,m.n)); txt+=" push("+std::to_string(ls[op])+")"; } else if (op==ls.size()) { if (!ref.empty()) { s.pop(); ref.pop_back(); } txt+=" pop"; } else { s.clear(); ref.clear(); txt+=" clear"; } c.show(txt); same(c,s,ref); for (auto& r:ref) h=mc::hcomb(h,mc::hstr(r)); }
	drainStack(c,s,ref); c.trace(); c.state(h); c.outcome(ref.size());
}
// two lengths, deep
static void deep(mc::Choice& c)
{
	int a=1+c.pick(c.thorough()?300:80), n=c.of(std::vector<int>{10,31,32,33,100,1000}), b=c.of(std::vector<int>{1,8,24,300}), period=1+c.pick(3); textwolf::TagStack s; std::vector<std::string> ref; c.show("depth "+std::to_string(n)+" names of length "+std::to_string(a)+" and "+std::to_string(b)); for (int i=0;i<n;i++) { std::string x=nameOf(i%period?b:a,i); Mem m(x); s.push(m.p,m.n); ref.push_back(x); if (i%17==16) { s.pop(); ref.pop_back(); } same(c,s,ref); } drainStack(c,s,ref); c.trace(); c.state(mc::hcomb(a*16+period,n*512+b)); c.outcome(n);
}
// every length of a name on an empty, filled and just exceeded storage
static void lengths(mc::Choice& c){ int a=1+c.pick(c.thorough()?5000:1100), b=c.of(std::vector<int>{0,1,8,200,248,300}); textwolf::TagStack s; std::vector<std::string> ref; c.show("length "+std::to_string(a)+" after "+std::to_string(b)); auto push=[&](int l, int salt){ std::string x=nameOf(l,salt); Mem m(x); s.push(m.p,m.n); ref.push_back(x); same(c,s,ref); }; if (b) push(b,1); push(a,2); push(3,3); s.pop(); ref.pop_back(); same(c,s,ref); push(a,4); drainStack(c,s,ref); push(a,5); drainStack(c,s,ref); c.trace(); c.state(a*8192+b); c.outcome(a); }
// the same with the printer: opening and closing, interleaved with contents and attributes
static void printer(mc::Choice& c)
{
	static const std::vector<int> ls={1,8,9,240,248,249}; int cs=c.of(std::vector<int>{U8,U16B,C4L,ISO3}), as=c.pick(2)?U16L:U8; std::unique_ptr<Printer> p(makePrinter(cs,as,true)); std::string out, txt; Items want; std::vector<U> stk; int n=c.thorough()?6:5; auto ok=[&](bool b){ if (!b) c.fail("operation refused"); }; auto open=[&](int l,int salt){ U nm=u(nameOf(l,salt).c_str()); ok(p->open(enc(as,nm),out)); want.push_back(Item{B::OpenTag,nm}); stk.push_back(nm); }; auto close=[&](){ ok(p->close(out)); want.push_back(Item{B::CloseTag,stk.back()}); stk.pop_back(); };
	open(1,99); bool tag=true; for (int i=0;i<n;i++) { unsigned op=c.pick(ls.size()+3); if (op<ls.size()) { open(ls[op],i); tag=true; txt+=" open("+std::to_string(ls[op])+")"; } else if (op==ls.size()) { if (stk.size()<2) return; close(); tag=false; txt+=" close"; } else if (op==ls.size()+1) { ok(p->value(enc(as,u("t")),out)); want.push_back(Item{B::Content,u("t")}); tag=false; txt+=" value"; } else { if (!tag) return; ok(p->attribute(enc(as,u("x")),out)); ok(p->value(enc(as,u("t")),out)); want.push_back(Item{B::TagAttribName,u("x")}); want.push_back(Item{B::TagAttribValue,u("t")}); tag=false; txt+=" attribute"; } c.show(std::string(csName(cs))+" from "+csName(as)+txt); c.step(); }
	while (!stk.empty()) close(); std::size_t len=out.size(); for (int i=0;i<2;i++) if (p->close(out)) c.fail("closing more elements than opened is not refused"); if (out.size()!=len) c.fail("refused but printed"); check(cs,out,want,c.thorough()); c.trace(); c.state(mc::hstr(out)); c.outcome(want.size());
}
// closing without anything open is refused, before, between and after
static void toomany(mc::Choice& c)
{
	std::unique_ptr<Printer> p(makePrinter(U8,U8,true)); std::string out; int depth=0, n=c.thorough()?12:10; bool root=false; std::string txt; Items want; for (int i=0;i<n;i++) { bool op=c.flip(); txt+=op?" open":" close"; c.show(txt); std::size_t l=out.size(); if (op) { if (root&&!depth) return; U nm=u(nameOf(1+i*37,i).c_str()); if (!p->open(enc(U8,nm),out)) c.fail("open refused"); want.push_back(Item{B::OpenTag,nm}); depth++; root=true; } else { bool r=p->close(out); if (r!=(depth>0)) c.fail(r?"close of nothing not refused":"close refused"); if (!r&&out.size()!=l) c.fail("refused but printed"); if (r) { want.push_back(Item{B::CloseTag,U()}); depth--; } } c.step(); }
	while (depth--) p->close(out), want.push_back(Item{B::CloseTag,U()}); std::vector<U> stk; for (auto& w:want) if (w.t==B::OpenTag) stk.push_back(w.s); else { w.s=stk.back(); stk.pop_back(); } if (root) check(U8,out,want); c.trace(); c.state(mc::hstr(txt)); c.outcome(want.size());
}
static void nested(mc::Choice& c)
{
	static const std::vector<int> ns={2,10,100,255,256,257,1000,5000}; int n=c.of(ns), l=1+c.pick(c.thorough()?60:20), cs=c.pick(NofCs); int kind=c.pick(3); std::unique_ptr<Printer> p(makePrinter(cs,U8,true)); std::string out; Items want; std::vector<U> stk; c.show("depth "+std::to_string(n)+" name length "+std::to_string(l)); for (int i=0;i<n;i++) { U nm=u(nameOf(kind==0?l:1+(i*l)%97,i).c_str()); p->open(enc(U8,nm),out); want.push_back(Item{B::OpenTag,nm}); stk.push_back(nm); if (kind==2&&i%5==4) { p->close(out); want.push_back(Item{B::CloseTag,nm}); stk.pop_back(); } c.step(); } while (!stk.empty()) { if (!p->close(out)) c.fail("close refused"); want.push_back(Item{B::CloseTag,stk.back()}); stk.pop_back(); } check(cs,out,want,n<=1000&&cs==U8); c.trace(); c.state(mc::hcomb(n*64+l,cs*4+kind)); c.outcome(n);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"stack",stack,0,0,3,"TagStack: all sequences of 6 (thorough 5) operations push of 9 (24) lengths around alignment and growth of the storage, pop, clear; compared with a list of strings at every step and unwound at the end"},
	{"deep",deep,0,0,2,"TagStack: depth up to 1000, names of all lengths up to 80 (thorough 300) mixed with 4 others in 3 patterns"},
	{"lengths",lengths,0,0,2,"TagStack: every length up to 1100 (thorough 5000) on 6 fillings"},
	{"printer",printer,0,0,4,"XMLPrinter: all sequences of 5 (thorough 6) operations open with 6 lengths, close, value, attribute, 4 document and 2 application encodings"},
	{"toomany",toomany,0,0,4,"XMLPrinter: all sequences of 10 (thorough 12) of open and close, more closes than opens included"},
	{"nested",nested,0,0,3,"XMLPrinter: depth up to 5000, name lengths up to 97, all encodings"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"names are not empty","documents have one root element"}; }
}
#endif
