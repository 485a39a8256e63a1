// X01: copies and assignments are independent of and equivalent to their originals
#include "objects.hpp"
#include "sized.hpp"
using namespace obj;
MC_PROPERTY("X01")
static void one(mc::Choice& c, Obj& o, const Log& l, std::size_t& at, const char* who){ std::string s; bool r=o.step(s); c.step(); if (at>=l.size()) { if (r) c.fail(std::string(who)+" does not end"); return; } if (!r||s!=l[at]) c.fail(std::string(who)+", step "+std::to_string(at)+": '"+mc::esc(s)+"' instead of '"+mc::esc(l[at])+"'"); at++; }
static void rest(mc::Choice& c, Obj& o, const Log& l, std::size_t& at, const char* who){ while (at<l.size()) one(c,o,l,at,who); one(c,o,l,at,who); }
static const char* hows[]={"copy","copy of a copy","assigned to a new one","assigned to a used one","assigned to itself","assigned to a finished one","original assigned from its copy"};
static const char* orders[]={"original first","copy first","alternating","original destroyed","copy destroyed","copy one step ahead","copy steps between"};
static void copies(mc::Choice& c)
{
	unsigned k=c.pick(kinds().size()), v=c.pick(kinds()[k].variants); const Log& l=alone(k,v); std::size_t at=c.pick(l.size()+1); unsigned how=c.pick(7), order=c.pick(7), v2=0, j=0; if (how==3||how==5) { v2=c.pick(kinds()[k].variants); if (how==3) j=c.pick(alone(k,v2).size()+1); }
	c.show(std::string(kinds()[k].name)+" variant "+std::to_string(v)+" at step "+std::to_string(at)+": "+hows[how]+(how==3?" ("+std::to_string(v2)+" at "+std::to_string(j)+")":"")+", "+orders[order]);
	std::unique_ptr<Obj> a(kinds()[k].make(v)), b; std::size_t pa=0, pb; while (pa<at) one(c,*a,l,pa,"original"); std::string na=a->now();
	switch (how) { case 0: b.reset(a->clone()); break; case 1: { std::unique_ptr<Obj> t(a->clone()); b.reset(t->clone()); break; } case 2: b.reset(kinds()[k].make(v)); b->assign(*a); break; case 3: { b.reset(kinds()[k].make(v2)); std::size_t p=0; while (p<j) one(c,*b,alone(k,v2),p,"target"); b->assign(*a); break; } case 4: a->assign(*a); b.reset(a->clone()); b->assign(*b); break; case 5: { b.reset(kinds()[k].make(v2)); std::size_t p=0; rest(c,*b,alone(k,v2),p,"target"); b->assign(*a); break; } default: b.reset(a->clone()); a->assign(*b); }
	pb=pa; if (a->now()!=na) c.fail("the original changed: '"+mc::esc(a->now())+"' instead of '"+mc::esc(na)+"'"); if (b->now()!=na) c.fail("the copy is '"+mc::esc(b->now())+"' instead of '"+mc::esc(na)+"'");
	switch (order)
	{
		case 0: rest(c,*a,l,pa,"original"); if (b->now()!=na) c.fail("the copy changed with the original"); rest(c,*b,l,pb,"copy"); break;
		case 1: rest(c,*b,l,pb,"copy"); if (a->now()!=na) c.fail("the original changed with the copy"); rest(c,*a,l,pa,"original"); break;
		case 2: while (pa<l.size()) { one(c,*a,l,pa,"original"); one(c,*b,l,pb,"copy"); if (a->now()!=b->now()) c.fail("original '"+mc::esc(a->now())+"' and copy '"+mc::esc(b->now())+"' differ"); } break;
		case 3: a.reset(); if (b->now()!=na) c.fail("the copy changed with the destruction of the original"); rest(c,*b,l,pb,"copy"); break;
		case 4: b.reset(); if (a->now()!=na) c.fail("the original changed with the destruction of the copy"); rest(c,*a,l,pa,"original"); break;
		case 5: one(c,*b,l,pb,"copy"); while (pa<l.size()) { one(c,*b,l,pb,"copy"); one(c,*a,l,pa,"original"); } b.reset(); rest(c,*a,l,pa,"original"); break;
		default: while (pa<l.size()) { one(c,*a,l,pa,"original"); std::unique_ptr<Obj> t(a->clone()); std::size_t p=pa; one(c,*t,l,p,"copy"); b->assign(*t); } break;
	}
	c.trace(); uint64_t h=mc::hcomb(k*64+v,at*64+how*8+order); c.state(mc::hcomb(h,v2*64+j)); c.outcome(k*64+v);
}
// chains of copies: at every step an operation on one of three objects
static void chains(mc::Choice& c)
{
	unsigned k=c.pick(kinds().size()), v=c.pick(std::min(kinds()[k].variants,c.thorough()?8u:2u)); const Log& l=alone(k,v); std::unique_ptr<Obj> o[3]; std::size_t p[3]; for (int i=0;i<3;i++) { o[i].reset(kinds()[k].make(v)); p[i]=0; } std::size_t first=c.pick(std::min<std::size_t>(l.size(),4)); std::string txt=std::string(kinds()[k].name)+" "+std::to_string(v)+" from "+std::to_string(first); while (p[0]<first) one(c,*o[0],l,p[0],"first"); int n=c.thorough()?5:4;
	for (int s=0;s<n;s++) { unsigned op=c.pick(7); switch (op) { case 0: case 1: case 2: one(c,*o[op],l,p[op],"object"); break; case 3: o[1]->assign(*o[0]); p[1]=p[0]; break; case 4: o[2].reset(o[1]->clone()); p[2]=p[1]; break; case 5: o[0]->assign(*o[2]); p[0]=p[2]; break; case 6: o[1].reset(o[2]->clone()); p[1]=p[2]; break; } txt+=" "+std::to_string(op); c.show(txt); }
	for (int i=0;i<3;i++) { rest(c,*o[i],l,p[i],"object at the end"); o[i].reset(); } c.trace(); c.state(mc::hstr(txt)); c.outcome(k*64+v);
}
// expressions built from copies of an element of a path
static void builders(mc::Choice& c)
{
	typedef Atm::PathElement E; typedef std::vector<int> V; auto apply=[](E& p, int s){ switch (s) { case 0: p["a"]; break; case 1: p["b"]; break; case 2: p--["a"]; break; case 3: p("x","1"); break; case 4: p--; break; default: break; } }; auto end=[](E& p, int s, int t){ switch (s) { case 0: p=t; break; case 1: p()=t; break; case 2: { p(); p.INDEX(1); p=t; break; } case 3: p("x")=t; break; case 4: p.selectCloseTag().assignType(t); break; default: p["b"]=t; } };
	V pre; int n=1+c.pick(c.thorough()?3:2); for (int i=0;i<n;i++) pre.push_back(c.pick(4)); int s1=c.pick(5), s2=c.pick(5), e1=c.pick(6), e2=c.pick(6), how=c.pick(3), order=c.pick(2); if ((s1==4&&e1==4)||(s2==4&&e2==4)) return; if (pre.back()==3&&(e1==0||e2==0)&&false) return; std::string txt="builder"; for (int x:pre) txt+=" "+std::to_string(x); c.show(txt+" / "+std::to_string(s1)+" "+std::to_string(e1)+" / "+std::to_string(s2)+" "+std::to_string(e2)+" how "+std::to_string(how)+" order "+std::to_string(order));
	Atm x, y; { E p=*x; for (int s:pre) apply(p,s); E q(p); if (how==1) { E r; r=p; q=r; } if (how==2) { E* r=new E(p); E t(*r); delete r; q=t; } if (order==0) { apply(p,s1); end(p,e1,1); apply(q,s2); end(q,e2,2); } else { apply(q,s2); apply(p,s1); end(q,e2,2); end(p,e1,1); } }
	auto full=[&](int s,int e,int t){ E p=*y; for (int z:pre) apply(p,z); apply(p,s); end(p,e,t); }; full(s1,e1,1); full(s2,e2,2);
	for (auto& d:pathdocs()) { Sel a(&x), b(&y); for (auto& ev:d) { std::vector<int> u, w; path::pushAll(a,ev,u); path::pushAll(b,ev,w); std::sort(u.begin(),u.end()); std::sort(w.begin(),w.end()); if (u!=w) c.fail("matches of expressions built with a copy differ"); } c.step(d.size()); } c.trace(); c.state(mc::hstr(c.shown())); c.outcome(mc::hstr(select(x)));
}
// ---- objects with much in them
static std::string sum(const std::string& s){ return num(s.size())+":"+num(mc::hstr(s)); }
struct BigStack :Base<BigStack> { textwolf::TagStack s; std::size_t N; int len; unsigned n=0; BigStack(std::size_t N_, int l):N(N_),len(l){} bool step(std::string& log){ if (n>=4) return false; switch (n++) { case 0: for (std::size_t i=0;i<N;i++) { std::string x(len==0?i%300:len==1?1:i==N/2?5000:7,(char)('a'+i%26)); s.push(x.data(),x.size()); } break; case 1: for (std::size_t i=0;i<N/2;i++) s.pop(); break; case 2: for (std::size_t i=0;i<N/2+3;i++) s.push("uvw",i%4); break; default: for (std::size_t i=0;i<N;i++) s.pop(); } log=now(); return true; } std::string now(){ const void* p=0; std::size_t k=0; textwolf::TagStack c(s); std::string r; while (c.top(p,k)) { r+=num(k)+std::string((const char*)p,k); c.pop(); } return sum(r)+num(s.empty()); } };
struct BigBuf :Base<BigBuf> { textwolf::StaticBuffer b; std::size_t N; int fill; unsigned n=0; BigBuf(std::size_t N_, int f):b(N_),N(N_),fill(f){} bool step(std::string& log){ if (n>=5) return false; switch (n++) { case 0: for (std::size_t i=0;i<(fill==0?N:fill==1?N-1:N/2);i++) b.push_back((char)('a'+i*7%26)); break; case 1: b.append("12345",5); break; case 2: b.push_back('z'); break; case 3: b.clear(); b.append("xy",2); break; default: { std::string t(N-std::min<std::size_t>(N,b.size()),'q'); b.append(t.data(),t.size()); } } log=now(); return true; } std::string now(){ return sum(std::string(b.ptr(),b.size()))+num(b.overflow()); } };
struct BigPrint :Base<BigPrint> { textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF16LE,std::string> p; std::size_t N; std::string out; unsigned n=0; explicit BigPrint(std::size_t N_):p(true),N(N_){} bool step(std::string& log){ if (n>=5) return false; std::string o; switch (n++) { case 0: for (std::size_t i=0;i<N;i++) { std::string x=enc(U16L,U"n"+sized::num(i)); p.printOpenTag(x.data(),x.size(),o); } break; case 1: { std::string x=enc(U16L,sized::text(N,true)); p.printValue(x.data(),x.size(),o); break; } case 2: for (std::size_t i=0;i<N/2;i++) p.printCloseTag(o); break; case 3: { std::string x=enc(U16L,sized::text(N)); p.printOpenTag(x.data(),x.size(),o); p.printAttribute(x.data(),x.size(),o); p.printValue(x.data(),x.size(),o); break; } default: for (std::size_t i=0;i<N;i++) p.printCloseTag(o); } out+=o; log=sum(o)+now(); return true; } std::string now(){ return num(p.state())+sum(out); } };
struct BigScan :Base<BigScan> { typedef textwolf::XMLScanner<textwolf::CStringIterator,K8,K16B,std::string> SC; std::shared_ptr<Mem> m; SC sc; bool done=false; unsigned n=0; BigScan(std::size_t N, int kind):sc(textwolf::charset::UTF8(),textwolf::CStringIterator()){ U d; std::vector<sized::Ev> ev; sized::doc(kind,N,d,ev); m.reset(new Mem(enc(U8,d))); sc.setSource(textwolf::CStringIterator(m->p,(unsigned)m->n)); } bool step(std::string& log){ if (done) return false; int t=sc.nextItem(); log=tname(t); if (t==B::ErrorOccurred) { log+=num(sc.getError()); done=true; } else log+=now(); if (t==B::Exit) done=true; return true; } std::string now(){ return sum(std::string(sc.getItemPtr(),sc.getItemSize()))+"@"+num(sc.getTokenPosition()); } };
// in chunks, copied in the middle of a token
struct BigChunks :Base<BigChunks> { typedef textwolf::XMLScanner<textwolf::SrcIterator,K8,K8,std::string> SC; std::shared_ptr<Mem> m; SC sc; std::size_t pos=0, chunk; bool done=false; BigChunks(std::size_t N, int kind):sc(textwolf::charset::UTF8()){ U d; std::vector<sized::Ev> ev; sized::doc(kind,N,d,ev); m.reset(new Mem(enc(U8,d))); chunk=m->n/5+1; feed(); } void feed(){ if (pos>=m->n) { sc.getIterator().putInput("",0,0); return; } std::size_t n=std::min(chunk,m->n-pos); sc.getIterator().putInput(m->p+pos,n,&eom()); pos+=n; } int next(){ if (setjmp(eom())!=0) return NEED; return sc.nextItem(); } bool step(std::string& log){ if (done) return false; int t=next(); if (t==NEED) { log="NEED"; feed(); return true; } log=tname(t); if (t==B::ErrorOccurred) { log+=num(sc.getError()); done=true; } else log+=now(); if (t==B::Exit) done=true; return true; } std::string now(){ return sum(std::string(sc.getItemPtr(),sc.getItemSize())); } };
struct BigStream :Base<BigStream> { struct S { std::istringstream is; textwolf::StdInputStream in; explicit S(const std::string& x):is(x),in(is){} }; std::shared_ptr<S> s; textwolf::IStreamIterator i; std::size_t N; unsigned n=0; explicit BigStream(std::size_t N_):s(new S(enc(U8,sized::text(N_)))),i(&s->in,N_+1),N(N_){ *i; } bool step(std::string& log){ if (n>=4) return false; n++; std::string r; for (std::size_t k=0;k<N/4;k++) { r+=*i; ++i; } log=sum(r)+"@"+num(i.position()); return true; } std::string now(){ return num(*i)+"@"+num(i.position()); } };
struct BigSel :Base<BigSel> { std::shared_ptr<Atm> a; Sel s; std::size_t N; unsigned n=0; BigSel(std::size_t N_, const std::shared_ptr<Atm>& a_):a(a_),s(a_.get()),N(N_){} void ev(B::ElementType t, const char* k, std::string& r){ std::vector<int> v; path::pushAll(s,Ev{t,k},v); for (int x:v) r+=num(x)+","; r+="|"; } bool step(std::string& log){ if (n>=4) return false; std::string r; switch (n++) { case 0: for (std::size_t i=0;i<N;i++) { ev(B::OpenTag,i%3?"a":"b",r); ev(B::TagAttribName,"x",r); ev(B::TagAttribValue,"1",r); } break; case 1: ev(B::Content,"t",r); for (std::size_t i=0;i<N/2;i++) ev(B::CloseTag,"a",r); break; case 2: for (std::size_t i=0;i<N/2;i++) { ev(B::OpenTag,"b",r); ev(B::Content,"u",r); } break; default: for (std::size_t i=0;i<N;i++) { ev(B::CloseTag,"b",r); ev(B::Content,"v",r); } } log=sum(r); return true; } std::string now(){ return num(n); } };
struct BigAtm :Base<BigAtm> { Atm a; std::size_t N; unsigned n=0; explicit BigAtm(std::size_t N_):N(N_){} bool step(std::string& log){ if (n>=3) return false; for (std::size_t i=n*N;i<(n+1)*N;i++) { std::string x="n"+num(i); Atm::PathElement p=*a; if (i%2) p["r"]; p[x.c_str()]; p(); p=(int)i+1; } n++; log=now(); return true; } std::string now(){ std::string r; for (int q=0;q<2;q++) { Sel s(&a); std::vector<int> v; if (q) path::pushAll(s,Ev{B::OpenTag,"r"},v); for (std::size_t i=0;i<3*N;i+=1+N/7) { std::string x="n"+num(i); v.clear(); path::pushAll(s,Ev{B::OpenTag,x},v); path::pushAll(s,Ev{B::Content,"t"},v); path::pushAll(s,Ev{B::CloseTag,x},v); for (int y:v) r+=num(y)+","; r+="|"; } } return r; } };
static Obj* big(unsigned k, std::size_t N)
{
	switch (k) { case 0: return new BigStack(N,0); case 1: return new BigStack(N,1); case 2: return new BigStack(N,2); case 3: return new BigBuf(N,0); case 4: return new BigBuf(N,1); case 5: return new BigBuf(N,2); case 6: return new BigPrint(N); case 7: return new BigScan(N,0); case 8: return new BigScan(N,2); case 9: return new BigScan(N,17); case 10: return new BigChunks(N,0); case 11: return new BigChunks(N,2); case 12: return new BigChunks(N,17); case 13: return new BigChunks(N,15); case 14: return new BigStream(N); case 15: { std::shared_ptr<Atm> a(new Atm()); for (unsigned i=0;i<nofExprs;i++) addExpr(*a,i); return new BigSel(N,a); } default: return new BigAtm(N); }
}
static void large(mc::Choice& c)
{
	static const char* bn[]={"tag stack (all lengths)","tag stack (length 1)","tag stack (one long tag)","full buffer","buffer with one byte left","half buffer","printer","scanner (tag name)","scanner (value)","scanner (content)","scanner in chunks (tag name)","scanner in chunks (value)","scanner in chunks (content)","scanner in chunks (references)","stream iterator","path selection","automaton"}; static const std::vector<std::size_t> q={1,7,8,9,15,16,17,31,32,33,100,127,128,129,255,256,257,1000,4095,4096,4097}, t={1,7,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025,4095,4096,4097,32767,32768,65535,65536,65537,100000};
	unsigned k=c.pick(17); std::size_t N=c.of(c.thorough()?t:q); if (k>=15&&N>(c.thorough()?1000u:300u)) return; unsigned how=c.pick(4), order=c.pick(3); std::unique_ptr<Obj> a(big(k,N)), b; Log l; { std::unique_ptr<Obj> o(big(k,N)); std::string s; while (s.clear(),o->step(s)) l.push_back(s); }
	std::size_t at=c.pick(15); if (at>l.size()) return; c.show(std::string(bn[k])+" "+num(N)+" at step "+num(at)+": "+(how==0?"copy":how==1?"assigned to a new one":how==2?"assigned to a finished one":"assigned to a smaller one")+", "+orders[order==2?3:order]); std::size_t pa=0, pb; while (pa<at) one(c,*a,l,pa,"original"); std::string na=a->now();
	if (how==0) b.reset(a->clone()); else { b.reset(big(k,how==3?N/2+1:N)); if (how>=2) { std::string s; for (int i=0;i<(how==2?1000000:1);i++) { s.clear(); if (!b->step(s)) break; } } b->assign(*a); } pb=pa;
	if (a->now()!=na) c.fail("the original changed"); if (b->now()!=na) c.fail("the copy is '"+mc::esc(b->now())+"' instead of '"+mc::esc(na)+"'");
	if (order==0) { rest(c,*a,l,pa,"original"); if (b->now()!=na) c.fail("the copy changed with the original"); rest(c,*b,l,pb,"copy"); } else if (order==1) { rest(c,*b,l,pb,"copy"); if (a->now()!=na) c.fail("the original changed with the copy"); rest(c,*a,l,pa,"original"); } else { a.reset(); rest(c,*b,l,pb,"copy"); }
	c.trace(); c.state(mc::hcomb(mc::hcomb(k,N),at*16+how*4+order)); c.outcome(k);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"copies",copies,0,0,4,"28 kinds of objects (scanner with 5 encoding pairs, on memory, in chunks and on streams, reader, source iterators, header parser, printer, tag stack, static buffer, path selection, automaton, expression parser) with up to 10 histories each; copied or assigned in 7 ways at every step (targets in every state), used in 7 orders afterwards"},
	{"chains",chains,0,0,4,"three objects, all sequences of 4 (thorough 5) of 7 operations step, copy, assign"},
	{"large",large,0,0,3,"17 kinds of objects with much in them (tag stacks, buffers, printers with open tags, scanners with long tokens also in the middle of them, stream iterators, selections in deep documents, automatons) with 21 (thorough: 36) sizes up to 4097 (100000), copied or assigned to new, finished and smaller ones after each of the first 14 steps"},
	{"builders",builders,0,0,3,"path expressions built from copies of all path elements of up to 2 (thorough 3) steps with 5 continuations and 6 ends each"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"copies of stream iterators share the stream, it is read into the buffer before copying","the jump buffer for chunks belongs to the caller","reference: the same kind of object used alone, which the other properties compare with models"}; }
}
