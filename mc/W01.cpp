// W01: printed documents are well-formed and scan back to what was printed, operations not allowed are refused
#if PART==0
#include "print.hpp"
#include "sized.hpp"
#include <textwolf/ostreamoutput.hpp>
#include <sstream>
using namespace print;
MC_PROPERTY("W01")
enum {OpHeader,OpHeaderS,OpDoctype,OpDoctypeP,OpDoctypeS,OpDoctypeBad,OpOpenA,OpOpenB,OpAttrX,OpAttrY,OpValV,OpValM,OpValE,OpClose,OpExit,NofOps};
static const char* opName[NofOps]={"header","header(standalone)","doctype","doctype(PUBLIC)","doctype(SYSTEM)","doctype(PUBLIC without SYSTEM)","open(a)","open(bcd)","attribute(x)","attribute(yz)","value(v)","value(markup)","value()","close","exitTagContext"};
static const U& vMarkup(){ static const U s=U"<\"&\n'> \u00e9"; return s; }
struct Session
{
	int cs, as; std::unique_ptr<Printer> p; std::string out; Items want; std::vector<U> stk; int st; bool judged, doctype, rootdone; std::set<int> used; // st 0 begin, 1 content, 2 attribute, 3 in tag
	Session(int c, int a, bool sub):cs(c),as(a),p(makePrinter(c,a,sub)),st(sub?1:0),judged(true),doctype(false),rootdone(false){}
	U nm(int op){ return op==OpOpenA?U(U"a"):op==OpOpenB?U(U"bcd"):op==OpAttrX?U(U"x"):U(U"yz"); }
	U val(int op){ return op==OpValV?U(U"v"):op==OpValM?fit(as,fit(cs,vMarkup())):U(); }
	// returns what the model says: allowed or not; skip: the operation is not judged here
	enum Ans {No,Yes,Skip};
	Ans model(int op)
	{
		switch (op)
		{
			case OpHeader: case OpHeaderS: if (st!=0) return No; st=1; want.push_back(Item{B::HeaderStart,u("?xml")}); want.push_back(Item{B::HeaderAttribName,u("version")}); want.push_back(Item{B::HeaderAttribValue,u("1.0")}); want.push_back(Item{B::HeaderAttribName,u("encoding")}); want.push_back(Item{B::HeaderAttribValue,u(op==OpHeader?"UTF-8":csName(cs))}); if (op==OpHeaderS) { want.push_back(Item{B::HeaderAttribName,u("standalone")}); want.push_back(Item{B::HeaderAttribValue,u("yes")}); } want.push_back(Item{B::HeaderEnd,U()}); return Yes;
			case OpDoctype: case OpDoctypeP: case OpDoctypeS: if (st!=1||!stk.empty()) return No; if (doctype||rootdone) return Skip; doctype=true; want.push_back(Item{B::DocAttribValue,u("DOCTYPE")}); want.push_back(Item{B::DocAttribValue,u("a")}); if (op==OpDoctypeP) { want.push_back(Item{B::DocAttribValue,u("PUBLIC")}); want.push_back(Item{B::DocAttribValue,u("pub id")}); } if (op==OpDoctypeS) want.push_back(Item{B::DocAttribValue,u("SYSTEM")}); if (op!=OpDoctype) want.push_back(Item{B::DocAttribValue,u("sys/id")}); want.push_back(Item{B::DocAttribEnd,U()}); return Yes;
			case OpDoctypeBad: return No;
			case OpOpenA: case OpOpenB: if (st==0||st==2) return No; if (rootdone) return Skip; st=3; used.clear(); stk.push_back(nm(op)); want.push_back(Item{B::OpenTag,nm(op)}); return Yes;
			case OpAttrX: case OpAttrY: if (st!=3) return No; if (!used.insert(op).second) return Skip; st=2; want.push_back(Item{B::TagAttribName,nm(op)}); return Yes;
			case OpValV: case OpValM: case OpValE: if (st==0) return No; if (st==2) { st=3; want.push_back(Item{B::TagAttribValue,val(op)}); return Yes; } if (stk.empty()) return Skip; st=1; want.push_back(Item{B::Content,val(op)}); return Yes;
			case OpClose: if (stk.empty()||st==2) return No; st=1; want.push_back(Item{B::CloseTag,stk.back()}); stk.pop_back(); if (stk.empty()) rootdone=true; return Yes;
			default: if (st==0||st==2) return No; st=1; return Yes;
		}
	}
	Ans ask(int op){ Items w=want; std::vector<U> k=stk; int t=st; bool d=doctype, r=rootdone; std::set<int> us=used; Ans a=model(op); want=w; stk=k; st=t; doctype=d; rootdone=r; used=us; return a; }
	bool real(int op)
	{
		switch (op)
		{
			case OpHeader: return p->header(0,0,out);
			case OpHeaderS: return p->header(csName(cs),"yes",out);
			case OpDoctype: case OpDoctypeP: case OpDoctypeS: case OpDoctypeBad: { std::string a=enc(as,u("a")), pu=enc(as,u("pub id")), sy=enc(as,u("sys/id")); return p->doctype(a.c_str(),op==OpDoctypeP||op==OpDoctypeBad?pu.c_str():0,op==OpDoctypeP||op==OpDoctypeS?sy.c_str():0,out); }
			case OpOpenA: case OpOpenB: return p->open(enc(as,nm(op)),out);
			case OpAttrX: case OpAttrY: return p->attribute(enc(as,nm(op)),out);
			case OpValV: case OpValM: case OpValE: return p->value(enc(as,val(op)),out);
			case OpClose: return p->close(out);
			default: return p->exit(out);
		}
	}
	void complete(){ if (st==2) apply(OpValV); while (!stk.empty()) apply(OpClose); }
	bool apply(int op)
	{
		Ans a=model(op); if (a==Skip) return false; std::size_t n=out.size(); bool r=real(op);
		if (a==No&&r) throw mc::Violation(std::string(opName[op])+" is not refused, printed '"+mc::esc(out.substr(n))+"'");
		if (a==No&&out.size()!=n) throw mc::Violation(std::string(opName[op])+" refused but printed '"+mc::esc(out.substr(n))+"'");
		if (a==Yes&&!r) throw mc::Violation(std::string(opName[op])+" is refused"+(p->lasterror()?std::string(": ")+p->lasterror():std::string()));
		return true;
	}
};
static bool charptr(int as){ return as==U8||as==ISO1; }   // document type ids are 0-terminated byte strings
static void sess(mc::Choice& c, int cs, int as, int depth)
{
	bool sub=c.flip(); Session s(cs,as,sub); std::string txt; auto ops=[&](int n){ for (int i=0;i<n;i++) { int op=c.pick(NofOps); if (!charptr(as)&&op>=OpDoctype&&op<=OpDoctypeBad) { c.outcome(1); return false; } if (sub&&op<=OpHeaderS) return false; txt+=" "; txt+=opName[op]; c.show(std::string(csName(cs))+" from "+csName(as)+(sub?" sub document:":":")+txt); if (!s.apply(op)) return false; c.step(); } return true; };
	if (!ops(depth)) return; s.complete(); if (s.rootdone) check(cs,s.out,s.want); c.trace(); c.state(mc::hcomb(mc::hcomb(s.st+s.stk.size()*8,mc::hstr(s.out)),cs*16+as)); c.outcome(mc::hcomb(s.rootdone,s.want.size()));
}
static void sequences(mc::Choice& c){ sess(c,U8,U8,c.thorough()?7:5); }
static void encodings(mc::Choice& c)
{
	int cs=c.pick(NofCs), as=c.pick(8), depth=c.thorough()?4:3; sess(c,cs,as,depth);
}
// well-formed documents, deeper: only allowed operations, all of them
static void allowed(mc::Choice& c)
{
	int n=c.thorough()?11:10; Session s(U8,U8,true); std::string txt; for (int i=0;i<n;i++) { std::vector<int> l; if (s.st==2) l={OpValV,OpValM}; else if (s.stk.empty()&&!s.rootdone) l={OpOpenA}; else if (s.rootdone) break; else { l={OpClose,OpOpenB,OpValV}; if (s.st==3) { if (!s.used.count(OpAttrX)) l.push_back(OpAttrX); if (!s.used.count(OpAttrY)) l.push_back(OpAttrY); } if (s.stk.size()<4) l.push_back(OpOpenA); } int op=c.of(l); txt+=" "; txt+=opName[op]; c.show(txt); if (!s.apply(op)) c.fail("not accepted by the model"); c.step(); }
	s.complete(); check(U8,s.out,s.want); c.trace(); c.state(mc::hstr(s.out)); c.outcome(s.want.size());
}
// after a reset the printer behaves as a new one
static void resets(mc::Choice& c)
{
	typedef Session S; int n=c.pick(c.thorough()?4:3); S s(U8,U8,c.flip()); std::string txt; for (int i=0;i<n;i++) { int op=c.pick(NofOps); txt+=" "; txt+=opName[op]; s.real(op); } bool sub=c.flip(); S t(U8,U8,sub); t.p->assign(*s.p); t.p->reset(sub); txt+=" reset"; int m=c.thorough()?3:2; bool ok=true; for (int i=0;i<m&&ok;i++) { int op=c.pick(NofOps); txt+=" "; txt+=opName[op]; c.show(txt); if (sub&&op<=OpHeaderS) return; ok=t.apply(op); c.step(); }
	if (!ok) return; t.complete(); if (t.rootdone) check(U8,t.out,t.want); c.trace(); c.state(mc::hcomb(mc::hstr(t.out),mc::hstr(txt))); c.outcome(t.want.size());
}
// refused operations do not matter: every position of an allowed sequence, every sequence of up to 2 refused operations
static void refusals(mc::Choice& c)
{
	typedef Session S; static const std::vector<std::vector<int> > seqs={{OpHeader,OpDoctypeS,OpOpenA,OpAttrX,OpValM,OpOpenB,OpValV,OpClose,OpClose},{OpHeaderS,OpDoctypeP,OpOpenA,OpOpenB,OpAttrX,OpValE,OpAttrY,OpValV,OpClose,OpValM,OpExit,OpClose},{OpHeader,OpDoctype,OpOpenB,OpExit,OpOpenA,OpAttrX,OpValV,OpExit,OpValV,OpOpenA,OpClose,OpClose,OpClose}};
	const std::vector<int>& q=c.of(seqs); S s(U8,U8,false), ref(U8,U8,false); for (int op:q) ref.apply(op); std::string txt; std::size_t at=c.pick(q.size()+1), at2=c.pick(q.size()+1); for (std::size_t i=0;i<=q.size();i++) { for (int k=0;k<2;k++) if (i==(k?at2:at)) { int n=1+c.pick(c.thorough()?2:1); for (int j=0;j<n;j++) { int op=c.pick(NofOps); S::Ans a; a=s.ask(op); if (a!=S::No) { op=OpDoctypeBad; } txt+=" !"; txt+=opName[op]; c.show(txt); s.apply(op); c.step(); } } if (i<q.size()) { txt+=" "; txt+=opName[q[i]]; c.show(txt); s.apply(q[i]); } }
	if (s.out!=ref.out) c.fail("printed '"+mc::esc(s.out)+"' instead of '"+mc::esc(ref.out)+"'"); check(U8,s.out,s.want); c.trace(); c.state(mc::hstr(txt)); c.outcome(at*16+at2);
}
// other buffers
static void buffers(mc::Choice& c)
{
	std::string out; std::vector<char> vec; char mem[4096]; textwolf::StaticBuffer sb(mem,sizeof(mem)); textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF8,std::string> p(true); textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF8,std::vector<char> > pv(true); textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF8,textwolf::StaticBuffer> ps(true); textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF8,textwolf::OstreamOutput> po(true); std::ostringstream os; textwolf::OstreamOutput oo(&os); std::string txt, m=enc(U8,vMarkup()); int n=c.thorough()?6:5;
	for (int i=0;i<n;i++) { int op=c.pick(5); bool r[4]; txt+=" "+std::to_string(op); switch (op) { case 0: r[0]=p.printOpenTag("a",1,out); r[1]=pv.printOpenTag("a",1,vec); r[2]=ps.printOpenTag("a",1,sb); r[3]=po.printOpenTag("a",1,oo); break; case 1: r[0]=p.printAttribute("x",1,out); r[1]=pv.printAttribute("x",1,vec); r[2]=ps.printAttribute("x",1,sb); r[3]=po.printAttribute("x",1,oo); break; case 2: r[0]=p.printValue(m.data(),m.size(),out); r[1]=pv.printValue(m.data(),m.size(),vec); r[2]=ps.printValue(m.data(),m.size(),sb); r[3]=po.printValue(m.data(),m.size(),oo); break; case 3: r[0]=p.printCloseTag(out); r[1]=pv.printCloseTag(vec); r[2]=ps.printCloseTag(sb); r[3]=po.printCloseTag(oo); break; default: r[0]=p.exitTagContext(out); r[1]=pv.exitTagContext(vec); r[2]=ps.exitTagContext(sb); r[3]=po.exitTagContext(oo); } c.show("buffers"+txt); c.step(3); if (r[0]!=r[1]||r[0]!=r[2]||r[0]!=r[3]||os.str()!=out||std::string(vec.begin(),vec.end())!=out||std::string(sb.ptr(),sb.size())!=out) c.fail("another document in another kind of buffer"); }
	c.trace(); c.state(mc::hstr(out)); c.outcome(out.size());
}
// lengths and numbers of everything
static void sizes(mc::Choice& c)
{
	static const int kinds[]={0,1,2,4,11,12,13,17,18,9}; int k=kinds[c.pick(10)]; std::size_t N=c.of(sized::numbers(c.thorough())); static const int big[]={U8,U16B}; int cs=N<=70?(int)c.pick(NofCs):big[c.pick(N>1100&&!c.thorough()?1:2)], as=(N<=70||N<=9000&&k!=13)&&c.flip()?(int)U16L:(int)U8; c.show(std::string(sized::kindName(k))+" "+std::to_string(N)+" "+csName(cs)+" from "+csName(as)); if (k==9&&as!=U8) return;
	U d; std::vector<sized::Ev> ev; sized::doc(k,N,d,ev); std::unique_ptr<Printer> p(makePrinter(cs,as,k!=9)); std::string out; Items want; std::vector<U> stk; bool ok=true; std::size_t n=0;
	if (k==9) { ok=p->header(0,0,out); std::string t=enc(U8,sized::text(N)); want=Items(); { std::unique_ptr<Printer> q(makePrinter(cs,as,false)); std::string o; q->header(0,0,o); std::string a=enc(U8,u("r")); q->open(a,o); q->close(o); U x=dec(cs,o); Parser pr(x); for (auto& i:pr()) if (i.t<=B::HeaderEnd) want.push_back(i); }
		ok=ok&&p->doctype(t.c_str(),t.c_str(),t.c_str(),out); U tt=sized::text(N); want.push_back(Item{B::DocAttribValue,u("DOCTYPE")}); want.push_back(Item{B::DocAttribValue,tt}); want.push_back(Item{B::DocAttribValue,u("PUBLIC")}); want.push_back(Item{B::DocAttribValue,tt}); want.push_back(Item{B::DocAttribValue,tt}); want.push_back(Item{B::DocAttribEnd,U()}); }
	for (auto& e:ev)
	{
		U x=fit(cs,e.s); bool ends=false;
		switch (e.t) { case B::OpenTag: ok=p->open(enc(as,x),out); stk.push_back(x); break; case B::TagAttribName: ok=p->attribute(enc(as,x),out); break; case B::TagAttribValue: case B::Content: ok=p->value(enc(as,x),out); break; case B::CloseTag: case B::CloseTagIm: ok=p->close(out); x=stk.back(); stk.pop_back(); ends=true; break; default: continue; }
		if (!ok) c.fail("operation "+std::to_string(n)+" is refused"); want.push_back(Item{ends?(int)B::CloseTag:(int)e.t,x}); n++;
	}
	if (p->close(out)) c.fail("closing more than opened is not refused"); Items w=merged(want); U t=dec(cs,out); Parser pr(t); const Items* g; try { g=&pr(); } catch (const mc::Violation& v) { c.fail(v.msg.substr(0,120)); throw; }
	auto cmp=[&](const Items& x, const char* what){ std::size_t i=0; while (i<x.size()&&i<w.size()&&x[i]==w[i]) i++; if (i<x.size()||i<w.size()) c.fail(std::string(what)+": item "+std::to_string(i)+" of "+std::to_string(x.size())+" differs from what was printed ("+std::to_string(w.size())+" items)"); }; cmp(*g,"read strictly"); cmp(scanBack(cs,out),"scanned back");
	c.step(n); c.trace(); c.state(mc::hstr(out)); c.outcome(k);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"sequences",sequences,0,0,3,"all sequences of 5 (thorough 7) of 15 operations (2 headers, 4 document types, 2 tags, 2 attributes, 3 values, close, exitTagContext), with and without header required; then completed and read back"},
	{"encodings",encodings,0,0,4,"all sequences of 3 (thorough 4) operations, completed, in all 16 document encodings and 8 application encodings"},
	{"allowed",allowed,0,0,4,"all sequences of up to 10 (thorough 11) allowed operations with nesting up to 5"},
	{"resets",resets,0,0,3,"all sequences of up to 2 (thorough 3) operations, reset, 2 (thorough 3) operations"},
	{"refusals",refusals,0,0,3,"3 documents with a refused operation (thorough: up to 2) put in at every pair of positions"},
	{"sizes",sizes,0,0,3,"printed documents with 10 kinds of parts (names, values, contents, ids of the document type, attributes, siblings, levels) of 102 (thorough: 1140) lengths and numbers up to 65537 (262146), up to 70 in all 16 encodings, from 2 application encodings"},
	{"buffers",buffers,0,0,2,"all sequences of 5 (thorough 6) of 5 operations printed to std::string, std::vector, StaticBuffer and a stream"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"names are not empty and consist of name characters, an attribute is printed once per element; contents and elements behind or before the root element, a second document type, header of a sub document are not judged","printDoctype ids are 0-terminated byte strings, so they are only used with byte encodings of the application","a refused operation returns false; lasterror() is not judged"}; }
}
#endif
