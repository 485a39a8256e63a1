// Objects of all classes of the library behind one interface: they are used in steps, copied and assigned
#pragma once
#include "path.hpp"
#include "hdr.hpp"
#include <textwolf/xmlprinter.hpp>
#include <textwolf/xmlpathautomatonparse.hpp>
#include <textwolf/ostreamoutput.hpp>
#include <sstream>
namespace obj {
using namespace tw;
using path::Doc; using path::Ev; using path::Atm; using path::Sel;
struct Obj
{
	virtual ~Obj(){}
	virtual bool step(std::string& log)=0;        // false: nothing more to do
	virtual std::string now()=0;            // what can be seen without a step
	virtual Obj* clone() const=0;
	virtual void assign(const Obj& o)=0;
};
template <class D> struct Base :Obj { Obj* clone() const { return new D(static_cast<const D&>(*this)); } void assign(const Obj& o){ static_cast<D&>(*this)=static_cast<const D&>(o); } };
inline std::string num(unsigned long long x){ return std::to_string(x); }
inline const textwolf::XMLScannerBase& dummy();
typedef std::map<const char*,textwolf::UChar> EMap;
inline const EMap& entities(int which=0){ static EMap m[2]; if (m[0].empty()) { m[0]["euro"]=0x20ac; m[0]["x"]='X'; m[1]["x"]=0xe9; m[1]["nope"]='!'; m[1]["euro"]='E'; } return m[which]; }
// ---------------------------------------------------------------- documents
inline const std::vector<U>& docs()
{
	static const std::vector<U> v={
		U"<a x='1'>t\u00e9\u0141\u0152\u0126"+U(1,0x3fffffe)+U(1,0x7ffffffe)+U"</a>",
		U"<?xml version='1.0'?><!DOCTYPE a SYSTEM \"s\"><a x='1&amp;&#65;' y=\"&euro;\"> t&lt;\r\nu<![CDATA[c]]>v<b/><!-- c --><?p i?>&#x20ac;</a>\n",
		U"<a><b>x</b><b z=''>y&x;</b></a>",
		U"<a x='1'>t&nope;</a>",
		U"<a x=1 y><b"};
	return v;
}
// characters with five and six bytes in UTF-8 (ISO 10646) only there
inline U fitAll(int cs, const U& s){ U r; for (uint32_t x:s) r+=x>0x10ffff&&cs==U8?U(1,x):fit(cs,U(1,x)); return r; }
inline std::shared_ptr<Mem> docmem(int cs, unsigned i)
{
	static std::map<std::pair<int,unsigned>,std::shared_ptr<Mem> > m; std::shared_ptr<Mem>& r=m[std::make_pair(cs,i)]; if (!r) r.reset(new Mem(enc(cs,fitAll(cs,docs()[i])))); return r;
}
inline const unsigned nofDocs=5;
template <class SC> std::string itemOf(SC& sc){ return std::string(sc.getItemPtr(),sc.getItemSize())+"@"+num(sc.getTokenPosition()); }
template <class SC> bool scanStep(SC& sc, int t, std::string& log){ log=tname(t); if (t==B::ErrorOccurred) { log+=num(sc.getError()); return false; } log+=itemOf(sc); return t!=B::Exit; }
// ---------------------------------------------------------------- scanner on memory
template <class IN, class OUT, class BUF> struct Scan :Base<Scan<IN,OUT,BUF> >
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,BUF> SC; std::shared_ptr<Mem> m; SC sc; bool done=false;
	Scan(int cs, unsigned d, int em=0):m(docmem(cs,d)),sc(Make<IN>::make(cs),textwolf::CStringIterator(m->p,(unsigned)m->n),entities(em)){}
	bool step(std::string& log){ if (done) return false; int t=sc.nextItem(); done=!scanStep(sc,t,log); return true; }
	std::string now(){ return itemOf(sc)+" "+num(sc.getPosition()); }
};
// scanner fed in chunks. The jump buffer belongs to the caller, all objects use the same
inline jmp_buf& eom(){ static thread_local jmp_buf b; return b; }
template <class IN, class OUT> struct ScanChunks :Base<ScanChunks<IN,OUT> >
{
	typedef textwolf::XMLScanner<textwolf::SrcIterator,IN,OUT,std::string> SC; std::shared_ptr<Mem> m; SC sc; std::size_t pos=0, chunk; bool done=false, end=false;
	ScanChunks(int cs, unsigned d, std::size_t ch):m(docmem(cs,d)),sc(Make<IN>::make(cs),textwolf::SrcIterator(),entities()),chunk(ch){ feed(); }
	void feed(){ if (pos>=m->n) { end=true; sc.getIterator().putInput("",0,0); return; } std::size_t n=std::min(chunk,m->n-pos); sc.getIterator().putInput(m->p+pos,n,&eom()); pos+=n; }
	int next(){ if (setjmp(eom())!=0) return NEED; return sc.nextItem(); }
	bool step(std::string& log){ if (done) return false; int t=next(); if (t==NEED) { log="NEED"; if (end) throw mc::Violation("more input requested after the end"); feed(); return true; } done=!scanStep(sc,t,log); return true; }
	std::string now(){ return itemOf(sc); }
};
// scanner on a stream that has been read into the buffer
template <class IN, class OUT> struct ScanStream :Base<ScanStream<IN,OUT> >
{
	typedef textwolf::XMLScanner<textwolf::IStreamIterator,IN,OUT,std::string> SC; struct S { std::istringstream is; textwolf::StdInputStream in; S(const std::string& s):is(s),in(is){} }; std::shared_ptr<S> s; SC sc; bool done=false;
	ScanStream(int cs, unsigned d):s(new S(std::string(docmem(cs,d)->p,docmem(cs,d)->n))),sc(Make<IN>::make(cs),textwolf::IStreamIterator(&s->in,1024)){}
	bool step(std::string& log){ if (done) return false; int t=sc.nextItem(); done=!scanStep(sc,t,log); return true; }
	std::string now(){ return itemOf(sc)+" "+num(sc.getPosition()); }
};
// ---------------------------------------------------------------- reader
template <class IN> struct Reader :Base<Reader<IN> >
{
	typedef textwolf::TextScanner<textwolf::CStringIterator,IN> TS; std::shared_ptr<Mem> m; TS ts; bool done=false; int per;
	Reader(int cs, unsigned d, int p):m(docmem(cs,d)),ts(Make<IN>::make(cs),textwolf::CStringIterator(m->p,(unsigned)m->n)),per(p){}
	bool step(std::string& log){ if (done) return false; for (int i=0;i<per;i++) { log+=num((int)ts.control())+","+num(ts.ascii())+","+num(ts.chr())+"@"+num(ts.getPosition())+" "; if (ts.chr()==0) { done=true; return true; } ++ts; } return true; }
	std::string now(){ return num(ts.getPosition()); }
};
// reader used in single calls: objects with a character read only in part, or not yet decoded
template <class IN> struct Calls :Base<Calls<IN> >
{
	typedef textwolf::TextScanner<textwolf::CStringIterator,IN> TS; std::shared_ptr<Mem> m; TS ts; IN out; int order; unsigned n=0; bool done=false;
	Calls(int cs, int o):m(new Mem(enc(cs,fitAll(cs,U"<\u00e9\U0001D11E"+U(1,0x3fffffe)+U(1,0x7ffffffe)+U"\u0141\u0152z")))),ts(Make<IN>::make(cs),textwolf::CStringIterator(m->p,(unsigned)m->n)),out(Make<IN>::make(cs)),order(o){}
	bool step(std::string& log)
	{
		static const char* orders[]={"cvs","vcs","pvs","aps","s","cps"}; const char* o=orders[order]; if (done||n>60) return false; char x=o[n++%std::strlen(o)];
		switch (x) { case 'c': log="c"+num((int)ts.control()); break; case 'a': log="a"+num(ts.ascii()); break; case 'v': { unsigned v=ts.chr(); log="v"+num(v); if (!v) done=true; break; } case 'p': { std::string b; ts.copychar(out,b); log="p"+b; break; } default: if (ts.chr()==0) done=true; else { ++ts; log="s"; } }
		log+="@"+num(ts.getPosition()); return true;
	}
	std::string now(){ return num(ts.getPosition()); }
};
// ---------------------------------------------------------------- source iterators
struct CStr :Base<CStr> { std::shared_ptr<Mem> m; textwolf::CStringIterator i; int n=0; CStr(unsigned d):m(docmem(U8,d)),i(m->p,(unsigned)m->n){} bool step(std::string& log){ if (n>20) return false; for (int k=0;k<3;k++) { log+=num(*i)+"@"+num(i.pos())+" "; ++i; } n++; return true; } std::string now(){ return num(*i)+"@"+num(i.pos()); } };
struct SrcI :Base<SrcI> { std::shared_ptr<Mem> m; textwolf::SrcIterator i; int n=0; SrcI(unsigned d):m(docmem(U8,d)),i(m->p,std::min<std::size_t>(20,m->n),0){} bool step(std::string& log){ if (n>10) return false; if (n==5) i.putInput(m->p+3,12,0); for (int k=0;k<2;k++) { log+=num(*i)+"@"+num(i.position())+","+num(i.getPosition())+","+num(i.endOfChunk())+" "; ++i; } n++; return true; } std::string now(){ return num(*i)+"@"+num(i.position()); } };
struct StrI :Base<StrI> { struct S { std::istringstream is; textwolf::StdInputStream in; S(const std::string& s):is(s),in(is){} }; std::shared_ptr<S> s; textwolf::IStreamIterator i; int n=0; StrI(unsigned d):s(new S(std::string(docmem(U8,d)->p,docmem(U8,d)->n))),i(&s->in,512){} bool step(std::string& log){ if (n>12) return false; for (int k=0;k<3;k++) { log+=num(*i)+"@"+num(i.position())+" "; ++i; } n++; return true; } std::string now(){ return num(*i)+"@"+num(i.position()); } };
// ---------------------------------------------------------------- header parser
struct Hdr :Base<Hdr>
{
	textwolf::XmlHdrParser p; std::string s; std::size_t pos=0, chunk; bool done=false;
	Hdr(const std::string& x, std::size_t c):s(x),chunk(c){}
	bool step(std::string& log){ if (done||pos>=s.size()) return false; { Mem m(s.substr(pos,chunk)); p.putInput(m.p,m.n); pos+=m.n; } hdr::Res r=hdr::step(p); log=hdr::show(r)+(p.lasterror()?p.lasterror():""); done=r.r!=hdr::More; return true; }
	std::string now(){ return std::string(p.encoding()?p.encoding():"-")+" "+(p.lasterror()?p.lasterror():"-")+" "+p.consumedData()+" "+num(p.charsConsumed()); }
};
// ---------------------------------------------------------------- printer
template <class IO, class AP> struct Print :Base<Print<IO,AP> >
{
	textwolf::XMLPrinter<IO,AP,std::string> p; int as, variant; unsigned n=0; std::string out;
	Print(int cs, int a, int v):p(Make<IO>::make(cs),v!=0),as(a),variant(v){}
	bool step(std::string& log)
	{
		static const std::vector<std::string> ops[3]={{"H","D","Oroot","Ax","V1<","Ab","V","Ob","Vt\"&","C","C!","C"},{"Oa","O"+std::string(120,'n'),"O"+std::string(130,'m'),"Ob","C","Vx","C","C","Aq","C","Oc","C"},{"Oa","Ob","Oc","H","Vt","C","Od","Ax","C","Vv","C","C","C","C"}};
		const std::vector<std::string>& o=ops[variant]; if (n>=o.size()) return false; std::string x=o[n++], a=enc(as,fit(as,ustr(x.substr(1))+(x[0]=='V'?U(1,0x105):U()))); std::size_t l=out.size(); bool r=false; switch (x[0]) { case 'H': r=p.printHeader(0,"yes",out); break; case 'D': r=p.printDoctype("r",0,"s",out); break; case 'O': r=p.printOpenTag(a.data(),a.size(),out); break; case 'A': r=p.printAttribute(a.data(),a.size(),out); break; case 'V': r=p.printValue(a.data(),a.size(),out); break; default: r=p.printCloseTag(out); }
		log=num(r)+out.substr(l); return true;
	}
	std::string now(){ return num(p.state())+out+(p.lasterror()?p.lasterror():""); }
};
struct PrintStream :Base<PrintStream>   // printer to a stream
{
	textwolf::XMLPrinter<textwolf::charset::UTF8,textwolf::charset::UTF8,textwolf::OstreamOutput> p; std::shared_ptr<std::ostringstream> os; unsigned n=0; PrintStream():p(true),os(new std::ostringstream()){} PrintStream(const PrintStream& o):p(o.p),os(new std::ostringstream()),n(o.n){ *os<<o.os->str(); } PrintStream& operator=(const PrintStream& o){ p=o.p; std::string x=o.os->str(); os.reset(new std::ostringstream()); *os<<x; n=o.n; return *this; }
	bool step(std::string& log){ textwolf::OstreamOutput out(os.get()); std::size_t l=os->str().size(); bool r; switch (n++) { case 0: r=p.printOpenTag("a",1,out); break; case 1: r=p.printAttribute("x",1,out); break; case 2: r=p.printValue("\"<\xc3\xa9",4,out); break; case 3: r=p.printValue("t",1,out); break; case 4: r=p.printCloseTag(out); break; default: return false; } log=num(r)+os->str().substr(l); return true; }
	std::string now(){ return os->str()+num(p.state()); }
};
struct Stack :Base<Stack>
{
	textwolf::TagStack s; unsigned n=0; int variant; explicit Stack(int v):variant(v){}
	bool step(std::string& log){ static const int ops[3][12]={{1,7,8,-1,9,240,-1,-1,248,1,-1,-1},{100,100,300,600,-1,-1,-1,-1,5,1000,3,-1},{248,1,-1,-1,0,256,8,-2,4,-1,-1,17}}; if (n>=12) return false; int o=ops[variant][n]; if (o>=0) { std::string x(o,(char)('a'+n)); s.push(x.data(),x.size()); } else if (o==-1) s.pop(); else s.clear(); n++; log=now(); return true; }
	std::string now(){ const void* p=0; std::size_t k=0; textwolf::TagStack c(s); std::string r; while (c.top(p,k)) { r+=num(k)+":"+std::string((const char*)p,k)+" "; c.pop(); if (r.size()>100000) throw mc::Violation("stack without end"); } { const void* q=0; std::size_t kk=0; if (s.top(q,kk)!=(r.size()!=0)||(r.size()&&num(kk)+":"+std::string((const char*)q,kk)+" "!=r.substr(0,num(kk).size()+kk+2))) throw mc::Violation("top of the stack differs from the top of its copy"); } return r+num(s.empty()); }
};
// ---------------------------------------------------------------- buffer
struct Buf :Base<Buf>
{
	std::shared_ptr<char> mem; textwolf::StaticBuffer b; unsigned n=0; int variant; Buf(int v, bool ext):mem(ext?new char[8]:0,[](char* p){ delete[] p; }),b(ext?textwolf::StaticBuffer(mem.get(),8):textwolf::StaticBuffer(8)),variant(v){}
	Buf(const Buf& o):mem(),b(o.b),n(o.n),variant(o.variant){}
	bool step(std::string& log){ static const char* ops[3][10]={{"pa","pb","aXYZ","r2","pc","a12345","pq","c","pz","aZ"},{"a","aAB","aCDE","r0","r3","pk","r20","aLM","pl","r1"},{"aABCDEFGH","pI","r5","pJ","aKLM","aN","c","aOP","r1","pQ"}}; if (n>=10) return false; std::string o=ops[variant][n++]; switch (o[0]) { case 'p': b.push_back(o[1]); break; case 'a': b.append(o.data()+1,o.size()-1); break; case 'c': b.clear(); break; default: b.resize(atoi(o.c_str()+1),'_'); } if (b.size()) b.at(0)=b[0]; log=now(); return true; }
	std::string now(){ std::string r(b.ptr(),b.size()); for (std::size_t i=0;i<b.size();i++) if (b[i]!=r[i]||b.at(i)!=r[i]) throw mc::Violation("[] and at() differ from the content"); return r+" "+num(b.size())+num(b.overflow()); }
};
// ---------------------------------------------------------------- path selection
inline const std::vector<Doc>& pathdocs()
{
	static const std::vector<Doc> v={
		{{B::OpenTag,"a"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::OpenTag,"b"},{B::Content,"t"},{B::CloseTag,"b"},{B::OpenTag,"b"},{B::TagAttribName,"x"},{B::TagAttribValue,"2"},{B::CloseTagIm,""},{B::Content,"u"},{B::CloseTag,"a"}},
		{{B::OpenTag,"a"},{B::OpenTag,"a"},{B::Content,"t"},{B::OpenTag,"b"},{B::OpenTag,"a"},{B::Content,"t"},{B::CloseTag,"a"},{B::Content,"u"},{B::CloseTag,"b"},{B::CloseTag,"a"},{B::Content,"v"},{B::CloseTag,"a"}}};
	return v;
}
inline void addExpr(Atm& atm, unsigned i)
{
	typedef Atm::PathElement E; switch (i)
	{
		case 0: (*atm)["a"]["b"]()=1; break; case 1: (*atm)--["a"]=2; break; case 2: { E p=*atm; p["a"](); p.INDEX(1); p=3; break; } case 3: (*atm)["a"]("x")=4; break; case 4: (*atm)--["b"].selectCloseTag().assignType(5); break; case 5: (*atm)["a"]("x","1")=6; break; case 6: (*atm)--()=7; break; case 7: { E p=*atm; p--; p["b"]; p--; p("x"); p=8; break; } case 8: (*atm)["a"]["a"]["b"]--()=9; break; default: { E p=*atm; p--; p(); p.RANGE(0,1); p=10; } }
}
inline const unsigned nofExprs=10;
struct Selection :Base<Selection>
{
	std::shared_ptr<Atm> atm; Sel s; unsigned n=0, d; Selection(const std::shared_ptr<Atm>& a, unsigned doc):atm(a),s(a.get()),d(doc){}
	bool step(std::string& log){ const Doc& x=pathdocs()[d]; if (n>=x.size()) return false; std::vector<int> r; path::pushAll(s,x[n++],r); for (int k:r) log+=num(k)+" "; return true; }
	std::string now(){ return num(n); }
};
inline std::shared_ptr<Atm> sharedAtm(unsigned v){ static std::map<unsigned,std::shared_ptr<Atm> > m; std::shared_ptr<Atm>& a=m[v]; if (!a) { a.reset(new Atm()); for (unsigned i=0;i<nofExprs;i++) addExpr(*a,v?nofExprs-1-i:i); } return a; }
inline std::string select(const Atm& a){ std::string r; for (auto& d:pathdocs()) { Sel s(&a); for (auto& e:d) { std::vector<int> v; path::pushAll(s,e,v); for (int k:v) r+=num(k)+","; r+="|"; } r+=" "; } return r; }
struct Automaton :Base<Automaton>
{
	Atm a; unsigned n=0, from; explicit Automaton(unsigned f):from(f){}
	bool step(std::string& log){ if (n>=6) return false; addExpr(a,(from+n)%nofExprs); n++; log=now(); return true; }
	std::string now(){ return n?select(a):""; }
};
struct Parser :Base<Parser>
{
	typedef textwolf::XMLPathSelectAutomatonParser<> AP; AP a; unsigned n=0, from; explicit Parser(unsigned f):from(f){}
	bool step(std::string& log){ static const char* x[]={"/a/b()","//a","//b~","/a[1]()","//@x","/a[@x='1']/b","/a/","//()"}; if (n>=6) return false; std::string e=x[(from+n)%8]; int r=a.addExpression(n+1,e.data(),e.size()); n++; log=num(r)+now(); return true; }
	std::string now(){ return n?select(a):""; }
};
// ---------------------------------------------------------------- all of them
struct Kind { const char* name; unsigned variants; Obj* (*make)(unsigned v); };
typedef textwolf::charset::UTF8 K8; typedef textwolf::charset::UTF16BE K16B; typedef textwolf::charset::UTF16LE K16L; typedef textwolf::charset::IsoLatin KI; typedef textwolf::charset::UCS4LE K4L; typedef textwolf::charset::UCS2BE K2B; typedef textwolf::charset::UCS4BE K4B;
inline const std::vector<Kind>& kinds()
{
	static const std::vector<Kind> v={
		{"scanner UTF-8",nofDocs*2,[](unsigned v)->Obj*{ return new Scan<K8,K8,std::string>(U8,v<nofDocs?(v+2)%nofDocs:(v-nofDocs+2)%nofDocs,v>=nofDocs); }},
		{"scanner UTF-16BE to ISO-8859-1 vector",nofDocs,[](unsigned v)->Obj*{ return new Scan<K16B,KI,std::vector<char> >(U16B,v); }},
		{"scanner ISO-8859-2/15 to UTF-16LE",nofDocs*2,[](unsigned v)->Obj*{ return new Scan<KI,K16L,std::string>(v<nofDocs?ISO2:ISO9,v%nofDocs); }},
		{"scanner UTF-8 in chunks",nofDocs*2,[](unsigned v)->Obj*{ return new ScanChunks<K8,K8>(U8,v%nofDocs,v<nofDocs?3:7); }},
		{"scanner UCS-4LE in chunks",nofDocs,[](unsigned v)->Obj*{ return new ScanChunks<K4L,K8>(C4L,v,13); }},
		{"scanner UCS-4BE to UTF-16BE in chunks",nofDocs,[](unsigned v)->Obj*{ return new ScanChunks<K4B,K16B>(C4B,(v+1)%nofDocs,9); }},
		{"scanner on stream",nofDocs,[](unsigned v)->Obj*{ return new ScanStream<K8,K8>(U8,v); }},
		{"reader UTF-8",2,[](unsigned v)->Obj*{ return new Reader<K8>(U8,v*2,2); }},
		{"reader UTF-16BE",2,[](unsigned v)->Obj*{ return new Reader<K16B>(U16B,v*2,2); }},
		{"reader UCS-2BE",1,[](unsigned v)->Obj*{ return new Reader<K2B>(C2B,v,1); }},
		{"reader ISO-8859-3/15",2,[](unsigned v)->Obj*{ return new Reader<KI>(v?ISO3:ISO9,0,1); }},
		{"calls of reader UTF-8",6,[](unsigned v)->Obj*{ return new Calls<K8>(U8,v); }},
		{"calls of reader UTF-16LE",6,[](unsigned v)->Obj*{ return new Calls<K16L>(U16L,v); }},
		{"calls of reader UCS-4BE",6,[](unsigned v)->Obj*{ return new Calls<K4B>(C4B,v); }},
		{"calls of reader ISO-8859-2",6,[](unsigned v)->Obj*{ return new Calls<KI>(ISO2,v); }},
		{"CStringIterator",1,[](unsigned v)->Obj*{ return new CStr(0); }},
		{"SrcIterator",2,[](unsigned v)->Obj*{ return new SrcI(v); }},
		{"IStreamIterator",1,[](unsigned v)->Obj*{ return new StrI(0); }},
		{"XmlHdrParser",6,[](unsigned v)->Obj*{ static const std::string s[3]={"<?xml version='1.0' encoding=\"U8\"?>","<?xml encoding='ISO'standalone='no' ?>","<?xml version='1.0' nonsense='1'?>"}; return new Hdr(v<3?s[v]:hdr::wide(s[v-3],U16L),v<3?3:5); }},
		{"printer UTF-8",3,[](unsigned v)->Obj*{ return new Print<K8,K8>(U8,U8,v); }},
		{"printer UTF-16LE to ISO-8859-4",3,[](unsigned v)->Obj*{ return new Print<KI,K16L>(ISO4,U16L,v); }},
		{"printer ISO-8859-2 to UTF-8",3,[](unsigned v)->Obj*{ return new Print<K8,KI>(U8,ISO2,v); }},
		{"printer to stream",1,[](unsigned v)->Obj*{ return new PrintStream(); }},
		{"TagStack",3,[](unsigned v)->Obj*{ return new Stack(v); }},
		{"StaticBuffer",6,[](unsigned v)->Obj*{ return new Buf(v%3,v>=3); }},
		{"path selection",4,[](unsigned v)->Obj*{ return new Selection(sharedAtm(v%2),v/2); }},
		{"path selection automaton",4,[](unsigned v)->Obj*{ return new Automaton(v*2); }},
		{"path expression parser",2,[](unsigned v)->Obj*{ return new Parser(v*3); }}};
	return v;
}
typedef std::vector<std::string> Log;
inline const Log& alone(unsigned k, unsigned v){ static std::map<std::pair<unsigned,unsigned>,Log> m; auto key=std::make_pair(k,v); auto i=m.find(key); if (i!=m.end()) return i->second; Log l; std::unique_ptr<Obj> o(kinds()[k].make(v)); for (;;) { std::string s; if (!o->step(s)) break; l.push_back(s); } return m[key]=l; }
} // namespace obj
