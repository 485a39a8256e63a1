// S12: every failure and token type has its own stable, correct name and message
#include "corpus.hpp"
#include <textwolf/staticbuffer.hpp>
#include <textwolf/xmlhdrparser.hpp>
#include <sstream>
using namespace tw;
MC_PROPERTY("S12")
typedef textwolf::charset::UTF8 CS;
typedef textwolf::XMLScanner<textwolf::CStringIterator,CS,CS,std::string> SC;
struct E { int code; const char* msg; };
static const E errs[]={{1,"illegal document attribute definition"},{2,"expected open tag"},{3,"expected XML tag"},{4,"unexpected end of text"},{5,"syntax token"},{6,"string not terminated"},{7,"undefined character entity"},{8,"expected tag end"},{9,"expected equal"},{10,"expected tag attribute"},{11,"expected CDATA tag"},{12,"internal (illegal state)"},{13,"unexpected end of input"},{14,"expected end of line"},{15,"expected 2nd '-' to complete marker for start of comment '<!--'"}};
static const char* names[]={"None","ErrorOccurred","HeaderStart","HeaderAttribName","HeaderAttribValue","HeaderEnd","DocAttribValue","DocAttribEnd","TagAttribName","TagAttribValue","OpenTag","CloseTag","CloseTagIm","Content","Exit"};
static const char* causes[]={"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState","InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam","IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation","FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack","CodePageIndexNotSupported"};
static std::string msg(int code){ return code>0&&code<16?errs[code-1].msg:std::string("(code ")+std::to_string(code)+")"; }
// ---------------- iterating and direct calls agree
struct It { int type; std::string name, content, error; bool valid, haserr; int code; };
static std::vector<Tok> direct(const std::string& b, std::vector<std::string>& msgs)
{
	Mem m(b); SC sc(textwolf::CStringIterator(m.p,(unsigned)m.n)); Toks r; for (;;) { int t=sc.nextItem(); Tok k{t,"",0,0}; if (t==B::ErrorOccurred) { const char* s="?"; k.err=sc.getError(&s); msgs.push_back(s?s:"(null)"); if (sc.getError()!=B::Ok) throw mc::Violation("error code is not reset by reading it"); r.push_back(k); return r; } k.s.assign(sc.getItemPtr(),sc.getItemSize()); if (sc.getItem()!=k.s) throw mc::Violation("getItem differs from getItemPtr/getItemSize"); r.push_back(k); if (t==B::Exit) return r; if (r.size()>tokLimit(b.size())) throw mc::Violation("tokens without end"); }
}
static std::vector<It> iterate(const std::string& b, int style)
{
	Mem m(b); SC sc(textwolf::CStringIterator(m.p,(unsigned)m.n)); std::vector<It> r; SC::iterator e=sc.end(), i=(style&1)?sc.begin(false):sc.begin(); if (style&1) ++i; 
	auto take=[&](const SC::iterator& x)->bool { const SC::iterator::Element& el=*x; It k; k.type=el.type(); k.name=el.name(); k.valid=el.valid(); k.haserr=el.error()!=0; k.error=el.error()?el.error():""; k.content=el.content()?std::string(el.content(),el.size()):"(null)"; k.code=0; if (x->type()!=el.type()||x->content()!=el.content()||x->size()!=el.size()) throw mc::Violation("operator-> differs from operator*"); if (k.type==B::ErrorOccurred) { k.code=sc.getError(); if (std::string(el.content()?el.content():"")!=k.error) throw mc::Violation("content of the error item is not the error"); } r.push_back(k); return k.type!=B::ErrorOccurred&&k.type!=B::Exit; };
	for (;;)
	{
		bool atend=(i==e); if (atend==(i!=e)) throw mc::Violation("== and != of the iterator agree"); if (atend!=(i->type()==B::Exit)) throw mc::Violation("comparison with the end iterator is wrong"); 
		SC::iterator k(i), l; l=i; if (k->type()!=i->type()||l->size()!=i->size()) throw mc::Violation("copy of the iterator differs");
		if (!take(style&2?k:i)) return r; if (r.size()>tokLimit(b.size())) throw mc::Violation("items without end");
		if (style&4) { SC::iterator o=i++; if (o->type()!=r.back().type) throw mc::Violation("postincrement does not return the former item"); } else ++i;
	}
}
static void judge(mc::Choice& c, const std::string& b, int expect)
{
	c.show(b); std::vector<std::string> ms; Toks d=direct(b,ms); int code=d.back().err;
	if (d.back().t==B::ErrorOccurred)
	{
		if (code<=0||code>15) c.fail("error code "+std::to_string(code)+" is no error"); if (ms.back().empty()||ms.back()!=msg(code)) c.fail("error "+std::to_string(code)+" has the message '"+ms.back()+"'");
		if (code==B::ErrInternal) c.fail("internal error reported for a document");
		const char* s=textwolf::XMLScannerBase::getErrorString((B::Error)code); if (!s||ms.back()!=s) c.fail("getErrorString and getError disagree");
	}
	if (expect>=0&&code!=expect) c.fail("reported '"+msg(code)+"' instead of '"+msg(expect)+"'");
	for (int style=0;style<8;style++)
	{
		std::vector<It> v=iterate(b,style); if (v.size()!=d.size()) c.fail("iterating delivers "+std::to_string(v.size())+" items, direct calls "+std::to_string(d.size()));
		for (std::size_t i=0;i<v.size();i++)
		{
			const It& x=v[i]; const Tok& y=d[i]; if (x.type!=y.t||x.name!=names[y.t]) c.fail("item "+std::to_string(i)+" is "+x.name+" by iterator, "+names[y.t]+" by direct call"); if (x.valid!=(y.t!=B::Exit&&y.t!=B::ErrorOccurred)) c.fail("valid() is wrong for "+x.name); if (x.haserr!=(y.t==B::ErrorOccurred)) c.fail("error() is wrong for "+x.name);
			if (y.t==B::ErrorOccurred) { if (x.error!=msg(code)) c.fail("the iterator reports '"+x.error+"' instead of '"+msg(code)+"'"); if (x.code!=code) c.fail("after iterating getError reports "+std::to_string(x.code)+" instead of "+std::to_string(code)); }
			else if (x.content!=y.s&&y.t!=B::Exit) c.fail("the iterator delivers '"+x.content+"' instead of '"+y.s+"'");
		}
	}
	c.step(d.size()); c.trace(); c.state(mc::hstr(b)); c.outcome(hash(d));
}
struct Case { const char* text; int code; };
static const Case cases[]={{"x<a/>",2},{" ><a/>",2},{"&<a/>",2},{"<?xm version='1'?>",5},{"<?yml?>",5},{"<?xMl?>",5},{"<?xmlx ?>",3},{"<?xml= ?>",3},{"<?xml version?>",9},{"<?xml version '1'?>",9},{"<?xml version !'1'?>",9},{"<?xml version='1<?>",6},{"<?xml version=\"1<?>",6},{"<?xml version='1'x?>",10},{"<?xml version=1=x?>",10},{"<?xml version='1'?x>",8},{"<?xml version='&foo;'?>",7},
	{"<a b='1'c='2'/>",10},{"<a b=\"1\"c='2'/>",10},{"<a b='1'!>",10},{"<a!b/>",10},{"<a=b/>",10},{"<a'b'/>",10},{"<a><b c></a>",9},{"<a b c='1'/>",9},{"<a b/>",9},{"<a b!='x'/>",9},{"<a b='1<c/>",6},{"<a b=\"1<c/>",6},{"<a></a b>",8},{"<a></a!>",8},{"<a></a/>",8},{"<a></a='x'>",8},{"<a/b>",8},{"<a/!>",8},{"<a b=c!/>",10},{"<a b=c'd'/>",10},{"<a><!-x--></a>",15},{"<!-x",15},{"<!->",15},{"<a><![CDAT[x]]></a>",5},{"<a><![cdata[x]]></a>",5},{"<a><![CDATAx]]></a>",11},{"<a><![CDATA]></a>",11},{"<a><![CDATA [></a>",11},
	{"<!DOCTYPE a=b>",1},{"<!DOCTYPE a'b'>",1},{"<!DOCTYPE a/>",1},{"<!DOCTYPE 'a<b>",6},{"<!DOCTYPE a \"a<b>",6},{"<a>x&foo;y</a>",7},{"<a b='x&foo;y'/>",7},{"<a b=\"&ampx;\"/>",7},{"<!DOCTYPE '&foo;'>",7}};
static void specific(mc::Choice& c)
{
	unsigned n=sizeof(cases)/sizeof(cases[0]); const Case& k=cases[c.pick(n)]; static const std::vector<std::string> pre={"","<?xml version='1.0'?>","<r>","<!-- c -->","<r a='b'>x","\r\n "}, suf={"","<x/>","&bar;","<"}; const std::string& p=c.of(pre); std::string t=k.text; int code=k.code;
	if (code==2&&p!=""&&p!="\r\n ") return; if (t.substr(0,2)=="<?"&&p!=""&&p!="\r\n ") return; 
	std::string s=c.of(suf); judge(c,p+t+s,code);
}
static void contexts(mc::Choice& c)
{
	static const std::vector<std::string> ctx={"","<","<?","<?x","<?xml","<?xml a","<?xml a ","<?xml a=","<?xml a='b","<?xml a='b'","<?xml a='b'?","<!","<!-","<!--","<!-- -","<!-- --","<![","<![CDATA","<![CDATA[","<![CDATA[]","<![CDATA[]]","<!D","<!D ","<!D 'x","<!D x","<!D [x","<a","<a ","<a b","<a b ","<a b=","<a b='x","<a b='x'","<a b=x","<a/","</","</a","</a ","<a>","<a>x","<a>&","<a>&foo","<a>&#1","<a><?p","<a><?p ?","<a/>"};
	static const std::vector<std::string> al={"<",">","/","&","&foo;","'","\"","=","?","!","-","[","]","a"," ","\n","\xc3\xa9","\x01",";","#"}; std::string s=c.of(ctx); int n=c.pick(c.thorough()?5:4); for (int i=0;i<n;i++) s+=c.of(al);
	judge(c,s,-1);
}
static void documents(mc::Choice& c){ const corpus::Doc& d=c.of(corpus::docs()); std::string b=enc(U8,d.text); std::size_t n=c.pick(b.size()+1); judge(c,b.substr(0,n),-1); }
// ---------------- tables
static void tables(mc::Choice& c)
{
	int i=c.pick(15); std::string n=textwolf::XMLScannerBase::getElementTypeName((B::ElementType)i); c.show("element type "+std::to_string(i)); if (n!=names[i]) c.fail("is named "+n+" instead of "+names[i]);
	const char* s=textwolf::XMLScannerBase::getErrorString((B::Error)(i+1)); if (!s||std::string(s)!=errs[i].msg) c.fail("error "+std::to_string(i+1)+" has the message '"+std::string(s?s:"(null)")+"'");
	for (int j=0;j<16;j++) for (int k=j+1;k<16;k++) { const char *a=textwolf::XMLScannerBase::getErrorString((B::Error)j),*b=textwolf::XMLScannerBase::getErrorString((B::Error)k); if ((j&&!a)||!b||(a&&!strcmp(a,b))) c.fail("messages of errors are not distinct"); }
	c.step(); c.trace(); c.state(i); c.outcome(mc::hstr(n));
}
// ---------------- exceptions: all sequences of copy and assignment
static void check(mc::Choice& c, const textwolf::exception& e, int cause){ const std::exception& s=e; if (e.cause!=cause) c.fail("cause is "+std::to_string(e.cause)+" instead of "+std::to_string(cause)); if (!s.what()||std::string(s.what())!=causes[cause]) c.fail("cause "+std::string(causes[cause])+" is described as "+std::string(s.what()?s.what():"(null)")); c.step(); }
static void exceptions(mc::Choice& c)
{
	int a=c.pick(17), b=c.pick(17); textwolf::exception x((textwolf::exception::Cause)a), y((textwolf::exception::Cause)b); check(c,x,a); check(c,y,b); int op=c.pick(4); c.show(std::string(causes[a])+", "+causes[b]+" op "+std::to_string(op));
	if (op==0) { textwolf::exception z(x); x=y; check(c,z,a); check(c,x,b); check(c,y,b); } else if (op==1) { y=x; x=y; check(c,x,a); check(c,y,a); } else if (op==2) { try { try { throw x; } catch (const std::runtime_error& r) { throw; } } catch (textwolf::exception& z) { check(c,z,a); z=y; check(c,z,b); } } else { try { throw textwolf::exception(x); } catch (const std::exception& s) { if (std::string(s.what())!=causes[a]) c.fail("what() is "+std::string(s.what())); } }
	c.trace(); c.state(a*100+b*4+op); c.outcome(a);
}
struct Stm :public textwolf::ScannerStatemachine { };
struct FailStream :public textwolf::IStream { std::size_t read(void*,std::size_t){ return 0; } int errorcode() const { return 5; } };
// ---------------- exceptions raised by the library name their own cause
static void raised(mc::Choice& c)
{
	typedef textwolf::throws_exception X; int k=c.pick(19); int want=-1, got=-1; std::string what; c.show("situation "+std::to_string(k));
	try
	{
		switch (k)
		{
			case 0: want=X::CodePageIndexNotSupported; { textwolf::charset::IsoLatin i(0); } break;
			case 1: want=X::CodePageIndexNotSupported; { textwolf::charset::IsoLatin i(10); } break;
			case 2: want=X::FileReadError; { FailStream f; textwolf::IStreamIterator i(&f); } break;
			case 3: want=X::DimOutOfRange; { textwolf::StaticBuffer b(4); b.push_back('x'); b.at(1); } break;
			case 4: want=X::DimOutOfRange; { textwolf::StaticBuffer b(4); b[0]; } break;
			case 5: want=X::IllegalParam; { textwolf::SrcIterator a("abc",3),b("de",2); (void)(a-b); } break;
			case 6: want=X::IllegalParam; { textwolf::SrcIterator a("abc",3),b(a); ++b; (void)(a-b); } break;
			case 7: want=X::StateNumbersNotAscending; { Stm s; s[0]; s[2]; } break;
			case 8: want=X::DuplicateStateTransition; { Stm s; s[0](textwolf::Lt,1)(textwolf::Lt,1); } break;
			case 9: want=X::InvalidParamState; { Stm s; s[0](textwolf::Lt,1000); } break;
			case 10: want=X::InvalidParamChar; { Stm s; s[0]((textwolf::ControlCharacter)99,0); } break;
			case 11: want=X::InvalidState; { Stm s; s.miss(1); } break;
			case 12: want=X::InvalidState; { Stm s; s[0].miss(1).miss(2); } break;
			case 13: want=X::InvalidState; { Stm s; s[0].fallback(0).fallback(0); } break;
			case 14: want=X::InvalidState; { Stm s; s[0].action(1,1).action(1,1); } break;
			case 15: want=X::InvalidParamState; { Stm s; s[0].fallback(-5); } break;
			case 16: want=X::IllegalXmlHeader; { textwolf::XmlHdrParser h; std::string z(16,'\0'); h.putInput(z.data(),z.size()); h.parse(); } break;
			case 17: want=X::InvalidState; { Stm s; s.get(3); } break;
			case 18: want=X::DimOutOfRange; { Stm s; for (int i=0;i<100;i++) s[i]; } break;
		}
	}
	catch (const textwolf::exception& e) { got=e.cause; what=e.what(); }
	if (got<0) c.fail("no exception raised"); if (got!=want) c.fail(std::string("raised ")+what+" instead of "+causes[want]); if (what!=causes[want]) c.fail(std::string(causes[want])+" is described as "+what); c.step(); c.trace(); c.state(k); c.outcome(want);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"specific-errors",specific,0,0,2,"56 malformed constructs in 6 environments: specific code and message"},
	{"contexts",contexts,0,0,2,"45 scanner contexts x all continuations of up to 3 (thorough: 4) of 20 symbols: code, message and iterator interface (8 ways of iterating) agree with direct calls"},
	{"documents",documents,0,0,2,"every corpus document truncated at every byte: iterator interface and direct calls agree"},
	{"tables",tables,0,0,1,"names of all element types, messages of all errors"},
	{"exceptions",exceptions,0,0,2,"all pairs of causes, copies and assignments"},
	{"raised",raised,0,0,1,"19 situations in which the library raises an exception"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"names and messages are those of the current documentation (enum names) and tables","IsoLatin pages 1..9 are the supported ones"}; }
}
