// S10: a failing read is reported as a failure, never as end of document
#include "corpus.hpp"
#include <sstream>
#include <fstream>
#include <cerrno>
#include <unistd.h>
#include <sys/stat.h>
using namespace tw;
MC_PROPERTY("S10")
typedef textwolf::IStreamIterator IT;
static const char* uiname[]={"nextItem","scanner iterator","TextScanner","stream iterator"};
// what was delivered, and how it ended
struct Out { std::vector<std::string> items; int end=0; int cause=-1; std::string other; std::string what; };   // end: 1 regular end, 2 error item, 3 textwolf exception, 4 other exception
template <class CS> static void use(int ui, int cs, textwolf::IStream* s, std::size_t bufsize, std::size_t limit, Out& o)
{
	auto add=[&](const std::string& x){ o.items.push_back(x); if (o.items.size()>limit) throw mc::Violation("items without end"); };
	typedef textwolf::XMLScanner<IT,CS,textwolf::charset::UTF8,std::string> SC;
	try
	{
		IT it(s,bufsize);
		if (ui==0)
		{
			SC sc(Make<CS>::make(cs),it); for (;;) { int t=sc.nextItem(); if (t==B::Exit) { o.end=1; return; } if (t==B::ErrorOccurred) { add("error "+std::to_string(sc.getError())); o.end=2; return; } add(std::string(tname(t))+":"+std::string(sc.getItemPtr(),sc.getItemSize())); }
		}
		else if (ui==1)
		{
			SC sc(Make<CS>::make(cs),it); typename SC::iterator i=sc.begin(), e=sc.end(); for (;i!=e;++i) { if (i->type()==B::ErrorOccurred) { add(std::string("error ")+i->error()); o.end=2; return; } add(std::string(i->name())+":"+std::string(i->content(),i->size())); } o.end=1;
		}
		else if (ui==2)
		{
			textwolf::TextScanner<IT,CS> ts(Make<CS>::make(cs),it); for (;;) { uint32_t x=ts.chr(); if (!x) { o.end=1; return; } add(std::to_string(x)); ++ts; }
		}
		else { for (std::size_t n=0;;n++) { char x=*it; if (!x && n>=limit-20-(limit-20)/5*4) {} add(std::string(1,x)); if (o.items.size()+1>=limit) { o.end=1; return; } ++it; } }
	}
	catch (const textwolf::exception& e) { o.end=3; o.cause=e.cause; o.what=e.what(); }
	catch (const mc::Violation&) { throw; }
	catch (const std::exception& e) { o.end=4; o.other=e.what(); }
	catch (...) { o.end=4; o.other="unknown"; }
}
static Out run(int ui, int cs, textwolf::IStream* s, std::size_t bufsize, std::size_t limit){ Out o; TW_DISPATCH(cs,use<CS>(ui,cs,s,bufsize,limit,o)); return o; }
static std::size_t limitOf(int ui, const std::string& b){ return ui==3?b.size()+3:tokLimit(b.size()); }   // the plain iterator is followed 2 positions behind the end
static const Out& reference(int ui, int cs, const std::string& b);

// ---------- faults at read calls of a user defined stream
struct FaultStream :public textwolf::IStream
{
	const std::string& d; std::size_t pos=0; unsigned calls=0, at, partial; int code, cur=0; bool hit=false; unsigned maxread;
	FaultStream(const std::string& d_, unsigned at_, unsigned partial_, int code_, unsigned maxread_):d(d_),at(at_),partial(partial_),code(code_),maxread(maxread_){}
	std::size_t read(void* p, std::size_t n)
	{
		bool f=++calls==at; std::size_t r=std::min<std::size_t>(std::min(n,d.size()-pos),maxread); if (f) { hit=true; r=std::min<std::size_t>(r,partial); cur=code; } else cur=hit?code:0; if (hit&&!f) r=0;
		memcpy(p,d.data()+pos,r); pos+=r; return r;
	}
	int errorcode() const { return cur; }
};
// ---------- faults at byte offsets of a std::istream
struct Broken { };
struct FaultBuf :public std::streambuf
{
	const std::string& d; std::size_t pos=0, at, block; int how, err=EIO; bool hit=false; char b[64];
	FaultBuf(const std::string& d_, std::size_t at_, std::size_t block_, int how_):d(d_),at(at_),block(block_),how(how_){ setg(b,b,b); }
	int_type underflow()
	{
		if (gptr()<egptr()) return traits_type::to_int_type(*gptr());
		if (pos>=at) { hit=true; errno=how&1?err:0; switch (how>>1) { case 0: throw std::runtime_error("broken"); case 1: throw Broken(); default: throw std::ios_base::failure("broken"); } }
		std::size_t n=std::min(std::min(block,d.size()-pos),at-pos); if (!n) return traits_type::eof();
		memcpy(b,d.data()+pos,n); pos+=n; setg(b,b,b+n); return traits_type::to_int_type(*gptr());
	}
};
static const Out& reference(int ui, int cs, const std::string& b)
{
	static std::map<std::string,Out> cache; if (cache.size()>3000) cache.clear(); std::string k=std::to_string(ui*100+cs)+":"+b; auto i=cache.find(k); if (i!=cache.end()) return i->second;
	FaultStream s(b,0,0,0,1000); return cache[k]=run(ui,cs,&s,64,limitOf(ui,b));
}
static void check(mc::Choice& c, const Out& o, const Out& ref, bool hit)
{
	std::string last=o.items.empty()?"nothing":"'"+o.items.back()+"' as last of "+std::to_string(o.items.size())+" items";
	if (!hit) { if (o.end!=ref.end||o.items!=ref.items) c.fail("no fault was hit, but delivered "+last+" and ended with "+std::to_string(o.end)+" "+o.what+o.other); }
	else
	{
		if (o.end!=3) c.fail(o.end==4?"the failure is raised as "+o.other:"the failure was presented as "+std::string(o.end==1?"regular end":"error in the document")+", delivered "+last);
		if (o.cause!=textwolf::throws_exception::FileReadError||o.what!="FileReadError") c.fail("raised "+o.what+" instead of FileReadError");
		if (o.items.size()>ref.items.size()) c.fail("more items delivered than without failure: "+last);
		for (std::size_t i=0;i<o.items.size();i++) if (o.items[i]!=ref.items[i]) c.fail("delivered '"+o.items[i]+"' before the failure, without failure '"+ref.items[i]+"'");
	}
	c.step(o.items.size()+1); c.trace(); uint64_t h=o.end; for (auto& x:o.items) h=mc::hcomb(h,mc::hstr(x)); c.outcome(h);
}
static std::size_t nd(){ return corpus::docs().size()+corpus::micro().size(); }
static std::string dtext(std::size_t i, int cs){ return enc(cs,fit(cs,i<corpus::docs().size()?corpus::docs()[i].text:corpus::micro()[i-corpus::docs().size()])); }
static void calls(mc::Choice& c)
{
	static const int q[]={U8,U16L,C4B,ISO1}; int cs=q[c.pick(c.thorough()?4:2)]; std::string b=dtext(c.pick(nd()),cs); int ui=c.pick(4); static const std::vector<unsigned> bs={1,2,3,7,64,8192}; unsigned bufsize=c.of(bs); unsigned maxread=c.pick(c.thorough()?3:2); maxread=maxread==0?100000:maxread==1?1:5; unsigned per=std::min(bufsize,maxread);
	if (maxread<100000&&bufsize<=maxread) return;
	unsigned total=(b.size()+per-1)/per+3, at=1+c.pick(total), partial=c.pick(std::min(bufsize,3u)+1>3?3:2), pv=partial==2?100000:partial;
	static const std::vector<int> codes={EIO,EISDIR,-1}; int code=c.devof(codes);
	c.show(std::string(uiname[ui])+" "+csName(cs)+" buffer "+std::to_string(bufsize)+" reads of "+std::to_string(per)+", fault at read "+std::to_string(at)+" delivering "+std::to_string(pv)+" bytes: "+b);
	FaultStream s(b,at,pv,code,maxread); Out o=run(ui,cs,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,cs,b),s.hit); c.state(mc::hcomb(mc::hstr(b,ui*64+cs),((uint64_t)at*16+partial)*20000+bufsize*3+maxread));
}
static void offsets(mc::Choice& c)
{
	static const int q[]={U8,U16L,C4B,ISO1}; int cs=q[c.pick(c.thorough()?4:2)]; std::string b=dtext(c.pick(nd()),cs); int ui=c.pick(4); static const std::vector<unsigned> bs={1,2,5,64,8192}; unsigned bufsize=c.of(bs); std::size_t at=c.pick(b.size()+1), block=1+c.pick(2)*12; int how=c.pick(6);
	c.show(std::string(uiname[ui])+" "+csName(cs)+" buffer "+std::to_string(bufsize)+", std::istream with stream buffer of "+std::to_string(block)+" raising ("+std::to_string(how)+") at byte "+std::to_string(at)+": "+b);
	FaultBuf fb(b,at,block,how); std::istream is(&fb); textwolf::StdInputStream s(is); Out o=run(ui,cs,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,cs,b),fb.hit); c.state(mc::hcomb(mc::hstr(b,ui*64+cs),((uint64_t)at*16+how)*20000+bufsize*3+block));
}
// large blocks: the failure is in the second, third block
static void blocks(mc::Choice& c)
{
	int ui=c.pick(4); std::string b="<a>"; for (int i=0;i<3000;i++) b+="<b c='d'>xyz</b>"; b+="</a>"; static const std::vector<unsigned> bs={8192,4096,1000,65536}; unsigned bufsize=c.of(bs); int kind=c.pick(2);
	if (kind) { unsigned at=1+c.pick(b.size()/bufsize+3); FaultStream s(b,at,c.pick(2)*100000,EIO,1000000); c.show("fault at read "+std::to_string(at)+" of blocks of "+std::to_string(bufsize)+" by "+uiname[ui]); Out o=run(ui,U8,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,U8,b),s.hit); c.state(at*100000+bufsize+ui); }
	else { std::size_t at=c.pick(30)*bufsize/4; if (at>b.size()) return; at+=c.pick(3); if (at) --at; FaultBuf fb(b,at,1+c.pick(2)*62,c.pick(6)); std::istream is(&fb); textwolf::StdInputStream s(is); c.show("fault at byte "+std::to_string(at)+", blocks of "+std::to_string(bufsize)+" by "+uiname[ui]); Out o=run(ui,U8,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,U8,b),fb.hit); c.state(mc::hcomb(at,bufsize*4+ui)); }
}
// every error code of the system
static void codes(mc::Choice& c)
{
	static const std::vector<int> more={-1,-2147483647-1,2147483647,256,65536,511,512,1000}; int k=c.pick(140+more.size()), code=k<140?k+1:more[k-140], ui=c.pick(4), kind=c.pick(4); std::string b="<a x='y'>text &amp; text<b/>more of it</a>"; static const std::vector<unsigned> bs={1,8,8192}; unsigned bufsize=c.of(bs); unsigned at=c.pick(4); c.show("error code "+std::to_string(code)+" at "+std::to_string(at)+" by "+uiname[ui]+" buffer "+std::to_string(bufsize)+" kind "+std::to_string(kind));
	if (kind==3) { unsigned n=1+at*((b.size()/bufsize+2)/4); FaultStream s(b,n,c.pick(2)*100000,code,1000000); Out o=run(ui,U8,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,U8,b),s.hit); }
	else { FaultBuf fb(b,at*13,5,kind*2+1); fb.err=code; std::istream is(&fb); textwolf::StdInputStream s(is); Out o=run(ui,U8,&s,bufsize,limitOf(ui,b)); check(c,o,reference(ui,U8,b),fb.hit); }
	c.state(mc::hcomb(code,(ui*4+kind)*100000+bufsize*4+at));
}
// real files: a directory can be opened but not read, a good file
static void files(mc::Choice& c)
{
	int what=c.pick(3), ui=c.pick(4); static const std::vector<unsigned> bs={1,16,8192}; unsigned bufsize=c.of(bs); char dir[]="/tmp/mcS10XXXXXX"; if (!mkdtemp(dir)) return; std::string fn=std::string(dir)+"/f"; std::string b="<a b='c'>"+std::string(20000,'x')+"</a>"; { std::ofstream f(fn.c_str()); f<<b; }
	const char* w[]={"file","directory","missing file"}; c.show(std::string(w[what])+" by "+uiname[ui]); std::string msg;
	{
		std::ifstream f(what==1?dir:what==2?(fn+"x").c_str():fn.c_str()); Out o;
		try { textwolf::StdInputStream s(f); o=run(ui,U8,&s,bufsize,limitOf(ui,b)); } catch (const std::exception& e) { o.end=3; o.cause=textwolf::throws_exception::FileReadError; o.what="FileReadError"; }   // raised already when opening: the failure is not hidden
		unlink(fn.c_str()); rmdir(dir);
		check(c,o,reference(ui,U8,b),what!=0);
	}
	c.state(what*100000+ui*10000+bufsize);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"read-calls",calls,1,1,3,"every corpus document in 2 (thorough: 4) encodings, 4 interfaces, 6 buffer sizes, failure at every read call including those behind the end, delivering no, one or all bytes, 3 error codes"},
	{"stream-offsets",offsets,0,0,3,"std::istream whose stream buffer raises at every byte offset: 3 types of exceptions, with and without errno, 5 buffer sizes, 4 interfaces"},
	{"blocks",blocks,0,0,2,"document of 48 KB in blocks of 1000..65536 bytes, failures at every block and around block boundaries"},
	{"error-codes",codes,0,0,2,"148 error codes in errno and of streams, raised in 3 ways or reported, at 4 places, 3 buffer sizes, 4 interfaces"},
	{"files",files,0,0,2,"directory, missing and good file"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"after a failure has been raised the behaviour of further requests is not judged"}; }
}
