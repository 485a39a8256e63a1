// S09: every input source delivers the same document
#include "corpus.hpp"
#include <sstream>
#include <fstream>
using namespace tw;
MC_PROPERTY("S09")
enum Kind { CharPtr, CStrZ, CStrN, StdStr, Src, SrcChunks, StdStream, ShortReads, NofKinds };
static const char* kname[]={"char*","CStringIterator(char*)","CStringIterator(char*,size)","CStringIterator(std::string)","SrcIterator","SrcIterator in chunks","IStreamIterator(istringstream)","IStreamIterator(short reads)"};
struct How { int kind; std::size_t buf; std::vector<unsigned> reads; bool defaultbuf=false; };
struct Chr { uint32_t c; std::size_t p; };
struct ShortStream :public textwolf::IStream   // delivers the sizes of reads given (cyclic), never more than asked for
{
	std::string d; std::size_t pos=0,k=0; std::vector<unsigned> sz; ShortStream(const std::string& d_, const std::vector<unsigned>& s):d(d_),sz(s){}
	std::size_t read(void* b, std::size_t n){ std::size_t r=std::min(n,d.size()-pos); if (!sz.empty()) r=std::min<std::size_t>(r,sz[k++%sz.size()]); memcpy(b,d.data()+pos,r); pos+=r; return r; }
	int errorcode() const { return 0; }
};
template <class IT> struct Use     // apply a function object to an iterator of type IT on the document
{
	template <class F> static auto go(const How& h, const std::string& b, int un, F f);
};
template <> struct Use<char*> { template <class F> static auto go(const How&, const std::string& b, int un, F f){ Mem m(b+std::string(un,'\0')); char* p=m.p; return f(p); } };
template <> struct Use<textwolf::CStringIterator> { template <class F> static auto go(const How& h, const std::string& b, int, F f)
{
	if (h.kind==CStrZ) { Mem m(b+std::string(1,'\0')); textwolf::CStringIterator i((const char*)m.p); return f(i); }
	if (h.kind==StdStr) { textwolf::CStringIterator i(b); return f(i); }
	Mem m(b); textwolf::CStringIterator i(m.p,(unsigned)m.n); return f(i);
} };
template <> struct Use<textwolf::SrcIterator> { template <class F> static auto go(const How&, const std::string& b, int, F f){ Mem m(b); textwolf::SrcIterator i(m.p,m.n); return f(i); } };
template <> struct Use<textwolf::IStreamIterator> { template <class F> static auto go(const How& h, const std::string& b, int, F f)
{
	std::istringstream is(b); textwolf::StdInputStream si(is); ShortStream ss(b,h.reads); textwolf::IStream* s=h.kind==StdStream?(textwolf::IStream*)&si:&ss;
	if (h.defaultbuf) { textwolf::IStreamIterator i(s); return f(i); } textwolf::IStreamIterator i(s,h.buf); return f(i);
} };
template <class IT> static Toks toks(const How& h, int cs, bool same, const std::string& b)
{
	Toks r;
	TW_DISPATCH(cs, r=(Use<IT>::go(h,b,unit(cs),[&](IT& it)->Toks{
		if (same) { textwolf::XMLScanner<IT,CS,CS,std::string> sc(Make<CS>::make(cs),it); return drain(sc,tokLimit(b.size())); }
		else { textwolf::XMLScanner<IT,CS,textwolf::charset::UTF8,std::string> sc(Make<CS>::make(cs),it); return drain(sc,tokLimit(b.size())); } })));
	return r;
}
template <class IT> static std::vector<Chr> chars(const How& h, int cs, const std::string& b)
{
	std::vector<Chr> r;
	TW_DISPATCH(cs, r=(Use<IT>::go(h,b,unit(cs),[&](IT& it)->std::vector<Chr>{ std::vector<Chr> v; textwolf::TextScanner<IT,CS> s(Make<CS>::make(cs),it);
		for (;;) { std::size_t p=s.getPosition(); uint32_t x=s.chr(); if (s.getPosition()!=p) throw mc::Violation("decoding moves the position"); v.push_back(Chr{x,p}); if (!x) return v; if (v.size()>b.size()+4) throw mc::Violation("characters without end"); ++s; } })));
	return r;
}
Toks toksCharPtr(const How& h, int cs, bool same, const std::string& b); std::vector<Chr> charsCharPtr(const How&, int, const std::string&);
Toks toksCStr(const How& h, int cs, bool same, const std::string& b); std::vector<Chr> charsCStr(const How&, int, const std::string&);
Toks toksSrc(const How& h, int cs, bool same, const std::string& b); std::vector<Chr> charsSrc(const How&, int, const std::string&);
Toks toksIS(const How& h, int cs, bool same, const std::string& b); std::vector<Chr> charsIS(const How&, int, const std::string&);
Toks toksChunks(const How& h, int cs, bool same, const std::string& b); std::vector<Chr> charsChunks(const How&, int, const std::string&);
#if PART==1
Toks toksCharPtr(const How& h, int cs, bool same, const std::string& b){ return toks<char*>(h,cs,same,b); } std::vector<Chr> charsCharPtr(const How& h, int cs, const std::string& b){ return chars<char*>(h,cs,b); }
#elif PART==2
Toks toksCStr(const How& h, int cs, bool same, const std::string& b){ return toks<textwolf::CStringIterator>(h,cs,same,b); } std::vector<Chr> charsCStr(const How& h, int cs, const std::string& b){ return chars<textwolf::CStringIterator>(h,cs,b); }
#elif PART==3
Toks toksSrc(const How& h, int cs, bool same, const std::string& b){ return toks<textwolf::SrcIterator>(h,cs,same,b); } std::vector<Chr> charsSrc(const How& h, int cs, const std::string& b){ return chars<textwolf::SrcIterator>(h,cs,b); }
#elif PART==4
Toks toksIS(const How& h, int cs, bool same, const std::string& b){ return toks<textwolf::IStreamIterator>(h,cs,same,b); } std::vector<Chr> charsIS(const How& h, int cs, const std::string& b){ return chars<textwolf::IStreamIterator>(h,cs,b); }
#elif PART==5
static std::vector<std::size_t> cutsOf(const How& h, std::size_t n){ std::vector<std::size_t> c; std::size_t p=0,k=0; for (;;) { p+=h.reads.empty()?h.buf:h.reads[k++%h.reads.size()]; if (p>=n) return c; c.push_back(p); } }
Toks toksChunks(const How& h, int cs, bool same, const std::string& b){ Toks r; std::vector<std::size_t> cuts=cutsOf(h,b.size()); TW_DISPATCH(cs,r=(same?scanChunks<CS,CS>(cs,b,cuts,Put,false):scanChunks<CS,textwolf::charset::UTF8>(cs,b,cuts,Put,false))); return r; }
template <class CS> static std::vector<Chr> chunkChars(const std::vector<std::size_t>& cuts, int cs, const std::string& b)
{
	typedef textwolf::TextScanner<textwolf::SrcIterator,CS> TS; static std::vector<Chr> v; v.clear(); TS s(Make<CS>::make(cs),textwolf::SrcIterator()); static jmp_buf eom; static volatile std::size_t k; k=0; static volatile std::size_t from; from=0; static std::unique_ptr<Mem> m; static volatile bool atskip; atskip=false; static volatile bool havep; havep=false; static volatile std::size_t pp; pp=0;
	auto feed=[&]{ std::size_t to=k<cuts.size()?cuts[k]:b.size(); bool end=k>cuts.size(); if (k>cuts.size()+1) throw mc::Violation("input requested behind the end"); std::unique_ptr<Mem> n(new Mem(end?std::string():b.substr(from,to-from))); s.getIterator().putInput(n->p,n->n,end?0:&eom); m.swap(n); from=to; k=k+1; };
	feed();
	if (setjmp(eom)) feed();
	for (;;)
	{
		if (!atskip)
		{
			if (!havep) { pp=s.getPosition(); havep=true; }
			uint32_t x=s.chr(); if (s.getPosition()!=pp) throw mc::Violation("decoding moves the position"); v.push_back(Chr{x,pp}); havep=false; if (!x) return v; if (v.size()>b.size()+4) throw mc::Violation("characters without end"); atskip=true;
		}
		++s; atskip=false;
	}
}
std::vector<Chr> charsChunks(const How& h, int cs, const std::string& b){ std::vector<Chr> r; std::vector<std::size_t> cuts=cutsOf(h,b.size()); TW_DISPATCH(cs,r=chunkChars<CS>(cuts,cs,b)); return r; }
#else
static Toks toksOf(const How& h, int cs, bool same, const std::string& b){ switch (h.kind) { case CharPtr: return toksCharPtr(h,cs,same,b); case CStrZ: case CStrN: case StdStr: return toksCStr(h,cs,same,b); case Src: return toksSrc(h,cs,same,b); case SrcChunks: return toksChunks(h,cs,same,b); default: return toksIS(h,cs,same,b); } }
static std::vector<Chr> charsOf(const How& h, int cs, const std::string& b){ switch (h.kind) { case CharPtr: return charsCharPtr(h,cs,b); case CStrZ: case CStrN: case StdStr: return charsCStr(h,cs,b); case Src: return charsSrc(h,cs,b); case SrcChunks: return charsChunks(h,cs,b); default: return charsIS(h,cs,b); } }
static bool applicable(int kind, int cs, const std::string& b)
{
	if (kind==CStrZ) return unit(cs)==1;
	(void)b; return true;
}
static std::string describe(const How& h){ std::string r=kname[h.kind]; if (h.kind>=SrcChunks) { r+=" buffer "+(h.defaultbuf?std::string("default"):std::to_string(h.buf))+" reads"; for (auto x:h.reads) r+=" "+std::to_string(x); } return r; }
static uint64_t hh(const How& h){ uint64_t r=h.kind*1000+h.buf+h.defaultbuf*7777; for (auto x:h.reads) r=mc::hcomb(r,x); return r; }
static void judge(mc::Choice& c, const How& h, int cs, bool same, const std::string& b, bool chr)
{
	c.show(describe(h)+" "+csName(cs)+(same?" raw":"")+(chr?" characters: ":" tokens: ")+(b.size()>400?b.substr(0,200)+"...":b)); How ref; ref.kind=CStrN; ref.buf=0;
	if (chr)
	{
		static std::map<std::string,std::vector<Chr>> cache; if (cache.size()>2000) cache.clear(); std::string k=std::to_string(cs)+":"+b; if (!cache.count(k)) cache[k]=charsOf(ref,cs,b);
		const std::vector<Chr> &w=cache[k]; std::vector<Chr> g=charsOf(h,cs,b); if (g.size()!=w.size()) c.fail(std::to_string(g.size())+" characters instead of "+std::to_string(w.size()));
		for (std::size_t i=0;i<g.size();i++) if (g[i].c!=w[i].c||g[i].p!=w[i].p) c.fail("character "+std::to_string(i)+" is U+"+std::to_string(g[i].c)+" at "+std::to_string(g[i].p)+" instead of U+"+std::to_string(w[i].c)+" at "+std::to_string(w[i].p));
		c.step(g.size()); c.outcome(g.size());
	}
	else
	{
		static std::map<std::string,Toks> cache; if (cache.size()>2000) cache.clear(); std::string k=std::to_string(cs*2+same)+":"+b; if (!cache.count(k)) cache[k]=toksOf(ref,cs,same,b);
		const Toks& w=cache[k]; Toks g=toksOf(h,cs,same,b); bool eq=g.size()==w.size(); for (std::size_t i=0;eq&&i<g.size();i++) eq=g[i].t==w[i].t&&g[i].s==w[i].s&&g[i].err==w[i].err&&(g[i].t>=14||g[i].tp==w[i].tp);
		if (!eq) { if (b.size()<500) c.fail(show(g,true)+" | from a string with length: "+show(w,true)); std::size_t i=0; while (i<g.size()&&i<w.size()&&g[i]==w[i]) ++i; c.fail("token "+std::to_string(i)+" differs: "+(i<g.size()?show(Toks(1,g[i]),true).substr(0,300):"none")+" instead of "+(i<w.size()?show(Toks(1,w[i]),true).substr(0,300):"none")); }
		c.step(g.size()); c.outcome(hash(g));
	}
	c.trace(); c.state(mc::hcomb(mc::hcomb(mc::hstr(b,cs),hh(h)),same*2+chr));
}
static std::size_t nd(){ return corpus::docs().size()+corpus::micro().size(); }
static std::string dtext(std::size_t i, int cs){ return enc(cs,fit(cs,i<corpus::docs().size()?corpus::docs()[i].text:corpus::micro()[i-corpus::docs().size()])); }
// every document, every source, every small buffer size
static void sources(mc::Choice& c)
{
	int cs=c.pick(NofCs); std::string b=dtext(c.pick(nd()),cs); int mode=c.pick(3); How h; h.buf=1; h.kind=c.pick(NofKinds); 
	if (h.kind>=SrcChunks) { unsigned k=c.pick(c.thorough()?24:12); h.buf=k<10?k+1:k==10?b.size():k==11?b.size()+1:k==12?(b.size()?b.size()-1:1):k; if (!h.buf) h.buf=1; }
	if (!applicable(h.kind,cs,b)) return; judge(c,h,cs,mode==1,b,mode==2);
}
// all patterns of short reads
static void reads(mc::Choice& c)
{
	static const int q[]={U8,U16L,C4B,ISO1,U16B}; int cs=q[c.pick(c.thorough()?5:3)]; std::string b=dtext(c.pick(nd()),cs); int mode=c.pick(2)*2; How h; h.kind=c.flip()?ShortReads:SrcChunks; h.buf=1+c.pick(4)*3; if (h.kind==SrcChunks&&h.buf>1) return;
	int per=c.thorough()?5:4; for (int i=0;i<per;i++) h.reads.push_back(1+c.pick(3)); judge(c,h,cs,false,b,mode==2);
}
// documents around the default buffer size: everything straddles the boundary
static void big(mc::Choice& c)
{
	static const std::vector<U> what={U"<b c='d'/>",U"&amp;x",U"\r\n",U"\u00e9\u20ac\U0001D11E",U"<!-- c -->z",U"&#65;",U"</a><a>",U"<?p ?>x"}; int cs=c.thorough()?c.pick(ISO2):c.pick(3); const U& w=c.of(what); std::string e=enc(cs,fit(cs,w)); int off=c.pick(e.size()+1), rounds=1+c.pick(2); bool def=c.flip(); int k=c.pick(2); How h; h.kind=k?ShortReads:StdStream; h.defaultbuf=def; h.buf=4096; std::size_t bs=def?8192:4096;
	if (k&&c.flip()) { h.reads.push_back(bs); h.reads.push_back(1); h.reads.push_back(bs-1); }
	std::string d=enc(cs,U"<a>"); for (int r=1;r<=rounds;r++) { std::size_t to=bs*r-off; to-=(to-d.size())%unit(cs); while (d.size()+unit(cs)<=to) put(cs,'t',d); d+=e; } if (c.flip()) d+=enc(cs,U"</a>"); else { U t(bs/unit(cs),'u'); d+=enc(cs,t); }
	judge(c,h,cs,false,d,false); judge(c,h,cs,false,d,true);
}
// iterators themselves
template <class IT> static void walk(mc::Choice& c, IT& it, const std::string& b, bool diff)
{
	std::vector<IT> old; old.push_back(it);
	for (std::size_t i=0;i<b.size()+3;i++)
	{
		char x=*it; if (x!=(i<b.size()?b[i]:0)) c.fail("byte "+std::to_string(i)+" is "+std::to_string((int)x)); if (*it!=x) c.fail("repeated access differs");
		if (diff && i<b.size()) { for (std::size_t j=0;j<old.size();j++) if ((std::size_t)(it-old[j])!=i-j) c.fail("difference of position "+std::to_string(i)+" and "+std::to_string(j)+" is "+std::to_string((long)(it-old[j]))); if (i) old.push_back(it); }
		IT* r=&++it; if (r!=&it) c.fail("increment does not return the iterator"); c.step();
	}
	c.trace();
}
static void iterators(mc::Choice& c)
{
	static const std::vector<std::string> al={"<",std::string(1,'\0'),"\xff","a"}; std::string b; int n=c.pick(7); for (int i=0;i<n;i++) b+=al[c.pick(4)]; How h; h.kind=c.pick(NofKinds); h.buf=1; if (h.kind>=StdStream) h.buf=1+c.pick(n+2); if (h.kind==ShortReads) for (int i=0;i<3;i++) h.reads.push_back(1+c.pick(3));
	if (h.kind==CharPtr||h.kind==SrcChunks) return; if (h.kind==CStrZ&&b.find('\0')!=std::string::npos) return;
	c.show(describe(h)+" "+b); bool d=c.flip(); if (d&&h.kind>=StdStream&&b.empty()) return;
	if (h.kind<=StdStr) Use<textwolf::CStringIterator>::go(h,b,1,[&](textwolf::CStringIterator& i){ walk(c,i,b,d); return 0; });
	else if (h.kind==Src) Use<textwolf::SrcIterator>::go(h,b,1,[&](textwolf::SrcIterator& i){ walk(c,i,b,d); return 0; });
	else Use<textwolf::IStreamIterator>::go(h,b,1,[&](textwolf::IStreamIterator& i){ walk(c,i,b,d); return 0; });
	c.state(mc::hcomb(mc::hstr(b),hh(h))); c.outcome(mc::hstr(b));
}
// tokens requested directly and with all ways of using an iterator
template <class SC> static Toks styled(SC& sc, int style, std::size_t limit)
{
	typedef typename SC::iterator I; Toks r; auto add=[&](const typename I::Element& e){ Tok k{e.type(),"",0,0}; if (e.type()==B::ErrorOccurred) { k.err=1; if (e.content()) k.s=e.content(); } else if (e.type()!=B::Exit) k.s.assign(e.content(),e.size()); r.push_back(k); return e.valid()&&r.size()<limit; };
	if (style==0) { for (;;) { B::ElementType t=sc.nextItem(); Tok k{t,"",0,0}; if (t==B::ErrorOccurred) { k.err=1; const char* m=0; sc.getError(&m); if (m) k.s=m; } else if (t!=B::Exit) k.s.assign(sc.getItemPtr(),sc.getItemSize()); r.push_back(k); if (t==B::Exit||t==B::ErrorOccurred||r.size()>=limit) return r; } }
	I i=style&4?sc.begin(false):sc.begin(), e=sc.end(); if (style&4) ++i;
	switch (style&3)
	{
		case 0: for (;;++i) if (!add(*i)) return r;
		case 1: for (;;) if (!add(*i++)) return r;                                                        // the value of the increment
		case 2: for (;;) { typename I::Element x=*i++; typename I::Element y; y=x; if (!add(y)) return r; } // and copies of it
		default: { I j; for (;;) { j=i++; I k(j); bool more=add(*k); if (r.back().t!=j->type()||r.back().s.size()>(std::size_t)0&&!r.back().err&&r.back().s!=std::string(j->content(),j->size())) throw mc::Violation("copies of an iterator differ"); if (!more) return r; if (!i->valid()) { add(*i); return r; } j=i; I l=j; if (l->type()!=i->type()) throw mc::Violation("assigned iterator differs"); } }
	}
}
static void styles(mc::Choice& c)
{
	static const std::vector<U> extra=[]{ std::vector<U> v; for (std::size_t n:{1,7,14,15,16,17,31,32,33,100,1000}) for (std::size_t m:{1,15,16,40}) { U d=U"<"+U(n,'n')+U">"+U(m,'t')+U"<b "+U(m,'a')+U"='"+U(n,'v')+U"'/>x</"+U(n,'n')+U">"; v.push_back(d); } v.push_back(U"<a><b/><c x=''></c>&foo;</a>"); v.push_back(U"<a><b c>x</a>"); v.push_back(U"x"); v.push_back(U""); return v; }();
	std::size_t k=c.pick(nd()+extra.size()); bool wide=c.flip(); int src=c.pick(3); std::string b=k<nd()?dtext(k,U8):enc(U8,extra[k-nd()]); c.show(std::string(wide?"to UTF-16: ":"to UTF-8: ")+b); Toks want; std::size_t limit=tokLimit(b.size());
	for (int style=0;style<8;style++)
	{
		Mem m(b); Toks got; std::istringstream is(b); textwolf::StdInputStream si(is);
		using namespace textwolf; typedef charset::UTF8 UC; typedef charset::UTF16LE WC; CStringIterator ci(m.p,(unsigned)m.n); SrcIterator sr(m.p,m.n); 
		if (src==0) { if (wide) { XMLScanner<CStringIterator,UC,WC,std::string> s(ci); got=styled(s,style,limit); } else { XMLScanner<CStringIterator,UC,UC,std::string> s(ci); got=styled(s,style,limit); } }
		else if (src==1) { if (wide) { XMLScanner<SrcIterator,UC,WC,std::string> s(sr); got=styled(s,style,limit); } else { XMLScanner<SrcIterator,UC,UC,std::string> s(sr); got=styled(s,style,limit); } }
		else { IStreamIterator ii(&si,5); if (wide) { XMLScanner<IStreamIterator,UC,WC,std::string> s(ii); got=styled(s,style,limit); } else { XMLScanner<IStreamIterator,UC,UC,std::string> s(ii); got=styled(s,style,limit); } }
		c.step(got.size()); c.trace(); if (!style) { want=got; continue; } if (got.size()!=want.size()) c.fail("style "+std::to_string(style)+": "+show(got)+" instead of "+show(want)); for (std::size_t i=0;i<got.size();i++) if (got[i].t!=want[i].t||got[i].s!=want[i].s) c.fail("style "+std::to_string(style)+": "+show(got)+" instead of "+show(want)); 
	}
	c.state(mc::hstr(b,wide*4+src)); c.outcome(hash(want));
}
// every constructor: the source, character set and entities handed over are the ones used
template <class IT, class IN> static Toks constructed(int cs, int how, const std::map<const char*,textwolf::UChar>* em, IT it, std::size_t limit)
{
	typedef textwolf::XMLScanner<IT,IN,textwolf::charset::UTF8,std::string> SC;
	switch (how)
	{
		case 0: { SC s(Make<IN>::make(cs),it); return drain(s,limit); }
		case 1: { SC s(Make<IN>::make(cs),it,*em); return drain(s,limit); }
		case 2: { SC s(Make<IN>::make(cs)); s.setSource(it); return drain(s,limit); }
		case 3: { SC s(it); return drain(s,limit); }
		case 4: { SC s(it,*em); return drain(s,limit); }
		case 5: { SC s; s.setSource(it); return drain(s,limit); }
		case 6: { SC s(Make<IN>::make(cs),IT(),*em); s.setSource(it); return drain(s,limit); }
		default: { SC s(IT(),*em); s.setSource(it); SC t(s); return drain(t,limit); }
	}
}
template <class IT, class IN> static std::string charsBy(int cs, int how, IT it, std::size_t n)
{
	typedef textwolf::TextScanner<IT,IN> TS; std::string r; auto all=[&](TS& t){ for (std::size_t i=0;i<n+2;i++,++t) { uint32_t x=t.chr(); put(C4B,x,r); r+=std::to_string(t.getPosition())+","; if (!x) return; } };
	switch (how) { case 0: case 1: { TS t(Make<IN>::make(cs),it); all(t); break; } case 2: case 6: { TS t(Make<IN>::make(cs)); t.setSource(it); all(t); break; } default: { TS t(it); all(t); } } return r;
}
static void constructors(mc::Choice& c)
{
	static const std::vector<U> docs={U"<a>&e;</a>",U"<a b='&e;x'/>",U"<a>x\u00e9y</a>",U"<\u00fc \u00e4='\u00e9'>\u00a4\u00bd</\u00fc>",U"<?xml version='1.0'?><a/>",U"<a>&f;</a>",U""};
	int cs=c.pick(NofCs), how=c.pick(8), src=c.pick(4); U d=fit(cs,c.pick(2)?c.of(docs):corpus::docs()[c.pick(corpus::docs().size())].text); std::string b=enc(cs,d); std::map<const char*,textwolf::UChar> em; em["e"]=0xe9; em["foo"]=0x20ac;
	if (how!=0&&how!=1&&how!=2&&how!=6&&cs>=ISO1&&cs!=ISO1) return;       // the character set of the default is code page 1
	c.show(std::string(csName(cs))+" constructor "+std::to_string(how)+" source "+std::to_string(src)+": "+b); std::size_t limit=tokLimit(b.size()); bool withem=how==1||how==4||how>=6; Mem m(b), z(b+std::string(unit(cs),'\0'));
	std::istringstream is(b); textwolf::StdInputStream si(is); Toks t,w; std::string x,y;
	TW_DISPATCH(cs,(w=constructed<textwolf::CStringIterator,CS>(cs,withem?1:0,&em,textwolf::CStringIterator(m.p,(unsigned)m.n),limit),y=charsBy<textwolf::CStringIterator,CS>(cs,0,textwolf::CStringIterator(m.p,(unsigned)m.n),b.size())));
	if (src==0) { TW_DISPATCH(cs,(t=constructed<char*,CS>(cs,how,&em,z.p,limit),x=charsBy<char*,CS>(cs,how,z.p,b.size()))); }
	else if (src==1) { TW_DISPATCH(cs,(t=constructed<textwolf::CStringIterator,CS>(cs,how,&em,textwolf::CStringIterator(m.p,(unsigned)m.n),limit),x=charsBy<textwolf::CStringIterator,CS>(cs,how,textwolf::CStringIterator(m.p,(unsigned)m.n),b.size()))); }
	else if (src==2) { TW_DISPATCH(cs,(t=constructed<textwolf::SrcIterator,CS>(cs,how,&em,textwolf::SrcIterator(m.p,m.n),limit),x=charsBy<textwolf::SrcIterator,CS>(cs,how,textwolf::SrcIterator(m.p,m.n),b.size()))); }
	else { std::istringstream is2(b); textwolf::StdInputStream si2(is2); TW_DISPATCH(cs,(t=constructed<textwolf::IStreamIterator,CS>(cs,how,&em,textwolf::IStreamIterator(&si,7),limit),x=charsBy<textwolf::IStreamIterator,CS>(cs,how,textwolf::IStreamIterator(&si2,7),b.size()))); }
	if (d==U"<a>&e;</a>") { std::string g=show(w), e=withem?"OpenTag'a' Content'\\xc3\\xa9' CloseTag'a' Exit":"OpenTag'a' Error#7"; if (g!=e) c.fail("delivered "+g+" instead of "+e); }
	bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].s==w[i].s&&t[i].err==w[i].err&&(t[i].t>=14||t[i].tp==w[i].tp);
	if (!eq) c.fail("delivered "+show(t,true)+" instead of "+show(w,true)); if (x!=y) c.fail("the characters of TextScanner differ");
	c.step(t.size()); c.trace(); c.state(mc::hcomb(mc::hstr(b,cs),how*4+src)); c.outcome(hash(t));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"sources",sources,0,0,3,"every corpus document in 16 encodings from 8 kinds of sources, buffer or chunk sizes 1..10, document size and size+1 (thorough: 1..23); tokens with positions (decoded and raw copied) and characters with positions"},
	{"short-reads",reads,0,0,3,"all cyclic patterns of 4 (thorough: 5) reads or chunks of 1..3 bytes with 4 buffer sizes, 3 (thorough: 5) encodings"},
	{"block-boundaries",big,0,0,3,"8 constructs at every offset across the boundaries of 4096 and the default size buffers"},
	{"iterators",iterators,0,0,3,"all byte strings up to length 6 over 4 bytes, all buffer sizes and patterns of 3 short reads: access, increment, difference, end"},
	{"constructors",constructors,0,0,2,"corpus documents and 7 documents with named references and national characters in 16 encodings from 4 sources through 8 ways of constructing a scanner (with and without character set, source, entities, source set later, copied) and 3 of constructing a character reader"},
	{"styles",styles,0,0,2,"corpus documents and 48 documents with parts of many lengths, from 3 sources to 2 encodings, tokens requested directly and in 6 ways with iterators: prefix and postfix increment, the value of the postfix increment, copies and assignments"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"a terminated string ends at the first NUL unit, so the documents contain none","a source reports its end with a read of 0 bytes; buffer size 0 is not used","positions of the end of document are not compared"}; }
}
#endif
