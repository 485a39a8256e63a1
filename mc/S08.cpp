// S08: masking types omits exactly the texts of those types and nothing else
#include "corpus.hpp"
using namespace tw;
MC_PROPERTY("S08")
template <class IN, class OUT> static Toks masked(int cs, const std::string& b, const std::vector<unsigned short>& masks)
{
	typedef textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,std::string> SC; Mem m(b); SC sc(Make<IN>::make(cs),textwolf::CStringIterator(m.p,(unsigned)m.n)); Toks r; std::size_t k=0;
	for (;;)
	{
		int t=sc.nextItem(masks[k<masks.size()?k:masks.size()-1]); ++k; Tok x{t,"",0,0}; if (t==B::ErrorOccurred) x.err=sc.getError(); else { x.s.assign(sc.getItemPtr(),sc.getItemSize()); x.tp=sc.getTokenPosition(); }
		r.push_back(x); if (t==B::ErrorOccurred||t==B::Exit) return r; if (r.size()>tokLimit(b.size())) throw mc::Violation("tokens without end");
	}
}
template <class IN, class OUT> static Toks maskedChunks(int cs, const std::string& b, const std::vector<unsigned short>& masks, std::size_t cut, Style st)
{
	Chunked<IN,OUT> c(cs,st); std::size_t k=0,n=0; Toks r;
	auto feed=[&]{ if (n==0) c.feed(b.data(),cut,false); else if (n==1) c.feed(b.data()+cut,b.size()-cut,false); else c.feed("",0,true); if (++n>4) throw mc::Violation("too much input requested"); };
	feed();
	for (;;)
	{
		int t=c.next(masks[k<masks.size()?k:masks.size()-1]); if (t==NEED) { feed(); continue; }
		++k; r.push_back(c.tok(t)); if (t==B::Exit||t==B::ErrorOccurred) return r; if (r.size()>tokLimit(b.size())) throw mc::Violation("tokens without end");
	}
}
static void compare(mc::Choice& c, const Toks& got, const Toks& want, const std::vector<unsigned short>& masks, bool pos)
{
	bool eq=got.size()==want.size();
	for (std::size_t j=0;eq&&j<got.size();j++) { unsigned short m=masks[j<masks.size()?j:masks.size()-1]; bool mk=got[j].t<14&&!(m>>got[j].t&1); eq=got[j].t==want[j].t&&got[j].err==want[j].err&&(mk||got[j].s==want[j].s)&&(mk||!pos||got[j].tp==want[j].tp||got[j].t==2); }
	if (!eq) { std::string ms; for (auto m:masks) { char t[16]; snprintf(t,16,"%04x ",m); ms+=t; } c.fail("with masks "+ms+": "+show(got,pos)+" | without: "+show(want,pos)); }
	c.step(got.size()); c.trace(); uint64_t h=0; for (auto m:masks) h=mc::hcomb(h,m); c.outcome(mc::hcomb(hash(got),h));
}
static const Toks& reference(int cs, bool same, const std::string& b)
{
	static std::map<std::string,Toks> cache; if (cache.size()>3000) cache.clear(); std::string k=std::to_string(cs*2+same)+":"+b; auto i=cache.find(k); if (i!=cache.end()) return i->second;
	Toks r; TW_DISPATCH(cs,r=(same?scanAll<CS,CS>(cs,b):scanAll<CS,textwolf::charset::UTF8>(cs,b))); return cache[k]=r;
}
static const int texttypes[]={3,4,6,8,9,10,11,13};
// an undefined entity is an error of the text: it is reported if the type is not masked out
static bool judged(const Toks& ref, unsigned short allmasks){ return ref.back().err!=B::ErrUndefinedCharacterEntity || (allmasks&0x2250)==0x2250; }
static std::size_t nd(){ return corpus::docs().size()+corpus::micro().size(); }
static U dtext(std::size_t i){ return i<corpus::docs().size()?corpus::docs()[i].text:corpus::micro()[i-corpus::docs().size()]; }
// every subset of the types occurring
static void subsets(mc::Choice& c)
{
	static const int encs[]={U8,U16L,C4B,ISO1}; int cs=c.thorough()?c.pick(NofCs):encs[c.pick(4)]; bool same=c.flip(); std::string b=enc(cs,fit(cs,dtext(c.pick(nd())))); const Toks& ref=reference(cs,same,b);
	unsigned sub=c.pick(256); unsigned short m=0; for (int i=0;i<8;i++) if (sub>>i&1) m|=1<<texttypes[i];
	static const unsigned short other[]={0,0xD0A7,0x4002,0x5004}; m|=other[c.dev(4)];
	if (!judged(ref,m)) return; c.show(std::string(csName(cs))+" "+b); std::vector<unsigned short> ms(1,m); Toks t; TW_DISPATCH(cs,t=(same?masked<CS,CS>(cs,b,ms):masked<CS,textwolf::charset::UTF8>(cs,b,ms)));
	compare(c,t,ref,ms,true); c.state(mc::hcomb(mc::hstr(b,cs),m*2+same));
}
// the mask changes from request to request
static void changing(mc::Choice& c)
{
	std::string b=enc(U8,dtext(c.pick(nd()))); const Toks& ref=reference(U8,false,b); int base=c.pick(2); static const unsigned short alt[]={0,0x2000,0x0600,0xFDFF}; std::vector<unsigned short> ms; unsigned short all=0xFFFF;
	std::size_t n=b.size()/2+2; 
	for (std::size_t i=0;i<n;i++) { int k=c.dev(c.thorough()?5:3); unsigned short x=k==0?0xFFFF:k==1?0:alt[k-1]; if (base) x=~x; ms.push_back(x); all&=x; }
	ms.push_back(base?0:0xFFFF); if (base) all=0;
	if (!judged(ref,all)) return; c.show(b); compare(c,masked<textwolf::charset::UTF8,textwolf::charset::UTF8>(U8,b,ms),ref,ms,true); uint64_t h=mc::hstr(b); for (auto m:ms) h=mc::hcomb(h,m); c.state(h);
}
// periodic changes, all encodings
static void periodic(mc::Choice& c)
{
	int cs=c.pick(NofCs); bool same=c.flip(); std::string b=enc(cs,fit(cs,dtext(c.pick(nd())))); const Toks& ref=reference(cs,same,b); static const std::vector<unsigned short> alt={0xFFFF,0,0x2000,0x0600,0xDBFF};
	int per=2+c.pick(c.thorough()?3:2); std::vector<unsigned short> p,ms; unsigned short all=0xFFFF; for (int i=0;i<per;i++) { p.push_back(c.of(alt)); all&=p.back(); } for (std::size_t i=0;i<b.size()+4;i++) ms.push_back(p[i%per]);
	if (!judged(ref,all)) return; c.show(std::string(csName(cs))+" "+b); Toks t; TW_DISPATCH(cs,t=(same?masked<CS,CS>(cs,b,ms):masked<CS,textwolf::charset::UTF8>(cs,b,ms))); compare(c,t,ref,ms,true); uint64_t h=mc::hstr(b,cs*2+same); for (auto m:p) h=mc::hcomb(h,m); c.state(h);
}
// fed in chunks
static void chunks(mc::Choice& c)
{
	std::string b=enc(U8,dtext(c.pick(nd()))); const Toks& ref=reference(U8,false,b); std::size_t cut=c.pick(b.size()+1); Style st=(Style)c.pick(2); static const std::vector<unsigned short> alt={0,0x2000,0x0600,0xDBFF,0xFFFF,0x0148,0x0850}; std::vector<unsigned short> ms,p; int per=1+c.pick(2); unsigned short all=0xFFFF;
	for (int i=0;i<per;i++) { p.push_back(c.of(alt)); all&=p.back(); } for (std::size_t i=0;i<b.size()+4;i++) ms.push_back(p[i%per]); if (per==1) ms=p;
	if (!judged(ref,all)) return; c.show("cut "+std::to_string(cut)+": "+b); compare(c,maskedChunks<textwolf::charset::UTF8,textwolf::charset::UTF8>(U8,b,ms,cut,st),ref,ms,st==Put); uint64_t h=mc::hstr(b,cut*2+st); for (auto m:p) h=mc::hcomb(h,m); c.state(h);
}
// all short texts out of what a text can be made of; an undefined reference in a text masked out does no harm
static Toks withMap(const std::string& b, const std::vector<unsigned short>& masks, int cut)
{
	static const char* names[]={"v","vw"}; Toks r; std::size_t k=0; auto over=[&]{ if (r.size()>tokLimit(b.size())) throw mc::Violation("tokens without end"); }; typedef textwolf::charset::UTF8 CS;
	if (cut<0)
	{
		typedef textwolf::XMLScanner<textwolf::CStringIterator,CS,CS,std::string> SC; SC::EntityMap em; for (auto n:names) em[n]='!'; Mem m(b); SC sc(CS(),textwolf::CStringIterator(m.p,(unsigned)m.n),em);
		for (;;) { int t=sc.nextItem(masks[k<masks.size()?k:masks.size()-1]); ++k; Tok x{t,"",0,0}; if (t==B::ErrorOccurred) x.err=sc.getError(); else { x.s.assign(sc.getItemPtr(),sc.getItemSize()); x.tp=sc.getTokenPosition(); } r.push_back(x); if (t==B::ErrorOccurred||t==B::Exit) return r; over(); }
	}
	Chunked<CS,CS>::SC::EntityMap em; for (auto n:names) em[n]='!'; Chunked<CS,CS> ch(U8,Put,em); int f=0; auto feed=[&]{ if (f==0) ch.feed(b.data(),cut,false); else if (f==1) ch.feed(b.data()+cut,b.size()-cut,false); else ch.feed("",0,true); if (++f>4) throw mc::Violation("too much input requested"); };
	feed(); for (;;) { int t=ch.next(masks[k<masks.size()?k:masks.size()-1]); if (t==NEED) { feed(); continue; } ++k; r.push_back(ch.tok(t)); if (t==B::ErrorOccurred||t==B::Exit) return r; over(); }
}
static void texts(mc::Choice& c)
{
	static const std::vector<std::string> pre={"<a>","<a b='","<a b=\"","<a b=","<?xml a='","<!DOCTYPE d '"}, post={"<b c='z'>y</b>&v;</a>","' d='&v;'>y</a>","\" d='&v;'>y</a>"," d='&v;'>y</a>","'?><a>y&v;</a>","'><a>y&v;</a>"}; static const unsigned short bit[]={0x2000,0x200,0x200,0x200,0x10,0x40};
	static const std::vector<std::string> sy={"x","&","#",";","&amp;","&v;","&u;","&#65;","\r","\n"," ","'","\"",">","\xe2\x82\xac","\xf0\x90\x90\xb7","&vwvwvwvwvwvwvwvw","&#x12345678901234567","=","/","]]>"};
	int ctx=c.pick(pre.size()); std::string t; int n=c.thorough()?4:3; for (int i=0;i<n;i++) { unsigned k=c.pick(sy.size()+1); if (k) t+=sy[k-1]; }
	std::string d=pre[ctx]+t+post[ctx]; std::string e=d; std::vector<std::size_t> us,at; for (std::size_t i=0;(i=e.find("&u;",i))!=std::string::npos;) { e[i+1]='v'; us.push_back(i+1); }
	std::size_t cut=c.thorough()&&n>3?0:c.pick(t.size()+2); static const std::vector<unsigned short> on(1,0xFFFF); Toks ref=withMap(e,on,-1); if (ref.back().err==B::ErrUndefinedCharacterEntity) return; c.show(d); c.state(mc::hstr(d,cut));
	// in which tokens are the undefined references (ignored: none, in a comment or other skipped part)
	for (auto i:us) { std::string x=e; x[i]='u'; Toks f=withMap(x,on,-1); if (f.back().err==B::ErrUndefinedCharacterEntity) at.push_back(f.size()-1); }
	// the text of its type only, of this request only, of all types
	std::vector<std::vector<unsigned short> > mm={{(unsigned short)~bit[ctx]},{0}}; if (ctx==0||ctx>2) { /* request of the text */ } else mm.push_back({0xFFFF,0xFFFF,(unsigned short)~bit[ctx],0xFFFF}); if (ctx==0) mm.push_back({0xFFFF,(unsigned short)~bit[0],0xFFFF});
	for (auto& m:mm)
	{
		bool ok=true; for (std::size_t j:at) ok=ok&&!(m[j<m.size()?j:m.size()-1]>>ref[j].t&1); if (!ok) continue; // an undefined reference in a text delivered
		compare(c,withMap(d,m,-1),ref,m,true); if (cut) compare(c,withMap(d,m,(int)(pre[ctx].size()+cut-1)),ref,m,true);
	}
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"all-subsets",subsets,0,1,2,"every corpus and small document in 4 (thorough: 16) encodings, decoded and raw copied, all 256 subsets of the types with text; (thorough) bits of types without text"},
	{"changing",changing,2,2,2,"up to 2 requests of a document have another mask than the rest, all positions"},
	{"periodic",periodic,0,0,2,"masks alternating with period 2 and 3 (thorough: 4) out of 5, all 16 encodings"},
	{"chunks",chunks,0,0,2,"masks alternating out of 7 with the document in two chunks cut at every byte"},
	{"texts",texts,0,0,2,"all texts of up to 3 (thorough: 4) of 21 symbols (references of all kinds, undefined, too long and incomplete ones, line ends, quotes, markup) in 6 places of a document: their type, this text only and everything masked out, whole and in two chunks cut at every byte"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"an undefined entity is an error of the text it stands in and therefore not reported if the text is masked out","text and position of a token masked out are not judged","a request interrupted by the end of a chunk is repeated with the same mask"}; }
}
