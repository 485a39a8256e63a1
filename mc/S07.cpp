// S07: the delivered text is independent of the input encoding and exact in the output encoding
#include "corpus.hpp"
using namespace tw;
MC_PROPERTY("S07")
enum Buf { Str, Vec };
// one translation unit per input encoding class
template <int I> Toks from(int in, int out, const std::string& b, int buf);
template <class IN, class OUT> static Toks run(int in, const std::string& b, int buf)
{
	Mem m(b); textwolf::CStringIterator it(m.p,(unsigned)m.n);
	if (buf==Vec) { textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,std::vector<char> > sc(Make<IN>::make(in),it); return drain(sc,tokLimit(b.size())); }
	textwolf::XMLScanner<textwolf::CStringIterator,IN,OUT,std::string> sc(Make<IN>::make(in),it); return drain(sc,tokLimit(b.size()));
}
#if PART>0
static const int P=PART-1;
template <> Toks from<PART-1>(int in, int out, const std::string& b, int buf){ typedef T<PART-1>::type IN; Toks r; TW_DISPATCH(out,r=(run<IN,CS>(in,b,buf))); return r; }
#else
#define DECL(I) template <> Toks from<I>(int,int,const std::string&,int);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6) DECL(7)
static Toks scan(int in, int out, const std::string& b, int buf)
{
	switch (in) { case 0: return from<0>(in,out,b,buf); case 1: return from<1>(in,out,b,buf); case 2: return from<2>(in,out,b,buf); case 3: return from<3>(in,out,b,buf); case 4: return from<4>(in,out,b,buf); case 5: return from<5>(in,out,b,buf); case 6: return from<6>(in,out,b,buf); default: return from<7>(in,out,b,buf); }
}
struct Ev { int t; U s; };
static void judge(mc::Choice& c, int in, int out, int buf, const U& doc, const std::vector<Ev>& ev)
{
	std::string b=enc(in,doc); c.show(std::string(csName(in))+" -> "+csName(out)+(buf==Vec?" (vector) ":" ")+show(doc.size()>300?doc.substr(0,300):doc));
	Toks t=scan(in,out,b,buf), w; for (auto& e:ev) w.push_back(Tok{e.t,encRef(out,e.s),0,0});
	bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].err==w[i].err&&t[i].s==w[i].s;
	if (!eq)
	{
		std::size_t i=0; while (i<t.size()&&i<w.size()&&t[i].t==w[i].t&&t[i].err==w[i].err&&t[i].s==w[i].s) ++i;
		Toks a(t.begin()+std::min(i,t.size()),t.begin()+std::min(i+1,t.size())), d(w.begin()+std::min(i,w.size()),w.begin()+std::min(i+1,w.size()));
		c.fail("token "+std::to_string(i)+": delivered "+show(a)+" instead of "+show(d));
	}
	c.step(t.size()); c.trace(); c.state(mc::hcomb(mc::hstr(b,in),out*2+buf)); c.outcome(hash(t));
}
// documents of the corpus: same tokens as in UTF-8 -> UCS-4 (texts decoded)
static void docs(mc::Choice& c)
{
	const corpus::Doc& d=c.of(corpus::docs()); int in=c.pick(NofCs), out=c.pick(ISO2), buf=c.pick(2); U doc=fit(in,d.text);
	static std::map<U,std::vector<Ev>> cache; static std::map<U,int> errs;
	if (!cache.count(doc))
	{
		Toks r=scan(U8,C4B,enc(U8,doc),Str); std::vector<Ev> e; for (auto& t:r) { U s; for (std::size_t i=0;i+3<t.s.size();i+=4) s.push_back((unsigned char)t.s[i]<<24|(unsigned char)t.s[i+1]<<16|(unsigned char)t.s[i+2]<<8|(unsigned char)t.s[i+3]); e.push_back(Ev{t.t,s}); } cache[doc]=e; errs[doc]=r.back().err;
	}
	std::string b=enc(in,doc); c.show(std::string(csName(in))+" -> "+csName(out)+(buf==Vec?" (vector) ":" ")+show(doc));
	Toks t=scan(in,out,b,buf), w; for (auto& e:cache[doc]) w.push_back(Tok{e.t,encRef(out,e.s),0,0}); w.back().err=errs[doc];
	bool eq=t.size()==w.size(); for (std::size_t i=0;eq&&i<t.size();i++) eq=t[i].t==w[i].t&&t[i].err==w[i].err&&t[i].s==w[i].s;
	if (!eq) c.fail("delivered "+show(t)+" | the same document as UTF-8: "+show(w));
	c.step(t.size()); c.trace(); c.state(mc::hcomb(mc::hstr(b,in),out*2+buf)); c.outcome(hash(t));
}
// every character in every place
static void chars(mc::Choice& c)
{
	int in=c.pick(NofCs), out=c.pick(ISO2), place=c.pick(4); unsigned nb=in<=U16B||in>=C4L?0x110000/1024:64; if (in>=ISO1) nb=9; unsigned blk=c.pick(nb);
	if (!c.thorough()&&blk>=3&&blk%16!=0&&blk!=8&&blk!=53&&blk!=56&&blk!=63&&blk!=64&&blk<1087) return;
	for (int h=0;h<4;h++)
	{
		U t; for (uint32_t k=0;k<256;k++)
		{
			uint32_t cp=blk*1024+h*256+k; 
			if (cp<128 && !(isalnum(cp)||cp=='.'||cp=='_'||cp==':')) continue; 
			if (!representable(in,cp)) continue;
			t.push_back(cp); if (k%3==0) t.push_back('x');
		}
		if (t.empty()) continue;
		U d; std::vector<Ev> e;
		if (place==0) { d=U"<a>"+t+U"</a>"; e={{B::OpenTag,U"a"},{B::Content,t},{B::CloseTag,U"a"}}; }
		else if (place==1) { d=U"<a b='"+t+U"'/>"; e={{B::OpenTag,U"a"},{B::TagAttribName,U"b"},{B::TagAttribValue,t},{B::CloseTagIm,U""}}; }
		else if (place==2) { d=U"<"+t+U" "+t+U"=\""+t+U"\"/>"; e={{B::OpenTag,t},{B::TagAttribName,t},{B::TagAttribValue,t},{B::CloseTagIm,U""}}; }
		else { d=U"<a b="+t+U"></"+t+U">"; e={{B::OpenTag,U"a"},{B::TagAttribName,U"b"},{B::TagAttribValue,t},{B::CloseTag,t}}; }
		e.push_back({B::Exit,U""}); judge(c,in,out,h%2,d,e);
	}
}
// sequences of items of different length: no residue of earlier items
static void residue(mc::Choice& c)
{
	int n=c.thorough()?5:4; U d; std::vector<Ev> e; d=U"<r>"; e.push_back({B::OpenTag,U"r"}); int prev=-1; static const char* inOut[]={""}; (void)inOut;
	int pair=c.pick(c.thorough()?64:12); static const int ins[]={U8,U8,U8,U16L,U16B,C4L,C4B,C2L,ISO1,ISO1,U16L,C2B}, outs[]={U8,U16L,C4B,U8,U16B,U8,C4B,C2L,ISO1,U8,C2B,ISO1}; int in=c.thorough()?pair/8:ins[pair], out=c.thorough()?pair%8:outs[pair];
	static const std::vector<U> tx={U"",U"q",U"q\u00e9",U"q\u00e9w\u00fcrty12345",U"&#8364;",U"&amp;&#x10000;"}, tv={U"",U"q",U"q\u00e9",U"q\u00e9w\u00fcrty12345",U"\u20ac",U"&\U00010000"};
	for (int i=0;i<n;i++)
	{
		int k=c.pick(3), x=c.pick(6); 
		if (k==0) { if (prev==0||x==0) { d+=U"<?p?>"; } if (x) { d+=tx[x]; e.push_back({B::Content,tv[x]}); } }
		else if (k==1) { d+=U"<a b='"+tx[x]+U"'/>"; e.push_back({B::OpenTag,U"a"}); e.push_back({B::TagAttribName,U"b"}); e.push_back({B::TagAttribValue,tv[x]}); e.push_back({B::CloseTagIm,U""}); }
		else { static const std::vector<U> nm={U"x",U"y\u00e9",U"element\u00e9withaverylongnametolookat",U"z",U"ab",U"\u00fc"}; d+=U"<"+nm[x]+U"></"+nm[x]+U">"; e.push_back({B::OpenTag,nm[x]}); e.push_back({B::CloseTag,nm[x]}); }
		prev=k;
	}
	d+=U"</r>"; e.push_back({B::CloseTag,U"r"}); e.push_back({B::Exit,U""});
	judge(c,in,out,c.pick(2),d,e);
}
// very long items
static void lengths(mc::Choice& c)
{
	int in=c.pick(ISO2), out=c.pick(ISO2); static const std::vector<int> len={1,2,3,7,8,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,1023,1024,1025,4095,4096,4097,65535,65537}; int l=c.of(len), w=c.pick(4); static const U cs[]={U"x",U"\u00e9",U"\u20ac",U"\U00010437"};
	U t; for (int i=0;i<l;i++) t.push_back(i%5==4?'y':fit(in,cs[w])[0]); judge(c,in,out,w%2,U"<"+t+U">"+t+U"<b c='"+t+U"'/></"+t+U">",{{B::OpenTag,t},{B::Content,t},{B::OpenTag,U"b"},{B::TagAttribName,U"c"},{B::TagAttribValue,t},{B::CloseTagIm,U""},{B::CloseTag,t},{B::Exit,U""}});
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"documents",docs,0,0,2,"every corpus document in 16 input encodings x 8 output encodings x 2 output buffer types: same tokens, errors and texts as from UTF-8"},
	{"characters",chars,0,0,3,"blocks of 1024 characters (quick: selected, thorough: all) in content, value, names and unquoted value for 16 input x 8 output encodings"},
	{"item-sequences",residue,0,0,2,"all sequences of 4 (thorough: 5) items out of 18 of different lengths for 12 (thorough: 64) encoding pairs: exact sizes, no residue"},
	{"lengths",lengths,0,0,2,"items of 28 lengths around powers of two, 4 character widths, 64 encoding pairs"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"ISO-8859 output is code page 1 (the scanner creates its output character set by default)","a character the output encoding can not represent is expected as reference (property C03)"}; }
}
#endif
