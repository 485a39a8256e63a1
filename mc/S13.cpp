// S13: every token is delivered as soon as the character that ends it has been given, nothing is read ahead
#include "tw.hpp"
// iterator that counts how far it was read
struct Touch
{
	const char* p; std::size_t n,pos; std::size_t* far;
	char operator*() const { if (pos+1>*far) *far=pos+1; return pos<n?p[pos]:0; }
	Touch& operator++() { ++pos; return *this; }
};
namespace textwolf { template <> struct Traits<Touch> { static std::size_t getPosition(const Touch& a,const Touch& b) { return b.pos-a.pos; } }; }
#include "corpus.hpp"
using namespace tw;
MC_PROPERTY("S13")
struct Ev { int t; U s; std::size_t end; };   // end: number of characters given when the token has to be there
struct Gen
{
	mc::Choice& c; U d; std::vector<Ev> ev; int open=-1; explicit Gen(mc::Choice& c_):c(c_){}
	// the content waits for the start of the next markup
	void markup(){ if (open>=0) { ev[open].end=d.size()+1; open=-1; } }
	void text(const U& raw, const U& x){ ev.push_back(Ev{B::Content,x,0}); open=(int)ev.size()-1; d+=raw; }
	// name: ended by the character behind
	void name(int t, const U& n){ d+=n; ev.push_back(Ev{t,n,d.size()+1}); }
	void closed(int t, const U& s){ ev.push_back(Ev{t,s,d.size()}); }
	U ws(){ static const std::vector<U> v={U" ",U"\r\n",U" \t\n "}; return c.devof(v); } U ows(){ static const std::vector<U> v={U"",U" ",U"\n "}; return c.devof(v); }
	U nm(){ static const std::vector<U> v={U"b",U"\u00e9\u20ac",U"\U0001D11Ec",U"n-m.x:y"}; return c.devof(v); }
	void value(int t){ static const std::vector<std::pair<U,U> > v={{U"v",U"v"},{U"",U""},{U"\u20acx",U"\u20acx"},{U"&amp;x",U"&x"},{U"x&#8364;&lt;",U"x\u20ac<"},{U" z ",U" z "},{U"&nosuch x",U"&nosuch x"},{U"&#12x&",U"&#12x&"},{U"&#xfffffffff;&#x",U"&#xfffffffff;&#x"},{U"&quot;&gt;&apos;&nbsp;",U"\">' "}}; int q=c.dev(3); auto& x=v[c.dev(v.size())]; if (q<2) { d+=q?U"\"":U"'"; d+=x.first; d+=q?U"\"":U"'"; closed(t,x.second); } else { d+=U"w\u20ac"; ev.push_back(Ev{t,U"w\u20ac",d.size()+1}); d+=U" "; } }
	void attr(int a, int b){ name(a,nm()); d+=ows(); d+=U"="; d+=ows(); value(b); }
	void open_(bool im){ markup(); d+=U"<"; name(B::OpenTag,nm()); int n=c.dev(3); for (int i=0;i<n;i++) { d+=ws(); attr(B::TagAttribName,B::TagAttribValue); } d+=ows(); if (im) { d+=U"/>"; closed(B::CloseTagIm,U""); } else d+=U">"; }
	void close(const U& n){ markup(); d+=U"</"; name(B::CloseTag,n); d+=ows(); d+=U">"; }
	void item(int k)
	{
		static const std::vector<std::pair<U,U> > tx={{U"t",U"t"},{U"\u20ac\U0001D11E",U"\u20ac\U0001D11E"},{U"x&lt;",U"x<"},{U"y\r\nz",U"y\nz"},{U"&#x20ac;",U"\u20ac"},{U"a]]b",U"a]]b"},{U"&nosuch x",U"&nosuch x"},{U"&#12x&",U"&#12x&"},{U"&#xfffffffff;&#x",U"&#xfffffffff;&#x"},{U"&aname-with-too-many-characters-;",U"&aname-with-too-many-characters-;"},{U"&quot;&gt;&apos;&nbsp;",U"\">' "}};
		switch (k)
		{
			case 0: { bool sep=open>=0; if (sep) { markup(); d+=U"<?p?>"; } auto& x=tx[c.dev(tx.size())]; text(x.first,x.second); break; }
			case 1: open_(true); break;
			case 2: { open_(false); int m=c.dev(3); if (m==1) item(0); if (m==2) open_(true); close(nm()); break; }
			case 3: markup(); d+=c.dev(2)?U"<!-- <\u20ac> - -->":U"<!--c-->"; break;
			default: markup(); d+=c.dev(2)?U"<?p \u20ac <x> ?>":U"<?p?>"; break;
		}
	}
	void document(int n)
	{
		int h=c.pick(3); if (h) { d+=U"<?xml"; ev.push_back(Ev{B::HeaderStart,U"?xml",d.size()+1}); int k=h==1?0:1+(int)c.dev(2); for (int i=0;i<k;i++) { d+=ws(); attr(B::HeaderAttribName,B::HeaderAttribValue); } if (k==0) d+=ows(); d+=U"?>"; closed(B::HeaderEnd,U""); }
		int t=c.pick(3); if (t) { d+=U"<!"; name(B::DocAttribValue,U"DOCTYPE"); d+=ws(); name(B::DocAttribValue,nm()); if (t==2) { d+=U" "; name(B::DocAttribValue,U"SYSTEM"); d+=ws(); bool q=c.dev(2); d+=q?U"'":U"\""; d+=U"l\u20ac"; d+=q?U"'":U"\""; closed(B::DocAttribValue,U"l\u20ac"); d+=ows(); } else d+=ows(); d+=U">"; closed(B::DocAttribEnd,U""); }
		d+=U"<"; name(B::OpenTag,U"r"); d+=U">"; for (int i=0;i<n;i++) item(c.pick(5)); close(U"r");
	}
};
static std::string what(const Ev& e){ return std::string(tname(e.t))+" '"+tw::show(e.s)+"'"; }
// mode 0: nextItem, 1: the iterator of the scanner, 2: nextItem with all values masked out
template <class CS> static Toks touch(mc::Choice& c, int cs, const std::string& b, const std::vector<std::size_t>& off, const Gen& g, int mode)
{
	typedef textwolf::XMLScanner<Touch,CS,textwolf::charset::UTF8,std::string> SC; Mem m(b); std::size_t far=0; SC sc(Make<CS>::make(cs),Touch{m.p,m.n,0,&far}); Toks r; std::size_t limit=tokLimit(b.size()); typename SC::iterator it,e;
	for (;;)
	{
		int t; Tok k{0,"",0,0}; if (mode==1) { if (r.empty()) { it=sc.begin(); e=sc.end(); } else ++it; t=it->type(); k.s.assign(it->content(),it->size()); } else { t=sc.nextItem(mode==2?0:0xFFFF); if (t!=B::ErrorOccurred&&mode==0) k.s.assign(sc.getItemPtr(),sc.getItemSize()); }
		c.step(); k.t=t; if (t==B::ErrorOccurred&&mode!=1) k.err=sc.getError(); std::size_t i=r.size(); r.push_back(k); if (t==B::Exit||t==B::ErrorOccurred||t==B::None) return r; if (i<g.ev.size()&&far>off[g.ev[i].end]) c.fail("read up to byte "+std::to_string(far)+" for "+what(g.ev[i])+", which ends with byte "+std::to_string(off[g.ev[i].end])); if (r.size()>limit) c.fail("tokens without end");
	}
}
template <class CS> static Toks chunks(mc::Choice& c, int cs, const std::string& b, const std::vector<std::size_t>& off, const Gen& g, std::size_t size, std::size_t first, Style st)
{
	Chunked<CS,textwolf::charset::UTF8> ch(cs,st); Toks r; std::size_t fed=0, n=first, limit=tokLimit(b.size()); bool end=false; auto feed=[&]{ n=std::min(n,b.size()-fed); ch.feed(b.data()+fed,n,false); fed+=n; n=size; }; feed();
	for (;;)
	{
		int t=ch.next(); c.step(); if (t==NEED) { if (end) c.fail("more input requested after the last chunk"); std::size_t i=r.size(); if (i<g.ev.size()&&off[g.ev[i].end]<=fed) c.fail("more input requested behind byte "+std::to_string(fed)+" without delivering "+what(g.ev[i])+", which ends with byte "+std::to_string(off[g.ev[i].end])); if (fed==b.size()) { ch.feed("",0,true); end=true; } else feed(); continue; }
		r.push_back(ch.tok(t)); if (t==B::Exit||t==B::ErrorOccurred) return r; if (r.size()>limit) c.fail("tokens without end");
	}
}
static void check(mc::Choice& c, const Gen& g, int cs, int way, std::size_t first)
{
	static const std::size_t sizes[]={0,1,1,2,3,7,1000000,0,0}; U d=fit(cs,g.d); std::vector<std::size_t> off(1,0); for (uint32_t x:d) { std::string s; put(cs,x,s); off.push_back(off.back()+s.size()); } off.push_back(off.back()); std::string b=enc(cs,d);
	c.show(std::string(csName(cs))+(way==0?" counting iterator":way==7?" counting iterator, scanner iterator":way==8?" counting iterator, masked":way==2?" bytes, source replaced":" chunks of "+std::to_string(sizes[way])+(first?", first "+std::to_string(first):""))+": "+tw::show(d)); std::size_t f=first?std::min(first,b.size()):sizes[way]; if (way==6&&!first) f=b.size();
	Toks t; TW_DISPATCH(cs,t=(way==0||way>6?touch<CS>(c,cs,b,off,g,way==0?0:way-6):chunks<CS>(c,cs,b,off,g,sizes[way],f,way==2?SetSource:Put)));
	Toks want; for (auto& e:g.ev) want.push_back(Tok{e.t,enc(U8,fit(cs,e.s)),0,0}); want.push_back(Tok{B::Exit,"",0,0}); for (auto& k:t) k.tp=0; bool same=t.size()==want.size(); for (std::size_t i=0;same&&i<t.size();i++) same=t[i].t==want[i].t&&(way==8||t[i].s==want[i].s||t[i].t==B::HeaderEnd||t[i].t==B::DocAttribEnd||t[i].t==B::Exit||t[i].t==B::CloseTagIm); if (!same) c.fail("delivered "+show(t)+" instead of "+show(want));
	c.trace(); c.state(mc::hcomb(mc::hstr(b,cs),way*100000+first)); c.outcome(hash(t));
}
static void documents(mc::Choice& c)
{
	Gen g(c); g.document(c.pick(c.thorough()?4:3)); int way=c.pick(8), cs; if (way>5) way++; static const int q[]={U8,U16L,U16B,C4L,C4B,C2L,C2B,ISO1}; cs=q[c.pick(8)]; if (cs>=ISO1) cs=ISO9; check(c,g,cs,way,0);
}
// the document up to every byte, then the rest
static void halves(mc::Choice& c)
{
	Gen g(c); g.document(c.pick(c.thorough()?3:2)); static const int q[]={U8,U16L,C4B,ISO1}; int cs=q[c.pick(4)]; if (cs>=ISO1) cs=ISO9; std::size_t n=1+c.pick(120); std::string b=enc(cs,fit(cs,g.d)); if (n>b.size()) return; check(c,g,cs,6,n);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"documents",documents,1,2,4,"documents with all sequences of up to 2 (thorough: 3) of 5 constructs behind 3 headers and 3 document types, 1 (thorough: 2) variations of names, values, white space, quotes, nesting; byte by byte, in chunks of 2, 3, 7 bytes and with an iterator that counts what is read (token by token, with the iterator of the scanner, with all values masked out), in 8 encodings"},
	{"halves",halves,1,2,4,"documents with up to 1 (thorough: 2) constructs in 4 encodings given up to every byte (120 at most), then the rest"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"ends of tokens: the character behind a name or an unquoted value, the closing quote, the first character of the markup behind a content, the closing bracket of '/>', '?>' and of the document type","buffered streams read whole blocks and are not judged"}; }
}
