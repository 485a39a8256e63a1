// P04: index ranges
#include "path.hpp"
#include <map>
#include <set>
#include <memory>
#include <textwolf/xmlpathautomatonparse.hpp>
using namespace path;
MC_PROPERTY("P04")
static const std::vector<std::vector<Step> > paths={{{Step::Content,false}},{{Step::Content,true}},{{Step::Tag,false,"a",0},{Step::Content,false}},{{Step::Tag,true,"a",0},{Step::Content,false}},{{Step::Tag,true,0,0},{Step::Content,false}},{{Step::Tag,false,"a",0},{Step::Content,true}},{{Step::Tag,true,"a",0},{Step::Content,true}},{{Step::Tag,false,"a",0},{Step::Tag,false,"b",0},{Step::Content,false}},{{Step::Tag,true,"a",0},{Step::Tag,true,0,0},{Step::Content,true}},{{Step::Tag,false,"a",0},{Step::If,false,"x","1"},{Step::Content,false}},{{Step::Tag,true,0,0},{Step::If,true,"x",0},{Step::Content,true}},{{Step::Tag,true,"a",0},{Step::Attr,false,"x",0},{Step::Content,false}}};
static const std::vector<Range>& ranges(){ static std::vector<Range> r; if (r.empty()) { for (int i=0;i<4;i++) { r.push_back(Range{Range::Index,i,0}); r.push_back(Range{Range::From,i,0}); r.push_back(Range{Range::To,i,0}); for (int j=-1;j<4;j++) r.push_back(Range{Range::Rng,i,j}); } r.push_back(Range{Range::To,-1,0}); r.push_back(Range{Range::From,2147483647,0}); r.push_back(Range{Range::To,2147483646,0}); r.push_back(Range{Range::Rng,1,2147483646}); r.push_back(Range{Range::Index,2147483646,0}); } return r; }
// placement 0: ranges behind everything, 1: before the result, 2: at the begin
static void buildAt(Atm& atm, const Expr& e, int placement, int style)
{
	if (placement==0) { build(atm,e,style); return; } Atm::PathElement p=*atm; std::size_t n=e.steps.size(), at=placement==1?n-1:0;
	for (std::size_t i=0;i<n;i++) { if (i==at) for (auto& g:e.ranges) switch (g.k) { case Range::Index: p.INDEX(g.a); break; case Range::From: p.FROM(g.a); break; case Range::To: p.TO(g.a); break; case Range::Rng: p.RANGE(g.a,g.b); break; }
		const Step& s=e.steps[i]; if (s.follow) p.forAllDescendants(); switch (s.k) { case Step::Tag: p.selectTag(s.name); break; case Step::Attr: p.selectAttribute(s.name); break; case Step::If: p.ifAttribute(s.name,s.value); break; case Step::Content: p.selectContent(); break; default: break; } }
	p.assignType(e.type);
}
static void judge(mc::Choice& c, const Expr& e, const std::vector<Doc>& docs, int placement)
{
	std::string shown=show(e)+(placement==1?" (range before the result)":""); c.show(shown); Atm atm; buildAt(atm,e,placement,(int)(e.ranges.size()&1)); Reference ref; std::vector<int> exp,got; uint64_t oc=0; std::size_t nev=0;
	for (auto& d:docs) { ref(e,d,exp); Sel sel(&atm); for (std::size_t i=0;i<d.size();i++) { got.clear(); pushAll(sel,d[i],got); if ((int)got.size()!=exp[i]) c.fail(std::to_string(got.size())+" matches instead of "+std::to_string(exp[i])+" at the end of "+show(d,i+1)); for (int t:got) if (t!=e.type) c.fail("wrong number"); if (exp[i]) oc=mc::hcomb(oc,i*16+exp[i]); } nev+=d.size(); }
	c.step(nev); c.trace(docs.size()); c.state(mc::hstr(shown)); c.outcome(oc);
}
static std::vector<Doc> mk(std::size_t n, std::size_t m)
{
	Alphabet a; a.tags={"a","b"}; a.texts={"t"}; a.roots=1; a.im=false; std::vector<Doc> r=genDocs(a,n); a.attrs={{"x","1"}}; for (auto& d:genDocs(a,m)) r.push_back(d); return r;
}
// one range call, all paths
static void single(mc::Choice& c){ static const std::vector<Doc> docs=mk(c.thorough()?11:10,c.thorough()?9:7); Expr e; e.steps=c.of(paths); e.ranges.push_back(c.of(ranges())); e.type=4; int pl=c.pick(2); judge(c,e,docs,pl); }
// combinations
static void combined(mc::Choice& c){ static const std::vector<Doc> docs=mk(c.thorough()?9:7,c.thorough()?7:5); Expr e; e.steps=paths[c.pick(c.thorough()?12:7)]; int n=2+c.pick(c.thorough()?2:1); for (int i=0;i<n;i++) e.ranges.push_back(c.of(ranges())); e.type=4; int pl=c.pick(3); judge(c,e,docs,pl); }
static void triple(mc::Choice& c){ static const std::vector<Doc> docs=[](){ std::vector<Doc> r; Doc d; d.push_back(Ev{B::OpenTag,"a"}); for (int i=0;i<7;i++) { d.push_back(Ev{B::Content,"t"}); d.push_back(Ev{B::OpenTag,"b"}); d.push_back(Ev{B::Content,"u"}); d.push_back(Ev{B::CloseTag,"b"}); } d.push_back(Ev{B::CloseTag,"a"}); r.push_back(d); return r; }(); Expr e; e.steps=paths[c.pick(7)]; for (int i=0;i<(c.thorough()?4:3);i++) e.ranges.push_back(c.of(ranges())); e.type=4; judge(c,e,docs,0); }
// many elements
static void large(mc::Choice& c)
{
	int n=c.thorough()?300:140; static const std::vector<Doc> docs=[&](){ std::vector<Doc> r; for (int nest=0;nest<2;nest++) { Doc d; d.push_back(Ev{B::OpenTag,"a"}); for (int i=0;i<n;i++) { d.push_back(Ev{B::Content,"t"}); d.push_back(Ev{B::OpenTag,nest?"a":"b"}); if (nest) d.push_back(Ev{B::Content,"u"}); d.push_back(Ev{B::CloseTag,nest?"a":"b"}); } d.push_back(Ev{B::CloseTag,"a"}); r.push_back(d); } return r; }();
	Expr e; e.steps=paths[2+c.pick(5)]; unsigned k=c.pick(4); int a=c.pick(n+2), b=a+(int)c.pick(4)*37; e.ranges.push_back(Range{(Range::K)k,a,b}); e.type=4; judge(c,e,docs,0);
}
// bounds beyond the limits of small integers
static void huge(mc::Choice& c)
{
	static const std::vector<int> bq={0,1,126,127,128,129,254,255,256,257,32766,32767,32768,32769,65534,65535,65536,65537,0x7ffffffe,0x7fffffff}; unsigned k=c.pick(4); int a=c.of(bq), b=k==3?c.of(bq):0; static const std::size_t N=66000; c.show("range call "+std::to_string(k)+" "+std::to_string(a)+" "+std::to_string(b)+" on "+std::to_string(N)+" contents");
	Atm atm; { Atm::PathElement p=*atm; p["r"](); if (k==0) p.INDEX(a); if (k==1) p.FROM(a); if (k==2) p.TO(a); if (k==3) p.RANGE(a,b); p=1; } const ET O=B::OpenTag, T=B::Content; Counted d(&atm); d.push(O,"r"); for (std::size_t i=0;i<N;i++) { d.push(T,"t"); d.push(O,"b"); d.push(B::CloseTagIm,""); }
	// inclusive bounds, as documented
	long lo=k==2?0:a, hi=k==0?a:k==1?(long)N:k==2?a:b; if (hi>=(long)N) hi=(long)N-1; std::string w=lo>hi?std::string("none"):matches(hi-lo+1,1+3*lo,1+3*hi); if (d.of(1)!=w) c.fail("matches "+d.of(1)+" instead of "+w); c.step(d.n); c.trace(); c.state(mc::hcomb(k,mc::hcomb(a,b))); c.outcome(k);
}
// bounds written in the text of an expression: with leading zeros and blanks
static void textual(mc::Choice& c)
{
	static const std::vector<int> v={0,1,2,7,9,10,11,64,99,100,127,128,139,140,141,255,256,1000,9999,10000,99999,100000,9999999,10000000,99999999}; typedef textwolf::XMLPathSelectAutomatonParser<> PA; static const long N=140; unsigned k=c.pick(4); int a=c.of(v), b=k==2?c.of(v):0; std::string ta=std::to_string(a), tb=std::to_string(b); unsigned za=c.pick(8), zb=k==2?c.pick(c.thorough()?8:3)*(c.thorough()?1:3):0, blank=c.pick(2); if (ta.size()+za>8||tb.size()+zb>8) return;
	ta=std::string(za,'0')+ta; tb=std::string(zb,'0')+tb; std::string s=blank?" ":"", t="/r["+s+ta+s; if (k==0) t+="]()"; if (k==1) t+=","+s+"]()"; if (k==2) t+=","+s+tb+s+"]()"; if (k==3) t="//r["+ta+s+"]"+s+"()"; c.show(t);
	PA atm; Mem m(t); int pos=atm.addExpression(1,m.p,m.n); if (pos) c.fail("rejected at "+std::to_string(pos)); const ET O=B::OpenTag, T=B::Content; Counted d(&atm); d.push(O,"r"); for (long i=0;i<N;i++) { d.push(T,"t"); d.push(O,"b"); d.push(B::CloseTagIm,""); }
	long lo=a, hi=k==0||k==3?a:k==1?N-1:b; if (hi>=N) hi=N-1; std::string w=lo>hi?std::string("none"):matches(hi-lo+1,1+3*lo,1+3*hi); if (d.of(1)!=w) c.fail("matches "+d.of(1)+" instead of "+w); c.step(d.n); c.trace(); c.state(mc::hstr(t)); c.outcome(mc::hstr(w));
}
// the description of an automaton shows the range
std::string describe98(const char* steps, int kind, int a, int b, unsigned depth);
static void described(mc::Choice& c)
{
	static const char* sel[]={"(","/(","a(","/a(","/*(","a*(","=(","a=(","ab(","/a/b(","*","a/b@"}; const char* st=sel[c.pick(12)]; Range r[2]; for (int i=0;i<2;i++) r[i]=c.of(ranges()); c.show("description of "+std::string(st)+" with range calls "+std::to_string((int)r[0].k)+" "+std::to_string(r[0].a)+" "+std::to_string(r[0].b)+" and "+std::to_string((int)r[1].k)+" "+std::to_string(r[1].a)+" "+std::to_string(r[1].b));
	std::string t=describe98(st,r[0].k,r[0].a,r[0].b,0), u=describe98(st,r[0].k,r[0].a,r[0].b,5000), v=describe98(st,r[1].k,r[1].a,r[1].b,0); if (t!=u) c.fail("described differently a second time");
	auto in=[](const Range& r, long n){ return r.k==Range::Index?n==r.a:r.k==Range::From?n>=r.a:r.k==Range::To?(r.a<0||n<=r.a):n>=r.a&&(r.b<0||n<=r.b); }; auto size=[&](const Range& r){ long k=0; for (long n=0;n<10;n++) k+=in(r,n)?1:0; return k; };
	if (size(r[0])&&size(r[1])) for (long n=0;n<10;n++) if (in(r[0],n)!=in(r[1],n)&&t==v) c.fail("different ranges described the same"); c.trace(); c.state(mc::hstr(t)); c.outcome(mc::hstr(v));
}
static std::string probe(void (*def)(Atm&), const Doc& d, const std::string& want)
{
	Atm atm; def(atm); Sel sel(&atm); std::string r; std::vector<int> got; for (std::size_t i=0;i<d.size();i++) { got.clear(); pushAll(sel,d[i],got); for (std::size_t k=0;k<got.size();k++) r+=(r.empty()?"":",")+std::to_string(i); } return r==want?"":"matches at tokens "+r+" instead of "+want+" of "+show(d);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"single",single,0,0,2,"12 kinds of content selections with each of 37 range calls (index, start, end, range with bounds 0..3, open and maximal), before and behind the result, on all trees of 10 (thorough: 11) tokens and all documents with attributes of 7 (thorough: 9) tokens"},
	{"combined",combined,0,0,3,"all sequences of 2 (thorough: 3) range calls on 7 (thorough: 12) selections in 3 places of the expression on all trees of 7 (thorough: 9) tokens"},
	{"triple",triple,0,0,3,"all sequences of 3 (thorough: 4) range calls on 7 selections on a document with 7 matches per context"},
	{"huge",huge,0,0,2,"all range calls with 20 bounds around the limits of 8, 16 and 31 bits on 66000 contents"},
	{"textual",textual,0,0,2,"ranges written as text: index, start, start and end with 25 numbers of up to 8 digits with all numbers of leading zeros, with and without blanks, on 140 contents"},
	{"described",described,0,0,2,"tostring() of all pairs of 37 range calls on 12 selections, before and behind the result"},
	{"large",large,0,0,3,"bounds up to 141 (thorough: 301) on documents with 140 (thorough: 300) matches per context"}}; }
std::vector<Probe> probes()
{
	const ET O=B::OpenTag, C=B::CloseTag, N=B::TagAttribName, V=B::TagAttribValue, T=B::Content; static const Doc d={{O,"a"},{N,"x"},{V,"1"},{N,"y"},{V,"2"},{O,"b"},{O,"c"},{T,"t"},{C,"c"},{C,"b"},{O,"b"},{O,"c"},{T,"u"},{C,"c"},{C,"b"},{C,"a"}};
	return {
		{"index-on-tag",[](){ return probe([](Atm& a){ (*a)["a"]["b"].INDEX(1)=1; },d,"10"); }},
		{"index-on-attribute",[](){ return probe([](Atm& a){ (*a)["a"](0).INDEX(1)=1; },d,"4"); }},
		{"index-inside-path",[](){ return probe([](Atm& a){ (*a)["a"]["b"].INDEX(1)["c"]()=1; },d,"12"); }}};
}
std::vector<std::string> assumptions(){ return {"the matches counted are those within the element the selection of the content starts from","index ranges on events for tags, on attributes and inside of a path are not implemented (known findings)"}; }
}
