// P02: expressions in one automaton do not influence each other
#include "path.hpp"
#include <map>
#include <set>
#include <algorithm>
using namespace path;
MC_PROPERTY("P02")
static const std::vector<Step> sels={{Step::Tag,false,"a",0},{Step::Tag,false,"b",0},{Step::Tag,false,0,0},{Step::Tag,true,"a",0},{Step::Tag,true,"b",0},{Step::Tag,true,0,0},{Step::If,false,"x","1"},{Step::If,false,"x",0},{Step::If,false,0,"1"},{Step::If,false,0,0},{Step::If,true,"x","1"},{Step::If,true,"x",0},{Step::If,true,0,"1"},{Step::If,true,0,0}};
static const std::vector<std::vector<Step> > outs={{},{{Step::Content,false}},{{Step::Close,false}},{{Step::Attr,false,"x"}},{{Step::Content,true}},{{Step::Attr,false,0}},{{Step::Attr,true,"x"}},{{Step::Attr,true,0}},{{Step::Attr,false,"x"},{Step::Content,false}},{{Step::Attr,true,0},{Step::Content,true}}};
static std::vector<Doc> mk(std::size_t n, int roots, const Doc& p=Doc()){ Alphabet a; a.tags={"a","b"}; a.attrs={{"x","1"},{"y","2"}}; a.texts={"t"}; a.roots=roots; return genDocs(a,n,p); }
typedef std::vector<std::vector<unsigned char> > Counts;
// matches of one expression alone: by the implementation itself
static const Counts& alone(const Expr& e, const std::vector<Doc>& docs, int set)
{
	static std::map<std::string,Counts> cache; Expr f(e); f.type=1; std::string key=std::to_string(set)+show(f); auto it=cache.find(key); if (it!=cache.end()) return it->second;
	Atm atm; build(atm,f); Counts r; std::vector<int> got; for (auto& d:docs) { r.emplace_back(); Sel sel(&atm); for (auto& v:d) { got.clear(); pushAll(sel,v,got); r.back().push_back((unsigned char)got.size()); } } return cache[key]=r;
}
static void judge(mc::Choice& c, const std::vector<Expr>& es, const std::vector<Doc>& docs, int set)
{
	std::string shown; for (auto& e:es) shown+=(shown.empty()?"":"; ")+show(e); if (shown.size()>2000) shown.resize(2000); c.show(shown);
	Atm atm; std::vector<const Counts*> al; for (std::size_t i=0;i<es.size();i++) { build(atm,es[i],(int)(i&1)); al.push_back(&alone(es[i],docs,set)); }
	std::vector<int> exp,got; std::size_t nev=0; uint64_t oc=0;
	for (std::size_t k=0;k<docs.size();k++)
	{
		const Doc& d=docs[k]; Sel sel(&atm);
		for (std::size_t i=0;i<d.size();i++)
		{
			exp.clear(); got.clear(); for (std::size_t j=0;j<es.size();j++) for (int n=(*al[j])[k][i];n>0;n--) exp.push_back(es[j].type); pushAll(sel,d[i],got); std::sort(exp.begin(),exp.end()); std::sort(got.begin(),got.end());
			if (exp!=got) { std::string a,b; for (int x:exp) a+=" "+std::to_string(x); for (int x:got) b+=" "+std::to_string(x); c.fail("matches"+b+" instead of"+a+" (each expression alone) at the end of "+show(d,i+1)); }
			if (!exp.empty()) oc=mc::hcomb(oc,i*64+exp.size());
		}
		nev+=d.size();
	}
	c.step(nev); c.trace(docs.size()); c.state(mc::hstr(shown)); c.outcome(oc);
}
static const int types[][3]={{1,2,3},{3,3,3},{-7,2147483647,(int)0x80000000}};
static Expr one(mc::Choice& c, std::size_t nouts){ Expr e; unsigned k=c.pick(sels.size()+1); if (k) e.steps.push_back(sels[k-1]); const auto& o=outs[c.pick(nouts)]; e.steps.insert(e.steps.end(),o.begin(),o.end()); e.type=1; return e; }
// all ordered pairs of expressions of up to 1 selection
static void pairs(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk(c.thorough()?6:5,2); std::vector<Expr> es; es.push_back(one(c,outs.size())); es.push_back(one(c,outs.size())); int t=c.pick(2); if (es[0].steps.empty()||es[1].steps.empty()) return; es[0].type=types[t?2:0][0]; es[1].type=types[t?2:0][1]; judge(c,es,docs,0);
}
// the same pair with the same number
static void same(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk(c.thorough()?6:5,1); std::vector<Expr> es; es.push_back(one(c,5)); int rep=c.pick(3); if (es[0].steps.empty()) return; if (rep==2) es.push_back(one(c,5)); else for (int i=0;i<=rep;i++) es.push_back(es[0]); if (es[1].steps.empty()) return; for (auto& e:es) e.type=9; judge(c,es,docs,1);
}
// pairs with two selections sharing the first one or not
static void prefixes(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk(c.thorough()?7:5,1); std::vector<Expr> es(2); const Step& s=c.of(sels); for (int i=0;i<2;i++) { es[i].steps.push_back(s); es[i].steps.push_back(c.of(sels)); const auto& o=outs[c.pick(c.thorough()?5:3)]; es[i].steps.insert(es[i].steps.end(),o.begin(),o.end()); es[i].type=i+1; } judge(c,es,docs,2);
}
// tags, attributes and values of the same name
static void names(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ Alphabet a; a.tags={"a","b"}; a.attrs={{"a","b"},{"b","a"}}; a.texts={"b"}; a.roots=1; return genDocs(a,c.thorough()?7:6); }();
	static const std::vector<Step> ss={{Step::Tag,false,"a",0},{Step::Tag,false,"b",0},{Step::If,false,"a",0},{Step::If,false,"a","b"},{Step::If,false,"b","a"},{Step::If,false,0,"b"},{Step::Tag,true,"b",0},{Step::If,true,"b","a"}}; static const std::vector<std::vector<Step> > os={{},{{Step::Content,false,0,0}},{{Step::Attr,false,"a",0}},{{Step::Attr,false,"b",0}},{{Step::Close,false,0,0}},{{Step::Attr,true,"b",0}}};
	static const std::vector<Expr> all=[](){ std::vector<Expr> r; for (std::size_t i=0;i<=ss.size();i++) for (auto& o:os) { Expr e; e.type=1; e.steps.push_back(Step{Step::Tag,false,"a",0}); if (i) e.steps.push_back(ss[i-1]); e.steps.insert(e.steps.end(),o.begin(),o.end()); r.push_back(e); if (!i) continue; Expr f(e); f.steps.erase(f.steps.begin()); r.push_back(f); } return r; }();
	std::vector<Expr> es; for (int i=0;i<2;i++) { es.push_back(c.of(all)); es.back().type=i+1; } judge(c,es,docs,7);
}
// triples
static void triples(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk(c.thorough()?7:6,1); static const std::vector<Expr> base=[](){ std::vector<Expr> r; auto add=[&](std::vector<Step> s){ Expr e; e.steps=s; e.type=1; r.push_back(e); }; const Step a=sels[0], w=sels[2], da=sels[3], db=sels[4], dw=sels[5], x1=sels[6], x0=sels[7], C{Step::Content,false,0,0}, DC{Step::Content,true,0,0}, X{Step::Attr,false,"x",0}, DX{Step::Attr,true,0,0}, L{Step::Close,false,0,0}; add({a}); add({w}); add({da}); add({dw}); add({C}); add({DC}); add({a,C}); add({da,C}); add({dw,DC}); add({a,X}); add({DX}); add({a,x1}); add({a,x1,C}); add({a,x0,w}); add({da,db}); add({a,L}); add({dw,L}); add({da,w,C}); return r; }();
	std::vector<Expr> es; for (int i=0;i<3;i++) { es.push_back(c.of(base)); es.back().type=types[0][i]; } judge(c,es,docs,3);
}
// index ranges are counted per expression
static void ranges(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ Alphabet a; a.tags={"a","b"}; a.texts={"t"}; a.im=true; a.roots=1; return genDocs(a,c.thorough()?10:8); }(); static const std::vector<Range> rs={{Range::From,0},{Range::Index,0},{Range::Index,1},{Range::From,1},{Range::To,0},{Range::Rng,0,1},{Range::Rng,1,1},{Range::Index,3}}; static const std::vector<std::vector<Step> > ss={{{Step::Content,true,0,0}},{sels[0],{Step::Content,false,0,0}},{sels[3],{Step::Content,false,0,0}},{sels[5],{Step::Content,true,0,0}}};
	std::vector<Expr> es(2); for (int i=0;i<2;i++) { es[i].steps=c.of(ss); const Range& r=c.of(rs); es[i].ranges.push_back(r); es[i].type=i+1; } if (c.flip()) es.push_back(es[0]), es.back().type=3; judge(c,es,docs,4);
}
// all at once, in every rotation and both directions
static void many(mc::Choice& c)
{
	int hd=c.pick(2); static std::vector<Doc> docsets[2]; if (docsets[hd].empty()) docsets[hd]=mk(c.thorough()?7:5,2,hd?header():Doc());
	static const std::vector<Expr> all=[](){ std::vector<Expr> r; for (std::size_t k=0;k<=sels.size();k++) for (auto& o:outs) { Expr e; if (k) e.steps.push_back(sels[k-1]); e.steps.insert(e.steps.end(),o.begin(),o.end()); e.type=(int)r.size()+1; if (e.steps.size()) r.push_back(e); } return r; }();
	std::size_t rot=c.pick(all.size()); bool rev=c.flip(); std::vector<Expr> es; for (std::size_t i=0;i<all.size();i++) es.push_back(all[(i+rot)%all.size()]); if (rev) std::reverse(es.begin(),es.end()); judge(c,es,docsets[hd],5+hd);
}
// very many expressions in one automaton: each one alone matches once in a document that contains its name
static void crowd(mc::Choice& c)
{
	unsigned shape=c.pick(3); static const std::vector<int> sq={1,100,127,128,129,255,256,257,1000,8000,32769}, st={1,2,3,31,32,33,63,64,65,100,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025,4095,4096,4097,32767,32768,32769,65535,65536,65537,70000}; std::size_t N=c.of(c.thorough()?st:sq); c.show("shape "+std::to_string(shape)+", "+std::to_string(N)+" expressions"); Atm atm; const ET O=B::OpenTag, C=B::CloseTag, T=B::Content;
	for (std::size_t i=0;i<N;i++) { std::string n="n"+std::to_string(i); switch (shape) { case 0: (*atm)[n.c_str()]()=(int)i+1; break; case 1: (*atm)["r"][n.c_str()]()=(int)i+1; break; default: (*atm)["r"]["a"]()=(int)i+1; } }
	std::set<std::size_t> probe={0,N/2,N-1}; for (std::size_t x:{1,2,126,127,128,254,255,256,257,32766,32767,32768,65534,65535,65536}) if (x<N) probe.insert(x);
	if (shape==2) { Counted d(&atm); d.push(O,"r"); d.push(O,"a"); d.push(T,"t"); d.push(C,"a"); d.push(C,"r"); if (d.hits.size()!=N) c.fail(std::to_string(d.hits.size())+" of "+std::to_string(N)+" identical expressions match"); for (std::size_t i=0;i<N;i++) if (d.of((int)i+1)!=matches(1,2,2)) c.fail("expression "+std::to_string(i)+" matches "+d.of((int)i+1)); c.step(d.n); }
	else for (std::size_t i:probe) { Counted d(&atm); std::string n="n"+std::to_string(i); if (shape) d.push(O,"r"); d.push(O,n); d.push(T,"t"); d.push(C,n); if (shape) d.push(C,"r"); if (d.hits.size()!=1||d.of((int)i+1)!=matches(1,1+(shape==1),1+(shape==1))) c.fail("expression "+std::to_string(i)+" matches "+d.of((int)i+1)+", "+std::to_string(d.hits.size())+" expressions match"); c.step(d.n); }
	c.trace(); c.state(mc::hcomb(shape,N)); c.outcome(shape);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"pairs",pairs,0,0,3,"all ordered pairs of the 149 expressions of up to 1 selection (14 selections, 10 kinds of results) with ordinary and extreme numbers on all documents of 5 (thorough: 6) tokens over 2 tags, 2 attributes, text, 2 roots"},
	{"same number",same,0,0,3,"the same expression two and three times, pairs of expressions with the same number"},
	{"shared prefixes",prefixes,0,0,3,"all pairs of expressions of 2 selections sharing the first one with 3 (thorough: 5) kinds of results on all documents of 5 (thorough: 7) tokens"},
	{"same names",names,0,0,3,"all ordered pairs of 102 expressions of up to 2 selections and a result over tags, attributes and values that have the same names, on all documents of 6 (thorough: 7) tokens"},
	{"triples",triples,0,0,3,"all ordered triples out of 18 expressions on all documents of 6 (thorough: 7) tokens"},
	{"index ranges",ranges,0,0,3,"all pairs out of 32 expressions with index ranges, one of them also repeated, on all trees of 8 (thorough: 10) tokens"},
	{"crowd",crowd,0,0,2,"11 (thorough: 33) numbers up to 32769 (70000) of expressions with different names at the root or below, or all the same"},
	{"all at once",many,0,0,2,"an automaton of 149 expressions, built in every rotation of their order and in both directions, on all documents of 5 (thorough: 7) tokens with and without XML declaration"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"the matches of each expression alone are those of the implementation (their correctness is P01)","the order of the matches of one token is not specified"}; }
}
