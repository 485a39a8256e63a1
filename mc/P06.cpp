// P06: the way the results of an event are iterated does not change the matches
#include "path.hpp"
#include <iterator>
using namespace path;
MC_PROPERTY("P06")
typedef Sel::iterator It;
enum {NofStyles=12};
static const char* styleName[NofStyles]={"++i","i++","copy dereferenced","copies made and destroyed","*i++","push(std::string)","assigned iterator","continued with the copy","std::copy","compared repeatedly","until *i is 0","dereferenced repeatedly"};
static void over(std::size_t n){ if (n>100000) throw mc::Violation("matches without end"); }
static void iterate(mc::Choice& c, Sel& s, const Ev& v, int style, std::vector<int>& out)
{
	Mem m(v.key); out.clear();
	switch (style)
	{
		case 0: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); for (; i!=e; ++i) { out.push_back(*i); over(out.size()); } break; }
		case 1: { It i=s.push(v.t,m.p,(int)m.n); for (; i!=s.end(); i++) { out.push_back(*i); over(out.size()); } break; }
		case 2: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); for (; i!=e; ++i) { It j(i); out.push_back(*j); over(out.size()); } break; }
		case 3: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); while (i!=e) { { It a(i); It b(a); It d; d=b; if (a!=i||b!=a||d!=i) c.fail("a copy of an iterator is not equal"); } It keep(i); ++i; out.push_back(*keep); over(out.size()); } break; }
		case 4: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); while (i!=e) { out.push_back(*i++); over(out.size()); } break; }
		case 5: { std::string key(m.p,m.n); It i=s.push(v.t,key), e=s.end(); for (; i!=e; ++i) { out.push_back(*i); over(out.size()); } break; }
		case 6: { It i,e; i=s.push(v.t,m.p,(int)m.n); It j; j=i; j=j; for (; j!=e; ++j) { out.push_back(*j); over(out.size()); } break; }
		case 7: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); while (i!=e) { out.push_back(*i); It j(i); ++j; i=j; over(out.size()); } break; }
		case 8: { std::copy(s.push(v.t,m.p,(int)m.n),s.end(),std::back_inserter(out)); break; }
		case 9: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(), none; for (; !(i==e)&&i!=none&&!(i==s.end()); ++i) { if (i==e||none==i) c.fail("unequal iterators compare equal"); if (!(i==i)||i!=i) c.fail("an iterator is not equal to itself"); out.push_back(*i); over(out.size()); } break; }
		case 10: { for (It i=s.push(v.t,m.p,(int)m.n); *i!=0; ++i) { out.push_back(*i); over(out.size()); } break; }
		case 11: { It i=s.push(v.t,m.p,(int)m.n), e=s.end(); for (; i!=e; ) { int x=*i; if (*i!=x||*i.operator->()!=x) c.fail("repeated dereferencing delivers another match"); It& r=++i; (void)*r; out.push_back(x); if (*r!=*i) c.fail("increment does not return the iterator"); over(out.size()); } break; }
	}
}
// expressions with no, one or several results, also of the same type, at every kind of event
static void make(Atm& atm, unsigned set)
{
	auto all=[&](int& t)->int{ return ++t; }; int t=0;
	typedef Atm::PathElement E;
	switch (set)
	{
		case 0: { E(*atm)--["a"]=all(t); (*atm)--[(const char*)0]=all(t); (*atm)["a"]=all(t); { E p=*atm; p--; p["a"].selectCloseTag().assignType(all(t)); } (*atm)["a"].selectCloseTag().assignType(all(t)); (*atm)--()=all(t); (*atm)["a"]()=all(t); (*atm)--("x")=all(t); (*atm)["a"]("x")=all(t); break; }
		case 1: { for (int i=0;i<3;i++) { E p=*atm; p--; p["a"].selectCloseTag().assignType(i==1?1:all(t)); } { E p=*atm; p--; p["b"].selectCloseTag().assignType(all(t)); } (*atm)["a"]["b"].selectCloseTag().assignType(all(t)); (*atm)["a"]("x","1").selectCloseTag().assignType(all(t)); break; }
		case 2: { for (int i=0;i<3;i++) (*atm)["a"]=7; (*atm)--["a"]=7; (*atm)--["a"]=8; (*atm)--[(const char*)0]=7; break; }
		case 3: { (*atm)["a"]["b"]()=all(t); (*atm)--["b"]()=all(t); (*atm)--()=all(t); { E p=*atm; p["a"](); p.TO(0); p=all(t); } { E p=*atm; p--; p(); p.RANGE(1,2); p=all(t); } { E p=*atm; p["a"](); p.INDEX(1); p=all(t); } break; }
		case 4: { (*atm)--("x")=all(t); (*atm)--["a"]("x")=all(t); (*atm)--["a"]("x")=2; (*atm)["a"]("x","1")=all(t); (*atm)["a"]("x",0)=all(t); (*atm)["a"]("x",0)["b"]=all(t); (*atm)["a"](0,"1")=all(t); break; }
		default: { (*atm)--["a"]--["b"]=all(t); { E p=*atm; p--; p["a"]; p--; p["b"].selectCloseTag().assignType(all(t)); } (*atm)--["b"]--["a"]=all(t); (*atm)--["a"]--["b"]()=all(t); (*atm)--["a"]--("x")=all(t); }
	}
}
static const std::vector<Doc>& docs(int n)
{
	static std::map<int,std::vector<Doc> > m; std::vector<Doc>& r=m[n]; if (r.empty()) { Alphabet al; al.tags={"a","b"}; al.texts={"t"}; al.attrs={{"x","1"},{"y","1"}}; al.roots=1; r=genDocs(al,n); } return r;
}
static void compare(mc::Choice& c, Sel& ref, Sel& s, const Doc& d, const std::vector<int>& styles, const std::vector<std::vector<int> >& want)
{
	std::vector<int> got; for (std::size_t k=0;k<d.size();k++) { iterate(c,s,d[k],styles[k],got); if (got!=want[k]) { std::string w,g; for (int x:want[k]) w+=" "+std::to_string(x); for (int x:got) g+=" "+std::to_string(x); c.fail("event "+std::to_string(k)+" of "+show(d)+" iterated with "+styleName[styles[k]]+": matches"+g+" instead of"+w); } } (void)ref; c.step(d.size());
}
static std::vector<std::vector<int> > plain(Atm& atm, const Doc& d){ Sel s(&atm); std::vector<std::vector<int> > r(d.size()); for (std::size_t k=0;k<d.size();k++) pushAll(s,d[k],r[k]); return r; }
static void run(mc::Choice& c, unsigned set, const Doc& d, const std::vector<int>& st, bool copied)
{
	static std::map<unsigned,Atm*> ms; Atm*& atm=ms[set]; if (!atm) { atm=new Atm(); make(*atm,set); } std::string txt; for (int x:st) txt+=" "+std::to_string(x); c.show("expression set "+std::to_string(set)+" document "+show(d)+" styles"+txt);
	std::vector<std::vector<int> > want=plain(*atm,d); Sel s(atm); Sel t(s); compare(c,s,copied?t:s,d,st,want); uint64_t h=set; for (auto& w:want) for (int x:w) h=mc::hcomb(h,x); c.outcome(h); c.trace(); for (int x:st) h=mc::hcomb(h,x); c.state(mc::hcomb(h,mc::hstr(show(d))));
}
// one style for a whole document
static void uniform(mc::Choice& c){ const std::vector<Doc>& ds=docs(c.thorough()?8:7); unsigned set=c.pick(6); const Doc& d=ds[c.pick(ds.size())]; int st=c.pick(NofStyles); run(c,set,d,std::vector<int>(d.size(),st),c.flip()); }
// every event in another style: all assignments with a bounded number of events iterated in another way
static void mixed(mc::Choice& c){ const std::vector<Doc>& ds=docs(c.thorough()?6:5); unsigned set=c.pick(6); const Doc& d=ds[c.pick(ds.size())]; int base=c.pick(c.thorough()?2:1); std::vector<int> st; for (std::size_t i=0;i<d.size();i++) { int x=c.dev(NofStyles); st.push_back(x?x:base*7); } run(c,set,d,st,false); }
// many matches per event
static void many(mc::Choice& c)
{
	static const std::vector<int> ns={1,2,3,31,32,33,64,127,128,129,255,256,257,500,1000}; int n=c.of(ns), kind=c.pick(4), st=c.pick(NofStyles), same=c.pick(2); Atm atm; for (int i=0;i<n;i++) { int t=same?5:i+1; switch (kind) { case 0: (*atm)["a"]=t; break; case 1: (*atm)["a"].selectCloseTag().assignType(t); break; case 2: (*atm)["a"]()=t; break; case 3: (*atm)["a"]("x")=t; break; } } Doc d={{B::OpenTag,"a"},{B::TagAttribName,"x"},{B::TagAttribValue,"1"},{B::Content,"t"},{B::CloseTag,"a"},{B::OpenTag,"a"},{B::CloseTagIm,""}};
	c.show(std::to_string(n)+" expressions of kind "+std::to_string(kind)+" style "+styleName[st]); std::vector<std::vector<int> > want=plain(atm,d); std::size_t tot=0; for (auto& w:want) tot+=w.size(); if (tot!=(std::size_t)n*(kind==0||kind==1?2:1)) c.fail(std::to_string(tot)+" matches"); Sel s(&atm); compare(c,s,s,d,std::vector<int>(d.size(),st),want); c.trace(); c.state(n*64+kind*16+st); c.outcome(tot);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"uniform",uniform,0,0,3,"6 sets of expressions with up to 11 results per event (tags, end of elements, contents, attributes, conditions, ranges), all event sequences of up to 7 (thorough 8) events over 2 tags, 2 attributes and a text, each of 12 ways of iterating, selector and copy of a selector"},
	{"mixed",mixed,2,3,3,"event sequences of up to 5 (thorough 6), all assignments of the 12 ways of iterating to the events with up to 2 (thorough 3) differing from the one used for the others"},
	{"many",many,0,0,2,"up to 1000 matches of the same or different type at one event, at element begin, end, content and attribute"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"the results of every event are iterated to their end","reference: the matches delivered with a prefix increment loop, which P01-P05 compare with a model"}; }
}
