// P01: path selection delivers exactly the matches of the expression
#include "path.hpp"
#include <map>
#include <set>
using namespace path;
MC_PROPERTY("P01")
static const Step tagSteps[]={{Step::Tag,false,"a",0},{Step::Tag,false,"b",0},{Step::Tag,false,0,0},{Step::Tag,true,"a",0},{Step::Tag,true,"b",0},{Step::Tag,true,0,0}};
static const Step condSteps[]={{Step::If,false,"x","1"},{Step::If,false,"x",0},{Step::If,false,0,"1"},{Step::If,false,0,0},{Step::If,true,"x","1"},{Step::If,true,"x",0},{Step::If,true,0,"1"},{Step::If,true,0,0}};
static const std::vector<std::vector<Step> > outs={{},{{Step::Content,false}},{{Step::Content,true}},{{Step::Close,false}},{{Step::Attr,false,"x"}},{{Step::Attr,false,0}},{{Step::Attr,true,"x"}},{{Step::Attr,true,0}},{{Step::Attr,false,"x"},{Step::Content,false}},{{Step::Attr,true,0},{Step::Content,true}}};
static void judge(mc::Choice& c, const Expr& e, const std::vector<Doc>& docs)
{
	std::string shown=show(e); c.show(shown); Atm atm; build(atm,e,(int)(e.steps.size()&1)); Reference ref; std::vector<int> exp, got; uint64_t oc=0; std::size_t nev=0;
	for (const Doc& d:docs)
	{
		ref(e,d,exp); Sel sel(&atm);
		for (std::size_t i=0;i<d.size();i++)
		{
			got.clear(); pushAll(sel,d[i],got); int n=exp[i];
			if ((int)got.size()!=n) { c.show(shown+" on "+show(d,i+1)); c.fail(std::to_string(got.size())+" matches instead of "+std::to_string(n)+" at the end of "+show(d,i+1)); }
			for (int t:got) if (t!=e.type) { c.show(shown+" on "+show(d,i+1)); c.fail("match with number "+std::to_string(t)); }
			if (n) oc=mc::hcomb(oc,i*16+n);
		}
		nev+=d.size();
	}
	c.step(nev); c.trace(docs.size()); c.state(mc::hstr(shown)); c.outcome(oc);
}
static std::vector<Doc> mk(std::vector<std::string> tags, std::vector<std::pair<std::string,std::string> > attrs, std::vector<std::string> texts, std::size_t n, int roots, const Doc& prefix=Doc()){ Alphabet a; a.tags=tags; a.attrs=attrs; a.texts=texts; a.roots=roots; return genDocs(a,n,prefix); }
static Expr pickExpr(mc::Choice& c, int maxsel, bool conds)
{
	Expr e; static const int types[]={1,7,-3,2147483647,(int)0x80000000}; int n=c.pick(maxsel+1); for (int i=0;i<n;i++) { unsigned k=c.pick(conds?14:6); e.steps.push_back(k<6?tagSteps[k]:condSteps[k-6]); } const std::vector<Step>& o=c.of(outs); e.steps.insert(e.steps.end(),o.begin(),o.end()); e.type=types[(n+o.size()*3+(e.steps.empty()?0:e.steps[0].k))%5]; return e;
}
static const std::vector<std::pair<std::string,std::string> > A3={{"x","1"},{"x","2"},{"y","1"}}, A1={{"x","1"},{"y","1"}};
// all expressions of up to 2 selections on larger documents
static void small(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk({"a","b"},A3,{"t"},c.thorough()?8:7,2); Expr e=pickExpr(c,2,true); if (e.steps.empty()) return; judge(c,e,docs);
}
// all expressions of up to 3 selections on smaller documents
static void deep(mc::Choice& c)
{
	static const std::vector<Doc> docs=mk({"a","b"},A1,{"t"},c.thorough()?7:5,1); Expr e=pickExpr(c,3,true); if (e.steps.empty()) return; judge(c,e,docs);
}
// chains of tags on deep trees
static void tags(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ Alphabet a; a.tags={"a","b"}; a.texts={"t"}; a.im=false; a.roots=1; return genDocs(a,c.thorough()?11:9); }(); Expr e=pickExpr(c,c.thorough()?4:3,false); if (e.steps.empty()) return; judge(c,e,docs);
}
// documents with an XML declaration and a document type
static void headers(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ std::vector<Doc> r; Doc p=header(); for (auto& d:mk({"a","b"},{{"x","1"}},{"t"},c.thorough()?6:5,2,p)) r.push_back(d); for (auto& e:doctype()) p.push_back(e); for (auto& d:mk({"a","b"},{{"x","1"}},{"t"},c.thorough()?5:3,1,p)) r.push_back(d); return r; }();
	Expr e=pickExpr(c,2,true); if (e.steps.empty()) return; if (c.flip()&&e.steps[0].k==Step::Tag) e.steps[0].name="?xml"; judge(c,e,docs);
}
// names that are prefixes of each other, the same name for everything, many siblings and depth
static void names(mc::Choice& c)
{
	static const std::vector<const char*> ns={"a","aa","ab","x","\xc3\xa9",0}; static const std::vector<Doc> docs=mk({"a","aa","x"},{{"a","a"},{"x","x"}},{"a"},c.thorough()?7:6,1);
	Expr e; e.type=5; int n=1+c.pick(2); for (int i=0;i<n;i++) e.steps.push_back(Step{Step::Tag,c.flip(),c.of(ns),0}); unsigned o=c.pick(5); if (o==1) e.steps.push_back(Step{Step::Content,false,0,0}); if (o==2) e.steps.push_back(Step{Step::Attr,false,c.of(ns),0}); if (o==3) e.steps.push_back(Step{Step::If,false,c.of(ns),c.of(ns)}); if (o==4) e.steps.push_back(Step{Step::Content,true,0,0}); judge(c,e,docs);
}
// long documents: depth and number of siblings up to a bound
static void large(mc::Choice& c)
{
	static const std::vector<std::string> shapes={"deep","wide","comb","attributes","texts"}; unsigned sh=c.pick(5); static const std::vector<int> sq={1,2,15,16,17,31,33,100}, st={1,2,15,16,17,63,64,65,255,256,257,1000}; const std::vector<int>& sizes=c.thorough()?st:sq; int n=c.of(sizes); if (sh==3) n=std::min(n,65); if (sh==0||sh==2) n=std::min(n,c.thorough()?1000:300); Doc d; d.push_back(Ev{B::OpenTag,"a"});
	if (sh==0) { for (int i=0;i<n;i++) { d.push_back(Ev{B::OpenTag,i&1?"b":"a"}); d.push_back(Ev{B::Content,"t"}); } for (int i=n;i-->0;) { d.push_back(Ev{B::CloseTag,i&1?"b":"a"}); d.push_back(Ev{B::Content,"u"}); } }
	if (sh==1) for (int i=0;i<n;i++) { d.push_back(Ev{B::OpenTag,i&1?"b":"a"}); d.push_back(Ev{B::TagAttribName,"x"}); d.push_back(Ev{B::TagAttribValue,"1"}); if (i%3) d.push_back(Ev{B::Content,"t"}); d.push_back(Ev{i%3?B::CloseTag:B::CloseTagIm,i%3?(i&1?"b":"a"):""}); }
	if (sh==2) { for (int i=0;i<n;i++) { d.push_back(Ev{B::OpenTag,"b"}); d.push_back(Ev{B::CloseTagIm,""}); d.push_back(Ev{B::OpenTag,"a"}); } for (int i=0;i<n;i++) d.push_back(Ev{B::CloseTag,"a"}); }
	if (sh==3) for (int i=0;i<n;i++) { d.push_back(Ev{B::TagAttribName,i==n-1?"x":"y"+std::to_string(i)}); d.push_back(Ev{B::TagAttribValue,i%2?"1":"2"}); }
	if (sh==4) for (int i=0;i<n;i++) { d.push_back(Ev{B::Content,"t"}); d.push_back(Ev{B::OpenTag,"b"}); d.push_back(Ev{B::CloseTagIm,""}); }
	d.push_back(Ev{B::CloseTag,"a"}); Expr e=pickExpr(c,2,true); if (e.steps.empty()||(sh==0&&e.steps.size()>2&&n>300)) return; std::vector<Doc> v(1,d); judge(c,e,v);
}
// selection on what the scanner delivers for the text of a document
static std::string text(const Doc& d){ std::string r=path::show(d); return r; }
static void scanned(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ std::vector<Doc> r; for (int h=0;h<2;h++) for (auto& d:mk({"a","b"},A1,{"t"},c.thorough()?6:5,1,h?header():Doc())) { int lev=0; bool opened=false, bad=false; for (auto& e:d) { if (e.t==B::OpenTag) { lev++; opened=true; } if (e.t==B::CloseTag||e.t==B::CloseTagIm) lev--; } Doc f(d); std::vector<std::string> stk; for (auto& e:d) { if (e.t==B::OpenTag) stk.push_back(e.key); if (e.t==B::CloseTag||e.t==B::CloseTagIm) stk.pop_back(); } while (!stk.empty()) { f.push_back(Ev{B::CloseTag,stk.back()}); stk.pop_back(); } if (opened&&!bad) r.push_back(f); } return r; }();
	Expr e=pickExpr(c,2,true); if (e.steps.empty()) return; std::string shown=show(e); c.show(shown); Atm atm; build(atm,e); Reference ref; std::vector<int> exp,got; uint64_t oc=0; std::size_t nev=0;
	for (const Doc& d:docs)
	{
		ref(e,d,exp); Mem m(text(d)); typedef textwolf::XMLScanner<textwolf::CStringIterator,CS8,CS8,std::string> SC; SC sc(textwolf::CStringIterator(m.p,(unsigned)m.n)); Sel sel(&atm); std::size_t i=0;
		for (SC::iterator t=sc.begin(), te=sc.end(); t!=te; ++t,++i)
		{
			if (i>=d.size()) break; got.clear(); for (Sel::iterator r=sel.push(t->type(),t->content(),t->size()), re=sel.end(); r!=re; ++r) got.push_back(*r);
			if ((int)t->type()!=(int)d[i].t) break; // the scanner's tokens are not judged here
			if ((int)got.size()!=exp[i]) { c.show(shown+" on "+text(d)); c.fail(std::to_string(got.size())+" matches instead of "+std::to_string(exp[i])+" at the end of "+show(d,i+1)); }
			if (exp[i]) oc=mc::hcomb(oc,i*16+exp[i]);
		}
		nev+=d.size();
	}
	c.step(nev); c.trace(docs.size()); c.state(mc::hstr(shown)); c.outcome(oc);
}
// an event for every document, once
static void every(mc::Choice& c)
{
	static const std::vector<Doc> docs=[&](){ std::vector<Doc> r; for (int h=0;h<3;h++) { Doc p; if (h) p=header(); if (h==2) for (auto& e:doctype()) p.push_back(e); for (auto& d:mk({"a"},A1,{"t"},6,2,p)) r.push_back(d); } return r; }();
	int type=1+(int)c.pick(3); int style=c.pick(2); c.show("(*atm) = "+std::to_string(type)); Atm atm; if (style) (*atm)=type; else (*atm).assignType(type);
	for (auto& d:docs) { Sel sel(&atm); int n=0; bool seen=false; for (auto& e:d) { std::vector<int> got; pushAll(sel,e,got); for (int t:got) if (t!=type) c.fail("match with number "+std::to_string(t)); n+=got.size(); if (e.t==B::OpenTag) seen=true; if (n>1||(seen&&n!=1)) c.fail(std::to_string(n)+" events for the document "+show(d)); } c.step(d.size()); c.trace(); c.state(mc::hstr(show(d))); }
	c.outcome(type);
}
// depth, number of siblings, attributes and contents beyond the limits of small integers
static void huge(mc::Choice& c)
{
	unsigned shape=c.pick(4); std::size_t N=c.of(hugeSizes(c.thorough())); static const char* sn[]={"depth","siblings","attributes","steps"}; c.show(std::string(sn[shape])+" "+std::to_string(N)); Atm atm; std::vector<std::string> want(9); const ET O=B::OpenTag, C=B::CloseTag, T=B::Content, A=B::TagAttribName, V=B::TagAttribValue;
	if (shape==0)
	{
		(*atm)["r"]()=1; (*atm)["r"]["a"].selectCloseTag().assignType(2); (*atm)--["z"]=3; (*atm)["r"]["b"]("x")=4; (*atm)["r"]["a"]["a"]=5; (*atm)--["e"]()=6;
		Counted d(&atm); d.push(O,"r"); for (std::size_t i=0;i<N;i++) d.push(O,"a"); d.push(O,"e"); d.push(T,"t"); d.push(C,"e"); for (std::size_t i=0;i<N;i++) d.push(C,"a"); d.push(T,"u"); d.push(O,"b"); d.push(A,"x"); d.push(V,"1"); d.push(B::CloseTagIm,""); d.push(O,"z"); d.push(C,"z"); d.push(C,"r");
		std::size_t u=2*N+4; want[1]=matches(1,u,u); want[2]=matches(1,u-1,u-1); want[3]=matches(1,u+5,u+5); want[4]=matches(1,u+3,u+3); want[5]=N>1?matches(1,2,2):"none"; want[6]=matches(1,N+2,N+2); for (int k=1;k<=6;k++) if (d.of(k)!=want[k]) c.fail("expression "+std::to_string(k)+" matches "+d.of(k)+" instead of "+want[k]); c.step(d.n);
	}
	else if (shape==1)
	{
		(*atm)["r"]()=1; (*atm)["r"]["b"]()=2; (*atm)["r"]["b"]("x")=3; (*atm)["r"]["c"]("y","v")()=4; (*atm)--["b"].selectCloseTag().assignType(5); (*atm)["r"].selectCloseTag().assignType(6); (*atm)["r"]["b"]["c"]=7;
		Counted d(&atm); d.push(O,"r"); for (std::size_t i=0;i<N;i++) { d.push(O,"b"); d.push(A,"x"); d.push(V,"1"); d.push(T,"t"); d.push(C,"b"); } d.push(T,"u"); d.push(O,"c"); d.push(A,"y"); d.push(V,"v"); d.push(T,"w"); d.push(C,"c"); d.push(C,"r");
		std::size_t e=5*N+1; want[1]=matches(1,e,e); want[2]=matches(N,4,e-2); want[3]=matches(N,3,e-3); want[4]=matches(1,e+4,e+4); want[5]=matches(N,5,e-1); want[6]=matches(1,e+6,e+6); want[7]="none"; for (int k=1;k<=7;k++) if (d.of(k)!=want[k]) c.fail("expression "+std::to_string(k)+" matches "+d.of(k)+" instead of "+want[k]); c.step(d.n);
	}
	else if (shape==2)
	{
		if (N<=1100) (*atm)["r"]("a")=1; (*atm)["r"]("z","1")()=2; (*atm)["r"]("z","2")()=3; if (N<=1100) (*atm)["r"](0)=4; (*atm)["r"]("z")=5; (*atm)["r"]["c"]=6;
		Counted d(&atm); d.push(O,"r"); for (std::size_t i=0;i<N;i++) { d.push(A,"a"); d.push(V,"2"); } d.push(A,"z"); d.push(V,"1"); d.push(T,"t"); d.push(O,"c"); d.push(C,"c"); d.push(C,"r");
		std::size_t e=2*N+1; want[1]=N<=1100?matches(N,2,e-1):"none"; want[2]=matches(1,e+2,e+2); want[3]="none"; want[4]=N<=1100?matches(N+1,2,e+1):"none"; want[5]=matches(1,e+1,e+1); want[6]=matches(1,e+3,e+3); for (int k=1;k<=6;k++) if (d.of(k)!=want[k]) c.fail("expression "+std::to_string(k)+" matches "+d.of(k)+" instead of "+want[k]); c.step(d.n);
	}
	else
	{
		// an expression of N steps, next to one that is longer and one that leaves it in the middle
		{ Atm::PathElement p=*atm, q=*atm, r=*atm; for (std::size_t i=0;i<N;i++) p["a"]; p()=1; for (std::size_t i=0;i<N+1;i++) q["a"]; q()=2; for (std::size_t i=0;i<N/2+1;i++) r["a"]; r["b"]()=3; }
		for (int extra=0;extra<3;extra++) { Counted d(&atm); std::size_t depth=extra==0?N:extra==1?N-1:N+1; for (std::size_t i=0;i<depth;i++) d.push(O,"a"); d.push(T,"t"); d.push(O,"b"); d.push(T,"u"); d.push(C,"b"); for (std::size_t i=0;i<depth;i++) d.push(C,"a"); for (int k=1;k<=3;k++) { std::string w="none"; if (k==1&&depth==N) w=matches(1,depth,depth); if (k==2&&depth==N+1) w=matches(1,depth,depth); if (k==3&&depth==N/2+1) w=matches(1,depth+2,depth+2); if (d.of(k)!=w) c.fail("expression "+std::to_string(k)+" at depth "+std::to_string(depth)+" matches "+d.of(k)+" instead of "+w); } c.step(d.n); }
	}
	c.trace(); c.state(mc::hcomb(shape,N)); c.outcome(shape);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"expressions",small,0,0,3,"all expressions of up to 2 selections out of 14 (a, b, wildcard as child or descendant; attribute conditions with name or wildcard, value or none, child or descendant) with 10 kinds of results (event, content, descendant content, closing tag, attributes, content behind an attribute) on all documents of 7 (thorough: 8) tokens over 2 tags, 3 attributes, text, both kinds of closing"},
	{"deep expressions",deep,0,0,3,"all expressions of up to 3 selections with all kinds of results on all documents of 5 (thorough: 7) tokens"},
	{"tag chains",tags,0,0,3,"all expressions of up to 3 (thorough: 4) tag selections with all kinds of results on all trees of 9 (thorough: 11) tokens"},
	{"headers",headers,0,0,3,"documents beginning with an XML declaration, with and without document type, expressions of up to 2 selections, the first one of them also on the declaration"},
	{"names",names,0,0,3,"names being prefixes of each other or equal for tags, attributes, values and texts: all expressions of 1 or 2 tags of 5 names with 5 kinds of results on all documents of 6 (thorough: 7) tokens"},
	{"large",large,0,0,3,"documents of depth and with numbers of siblings and texts up to 100 (thorough: 1000), attributes up to 65, expressions of up to 2 selections"},
	{"huge",huge,0,0,2,"depth, numbers of siblings, of attributes and of steps of an expression: 15 (thorough: 37) numbers up to 65537 (200000) around the powers of two"},
	{"scanned",scanned,0,0,3,"the text of all documents of 5 (thorough: 6) tokens processed by the scanner and fed to the selection, expressions of up to 2 selections"},
	{"every document",every,0,0,2,"the expression selecting the document itself on all documents of 6 tokens with and without declaration and document type"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"an expression selects in document order: what follows a condition matches only behind the place where the condition is fulfilled (as documented, attributes are not reordered)","the XML declaration counts as an element named '?xml' that precedes the root","the results of every token are iterated to the end"}; }
}
