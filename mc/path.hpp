// Path expressions, documents as event sequences and a reference selector
#pragma once
#include "tw.hpp"
#include <textwolf/xmlpathselect.hpp>
#include <textwolf/xmlpathautomaton.hpp>
namespace path {
using namespace tw;
typedef textwolf::charset::UTF8 CS8;
typedef textwolf::XMLPathSelectAutomaton<CS8> Atm;
typedef textwolf::XMLPathSelect<CS8> Sel;
typedef textwolf::XMLScannerBase::ElementType ET;

// ---------------------------------------------------------------- expressions
struct Step
{
	enum K {Tag,Attr,If,Content,Close} k; // Attr: the attribute exists / is selected, If: the value of the attribute is value
	bool follow; const char* name; const char* value;
};
struct Range { enum K {Index,From,To,Rng} k; int a,b; };
struct Expr { std::vector<Step> steps; std::vector<Range> ranges; int type; };   // a Content or Close step only at the end, an Attr step only at the end or before Content
inline std::string show(const Step& s)
{
	std::string r=s.follow?"--":""; auto n=[](const char* p){ return p?"\""+std::string(p)+"\"":std::string("0"); };
	switch (s.k) { case Step::Tag: return r+"["+n(s.name)+"]"; case Step::Attr: return r+"("+n(s.name)+")"; case Step::If: return r+"("+n(s.name)+","+n(s.value)+")"; case Step::Content: return r+"()"; default: return r+".selectCloseTag()"; }
}
inline std::string show(const Expr& e)
{
	std::string r="(*atm)"; for (auto& s:e.steps) r+=show(s);
	for (auto& g:e.ranges) r+=g.k==Range::Index?".INDEX("+std::to_string(g.a)+")":g.k==Range::From?".FROM("+std::to_string(g.a)+")":g.k==Range::To?".TO("+std::to_string(g.a)+")":".RANGE("+std::to_string(g.a)+","+std::to_string(g.b)+")";
	return r+" = "+std::to_string(e.type);
}
// style 0: operators, 1: functions
template <class A> void build(A& atm, const Expr& e, int style=0)
{
	typename A::PathElement p=*atm;
	for (auto& s:e.steps)
	{
		if (s.follow) { if (style) p.forAllDescendants(); else p--; }
		switch (s.k)
		{
			case Step::Tag: if (style) p.selectTag(s.name); else p[s.name]; break;
			case Step::Attr: if (style) p.selectAttribute(s.name); else p(s.name); break;
			case Step::If: if (style) p.ifAttribute(s.name,s.value); else p(s.name,s.value); break;
			case Step::Content: if (style) p.selectContent(); else p(); break;
			case Step::Close: p.selectCloseTag(); break;
		}
	}
	for (auto& g:e.ranges) switch (g.k) { case Range::Index: p.INDEX(g.a); break; case Range::From: p.FROM(g.a); break; case Range::To: p.TO(g.a); break; case Range::Rng: p.RANGE(g.a,g.b); break; }
	if (style) p.assignType(e.type); else p=e.type;
}
// ---------------------------------------------------------------- documents
struct Ev { ET t; std::string key; };
typedef std::vector<Ev> Doc;
inline std::string show(const Doc& d, std::size_t upto=(std::size_t)-1)
{
	std::string r; bool open=false; std::size_t n=0; for (auto& e:d)
	{
		if (n++>=upto) break;
		auto close=[&](){ if (open) r+=">"; open=false; };
		switch (e.t)
		{
			case B::OpenTag: close(); r+="<"+e.key; open=true; break;
			case B::TagAttribName: case B::HeaderAttribName: r+=" "+e.key+"="; break;
			case B::TagAttribValue: case B::HeaderAttribValue: r+="'"+e.key+"'"; break;
			case B::Content: close(); r+=e.key; break;
			case B::CloseTag: close(); r+="</"+e.key+">"; break;
			case B::CloseTagIm: r+="/>"; open=false; break;
			case B::HeaderStart: r+="<"+e.key; break;
			case B::HeaderEnd: r+="?>"; break;
			case B::DocAttribValue: r+=r.size()&&r.find("<!")!=std::string::npos?" "+e.key:"<!"+e.key; break;
			case B::DocAttribEnd: r+=">"; break;
			default: break;
		}
	}
	return r;
}
// All event sequences of length n (or complete documents shorter than that). Attributes are given as
// indices of the alphabet, every name occurs once per element.
struct Alphabet
{
	std::vector<std::string> tags, texts; std::vector<std::pair<std::string,std::string> > attrs; bool im=true; int roots=2;
};
inline void genDocs(const Alphabet& al, std::size_t n, Doc& d, std::vector<std::string>& stk, std::set<std::string>& used, int roots, std::vector<Doc>& out)
{
	bool intag=!d.empty()&&(d.back().t==B::OpenTag||d.back().t==B::TagAttribValue), aftercontent=!d.empty()&&d.back().t==B::Content; bool any=false;
	if (d.size()<n)
	{
		if (intag&&d.size()+2<=n) for (auto& a:al.attrs) if (!used.count(a.first)) { any=true; std::set<std::string> u(used); u.insert(a.first); d.push_back(Ev{B::TagAttribName,a.first}); d.push_back(Ev{B::TagAttribValue,a.second}); genDocs(al,n,d,stk,u,roots,out); d.pop_back(); d.pop_back(); }
		if (!stk.empty()||roots<al.roots) for (auto& t:al.tags) { any=true; std::set<std::string> u; d.push_back(Ev{B::OpenTag,t}); stk.push_back(t); genDocs(al,n,d,stk,u,roots+(stk.size()==1),out); stk.pop_back(); d.pop_back(); }
		if (!aftercontent&&(roots>0)) for (auto& t:al.texts) { any=true; d.push_back(Ev{B::Content,t}); genDocs(al,n,d,stk,used,roots,out); d.pop_back(); }
		if (!stk.empty())
		{
			std::string top=stk.back(); stk.pop_back(); any=true;
			d.push_back(Ev{B::CloseTag,top}); genDocs(al,n,d,stk,used,roots,out); d.pop_back();
			if (intag&&al.im) { d.push_back(Ev{B::CloseTagIm,""}); genDocs(al,n,d,stk,used,roots,out); d.pop_back(); }
			stk.push_back(top);
		}
	}
	if (!any) out.push_back(d);
}
inline std::vector<Doc> genDocs(const Alphabet& al, std::size_t n, const Doc& prefix=Doc())
{
	std::vector<Doc> out; Doc d(prefix); std::vector<std::string> stk; std::set<std::string> used; genDocs(al,n+prefix.size(),d,stk,used,0,out); return out;
}
inline Doc header(){ return Doc{{B::HeaderStart,"?xml"},{B::HeaderAttribName,"x"},{B::HeaderAttribValue,"1"},{B::HeaderEnd,""}}; }
inline Doc doctype(){ return Doc{{B::DocAttribValue,"DOCTYPE"},{B::DocAttribValue,"a"},{B::DocAttribValue,"x"},{B::DocAttribEnd,""}}; }
// ---------------------------------------------------------------- reference
inline bool inRanges(const Expr& e, int idx)
{
	for (auto& g:e.ranges) switch (g.k)
	{
		case Range::Index: if (idx!=g.a) return false; break;
		case Range::From: if (idx<g.a) return false; break;
		case Range::To: if (g.a>=0&&idx>g.a) return false; break;
		case Range::Rng: if (idx<g.a||(g.b>=0&&idx>g.b)) return false; break;
	}
	return true;
}
// number of matches of e at every event of d
struct Reference
{
	struct Act { unsigned short step; short scope; int born; int count; };
	std::vector<Act> acts;
	void operator()(const Expr& e, const Doc& d, std::vector<int>& res)
	{
		acts.clear(); res.assign(d.size(),0); acts.push_back(Act{0,0,-1,0}); short cur=0;   // cur is the depth
		const std::size_t ns=e.steps.size();
		for (std::size_t i=0;i<d.size();i++)
		{
			const Ev& v=d[i]; const std::size_t na=acts.size(); bool opens=v.t==B::OpenTag||v.t==B::HeaderStart, closes=v.t==B::CloseTag||v.t==B::CloseTagIm||v.t==B::HeaderEnd;
			for (std::size_t k=0;k<na;k++)
			{
				Act& a=acts[k];
				if (a.step==ns+1||(a.step&0x4000))   // the value of the attribute at the former event: output or condition
				{
					if (a.born!=(int)i-1||(v.t!=B::TagAttribValue&&v.t!=B::HeaderAttribValue)) continue;
					if (a.step==ns+1) { if (inRanges(e,a.count++)) res[i]++; continue; }
					unsigned short s=a.step&0x3fff; const Step& st=e.steps[s]; if (st.value&&v.key!=st.value) continue;
					next(e,s+1,cur,i,res); continue;
				}
				if (a.step>=ns) continue;
				const Step& st=e.steps[a.step]; if (a.scope!=cur&&!st.follow) continue;
				switch (st.k)
				{
					case Step::Tag: if (opens&&(!st.name||v.key==st.name)) next(e,a.step+1,cur+1,i,res); break;
					case Step::Attr: case Step::If: if ((v.t==B::TagAttribName||v.t==B::HeaderAttribName)&&(!st.name||v.key==st.name)) { if (st.k==Step::If) acts.push_back(Act{(unsigned short)(a.step|0x4000),cur,(int)i,0}); else if (a.step+1u==ns) acts.push_back(Act{(unsigned short)(ns+1),cur,(int)i,0}); else next(e,a.step+1,cur,i,res); } break;
					case Step::Content: if (v.t==B::Content) { if (inRanges(e,acts[k].count++)) res[i]++; } break;
					case Step::Close: if (closes&&cur>0&&a.scope!=0) res[i]++; break;
				}
			}
			if (opens) cur++;
			if (closes&&cur>0) { std::size_t w=0; for (std::size_t k=0;k<acts.size();k++) if (acts[k].scope!=cur) acts[w++]=acts[k]; acts.resize(w); cur--; }
		}
	}
	void next(const Expr& e, unsigned short step, short scope, std::size_t i, std::vector<int>& res){ if (step==e.steps.size()) res[i]++; else acts.push_back(Act{step,scope,(int)i,0}); }
};
// ---------------------------------------------------------------- running the implementation
template <class SEL> void pushAll(SEL& s, const Ev& v, std::vector<int>& out)
{
	Mem m(v.key); typename SEL::iterator i=s.push(v.t,m.p,(int)m.n), e=s.end(); std::size_t n=0; for (;i!=e;++i) { out.push_back(*i); if (++n>10000000) throw mc::Violation("matches without end"); }
}

// ---------------------------------------------------------------- very large documents and automatons: events generated on the fly
struct Counted
{
	Sel sel; std::map<int,std::vector<std::size_t> > hits; std::size_t n=0; explicit Counted(const Atm* a):sel(a){}
	void push(ET t, const std::string& k){ Sel::iterator i=sel.push(t,k.data(),k.size()), e=sel.end(); for (;i!=e;++i) hits[*i].push_back(n); n++; }
	// number of matches of an expression, the first and the last token matched
	std::string of(int type){ auto& h=hits[type]; return h.empty()?"none":std::to_string(h.size())+" ("+std::to_string(h.front())+".."+std::to_string(h.back())+")"; }
};
inline std::string matches(std::size_t n, std::size_t first, std::size_t last){ return n?std::to_string(n)+" ("+std::to_string(first)+".."+std::to_string(last)+")":"none"; }
inline const std::vector<int>& hugeSizes(bool thorough)
{
	static const std::vector<int> q={1,100,127,128,129,255,256,257,1000,32767,32768,32769,65535,65536,65537}, t={1,2,3,31,32,33,63,64,65,100,127,128,129,255,256,257,511,512,513,1000,1023,1024,1025,4095,4096,4097,32767,32768,32769,65535,65536,65537,70000,131071,131072,131073,200000}; return thorough?t:q;
}
} // namespace path
