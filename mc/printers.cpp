// printers and scanners of all encodings, one translation unit per encoding class of the document
#include "print.hpp"
namespace print {
template <class IO, class AP> struct Impl :Printer
{
	textwolf::XMLPrinter<IO,AP,std::string> p; Impl(int cs, bool sub):p(Make<IO>::make(cs),sub){} explicit Impl(bool sub):p(sub){} Impl(const Impl& o):p(o.p){}
	bool header(const char* e, const char* s, std::string& o){ return p.printHeader(e,s,o); }
	bool doctype(const char* r, const char* pu, const char* s, std::string& o){ return p.printDoctype(r,pu,s,o); }
	bool open(const std::string& n, std::string& o){ Mem m(n); return p.printOpenTag(m.p,m.n,o); }
	bool attribute(const std::string& n, std::string& o){ Mem m(n); return p.printAttribute(m.p,m.n,o); }
	bool value(const std::string& v, std::string& o){ Mem m(v); return p.printValue(m.p,m.n,o); }
	bool close(std::string& o){ return p.printCloseTag(o); }
	bool exit(std::string& o){ return p.exitTagContext(o); }
	void reset(bool sub){ p.reset(sub); }
	Printer* clone() const { return new Impl(*this); }
	void assign(const Printer& o){ p=static_cast<const Impl&>(o).p; }
	const char* lasterror() const { return p.lasterror(); }
};

template <class IN> Items scanBack(int cs, const std::string& bytes)
{
	Toks t=scanAll<IN,textwolf::charset::UTF8>(cs,bytes); Items r; std::vector<U> stk; for (auto& k:t)
	{
		if (k.t==B::Exit) break; if (k.t==B::ErrorOccurred) throw mc::Violation("scanner error "+std::to_string(k.err)+" after "+show(r)); U s=dec(U8,k.s); if (k.t==B::CloseTagIm) { k.t=B::CloseTag; s=stk.empty()?U():stk.back(); } if (k.t==B::OpenTag) stk.push_back(s); if (k.t==B::CloseTag) { if (stk.empty()) throw mc::Violation("scanner: close without open"); stk.pop_back(); }
		if (k.t==B::Content&&stk.empty()&&s==u("\n")) continue; if (k.t==B::Content&&!r.empty()&&r.back().t==B::Content) r.back().s+=s; else r.push_back(Item{k.t,s});
	}
	return r;
}

template <int I> Printer* make(int cs, int as, bool sub); template <int I> Items scan(int cs, const std::string& bytes);
typedef T<PART>::type IO;
template <> Printer* make<PART>(int cs, int as, bool sub){ Printer* r=0; bool plain=cs<=ISO1&&as>=C2L&&as<=C4B; /* constructed without character set */ TW_DISPATCH(as,r=(plain?new Impl<IO,CS>(sub):new Impl<IO,CS>(cs,sub))); return r; }
template <> Items scan<PART>(int cs, const std::string& bytes){ return scanBack<IO>(cs,bytes); }
#if PART==0
#define D(I) template <> Printer* make<I>(int,int,bool); template <> Items scan<I>(int,const std::string&);
D(1) D(2) D(3) D(4) D(5) D(6) D(7)
#define C(I) case I: return
Printer* makePrinter(int cs, int as, bool sub){ switch (cs<ISO1?cs:ISO1) { C(0) make<0>(cs,as,sub); C(1) make<1>(cs,as,sub); C(2) make<2>(cs,as,sub); C(3) make<3>(cs,as,sub); C(4) make<4>(cs,as,sub); C(5) make<5>(cs,as,sub); C(6) make<6>(cs,as,sub); default: return make<7>(cs,as,sub); } }
Items scanBack(int cs, const std::string& b){ switch (cs<ISO1?cs:ISO1) { C(0) scan<0>(cs,b); C(1) scan<1>(cs,b); C(2) scan<2>(cs,b); C(3) scan<3>(cs,b); C(4) scan<4>(cs,b); C(5) scan<5>(cs,b); C(6) scan<6>(cs,b); default: return scan<7>(cs,b); } }
#endif
} // namespace print
