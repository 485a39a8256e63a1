// C04: any mixture of accessors gives one consistent answer per character
#include "tw.hpp"
using namespace tw;
MC_PROPERTY("C04")
using namespace textwolf;

static int refControl(uint32_t cp)   // documented classification of characters
{
	if (cp>=128) return Undef;
	switch (cp)
	{
		case 0: return EndOfText; case '\n': return EndOfLine; case '\t': case '\r': case ' ': return Space;
		case '&': return Amp; case '<': return Lt; case '=': return Equal; case '>': return Gt; case '/': return Slash; case '-': return Dash;
		case '!': return Exclam; case '?': return Questm; case '\'': return Sq; case '"': return Dq; case '[': return Osb; case ']': return Csb;
	}
	return cp<32?Cntrl:Any;
}
// --- reader on one string or fed piecewise through jumps at every piece end
template <class IT, class CS> struct Reader;
template <class CS> struct Reader<CStringIterator,CS>
{
	Mem m; TextScanner<CStringIterator,CS> ts;
	Reader(int cs, const std::string& s, int):m(s),ts(Make<CS>::make(cs),CStringIterator(m.p,(unsigned)m.n)){}
	template <class F> void op(F f){ f(ts); }
};
template <class CS> struct Reader<SrcIterator,CS>
{
	std::string s; std::size_t at; int piece; char* buf; jmp_buf eom; bool fin; TextScanner<SrcIterator,CS> ts; bool setsrc;
	Reader(int cs, const std::string& s_, int piece_):s(s_),at(0),piece(piece_>0?piece_:-piece_),buf(0),fin(false),ts(Make<CS>::make(cs)),setsrc(piece_<0){ feed(); }
	~Reader(){ free(buf); }
	void feed()
	{
		if (fin) throw mc::Violation("more input requested after the end");
		std::size_t n=std::min((std::size_t)piece,s.size()-at); char* nb=(char*)malloc(n?n:1); memcpy(nb,s.data()+at,n); at+=n; fin=(n==0);
		if (setsrc) ts.setSource(SrcIterator(nb,n,fin?0:&eom)); else ts.getIterator().putInput(nb,n,fin?0:&eom);
		free(buf); buf=nb;
	}
	template <class F> void op(F f){ while (setjmp(eom)!=0) feed(); f(ts); }
};
enum Acc { CHR,CONTROL,ASCII,COPY,STAR,NofAcc };
static const char* accName[]={"chr","control","ascii","copychar","operator*"};

template <class IT, class CS> static void run(mc::Choice& c, int cs, const U& w, const std::vector<std::vector<int> >& acc, int stepstyle, int piece, bool othercopy)
{
	std::string bytes=enc(cs,w);
	Reader<IT,CS> r(cs,bytes,piece);
	CS out=Make<CS>::make(cs); if (othercopy && cs>=ISO1) out=Make<CS>::make(cs==ISO9?ISO1:cs+1);
	int ocs=(othercopy && cs>=ISO1)?(cs==ISO9?(int)ISO1:cs+1):cs;
	std::size_t pos=0; static std::string cp_, want; uint64_t h=cs;
	bool setsrc=piece<0;
	for (std::size_t i=0;i<w.size()+2;i++)
	{
		uint32_t ch=i<w.size()?w[i]:0; uint32_t lead=ch;
		for (int a:acc[std::min(i,acc.size()-1)])
		{
			if (!setsrc && pos<=bytes.size() && r.ts.getPosition()!=pos) c.fail("position "+std::to_string(r.ts.getPosition())+" instead of "+std::to_string(pos)+" at character "+std::to_string(i));
			switch (a)
			{
				case CHR: case STAR: { static uint32_t v; r.op([&](TextScanner<IT,CS>& t){ v=a==CHR?t.chr():*t; }); if (v!=ch) c.fail("character "+std::to_string(i)+" read as "+std::to_string(v)); break; }
				case CONTROL: { static int v; r.op([&](TextScanner<IT,CS>& t){ v=t.control(); }); if (v!=refControl(ch)) c.fail("character "+std::to_string(i)+" classified as "+ControlCharacterM::name((ControlCharacter)v)); break; }
				case ASCII: { static int v; r.op([&](TextScanner<IT,CS>& t){ v=t.ascii(); }); if (v!=(int)(ch<128?ch:0)) c.fail("character "+std::to_string(i)+" has ASCII value "+std::to_string(v)); break; }
				case COPY: { if (i>=w.size()) break; cp_.clear(); r.op([&](TextScanner<IT,CS>& t){ cp_.clear(); t.copychar(out,cp_); }); want=encRef(ocs,U(1,ch)); if (cp_!=want) c.fail("character "+std::to_string(i)+" copied as "+mc::esc(cp_)); break; }
			}
			h=mc::hcomb(h,a*256+i); c.state(mc::hcomb(h,ch)); c.step();
		}
		if (!setsrc && pos<=bytes.size() && r.ts.getPosition()!=pos) c.fail("position "+std::to_string(r.ts.getPosition())+" instead of "+std::to_string(pos)+" behind the accesses to character "+std::to_string(i));
		// the step itself
		std::string one; if (i<w.size()) put(cs,ch,one); pos+=i<w.size()?one.size():unit(cs);
		switch (stepstyle)
		{
			case 0: r.op([&](TextScanner<IT,CS>& t){ t.skip(); }); break;
			case 1: r.op([&](TextScanner<IT,CS>& t){ ++t; }); break;
			default: if (std::is_same<IT,SrcIterator>::value) r.op([&](TextScanner<IT,CS>& t){ ++t; }); else r.op([&](TextScanner<IT,CS>& t){ uint32_t v=*(t++); if (v!=ch) throw mc::Violation("operator++(int) delivers another character"); });
		}
		c.step();
		(void)lead;
	}
	c.trace(); c.outcome(mc::hcomb(h,mc::hstr(bytes)));
}
static U chars(mc::Choice& c, int cs, int n, bool wide)
{
	static std::map<int,std::vector<uint32_t> > al[2]; auto& v=al[wide][cs];
	if (v.empty()) { for (uint32_t x:(wide?std::vector<uint32_t>{'a','<','&','\n','\r',' ','-',1,0x7f,0x80,0xe9,0x100,0x141,0x7ff,0x800,0x20ac,0xd7ff,0xe000,0xfffd,0x10000,0x10437,0x10ffff}:std::vector<uint32_t>{'a','<','\n',0xe9,0x3c0,0x20ac,0x1D11E})) if (representable(cs,x)) v.push_back(x); if (cs>=ISO1) { v.push_back(isoTable[cs-ISO1][0xf8]); } }
	U w; for (int i=0;i<n;i++) w.push_back(c.of(v)); return w;
}
static void accessors(mc::Choice& c, bool chunked)
{
	int cs=c.pick(NofCs); int n=c.pick(3);
	U w=chars(c,cs,n,n<2);
	std::vector<std::vector<int> > acc; int maxacc=c.thorough()?3:2;
	for (int i=0;i<std::max(1,n);i++) { std::vector<int> a; int k=c.pick((n<2?maxacc+1:maxacc)+1); for (int j=0;j<k;j++) a.push_back(c.pick(n==2&&!c.thorough()?4:5)); acc.push_back(a); }
	int st=c.pick(3), piece=chunked?c.pick(4):0; bool oc=cs>=ISO1?c.flip():false;
	std::string d=std::string(csName(cs))+" "+show(w)+" accesses:"; for (auto& a:acc) { d+=" ["; for (int x:a) { d+=accName[x]; d+=" "; } d+="]"; } if (chunked) d+=" pieces "+std::to_string(piece);
	c.show(d);
	if (chunked) { static const int pc[]={1,2,3,-1}; TW_DISPATCH(cs,(run<SrcIterator,CS>(c,cs,w,acc,st,pc[piece],oc))); }
	else TW_DISPATCH(cs,(run<CStringIterator,CS>(c,cs,w,acc,st,0,oc)));
}
static void onestring(mc::Choice& c){ accessors(c,false); }
static void pieces(mc::Choice& c){ accessors(c,true); }
// every character of the alphabets with every accessor sequence of length up to 4
static void single(mc::Choice& c)
{
	int cs=c.pick(NofCs); int b=c.pick(64); std::vector<std::vector<int> > acc(1); int k=1+c.pick(c.thorough()?4:3); for (int i=0;i<k;i++) acc[0].push_back(c.pick(4));
	std::string d=std::string(csName(cs))+" block "+std::to_string(b)+":"; for (int x:acc[0]) d+=std::string(" ")+accName[x]; c.show(d);
	for (int j=0;j<4;j++)
	{
		uint32_t cp=b<32?(b*4+j):(b<48?0x80+(b-32)*8+j:(b<56?0x700+(b-48)*0x40+j:(0xF000+(b-56)*0x800+j)));
		if (!cp || cp==5 || !representable(cs,cp)) continue;
		TW_DISPATCH(cs,(run<CStringIterator,CS>(c,cs,U(1,cp),acc,0,0,false)));
		TW_DISPATCH(cs,(run<SrcIterator,CS>(c,cs,U(1,cp),acc,0,1,false)));
	}
}
// every character of Unicode, blocks of 256 in one text
static void all(mc::Choice& c)
{
	static const std::vector<std::vector<int> > seqs={{CONTROL,ASCII,CHR,COPY},{COPY,CHR,ASCII,CONTROL},{CONTROL},{ASCII,COPY},{CHR},{}};
	static const int multi[]={U8,U16L,U16B,C2L,C2B,C4L,C4B}; int k=c.pick(16); int cs=k<7?multi[k]:(int)ISO1+k-7; int hi=c.pick(k<7?((cs==C2L||cs==C2B)?16:272):1), lo=c.pick(k<7?16:1);
	std::vector<std::vector<int> > acc(1,seqs[c.pick(6)]); U w;
	if (k>=7) { for (int b=1;b<256;b++) { uint32_t x=isoTable[cs-ISO1][b]; if (x!=0xFFFF && x!=5) w.push_back(x); } }
	else for (int j=0;j<256;j++) { uint32_t x=hi*4096+lo*256+j; if (x && x!=5 && !(x>=0xD800&&x<=0xDFFF) && representable(cs,x)) w.push_back(x); }
	if (w.empty()) return;
	c.show(std::string(csName(cs))+" characters "+std::to_string(w[0])+".."+std::to_string(w.back())+" accesses "+std::to_string(acc[0].size()));
	TW_DISPATCH(cs,(run<CStringIterator,CS>(c,cs,w,acc,0,0,false)));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"accessor-sequences",onestring,0,0,3,"all texts of up to 2 characters over every character class and encoded length, all 16 encodings, all sequences of up to 2-3 accessor calls per character, 3 step styles, same and other output code page"},
	{"resumed-reading",pieces,0,0,3,"the same with the text fed in pieces of 1, 2, 3 bytes; every call interrupted by the end of a piece is repeated"},
	{"single-characters",single,0,0,3,"all ASCII characters and boundary characters, all accessor sequences up to length 3 (thorough: 4)"},
	{"all-characters",all,0,0,3,"every character of Unicode in every encoding (texts of 256 characters), 6 accessor sequences"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"U+0005 is excluded: the reader deliberately classifies it as undefined"}; }
}
