// S02: the token stream does not depend on chunking
#include "corpus.hpp"
#include "sized.hpp"
using namespace tw;
MC_PROPERTY("S02")

struct Run { int cs; bool same; unsigned short mask; };
// declared here, instantiated in the parts
Toks reference(int cs, bool same, const std::string& bytes, unsigned short mask);
Toks chunked(int cs, bool same, const std::string& bytes, const std::vector<std::size_t>& cuts, Style st, bool lwd, unsigned short mask, uint64_t* steps);

#if PART==1
Toks reference(int cs, bool same, const std::string& bytes, unsigned short mask)
{
	Toks r;
	TW_DISPATCH(cs, r=(same?scanAll<CS,CS>(cs,bytes,mask):scanAll<CS,textwolf::charset::UTF8>(cs,bytes,mask)));
	return r;
}
#elif PART==2
Toks chunked(int cs, bool same, const std::string& bytes, const std::vector<std::size_t>& cuts, Style st, bool lwd, unsigned short mask, uint64_t* steps)
{
	Toks r;
	TW_DISPATCH(cs, r=(same?scanChunks<CS,CS>(cs,bytes,cuts,st,lwd,steps,mask):scanChunks<CS,textwolf::charset::UTF8>(cs,bytes,cuts,st,lwd,steps,mask)));
	return r;
}
#else
static void judge(mc::Choice& c, int cs, bool same, const std::string& bytes, const std::vector<std::size_t>& cuts, Style st, bool lwd, unsigned short mask)
{
	static std::map<std::string,Toks> cache; char k[32]; snprintf(k,32,"%d %d %x ",cs,(int)same,mask); std::string key=k+bytes;
	auto i=cache.find(key); if (i==cache.end()) { if (cache.size()>2000) cache.clear(); i=cache.insert(std::make_pair(key,reference(cs,same,bytes,mask))).first; }
	std::string d; for (std::size_t x:cuts) d+=std::to_string(x)+" ";
	c.show(std::string(csName(cs))+(same?" (raw copy)":"")+" mask "+std::to_string(mask)+(st==Put?" putInput":" setSource")+(lwd?" eof with last chunk":" eof as empty chunk")+" cuts "+d+": "+bytes);
	uint64_t steps=0; Toks got=chunked(cs,same,bytes,cuts,st,lwd,mask,&steps);
	const Toks& want=i->second; bool eq=got.size()==want.size();
	for (std::size_t j=0;eq&&j<got.size();j++)
	{
		const Tok &a=got[j],&b=want[j];
		bool masked=a.t<14&&!(mask>>a.t&1);
		eq=a.t==b.t && a.err==b.err && (masked||a.s==b.s) && (st!=Put||masked||a.tp==b.tp||a.t==2);
	}
	if (!eq) c.fail("chunked: "+show(got,st==Put)+" | in one piece: "+show(want,st==Put));
	c.step(steps); c.trace(); c.outcome(hash(got));
	uint64_t h=mc::hstr(bytes,cs); for (std::size_t x:cuts) { h=mc::hcomb(h,x); } c.state(mc::hcomb(h,st*4+lwd*2+same)); 
}
static std::string doc(int cs, std::size_t i){ return enc(cs,fit(cs,corpus::docs()[i].text)); }
static std::size_t nd(){ return corpus::docs().size(); }
static const std::vector<unsigned short>& masks(){ static const std::vector<unsigned short> m={0xFFFF,0,1<<13,1<<10|1<<8,(unsigned short)~(1<<9),1<<11}; return m; }

// every single cut of every document, all encodings, both styles, masks as deviation
static void cut1(mc::Choice& c)
{
	std::size_t i=c.pick(nd()); int cs=c.pick(NofCs); std::string b=doc(cs,i);
	Style st=(Style)c.pick(2); bool lwd=c.flip(); bool same=c.flip();
	std::vector<std::size_t> cuts; cuts.push_back(c.pick(b.size()+1));
	unsigned short mask=c.devof(masks()); if (c.dev(2)) cuts.push_back(cuts[0]);
	judge(c,cs,same,b,cuts,st,lwd,mask);
}
// pieces of a fixed size, with and without empty pieces between
static void pieces(mc::Choice& c)
{
	std::size_t i=c.pick(nd()); int cs=c.pick(NofCs); std::string b=doc(cs,i); Style st=(Style)c.pick(2); bool lwd=c.flip(); bool same=c.flip();
	std::size_t n=1+c.pick(c.thorough()?9:5); int empty=c.pick(3); std::size_t off=c.pick(n);
	std::vector<std::size_t> cuts; if (off && off<=b.size()) cuts.push_back(off);
	for (std::size_t p=off+n;p<b.size();p+=n) { cuts.push_back(p); for (int e=0;e<empty;e++) cuts.push_back(p); }
	if (empty) cuts.insert(cuts.begin(),0);
	judge(c,cs,same,b,cuts,st,lwd,c.devof(masks()));
}
// all pairs of cuts (thorough: triples within a window as well)
static void cut2(mc::Choice& c)
{
	static const int q[]={U8,U16L,ISO1}; 
	std::size_t i=c.pick(nd()); int cs=c.thorough()?c.pick(ISO2):q[c.pick(3)]; std::string b=doc(cs,i); if (b.empty()) return; Style st=(Style)c.pick(2); bool same=c.flip();
	std::vector<std::size_t> cuts; cuts.push_back(c.pick(b.size())); cuts.push_back(cuts[0]+1+c.pick(b.size()-cuts[0]));
	judge(c,cs,same,b,cuts,st,false,0xFFFF);
}
// every set of cuts within every window of consecutive positions
static void window(mc::Choice& c)
{
	unsigned W=c.thorough()?8:5; std::size_t i=c.pick(nd()); int cs=c.pick(2); std::string b=doc(cs,i); Style st=(Style)c.pick(2);
	std::size_t at=c.pick(b.size()+1); std::vector<std::size_t> cuts;
	cuts.push_back(at); for (unsigned k=1;k<W && at+k<=b.size();k++) if (c.flip()) cuts.push_back(at+k);
	judge(c,cs,false,b,cuts,st,false,0xFFFF);
}
// all partitions of small documents
static void partitions(mc::Choice& c)
{
	const std::vector<U>& m=corpus::micro(); const U& t=c.of(m); int cs=c.thorough()?(int)c.pick(3):(int)U8; std::string b=enc(cs,t); Style st=(Style)c.pick(2); bool lwd=c.flip();
	std::size_t n=std::min(b.size(),(std::size_t)(c.thorough()?16:11)); std::vector<std::size_t> cuts;
	std::size_t from=b.size()-n;
	for (std::size_t p=from+1;p<b.size();p++) if (c.flip()) cuts.push_back(p);
	judge(c,cs,true,b,cuts,st,lwd,0xFFFF);
}
// not well-formed text: all single and double cuts
static void raw(mc::Choice& c)
{
	const std::string& b=c.of(corpus::rawUtf8()); Style st=(Style)c.pick(2); bool same=c.flip(); std::vector<std::size_t> cuts; cuts.push_back(c.pick(b.size()+1)); cuts.push_back(cuts[0]+c.pick(b.size()+1-cuts[0]));
	judge(c,U8,same,b,cuts,st,c.flip(),c.of(masks()));
}
// long documents in pieces of all sizes
static void large(mc::Choice& c)
{
	static const std::vector<std::size_t> q={20,300,5000,70000}, t={1,2,20,255,256,257,300,1000,4096,5000,32768,65536,70000,300000}, pq={1,2,3,5,16,63,64,65,127,128,129,255,256,257,511,512,1000,1023,1024,1025,4095,4096,4097,8192,16384,32767,32768,65535,65536,65537,100000}; int k=c.pick(sized::NofKinds); std::size_t N=c.of(c.thorough()?t:q), n=c.of(pq); int cs=c.flip()?(int)U16L:(int)U8; bool same=c.flip(); Style st=(Style)c.pick(2); std::size_t off=c.flip()?n/2+1:n; if (n<16&&N>(c.thorough()?70000u:5000u)) return; if (!c.thorough()&&N>5000&&(same||cs!=U8)) return;
	static std::map<std::size_t,std::pair<std::string,Toks> > cache; std::size_t key=((N*32+k)*2+(cs==U8))*2+same; auto i=cache.find(key); if (i==cache.end()) { cache.clear(); U d; std::vector<sized::Ev> ev; sized::doc(k,N,d,ev); std::string b=enc(cs,d); Toks w=reference(cs,same,b,0xFFFF); i=cache.insert(std::make_pair(key,std::make_pair(b,w))).first; }
	const std::string& b=i->second.first; const Toks& want=i->second.second; if (n>b.size()+1) return; std::vector<std::size_t> cuts; for (std::size_t p=off;p<b.size();p+=n) cuts.push_back(p); c.show(std::string(csName(cs))+(same?" (raw copy)":"")+(st==Put?" putInput ":" setSource ")+sized::kindName(k)+" "+std::to_string(N)+" in pieces of "+std::to_string(n)+" after "+std::to_string(off)); uint64_t steps=0;
	Toks got=chunked(cs,same,b,cuts,st,false,0xFFFF,&steps); std::string e=sized::differs(got,want); if (!e.empty()) c.fail(e); if (st==Put) for (std::size_t j=0;j<got.size();j++) if (got[j].tp!=want[j].tp&&got[j].t!=2) c.fail("token "+std::to_string(j)+" at position "+std::to_string(got[j].tp)+" instead of "+std::to_string(want[j].tp));
	c.step(steps); c.trace(); c.outcome(hash(got)); c.state(mc::hcomb(mc::hcomb(key,n*2+(off==n)),st));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"single-cuts",cut1,1,2,2,"every corpus document in all 16 encodings, every cut position, both resumption styles, both end conventions, decoded and raw copied; masks and doubled (empty) chunks as deviations"},
	{"fixed-size-pieces",pieces,0,1,2,"every document, all encodings, pieces of 1..5 (thorough: 9) bytes at every offset, 0..2 empty pieces in between"},
	{"double-cuts",cut2,0,0,3,"every document, all pairs of cut positions, UTF-8, UTF-16LE, ISO-8859-1 (thorough: all 8 encodings)"},
	{"cut-windows",window,0,0,3,"every document, UTF-8 and UTF-16LE, every set of cuts within 5 (thorough: 8) consecutive positions"},
	{"all-partitions",partitions,0,0,3,"32 small documents: all 2^10 (thorough: 2^15, and UTF-16) partitions of their last bytes"},
	{"large",large,0,0,3,"20 kinds of documents (see S01 sizes) with parts of 4 (thorough: 14) lengths up to 70000 (300000) in pieces of 31 sizes from 1 to 100000 bytes, 2 offsets, UTF-8 and UTF-16LE, decoded and raw copied, both resumption styles"},
	{"malformed-text",raw,0,0,2,"documents with malformed UTF-8: all pairs of cuts under 6 masks"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"a request interrupted by the end of a chunk is repeated with the same mask","positions are compared for chunks passed with putInput (setSource restarts counting); the position of the XML declaration's start token is not defined"}; }
}
#endif
