// H01: the encoding declared is found in every unit size and byte order
#include "hdr.hpp"
using namespace hdr;
MC_PROPERTY("H01")
static const std::vector<int>& units(){ static const std::vector<int> v={U8,U16L,U16B,C4L,C4B,ISO1,C2L,C2B}; return v; }
static const std::vector<std::string>& names(bool all){ static const std::vector<std::string> v={"UTF-8","ISO-8859-1","x","utf-16","UTF-16LE","UCS-4BE","ISO-10646-UCS-2","windows-1252","Shift_JIS","EUC-JP","encoding","a.b","IsoLatin-15","u","xml","version"}, w={"UTF-8","ISO-8859-15","x","UCS-4BE"}; return all?v:w; }
static void verify(mc::Choice& c, int cs, const std::string& decl, const std::string& rest, const char* want, textwolf::XmlHdrParser* used=0)
{
	std::string b=wide(decl+rest,cs); c.show(std::string(csName(cs))+" "+decl+rest); textwolf::XmlHdrParser fresh; textwolf::XmlHdrParser& p=used?*used:fresh; Res r=feed(p,b,std::vector<std::size_t>()); c.step(); if (r.r!=Rec) c.fail(show(r)+(p.lasterror()?std::string(": ")+p.lasterror():std::string())); if (r.hasenc!=(want!=0)||(want&&r.enc!=want)) c.fail(show(r)+" instead of "+(want?want:"none")); c.trace(); c.state(mc::hstr(b)); c.outcome(mc::hstr(r.enc)); if (p.consumedData()!=b) c.fail("consumed data differs from input");
}
static const std::vector<std::string>& rests(){ static const std::vector<std::string> v={"<a/>","\n<a>x</a>","\n<!DOCTYPE a SYSTEM 'encoding=\"y\"'><a/>","<!-- encoding='z' --><a/>","<?pi encoding='z'?><a/>","<a encoding='z'/>","<?xml encoding='z'?><a/>","","\r\n\t <a/>"}; return v; }
// ordered subsets of the attributes
static const std::vector<std::vector<int> >& orders(){ static const std::vector<std::vector<int> > v={{},{0},{1},{2},{0,1},{1,0},{0,2},{2,0},{1,2},{2,1},{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; return v; }
static std::string attribute(int k, const std::string& e, const std::string& before, const std::string& l, const std::string& r, char q){ static const char* n[]={"version","encoding","standalone"}; static const char* v[]={"1.0",0,"yes"}; return before+n[k]+l+"="+r+q+(v[k]?std::string(v[k]):e)+q; }
static const std::vector<std::string> ws={" ","\n","\t","\r\n","  "}, ows={""," ","\n","\t \r"};
// white space and quotes of every attribute chosen on its own
static void grammar(mc::Choice& c)
{
	int cs=c.of(units()); const std::vector<int>& o=c.of(orders()); const std::string& e=c.of(names(false)); std::string d="<?xml"; bool has=false; for (int k:o) { has|=k==1; d+=attribute(k,e,c.devof(ws),c.devof(ows),c.devof(ows),c.dev(2)?'\'':'"'); } d+=c.devof(ows); d+="?>"; verify(c,cs,d,c.devof(rests()),has?e.c_str():0);
}
// the same white space and quotes everywhere, all names, all that may follow
static void uniform(mc::Choice& c)
{
	int cs=c.of(units()); const std::vector<int>& o=c.of(orders()); const std::string& e=c.of(names(true)); const std::string &w=c.of(ws), &l=c.of(ows), &r=c.of(ows); char q=c.pick(2)?'\'':'"'; std::string d="<?xml"; bool has=false; for (int k:o) { has|=k==1; d+=attribute(k,e,w,l,r,q); } d+=c.of(ows); d+="?>"; verify(c,cs,d,rests()[c.pick(c.thorough()?9:3)],has?e.c_str():0);
}
// no declaration
static void none(mc::Choice& c)
{
	int cs=c.of(units()); static const std::vector<std::string> lead={"","\n"," ","\r\n\t "}, root={"<a/>","<a encoding='x'/>","<_x>encoding=\"UTF-8\"</_x>","<Z y='1'>t</Z>","<!DOCTYPE a><a/>","<!DOCTYPE a SYSTEM \"encoding='UTF-8'\"><a/>","<!-- <?xml encoding='UTF-8'?> --><a/>","<xml encoding='a'/>","<?xml?><a/>","<?xml ?><a/>","<?xml version='1.0'?><a/>"}; verify(c,cs,c.of(lead)+c.of(root),"",0);
}
// all names of an encoding up to a length, and long ones
static void encnames(mc::Choice& c)
{
	static const std::string al="aUz09-_.Z"; int cs=c.of(units()); std::string e; int n=1+c.pick(c.thorough()?5:4); for (int i=0;i<n;i++) e.push_back(al[c.pick(i?al.size():4)]); if (e[0]=='0'||e[0]=='9') e[0]='b'; if (c.pick(2)) e=e+std::string(200,'-')+e; char q=c.pick(2)?'\'':'"'; verify(c,cs,"<?xml version=\"1.0\" encoding="+std::string(1,q)+e+q+"?>","<a/>",e.c_str());
}
// the parser used again after clear() for another document
static void again(mc::Choice& c)
{
	static const std::vector<std::string> docs={"<?xml version='1.0' encoding='UTF-8'?><a/>","<?xml version='1.0'?><a/>","<a/>","<?xml encoding='latin-1' version='1.0' standalone='no'?><a/>"}; static const std::vector<std::string> want={"UTF-8","","","latin-1"}; static const std::vector<std::string> junk={"","<","<?xm","<?xml vers","<?xml version","<?xml encoding='ab","<?xml encoding=\"ab","<?xml encoding='ab'","<?xml nothing='a'?>","text"," ","<?xml standalone='","<?xml encoding ="}; textwolf::XmlHdrParser p; std::string txt; int cs=c.of(units()); int k=c.pick(2); for (int i=0;i<=k;i++) { unsigned j=c.pick(junk.size()+docs.size()); int js=c.of(units()); std::string b=wide(j<junk.size()?junk[j]:docs[j-junk.size()],js); if (c.flip()) b=b.substr(0,b.size()-b.size()/3); feed(p,b,std::vector<std::size_t>()); p.clear(); if (p.encoding()||p.lasterror()||p.consumedData().size()) c.fail("something left after clear()"); } unsigned d=c.pick(docs.size()); verify(c,cs,docs[d],"",want[d].empty()?0:want[d].c_str(),&p);
}
// declarations of many lengths, in chunks: the parser asks for more data until it has all of the declaration
static void sizes(mc::Choice& c)
{
	static const std::vector<std::size_t> ns=[]{ std::vector<std::size_t> r; for (std::size_t i=0;i<=40;i++) r.push_back(i); for (std::size_t k:{64,128,256,512,1024,2048,4096,8192,16384,65536}) for (std::size_t i=k-1;i<=k+1;i++) r.push_back(i); return r; }(); static const std::vector<std::size_t> chunks={1,7,100,512,513,4096,65536};
	int cs=c.of(units()); int k=c.pick(5); std::size_t n=c.of(ns), ch=c.of(chunks); if (ch==1&&n>1025&&!c.thorough()) return; std::string sp; for (std::size_t i=0;i<n;i++) sp+=" \n\t\r"[i%4]; std::string e="UTF-8", d; if (k==4) e="x"+std::string(n,'y'); d=std::string(k==3?sp:std::string())+(k==3?"<?xml version='1.0'":"<?xml version='1.0'"); d+=(k==0?sp:std::string())+" encoding"+(k==1?sp+"=":std::string("="))+"\""+e+"\""+(k==2?sp:std::string())+"?>"; std::string b=wide(d+"<a/>",cs); std::vector<std::size_t> cuts; for (std::size_t i=ch;i<b.size();i+=ch) cuts.push_back(i);
	c.show(std::string(csName(cs))+" kind "+std::to_string(k)+" length "+std::to_string(n)+" in chunks of "+std::to_string(ch)); textwolf::XmlHdrParser p; std::string put; Res r; r.r=More; std::size_t at=0; while (r.r==More&&at<b.size()) { std::size_t m=std::min(ch,b.size()-at); p.putInput(b.data()+at,m); put.append(b,at,m); at+=m; r=step(p); c.step(); }
	if (r.r!=Rec||!r.hasenc||r.enc!=e) c.fail(show(r).substr(0,100)); if (p.consumedData()!=put) c.fail("consumed data is not what was read"); std::size_t end=b.find(wide("?",cs),b.find(wide("\"",cs),b.find(wide("=\"",cs))+2*unit(cs))); if (at<end+(cs==U8||cs==ISO1?1:0)) c.fail("recognized before all of the declaration was read"); c.trace(); c.state(mc::hcomb(mc::hstr(b),ch)); c.outcome(mc::hstr(r.enc));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"grammar",grammar,3,5,4,"16 ordered subsets of the 3 attributes, 8 units/byte orders, 4 encoding names, all combinations of up to 3 (thorough 5) variations of white space (5 before, 4 around '='), quotes and what follows (9)"},
	{"uniform",uniform,0,0,3,"16 ordered subsets, 8 units/byte orders, 16 encoding names, 5*4*4*4 white space variants used for all attributes, 2 quotes, 3 (thorough 9) continuations"},
	{"none",none,0,0,2,"documents without declaration or encoding, with leading white space, element, document type or comment first"},
	{"encnames",encnames,0,0,2,"all encoding names up to 4 (thorough 5) of 9 characters, and of more than 200"},
	{"again",again,0,0,3,"parser cleared after one or two complete, incomplete or malformed documents"},
	{"sizes",sizes,0,0,3,"declarations with white space at 4 places or an encoding name of 71 lengths up to 65537, in chunks of 7 sizes, in 8 units/byte orders"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"documents start with the declaration (without byte order mark), an element, a document type or a comment; a processing instruction first is not judged","element names start with an ASCII letter or underscore"}; }
}
