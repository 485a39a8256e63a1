// P05: names and values are matched by exact equality
#include "path.hpp"
using namespace path;
MC_PROPERTY("P05")
// the text of a condition: characters as they are or as numeric references
static std::string keyText(int cs, const U& s, unsigned how)
{
	std::string r; for (std::size_t i=0;i<s.size();i++) { uint32_t x=s[i]; char b[32]; unsigned h=how; if (h>=4) h=(i+h)%4; if (h==0&&x=='&') { if (i+1<s.size()&&s[i+1]=='#') h=1; } if (h==0) put(cs,x,r); else { sprintf(b,h==1?"&#%u;":h==2?"&#x%x;":"&#x0%X;",x); for (char* q=b;*q;q++) put(cs,(unsigned char)*q,r); } } return r;
}
// 0: name of a tag, 1: descendant tag, 2: attribute name, 3: value, 4: value of any attribute, 5: descendant value, 6: attribute name of a condition
enum {NofPlaces=7};
template <class CS> static void one(mc::Choice& c, int cs, const U& key, const U& tok, unsigned how, int place, bool silent=false)
{
	typedef textwolf::XMLPathSelectAutomaton<CS> A; typedef textwolf::XMLPathSelect<CS> SL; std::string kt=keyText(cs,key,how); put(cs,0,kt); Mem k(kt); std::string we=enc(cs,U"e"), wn=enc(cs,U"n"), ze=we, zn=wn; put(cs,0,ze); put(cs,0,zn); Mem e(ze), nn(zn); std::string t=enc(cs,tok); if (!silent) c.show(std::string(csName(cs))+" place "+std::to_string(place)+" condition '"+mc::esc(kt)+"' token '"+mc::esc(t)+"'");
	A atm; { typename A::PathElement p=*atm; switch (place) { case 0: p.selectTag(k.p); break; case 1: p.forAllDescendants(); p.selectTag(k.p); break; case 2: p.selectTag(e.p).selectAttribute(k.p); break; case 3: p.selectTag(e.p).ifAttribute(nn.p,k.p); break; case 4: p.selectTag(e.p).ifAttribute(0,k.p); break; case 5: p.forAllDescendants(); p.ifAttribute(nn.p,k.p); break; case 6: p.selectTag(e.p).ifAttribute(k.p,0); break; } p.assignType(6); }
	SL sel(&atm); Doc d; int at; switch (place) { case 0: d={{B::OpenTag,t},{B::CloseTag,t}}; at=0; break; case 1: d={{B::OpenTag,we},{B::OpenTag,t},{B::CloseTag,t}}; at=1; break; case 2: case 6: d={{B::OpenTag,we},{B::TagAttribName,t},{B::TagAttribValue,"v"},{B::CloseTag,we}}; at=2; break; default: d={{B::OpenTag,we},{B::TagAttribName,wn},{B::TagAttribValue,t},{B::CloseTag,we}}; at=2; }
	std::vector<int> got; for (std::size_t i=0;i<d.size();i++) { got.clear(); pushAll(sel,d[i],got); bool want=(int)i==at&&key==tok; if (place==1&&i==0) want=false; if (got.size()!=(want?1u:0u)) c.fail(want?"does not match":"matches"); } c.step(d.size());
}
static void run(mc::Choice& c, int cs, const U& key, const U& tok, unsigned how, int place){ if (cs) one<textwolf::charset::IsoLatin>(c,ISO1,key,tok,how,place); else one<textwolf::charset::UTF8>(c,U8,key,tok,how,place); }
static const U& alphabet(int cs){ static const U a8=U"ab\u00e9\u20ac\U0001D11E -<&#;'\n\x7f", a1=U"ab\u00e9\u00a0\u00ff -<&#;'\n\x7f"; return cs?a1:a8; }
static U text(mc::Choice& c, int cs, int n){ const U& al=alphabet(cs); U s; int k=c.pick(n+1); for (int i=0;i<k;i++) s.push_back(al[c.pick(al.size())]); return s; }
static void fin(mc::Choice& c, const U& key, const U& tok, uint64_t x){ c.trace(); c.state(mc::hcomb(mc::hstr(enc(C4B,key)),mc::hcomb(mc::hstr(enc(C4B,tok)),x))); c.outcome(key==tok); }
static void pairs(mc::Choice& c){ int cs=c.pick(2); U k=text(c,cs,c.thorough()?3:2), t=text(c,cs,2); unsigned how=c.pick(4); int place=c.pick(NofPlaces); run(c,cs,k,t,how,place); fin(c,k,t,cs*64+how*8+place); }
// automatons in encodings with units of more than one byte: conditions end with a null character of the encoding
static void wide(mc::Choice& c)
{
	static const std::vector<int> css={U16L,U16B,C2L,C2B,C4L,C4B}; static const U al4=U"a\u0161\u6100\U0001D11E\u0100 -&<", al2=U"a\u0161\u6100\u2613\u0100 -&<"; int cs=c.of(css); const U& al=(cs==C2L||cs==C2B)?al2:al4; U k,t; int n=c.pick(c.thorough()?4:3), m=c.pick(3); for (int i=0;i<n;i++) k.push_back(al[c.pick(al.size())]); if (c.pick(2)) { t=k; unsigned e=c.pick(3); if (e==1) t.push_back(al[c.pick(al.size())]); if (e==2&&n) t[c.pick(n)]=al[c.pick(al.size())]; } else for (int i=0;i<m;i++) t.push_back(al[c.pick(al.size())]); unsigned how=c.pick(4); int place=c.pick(NofPlaces); TW_DISPATCH(cs, one<CS>(c,cs,k,t,how,place)); fin(c,k,t,cs*64+how*8+place);
}
// a text and its neighbours: one character changed, inserted, removed, appended
static void edits(mc::Choice& c)
{
	int cs=c.pick(2); const U& al=alphabet(cs); int n=1+c.pick(c.thorough()?4:3); U k; for (int i=0;i<n;i++) k.push_back(al[c.pick(c.thorough()?al.size():9)]); U t=k; unsigned e=c.pick(4); if (e==1) { unsigned p=c.pick(n); t[p]=al[c.pick(al.size())]; } if (e==2) t.insert(t.begin()+c.pick(n+1),al[c.pick(al.size())]); if (e==3) t.erase(t.begin()+c.pick(n)); unsigned how=4+c.pick(4); int place=c.pick(2)*3; run(c,cs,k,t,how,place); fin(c,k,t,cs*64+how*8+place);
}
// every character alone and in a neighbourhood
static void characters(mc::Choice& c)
{
	int cs=c.pick(2); unsigned blk=c.pick(cs?1:0x1100); unsigned how=c.pick(4), place=c.pick(2)*3; c.show("characters from U+"+std::to_string(blk*256)); for (unsigned x=blk*256+(blk?0:1);x<blk*256+256;x++) { if ((x>=0xd800&&x<0xe000)||x>0x10ffff) continue; if (blk>=0x200&&(x&0xff)>2&&(x&0xff)<0xfe&&!c.thorough()) continue; U k(1,x); U t=k; if (cs) { one<textwolf::charset::IsoLatin>(c,ISO1,k,t,how,place,false); t[0]=x==255?254:x+1; one<textwolf::charset::IsoLatin>(c,ISO1,k,t,how,place,false); } else { one<textwolf::charset::UTF8>(c,U8,k,t,how,place,false); t[0]=x>=0x10ffff?x-1:x==0xd7ff?0xe000:x+1; one<textwolf::charset::UTF8>(c,U8,k,t,how,place,false); } } c.trace(256); c.state(mc::hcomb(blk,cs*64+how*8+place)); c.outcome(blk);
}
static void lengths(mc::Choice& c)
{
	static const std::vector<int> ls={1,2,3,15,16,17,31,32,63,64,127,128,255,256,257,511,512,1022,1023,1024,1025,2048,4095,4096,65535,65536}; int n=c.of(ls); int cs=c.pick(2); uint32_t ch=c.pick(2)?0xe9:'k'; U k(n,ch); U t=k; unsigned e=c.pick(8); switch (e) { case 1: t.push_back(ch); break; case 2: t.pop_back(); break; case 3: t[n-1]='z'; break; case 4: t[0]='z'; break; case 5: t[n/2]='z'; break; case 6: t+=t; break; case 7: if (n>3) t[n-3]='z'; else t.clear(); break; } int place=c.pick(NofPlaces); unsigned how=c.pick(2)*2; run(c,cs,k,t,how,place); fin(c,k,t,cs*64+how*8+place);
}
// tokens as delivered by the scanner
static void scanned(mc::Choice& c)
{
	static const U al=U"ab\u00e9\u20ac\U0001D11E -&'"; int n=c.pick(4); U k; for (int i=0;i<n;i++) k.push_back(al[c.pick(al.size())]); U t=k; if (c.flip()) { if (n&&c.flip()) t.pop_back(); else t.push_back('a'); } unsigned how=c.pick(4), dw=c.pick(3); std::string v; for (std::size_t i=0;i<t.size();i++) { char b[32]; if (dw==0&&t[i]!='&'&&t[i]!='\'') put(U8,t[i],v); else if (dw==2&&t[i]=='&') v+="&amp;"; else { sprintf(b,"&#%u;",(unsigned)t[i]); v+=b; } }
	std::string doc="<e n='"+v+"'/>", kt=keyText(U8,k,how); c.show(kt+" on "+doc); Atm atm; (*atm)["e"]("n",kt.c_str())=6; Sel sel(&atm); Mem m(doc); typedef textwolf::XMLScanner<textwolf::CStringIterator,CS8,CS8,std::string> SC; SC sc(textwolf::CStringIterator(m.p,(unsigned)m.n)); int hits=0; for (SC::iterator i=sc.begin(), e=sc.end(); i!=e&&i->type()!=B::ErrorOccurred; ++i) for (Sel::iterator r=sel.push(i->type(),i->content(),i->size()), re=sel.end(); r!=re; ++r) hits++; if (hits!=(k==t)) c.fail(std::to_string(hits)+" matches"); c.step(4); fin(c,k,t,how*4+dw);
}
// many conditions in one automaton: the right ones match
static void sets(mc::Choice& c)
{
	static const std::vector<U> ts=[](){ std::vector<U> r; const U al=U"ab\u00e9"; r.push_back(U""); for (int len=1;len<=3;len++) { std::size_t m=1; for (int i=0;i<len;i++) m*=3; for (std::size_t v=0;v<m;v++) { U s; std::size_t w=v; for (int i=0;i<len;i++) { s.push_back(al[w%3]); w/=3; } r.push_back(s); } } return r; }(); int place=c.pick(2), order=c.pick(ts.size()), skip=c.pick(3); Atm atm; std::set<std::size_t> in; for (std::size_t i=0;i<ts.size();i++) { std::size_t k=(i+order)%ts.size(); if (skip&&k%3==(std::size_t)skip) continue; if (!place&&ts[k].empty()) continue; in.insert(k); std::string s=enc(U8,ts[k]); if (place) (*atm)["e"]("n",s.c_str())=(int)k+1; else (*atm)["e"][s.c_str()]=(int)k+1; }
	c.show("set of conditions "+std::to_string(order)); for (std::size_t k=0;k<ts.size();k++) { Sel sel(&atm); std::string s=enc(U8,ts[k]); std::vector<int> got; pushAll(sel,Ev{B::OpenTag,"e"},got); if (place) { pushAll(sel,Ev{B::TagAttribName,"n"},got); pushAll(sel,Ev{B::TagAttribValue,s},got); } else pushAll(sel,Ev{B::OpenTag,s},got); if (got.size()!=in.count(k)||(got.size()&&got[0]!=(int)k+1)) c.fail("token '"+mc::esc(s)+"': "+std::to_string(got.size())+" matches"+(got.size()?", the first is condition "+std::to_string(got[0]):"")); c.step(3); } c.trace(ts.size()); c.state(order*6+skip*2+place); c.outcome(order);
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"pairs",pairs,0,0,3,"all pairs of texts of up to 2 (thorough: condition 3) of 14 characters (ASCII, blank, markup, 2, 3 and 4 byte characters), 4 ways of writing the condition (as is, decimal, hexadecimal, upper case hexadecimal with leading zero), 7 places in an expression, automaton in UTF-8 and ISO-8859-1"},
	{"wide",wide,0,0,3,"automatons in UTF-16, UCS-2 and UCS-4 of both byte orders: pairs of texts of up to 2 (thorough: 3) of 9 characters, equal, changed or appended, 4 ways of writing the condition, 7 places"},
	{"edits",edits,0,0,3,"all texts of up to 3 (thorough: 4) characters with every single change, insertion and removal, mixed ways of writing"},
	{"characters",characters,0,0,3,"every character up to U+1FFFF (above: 4 of every 256; thorough: every character) against itself and its neighbour"},
	{"lengths",lengths,0,0,2,"texts of 26 lengths from 1 to 65536 with differences at the begin, in the middle and at the end, and in length, 7 places"},
	{"scanned",scanned,0,0,2,"texts of up to 3 of 9 characters as attribute values of a document processed by the scanner"},
	{"sets",sets,0,0,2,"automatons with all 40 texts of up to 3 of 3 characters as conditions, in every rotation, against each of the texts"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"conditions are given in the encoding of the automaton with numeric character references, named references are not expanded in conditions","conditions end with a null character of the encoding of the automaton"}; }
}
