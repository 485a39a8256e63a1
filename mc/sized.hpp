// Documents with one part of a given length or number, with the tokens they consist of
#pragma once
#include "tw.hpp"
namespace sized {
using namespace tw;
struct Ev { B::ElementType t; U s; };
enum { NofKinds=20 };
inline const char* kindName(int k){ static const char* n[]={"tag name","attribute name","attribute value","unquoted value","content","comment","processing instruction","CDATA section","internal subset","document type literal","white space in a tag","number of attributes","number of siblings","depth","number of comments","number of references","blanks before the root","content of wide characters","number of texts","header attribute value"}; return n[k]; }
// text of N characters, all parts different enough to see a loss or a repetition
inline U text(std::size_t N, bool wide=false){ U r; r.reserve(N); for (std::size_t i=0;i<N;i++) { uint32_t h=(uint32_t)(i*2654435761u); r.push_back(wide&&i%3==1?(i%2?0x20AC+(h>>28):0xE0+(h>>28)):(char32_t)('a'+(h>>16)%26)); } return r; }
inline U num(std::size_t i){ return u(std::to_string(i).c_str()); }
inline void doc(int kind, std::size_t N, U& d, std::vector<Ev>& ev)
{
	d.clear(); ev.clear(); auto e=[&](B::ElementType t, const U& s=U()){ ev.push_back(Ev{t,s}); }; U t=text(N);
	auto behind=[&]{ d+=U"<z y='x'>w</z></r>"; e(B::OpenTag,U"z"); e(B::TagAttribName,U"y"); e(B::TagAttribValue,U"x"); e(B::Content,U"w"); e(B::CloseTag,U"z"); e(B::CloseTag,U"r"); e(B::Exit); };
	auto root=[&]{ d+=U"<r>"; e(B::OpenTag,U"r"); };
	switch (kind)
	{
		case 0: root(); d+=U"<"+t+U">c</"+t+U">"; e(B::OpenTag,t); e(B::Content,U"c"); e(B::CloseTag,t); behind(); break;
		case 1: root(); d+=U"<b "+t+U"='1'/>"; e(B::OpenTag,U"b"); e(B::TagAttribName,t); e(B::TagAttribValue,U"1"); e(B::CloseTagIm); behind(); break;
		case 2: root(); d+=U"<b a='"+t+U"' b=\""+t+U"\"/>"; e(B::OpenTag,U"b"); e(B::TagAttribName,U"a"); e(B::TagAttribValue,t); e(B::TagAttribName,U"b"); e(B::TagAttribValue,t); e(B::CloseTagIm); behind(); break;
		case 3: root(); d+=U"<b a="+t+U">c</b>"; e(B::OpenTag,U"b"); e(B::TagAttribName,U"a"); e(B::TagAttribValue,t); e(B::Content,U"c"); e(B::CloseTag,U"b"); behind(); break;
		case 4: root(); d+=t; e(B::Content,t); behind(); break;
		case 5: root(); d+=U"<!--"+t+U"-->"; behind(); break;
		case 6: d+=U"<?xml version='1.0'?>"; e(B::HeaderStart,U"?xml"); e(B::HeaderAttribName,U"version"); e(B::HeaderAttribValue,U"1.0"); e(B::HeaderEnd); d+=U"<?p "+t+U"?>"; root(); d+=U"<?"+t+U"?>"; behind(); break;
		case 7: root(); d+=U"<![CDATA["+t+U"]]>"; behind(); break;
		case 8: d+=U"<!DOCTYPE r ["+t+U"]>"; e(B::DocAttribValue,U"DOCTYPE"); e(B::DocAttribValue,U"r"); e(B::DocAttribEnd); root(); behind(); break;
		case 9: d+=U"<!DOCTYPE "+t+U" SYSTEM '"+t+U"'>"; e(B::DocAttribValue,U"DOCTYPE"); e(B::DocAttribValue,t); e(B::DocAttribValue,U"SYSTEM"); e(B::DocAttribValue,t); e(B::DocAttribEnd); root(); behind(); break;
		case 10: { U w; for (std::size_t i=0;i<N;i++) w.push_back(U" \n\t"[i%3]); root(); d+=U"<b"+w+U"a"+w+U"="+w+U"'1'"+w+U"></b"+w+U">"; e(B::OpenTag,U"b"); e(B::TagAttribName,U"a"); e(B::TagAttribValue,U"1"); e(B::CloseTag,U"b"); behind(); break; }
		case 11: root(); d+=U"<b"; e(B::OpenTag,U"b"); for (std::size_t i=0;i<N;i++) { d+=U" n"+num(i)+U"='"+num(i)+U"'"; e(B::TagAttribName,U"n"+num(i)); e(B::TagAttribValue,num(i)); } d+=U">c</b>"; e(B::Content,U"c"); e(B::CloseTag,U"b"); behind(); break;
		case 12: root(); for (std::size_t i=0;i<N;i++) { if (i%2) { d+=U"<b/>"; e(B::OpenTag,U"b"); e(B::CloseTagIm); } else { d+=U"<n"+num(i)+U">"+num(i)+U"</n"+num(i)+U">"; e(B::OpenTag,U"n"+num(i)); e(B::Content,num(i)); e(B::CloseTag,U"n"+num(i)); } } behind(); break;
		case 13: root(); for (std::size_t i=0;i<N;i++) { d+=U"<n"+num(i)+U">"; e(B::OpenTag,U"n"+num(i)); } d+=U"c"; e(B::Content,U"c"); for (std::size_t i=N;i-->0;) { d+=U"</n"+num(i)+U">"; e(B::CloseTag,U"n"+num(i)); } behind(); break;
		case 14: root(); for (std::size_t i=0;i<N;i++) { d+=i%2?U"<!-- c -->":i%3?U"<?p x?>":U"<![CDATA[x]]>"; } behind(); break;
		case 15: { root(); U x; for (std::size_t i=0;i<N;i++) { d+=i%2?U"&lt;":i%3?U"&#65;":U"&#x42;"; x+=i%2?U"<":i%3?U"A":U"B"; } e(B::Content,x); behind(); break; }
		case 16: for (std::size_t i=0;i<N;i++) d.push_back(U" \n"[i%2]); root(); behind(); break;
		case 17: { U w=text(N,true); root(); d+=w; e(B::Content,w); behind(); break; }
		case 18: root(); for (std::size_t i=0;i<N;i++) { d+=num(i)+U"<b/>"; e(B::Content,num(i)); e(B::OpenTag,U"b"); e(B::CloseTagIm); } behind(); break;
		case 19: d+=U"<?xml version='"+t+U"' encoding=\""+t+U"\"?>"; e(B::HeaderStart,U"?xml"); e(B::HeaderAttribName,U"version"); e(B::HeaderAttribValue,t); e(B::HeaderAttribName,U"encoding"); e(B::HeaderAttribValue,t); e(B::HeaderEnd); root(); behind(); break;
	}
}
inline Toks tokens(int outcs, const std::vector<Ev>& ev){ Toks r; for (auto& x:ev) r.push_back(Tok{x.t,enc(outcs,x.s),0,0}); return r; }
// first difference, without the texts in full
inline std::string differs(const Toks& got, const Toks& want)
{
	auto s=[](const Tok& k){ return std::string(tname(k.t))+(k.err?"#"+std::to_string(k.err):"")+" '"+(k.s.size()>30?mc::esc(k.s.substr(0,12))+"..("+std::to_string(k.s.size())+" bytes).."+mc::esc(k.s.substr(k.s.size()-12)):mc::esc(k.s))+"'"; };
	for (std::size_t i=0;i<got.size()||i<want.size();i++)
	{
		if (i>=got.size()) return "token "+std::to_string(i)+" missing: "+s(want[i]); if (i>=want.size()) return "token "+std::to_string(i)+" too much: "+s(got[i]);
		if (got[i].t!=want[i].t||got[i].s!=want[i].s||got[i].err!=want[i].err) { std::size_t k=0; while (k<got[i].s.size()&&k<want[i].s.size()&&got[i].s[k]==want[i].s[k]) k++; return "token "+std::to_string(i)+" is "+s(got[i])+" instead of "+s(want[i])+(got[i].t==want[i].t?", first difference at byte "+std::to_string(k):""); }
	}
	return "";
}
inline const std::vector<std::size_t>& numbers(bool thorough)
{
	static const std::vector<std::size_t> q=[]{ std::vector<std::size_t> r; for (std::size_t i=1;i<=70;i++) r.push_back(i); for (std::size_t i:{127,128,129,254,255,256,257,258,511,512,513,1023,1024,1025,2047,2048,2049,4095,4096,4097,8191,8192,8193,16383,16384,16385,32767,32768,32769,65535,65536,65537}) r.push_back(i); return r; }();
	static const std::vector<std::size_t> t=[]{ std::vector<std::size_t> r; for (std::size_t i=1;i<=1100;i++) r.push_back(i); for (std::size_t k=2048;k<=262144;k*=2) for (std::size_t i=k-2;i<=k+2;i++) r.push_back(i); return r; }(); return thorough?t:q;
}
} // namespace sized
