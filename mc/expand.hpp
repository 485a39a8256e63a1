// Reference model of reference expansion and of the normalization of line ends
#pragma once
#include "tw.hpp"
namespace tw {
// ---------------- reference model
struct Exp { U text; bool undefined=false; bool undetermined=false; };
inline bool nameChar(uint32_t x){ if (x<33||x>127) return false; return !strchr("&<=>/-!?'\"[];",(int)x); }
inline const std::map<std::string,uint32_t>& predefined(){ static const std::map<std::string,uint32_t> m={{"quot",'"'},{"amp",'&'},{"apos",'\''},{"lt",'<'},{"gt",'>'},{"nbsp",' '}}; return m; }
inline Exp expand(const U& s, const std::map<std::string,uint32_t>& user)
{
	Exp r; std::size_t i=0;
	while (i<s.size())
	{
		if (s[i]!='&') { r.text.push_back(s[i++]); continue; }
		std::size_t j=i+1;
		if (j<s.size() && s[j]=='#')
		{
			++j; unsigned base=10; if (j<s.size() && s[j]=='x') { base=16; ++j; }
			std::size_t d0=j; unsigned __int128 v=0; 
			while (j<s.size()) { int dv=s[j]>='0'&&s[j]<='9'?s[j]-'0':(s[j]>='a'&&s[j]<='f'?s[j]-'a'+10:(s[j]>='A'&&s[j]<='F'?s[j]-'A'+10:99)); if (dv>=(int)base) break; v=v*base+dv; ++j; }
			if (j-d0>15) r.undetermined=true;
			if (j<s.size() && s[j]==';')
			{
				if (j==d0) r.undetermined=true;
				if (v<=0xFFFFFFFF)
				{
					if (v==0||v>0x10FFFF||(v>=0xD800&&v<=0xDFFF)) r.undetermined=true;
					r.text.push_back((uint32_t)v); i=j+1; continue;
				}
			}
		}
		else
		{
			while (j<s.size() && nameChar(s[j])) ++j;
			if (j-i-1>15) r.undetermined=true;
			if (j<s.size() && s[j]==';')
			{
				if (j==i+1) r.undetermined=true;
				std::string n; for (std::size_t k=i+1;k<j;k++) n.push_back((char)s[k]);
				auto p=predefined().find(n); 
				if (p!=predefined().end()) r.text.push_back(p->second);
				else { auto q=user.find(n); if (q==user.end()) { r.undefined=true; return r; } r.text.push_back(q->second); }
				i=j+1; continue;
			}
		}
		while (i<j) r.text.push_back(s[i++]);
	}
	return r;
}
// line ends are normalized outside of references
inline U eol(const U& s){ U r; for (std::size_t i=0;i<s.size();i++) { if (s[i]=='\r') { r.push_back('\n'); if (i+1<s.size()&&s[i+1]=='\n') ++i; } else r.push_back(s[i]); } return r; }

}
