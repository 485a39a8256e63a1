// S04: malformed or truncated markup is reported as an error
#include "corpus.hpp"
using namespace tw;
MC_PROPERTY("S04")
typedef textwolf::charset::UTF8 O;
static Toks scan(int cs, const std::string& b){ Toks t; TW_DISPATCH(cs,(t=scanAll<CS,O>(cs,b))); return t; }
// the longest common token prefix must be everything before the place of the error
static bool startsWith(const Toks& t, const Toks& p, std::size_t n){ if (t.size()<n) return false; for (std::size_t i=0;i<n;i++) if (t[i].t!=p[i].t||t[i].s!=p[i].s) return false; return true; }

// A document is a sequence of pieces. A truncation inside a piece is an error (markup) or not (text), and the tokens completed before are delivered.
// ntok: number of tokens delivered when the piece is complete; inner[i]: number of tokens delivered at least if the piece ends behind character i (computed from the pieces)
struct Piece { U s; bool markup; };
static std::vector<Piece> pieces(mc::Choice& c)
{
	static const std::vector<Piece> p={
		{U"<a>",true},{U"</a>",true},{U"<a/>",true},{U"<bc d='e' f = \"g&amp;\"/>",true},{U"<b c='x>y'>",true},{U"<b c=d e=f>",true},{U"</b \n>",true},{U"text",false},{U"&amp;",false},{U"<!-- c - -- -> x -->",true},{U"<?p x ? > y?>",true},{U"<![CDATA[x]]y]>z]]]>",true},{U"<\u20ac \u00e9='\U0001D11E'>",true},{U"<a\r\n/>",true},{U"<!---->",true},{U"<??>",true}};
	static const std::vector<Piece> pro={ {U"",false},{U"<?xml version='1.0' encoding=\"x\" ?>",true},{U"<!DOCTYPE a SYSTEM \"x>\" [ <!ELEMENT a> ] >",true},{U"<?xml version=1?>",true} };
	std::vector<Piece> r; r.push_back(c.of(pro)); if (r[0].s.empty()) r[0]=p[c.of(std::vector<int>{0,2,3,9})];
	int n=c.pick(3); for (int i=0;i<n;i++) r.push_back(c.of(p));
	r.push_back(c.of(p));
	return r;
}
static const int encs[]={U8,U16L,U16B,C4L,C4B,C2B};
static void truncated(mc::Choice& c, const U& head, const Piece& last, int cs)
{
	std::size_t at=1+c.pick(last.s.size()-1); U doc=head+last.s.substr(0,at);
	std::string hb=enc(cs,head), b=enc(cs,doc); c.show(std::string(csName(cs))+" "+show(doc));
	Toks h=scan(cs,hb), t=scan(cs,b); Toks full=scan(cs,hb+enc(cs,last.s));
	// The last text of head may grow by the lookahead only if followed by text, which it is not here
	if (h.back().t!=B::Exit) c.fail("complete prefix ["+show(head)+"] delivers "+show(h));
	std::size_t n=h.size()-1;
	if (t.back().t!=B::ErrorOccurred) c.fail("document ending inside of markup delivers "+show(t));
	if (t.size()<=n || !startsWith(t,h,n)) c.fail("tokens before the truncated markup are not delivered unchanged: "+show(t));
	// what is delivered of the truncated markup is a prefix of what the complete one delivers, except for the last text which may be incomplete
	for (std::size_t i=n;i+1<t.size();i++)
	{
		bool ok=i<full.size() && t[i].t==full[i].t && (t[i].s==full[i].s || (i+2==t.size() && full[i].s.compare(0,t[i].s.size(),t[i].s)==0));
		if (!ok) c.fail("tokens of the truncated markup: "+show(t)+" | complete: "+show(full));
	}
	if (full.size()-n>1 && t.size()>full.size()) c.fail("more tokens in truncated document: "+show(t));
	c.step(t.size()+h.size()); c.trace(); c.state(mc::hstr(b,cs)); c.outcome(hash(t));
}
static void truncation(mc::Choice& c)
{
	std::vector<Piece> p=pieces(c); const Piece& last=p.back(); int cs=encs[c.dev(6)];
	if (!last.markup) return;
	U head; for (std::size_t i=0;i+1<p.size();i++) head+=p[i].s;
	truncated(c,head,last,cs);
}
// the document ends inside of the declaration or of the document type
static void truncatedProlog(mc::Choice& c)
{
	static const std::vector<Piece> decl={{U"<?xml?>",true},{U"<?xml version='1.0'?>",true},{U"<?xml version=\"1.0\" encoding='UTF-8' standalone = \"yes\" ?>",true},{U"<?xml\n version\t=\r\n'1&amp;2' \n?>",true},{U"<?xml version=1 encoding=x?>",true}}, doct={{U"<!DOCTYPE a>",true},{U"<!DOCTYPE a SYSTEM \"x>y\">",true},{U"<!DOCTYPE a SYSTEM 'x>y' >",true},{U"<!DOCTYPE a\n PUBLIC '-//x//y' \"z\"\n>",true},{U"<!DOCTYPE a [<!ELEMENT a (#PCDATA)> <!ENTITY b \"c\">]>",true},{U"<!DOCTYPE a SYSTEM \"x>\" [ <!ELEMENT a> ] >",true},{U"<!DOCTYPE a[]>",true},{U"<!DOCTYPE \u20ac SYSTEM '\u00e9\U0001D11E&lt;'>",true}}, misc={{U"<!-- c -->",true},{U"<?p?>",true}};
	static const std::vector<U> heads={U"",U" ",U"\r\n",U"<?xml version='1.0'?>",U"<?xml?>\n",U"<?xml version=\"1.0\" encoding='x'?>\n<!-- c -->",U"<!-- c -->\n",U"<?xml?><!DOCTYPE a>"}; unsigned h=c.pick(heads.size()), k=c.pick(3); if (k==0&&h>2) return; if (k==2&&(h==0||h==1||h==2||h==6)) return; int cs=encs[c.pick(6)]; truncated(c,heads[h],k==0?c.of(decl):k==1?c.of(doct):c.of(misc),cs);
}
// structurally illegal markup: prefix document, illegal piece with the tokens delivered inside of it before the error, anything behind
struct Bad { U s; std::vector<std::pair<int,U> > toks; };
static const std::vector<Bad>& bads()
{
	const int O_=B::OpenTag, AN=B::TagAttribName, AV=B::TagAttribValue, CT=B::CloseTag, IM=B::CloseTagIm;
	static const std::vector<Bad> v={
		{U"<b c>",{{O_,U"b"},{AN,U"c"}}},{U"<b c/>",{{O_,U"b"},{AN,U"c"}}},{U"<b c d='1'>",{{O_,U"b"},{AN,U"c"}}},{U"<b c'1'>",{{O_,U"b"},{AN,U"c"}}},{U"<b c \"1\">",{{O_,U"b"},{AN,U"c"}}},
		{U"<b c='1<2'>",{{O_,U"b"},{AN,U"c"}}},{U"<b c=\"1<2\">",{{O_,U"b"},{AN,U"c"}}},{U"<b c='1\">",{{O_,U"b"},{AN,U"c"}}},{U"<b c=\"1'>",{{O_,U"b"},{AN,U"c"}}},
		{U"<b c='1'd='2'>",{{O_,U"b"},{AN,U"c"},{AV,U"1"}}},{U"<b c='1'=>",{{O_,U"b"},{AN,U"c"},{AV,U"1"}}},{U"<b c='1'\">",{{O_,U"b"},{AN,U"c"},{AV,U"1"}}},{U"<b c='1'?>",{{O_,U"b"},{AN,U"c"},{AV,U"1"}}},
		{U"<b c=d'>",{{O_,U"b"},{AN,U"c"},{AV,U"d"}}},{U"<b c=d=e>",{{O_,U"b"},{AN,U"c"},{AV,U"d"}}},{U"<b'>",{{O_,U"b"}}},{U"<b\">",{{O_,U"b"}}},{U"<b=>",{{O_,U"b"}}},{U"<b!>",{{O_,U"b"}}},{U"<b?>",{{O_,U"b"}}},{U"<b[>",{{O_,U"b"}}},{U"<b]>",{{O_,U"b"}}},{U"<b<c>",{{O_,U"b"}}},
		{U"<b/c>",{{O_,U"b"},{IM,U""}}},{U"<b//>",{{O_,U"b"},{IM,U""}}},{U"<b/<c>",{{O_,U"b"},{IM,U""}}},{U"<b c='1'/d>",{{O_,U"b"},{AN,U"c"},{AV,U"1"},{IM,U""}}},
		{U"</b c>",{{CT,U"b"}}},{U"</b/>",{{CT,U"b"}}},{U"</b='1'>",{{CT,U"b"}}},{U"</b\n<c>",{{CT,U"b"}}},{U"</b<",{{CT,U"b"}}},{U"</b'>",{{CT,U"b"}}},
		{U"<!-x-->",{}},{U"<!->",{}},{U"<!- ->",{}},{U"<!-\u20ac",{}},{U"<![cdata[x]]>",{}},{U"<![CDAT[x]]>",{}},{U"<![CDATAx[]]>",{}},{U"<![CDATA x]]>",{}},{U"<![ CDATA[x]]>",{}},{U"<![INCLUDE[x]]>",{}},{U"<![>",{}},
		{U"&foo;",{}} };
	return v;
}
static void illegal(mc::Choice& c)
{
	static const std::vector<U> pre={U"<a>",U"<a>text",U"<?xml version='1.0'?><a x='y'>\n",U"<a><b/>",U"<a></c>t<!-- c -->",U"<!DOCTYPE a><a>\u20ac\U0001D11E",U"<a><?p?>",U"<a>&lt;"}, post={U"",U"</a>",U"x",U"><b/>",U" '\"<c d='e'/>"};
	const U& p=c.of(pre); const Bad& b=c.of(bads()); const U& q=c.of(post); int cs=encs[c.pick(6)];
	if (b.s[0]=='&' && (p.back()=='>'?false:true)) return;  // text and reference would be one token
	std::string hb=enc(cs,p), db=enc(cs,p+b.s+q); c.show(std::string(csName(cs))+" "+show(p+b.s+q));
	Toks h=scan(cs,hb), t=scan(cs,db); h.pop_back(); std::size_t h0=h.size();
	for (auto& x:b.toks) h.push_back(Tok{x.first,enc(U8,x.second),0,0});
	bool unterminated=b.s==U"<b c='1\">"||b.s==U"<b c=\"1'>";   // the rest of the document belongs to the value: closed by a quote in it, or an error
	if (unterminated && q.find('\'')!=U::npos) return;
	if (t.back().t!=B::ErrorOccurred) c.fail("illegal markup accepted: "+show(t));
	std::size_t n=t.size()-1;   // a token directly adjoining the illegal character may be missing
	if (!(n==h.size() || (n+1==h.size() && n>=h0)) || !startsWith(t,h,n)) c.fail("delivered "+show(t)+" instead of "+show(h)+" Error");
	c.step(t.size()); c.trace(); c.state(mc::hstr(db,cs)); c.outcome(hash(t));
}
// the same in the XML declaration and the document type
static void prolog(mc::Choice& c)
{
	const int HS=B::HeaderStart,HN=B::HeaderAttribName,HV=B::HeaderAttribValue,DV=B::DocAttribValue;
	static const std::vector<Bad> v={
		{U"<?xm ?>",{}},{U"<?xmk?>",{}},{U"<?XML version='1'?>",{}},{U"<?xml>",{{HS,U"?xml"}}},{U"<?xmlx?>",{{HS,U"?xml"}}},{U"<?xml/?>",{{HS,U"?xml"}}},{U"<?xml a?>",{{HS,U"?xml"},{HN,U"a"}}},{U"<?xml a b='1'?>",{{HS,U"?xml"},{HN,U"a"}}},{U"<?xml a'1'?>",{{HS,U"?xml"},{HN,U"a"}}},
		{U"<?xml a='1<'?>",{{HS,U"?xml"},{HN,U"a"}}},{U"<?xml a=\"<\"?>",{{HS,U"?xml"},{HN,U"a"}}},{U"<?xml a='1'b='2'?>",{{HS,U"?xml"},{HN,U"a"},{HV,U"1"}}},{U"<?xml a='1'>",{{HS,U"?xml"},{HN,U"a"},{HV,U"1"}}},{U"<?xml a='1'?x>",{{HS,U"?xml"},{HN,U"a"},{HV,U"1"}}},{U"<?xml a='1'?<a/>",{{HS,U"?xml"},{HN,U"a"},{HV,U"1"}}},{U"<?xml a=b>",{{HS,U"?xml"},{HN,U"a"},{HV,U"b"}}},{U"<?xml a=b'?>",{{HS,U"?xml"},{HN,U"a"},{HV,U"b"}}},
		{U"<!DOCTYPE a=b>",{{DV,U"DOCTYPE"},{DV,U"a"}}},{U"<!DOCTYPE a<b>",{{DV,U"DOCTYPE"},{DV,U"a"}}},{U"<!DOCTYPE a/>",{{DV,U"DOCTYPE"},{DV,U"a"}}},{U"<!DOCTYPE 'a<'>",{{DV,U"DOCTYPE"}}},{U"<!DOCTYPE \"<\">",{{DV,U"DOCTYPE"}}},{U"x<a/>",{}},{U"\u20ac",{}},{U">",{}},{U"&amp;<a/>",{}},{U"&foo;",{}},{U"]]>",{}}};
	static const std::vector<U> pre={U"",U" \n"}, post={U"",U"<a/>",U" x='1'?><a></a>"};
	const U& p=c.of(pre); const Bad& b=c.of(v); const U& q=c.of(post); int cs=encs[c.pick(6)]; U d=p+b.s+q; std::string db=enc(cs,d); c.show(std::string(csName(cs))+" "+show(d));
	Toks t=scan(cs,db),h; std::size_t h0=0; for (auto& x:b.toks) h.push_back(Tok{x.first,enc(U8,x.second),0,0});
	if (t.back().t!=B::ErrorOccurred) c.fail("illegal markup accepted: "+show(t));
	std::size_t n=t.size()-1;   // a token directly adjoining the illegal character may be missing
	if (!(n==h.size() || (n+1==h.size() && n>=h0)) || !startsWith(t,h,n)) c.fail("delivered "+show(t)+" instead of "+show(h)+" Error");
	c.step(t.size()); c.trace(); c.state(mc::hstr(db,cs)); c.outcome(hash(t));
}
// every character class in every place where it is not allowed
static void chars(mc::Choice& c)
{
	struct Place { const char32_t* before; const char32_t* notok; int ntok; };
	static const std::vector<Place> pl={
		{U"<a",U"<=!?[]'\"",1},{U"<a b",U"<>/!?[]'\"",2},{U"<a b ",U"<>&/!?[]'\"x1\u20ac-",2},{U"<a b='c'",U"<&=!?[]'\"x-\u00e9",3},{U"<a b=c",U"<=!?[]'\"",3},{U"<a/",U"<&=!?[]'\"/x-\u20ac",2},{U"<a b='c'/",U"<&=!?[]'\"/x-\u20ac",4},{U"</a",U"<=!?[]'\"/",1},{U"</a ",U"<&=!?[]'\"/x-\u00e9",1},
		{U"<!-",U"<>&=!?[]'\"/x \n\u20ac",0},{U"<?xml a",U"<>/!?[]'\"",2},{U"<?xml a ",U"<>&/!?[]'\"x",2},{U"<?xml a='b'",U"<>&=!/[]'\"x-",3},{U"<?xml a='b'?",U"<&=!?/[]'\"x-\u20ac",3},{U"<?xml",U"<>&=!/[]'\"x-",1},{U"<a b='c",U"<",2},{U"<a b=\"c",U"<",2},{U"<!D",U"<=!?]'\"/",1},{U"<![CDATA",U"<>&=!?]'\"/x -",0},{U"<![CDAT",U"<>&=!?[]'\"/x -",0},{U"<![",U"<>&=!?[]'\"/x -D",0},{U"",U">&=!?[]'\"/x-\u20ac",0} };
	static const std::vector<U> post={U"",U">",U"x='y'>",U"?></a>\n"};
	const Place& p=c.of(pl); U bad=p.notok; U d=p.before; d.push_back(bad[c.pick(bad.size())]); d+=c.of(post); int cs=encs[c.pick(6)]; std::string b=enc(cs,d); c.show(std::string(csName(cs))+" "+show(d));
	Toks t=scan(cs,b); if (t.back().t!=B::ErrorOccurred) c.fail("accepted: "+show(t));
	if ((int)t.size()!=p.ntok+1 && (int)t.size()!=std::max(1,p.ntok)) c.fail("error reported after "+std::to_string(t.size()-1)+" instead of "+std::to_string(p.ntok)+" tokens: "+show(t));
	c.step(t.size()); c.trace(); c.state(mc::hstr(b,cs)); c.outcome(hash(t));
}
namespace mc {
std::vector<Suite> suites(bool){ return {
	{"truncations",truncation,1,1,3,"all documents of up to 4 pieces (16 kinds of markup and text behind 4 prologs) truncated at every character of their last piece, UTF-8 (and 5 other encodings as deviation)"},
	{"truncated-prolog",truncatedProlog,0,0,2,"5 declarations, 8 document types and other markup behind 8 beginnings of documents truncated at every character, 6 encodings"},
	{"illegal-markup",illegal,0,0,2,"45 kinds of illegal markup behind 8 documents, followed by 5 continuations, 6 encodings: error there and all tokens before delivered"},
	{"illegal-prolog",prolog,0,0,2,"28 kinds of illegal declarations, document types and document starts"},
	{"characters",chars,0,0,2,"22 scanner contexts x every character class not allowed in it x 4 continuations"}}; }
std::vector<Probe> probes(){ return {}; }
std::vector<std::string> assumptions(){ return {"not judged: mismatching or missing end tags, empty names, markup declarations other than DOCTYPE (the scanner is documented as lenient there)"}; }
}
