// Documents that reach every state of the scanner, every error and every encoded length
#pragma once
#include "tw.hpp"
namespace corpus {
using namespace tw;
struct Doc { const char* name; U text; bool good; };
inline const std::vector<Doc>& docs()
{
	static std::vector<Doc> v;
	if (v.empty())
	{
		auto g=[&](const char* n, const U& t){ v.push_back(Doc{n,t,true}); };
		auto b=[&](const char* n, const U& t){ v.push_back(Doc{n,t,false}); };
		g("min",U"<a/>");
		g("simple",U"<a>b</a>");
		g("header",U"<?xml version=\"1.0\" encoding='UTF-8'?>\n<a/>");
		g("header-ws",U"<?xml\tversion = \"1.0\"\r\n standalone=\n'yes' ? >\n <a />\n");
		g("header-unquoted",U"<?xml version=1.0 x=y?><a/>");
		g("doctype",U"<?xml version='1.0'?><!DOCTYPE a SYSTEM \"a.dtd\" 'q'><a/>");
		g("doctype-subset",U"<?xml version='1.0'?><!DOCTYPE a [<!ELEMENT a (#PCDATA)> x] ><a>t</a>");
		g("doctype-short",U"<?xml version='1.0'?><!DOCTYPE a><a/>");
		g("comment",U"<a><!-- c - -- > <b> & ]]> --><b/></a>");
		g("comment-dashes",U"<?xml version='1.0'?><!----><!-- --x- \u00e9\u20ac\U0001D11E--><a/><!--e-->");
		g("pi",U"<a><?p x?y ?? > <b> ?><b/><?q?></a>");
		g("pi-wide",U"<?xml version='1.0'?><?p \u00e9\u20ac\U0001D11E?><a/>");
		g("cdata",U"<a>x<![CDATA[a<b>&c;]]d]>e]]>y<![CDATA[]]]]>z</a>");
		g("nested",U"<a><b><c/></b>x<b>y</b></a>");
		g("attrs",U"<a b='1' c=\"2\"  d = '3'\ne\n=\n\"4\" />");
		g("attr-unquoted",U"<a b=1 c=2><d e=3/></a>");
		g("attr-empty",U"<a b='' c=\"\"></a>");
		g("attr-quotes",U"<a b='\"x\"' c=\"'y'\"/>");
		g("attr-specials",U"<a b='x>y/z=w!?-[]'/>");
		g("attr-ws",U"<a b=' x  y\tz\nw '/>");
		g("endtag-ws",U"< a >x</ a ></a\n>");
		g("empty-ws",U"<a / ><b/\n></a>");
		g("content-ws",U"<a> x \n y\t</a> \n ");
		g("content-specials",U"<a>x>y/z=w!?-'\"[]</a>");
		g("crlf",U"<a>\r\nx\r\ry\n\rz\r</a>");
		g("crlf-attr",U"<a b='\r\nx\r\ry\n\rz\r'/>");
		g("crlf-entity",U"<a>\r&#10;\r\n&#13;\n\r&amp;\n&\r\n</a>");
		g("crlf-markup",U"<a\r\n>\r<b\r/>\n\r\n<c/>\r</a\r>\r\n");
		g("entities",U"<a b='&lt;&gt;&amp;&quot;&apos;'>&lt;&gt;&amp;&quot;&apos;&nbsp;</a>");
		g("entities-numeric",U"<a b='&#65;&#x42;'>&#65;&#xe9;&#8364;&#x1D11E;x&#00065;</a>");
		g("entities-none",U"<a b='a&b &'>&& a&b &a b; &-; &# &#x &#z; &#xg; &#65 &#12a; &#xE9 &</a>");
		g("entities-long",U"<a>&abcdefghijklmnop;&abcdefghijklmnopqrst &#0000000000000065;&#00000000000000065;</a>");
		g("nonascii-names",U"<\u00e9\u20ac \u0394\U0001D11E='\u00fc'>\u00e4\u20ac\U0001D11E</\u00e9\u20ac>");
		g("nonascii-mixed",U"<a>x\u00e9y\u20acz\U0001D11Ew\u00e9\u00e9\u20ac\u20ac\U0001D11E\U0001D11E</a>");
		g("nonascii-unquoted",U"<a b=\u00e9\u20ac/>");
		g("names",U"<a-b.c:d_e f-g='h'/>");
		g("trailing",U"<a/>text<b/>");
		g("controls",U"<a>\x01\x02\x7f</a\x01>");
		b("no-tag",U" x<a/>");
		b("header-xm",U"<?xm version='1'?>");
		b("header-pi",U"<?xmlx ?>");
		b("header-noeq",U"<?xml version?>");
		b("header-noeq2",U"<?xml version '1'?>");
		b("header-quote",U"<?xml version='1<?>");
		b("header-junk",U"<?xml version='1'x?>");
		b("header-end",U"<?xml version='1'?x>");
		b("header-entity",U"<?xml version='&foo;'?>");
		b("tag-junk",U"<a b='1'c='2'/>");
		b("tag-noeq",U"<a><b c></a>");
		b("tag-noeq2",U"<a b c='1'/>");
		b("tag-quote",U"<a b='1<c/>");
		b("tag-name",U"<a!b/>");
		b("endtag-junk",U"<a></a b>");
		b("endtag-junk2",U"<a></a!>");
		b("emptytag-junk",U"<a/b>");
		b("attr-val-junk",U"<a b=c!/>");
		b("comment-dash",U"<a><!-x--></a>");
		b("cdata-word",U"<a><![CDAT[x]]></a>");
		b("cdata-bracket",U"<a><![CDATAx]]></a>");
		b("doctype-junk",U"<?xml version='1'?><!DOCTYPE a=b>");
		b("doctype-quote",U"<?xml version='1'?><!DOCTYPE 'a<b>");
		b("entity-undef",U"<a>x&foo;y</a>");
		b("entity-undef-attr",U"<a b='x&foo;y'/>");
		b("entity-undef-15",U"<a>&abcdefghijklmno;</a>");
		b("trunc-tag",U"<a");
		b("trunc-tag2",U"<a b");
		b("trunc-tag3",U"<a b=");
		b("trunc-tag4",U"<a b='x");
		b("trunc-tag5",U"<a b='x'");
		b("trunc-tag6",U"<a/");
		b("trunc-end",U"<a></a");
		b("trunc-comment",U"<a><!-- x -");
		b("trunc-comment2",U"<a><!-");
		b("trunc-pi",U"<a><?p ?");
		b("trunc-cdata",U"<a><![CDATA[x]]");
		b("trunc-doctype",U"<?xml version='1'?><!DOCTYPE a [x");
		b("trunc-header",U"<?xml version='1'");
		b("trunc-header2",U"<?xm");
		b("trunc-entity",U"<a b='&am");
		b("empty-name",U"<>");
		g("nothing",U"");
		g("white",U" \r\n\t ");
	}
	return v;
}
// small documents for exhaustive partitions
inline const std::vector<U>& micro()
{
	static const std::vector<U> v={
		U"<a>\r\n</a>",U"<a>&#65;</a>",U"<a>&amp;</a>",U"<a>&#x4a;<",U"<a>\u00e9</a>",U"<a>\u20ac<b",U"<a>\U0001D11E<",U"<a b='c'/>",U"<a b=c/>",U"<!---->",U"<a><!--b--",
		U"<a><?b?>",U"<?xml?><a/>",U"<?xml a='b",U"<a>\r\r\n\n<",U"<a>&#z;&<",U"<a>&x;",U"<a/ >b",U"<a>]]>&",U"<a b='\r\n",U"<a b='&#9;",U"</a\n>x",U"<![CDATA[]]>",U"<a>b </a>",
		U"<a>&#x;&#;",U"<\u00e9/>\u20ac",U"<a>&\r\n&<",U"<a>&#1\u00e9;",U"<a>&a\u00e9;",U"<a>&#x1\r\n",U"<!a [b]c>",U"<!'a' \"b\">" };
	return v;
}
// raw UTF-8 byte sequences that are not well-formed text
inline const std::vector<std::string>& rawUtf8()
{
	static const std::vector<std::string> v={
		"<a>\xc3<b/>","<a>\xe2\x82<b/></a>","<a>\xf0\x9d<b/></a>","<a>\x80x\xbf<b/>","<a>\xfe\xff<b/></a>","<a b='\xc3'/>","<a b='\xe2\x82'/>","<a><!--\xc3--><b/>--></a>","<a><?p \xc3?><b/>?></a>",
		"<a><![CDATA[\xe2]]>x]]>y</a>","<\xc3/>\xc3","<a>\xed\xa0\x80</a>","<a>\xc0\x80</a>","<a>\xf8\x88\x80\x80\x80</a>","<a>\xc3","<!-- \xf0-->-->" };
	return v;
}
} // namespace corpus
