From cd720f0c953e1a69552840e7dc3ba2b785707a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/56] fix: missing comma in the table of exception names

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From 8d3ecb73a13ccf6a947937cfc05bb872e021c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/56] fix: characters above 255 never mapped to their
 ISO-8859 code

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..88e70e9 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From 9a6c8460126a8229e655a50e0681fe2dbc8930f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 03/56] fix: NUL printed as empty character reference in
 IsoLatin

---
 include/textwolf/charset_isolatin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..ddc9331 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -77,7 +77,7 @@ struct IsoLatin :public IsoLatinCodePage
 	void print( UChar chr, Buffer_& buf) const
 	{
 		char chr_ = invcode( chr);
-		if (chr_ == 0)
+		if (chr_ == 0 && chr != 0)
 		{
 			char tb[ 32];
 			char* cc = tb;
-- 
2.43.0


From a69d34deeb49f14c39ac3f84f1ba1700ea666931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 04/56] fix: UTF-16 high surrogate followed by a unit below
 0xDC00 decoded as character

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..4a8a59f 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -127,7 +127,7 @@ public:
 			}
 			rt -= 0xD800;
 			rt *= 0x400;
-			unsigned short lo = (unsigned char)buf[ 2+MSB];
+			UChar lo = (unsigned char)buf[ 2+MSB];
 			if ((lo - 0xDC) > 0x03) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
-- 
2.43.0


From f1d6631ec028a1cc343a48cb5faca6526e02ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 05/56] fix: UTF-16 surrogate pair only half copied when not
 classified before

---
 include/textwolf/charset_utf16.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 4a8a59f..2156c23 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -66,6 +66,15 @@ public:
 			++itr;
 			++bufpos;
 		}
+		if (((unsigned char)buf[ MSB] & 0xFC) == 0xD8)
+		{
+			// ... the character is encoded as surrogate pair
+			for (; bufpos<4; ++bufpos)
+			{
+				buf[ bufpos] = *itr;
+				++itr;
+			}
+		}
 	}
 
 	/// \brief Get the size of the current character in bytes (variable length encoding)
-- 
2.43.0


From 249c6bdc483f8e49191a65b7f06cb9f74d2d5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/56] fix: UTF-8 overlong sequences and 7,8 byte sequences
 decoded as valid characters

---
 include/textwolf/charset_utf8.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..1e93d6b 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -138,8 +138,9 @@ struct UTF8
 		UChar res = (unsigned char)buf[0];
 		if (res > 127)
 		{
+			static const UChar minchar[ 5] = {0x80,0x800,0x10000,0x200000,0x4000000};
 			int gg = bufpos-2;
-			if (gg < 0) return MaxChar;
+			if (gg < 0 || gg > 4) return MaxChar;
 
 			res = ((unsigned char)buf[0])&(B00011111>>gg);
 			for (int ii=0; ii<=gg; ii++)
@@ -151,6 +152,7 @@ struct UTF8
 					return MaxChar;
 				}
 			}
+			if (res < minchar[ gg]) return MaxChar; //... overlong encoding
 		}
 		return res;
 	}
-- 
2.43.0


From 64ddd69ba52a2285e85d026502a06f0d751fe6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 07/56] fix: endless loop on unterminated comment, PI, CDATA or
 DTD subset

---
 include/textwolf/xmlscanner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..ac10f1f 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -77,7 +77,7 @@ private:
 		size++;
 	}
 
-	/// \brief Define a transition for all control character types not firing yet in the last state defined
+	/// \brief Define a transition for all control character types except the end of text not firing yet in the last state defined
 	/// \param [in] nextState the follow state index defined for these transitions
 	void addOtherTransition( int nextState)
 	{
@@ -85,9 +85,9 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
-			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
+			if (inputchr != EndOfText && tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
-		tab[ size-1].nofnext = NofControlCharacter;
+		tab[ size-1].nofnext = NofControlCharacter-1;
 	}
 
 	/// \brief Define a transition for inputchr in the last state defined
-- 
2.43.0


From f43bb618e94ebba73190965286724fd346898eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 08/56] fix: CDATA section ending with "]]]>" not recognized as
 terminated

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index ac10f1f..a01e671 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -353,7 +353,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From 0b740e9bfb4f81c3057623420d3d7e20f7e8eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 09/56] fix: question mark inside of a processing instruction
 reported as error

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a01e671..51c9ead 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -311,7 +311,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From c071aa5517d7df427b5fe6b799dea5dff4cf0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 10/56] fix: scanner iterator returned a stale item instead of
 the error message

---
 include/textwolf/xmlscanner.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 51c9ead..8a0c437 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -1250,6 +1251,23 @@ public:
 		Element element;				///< currently visited element
 		ThisXMLScanner* input;				///< XML scanner
 
+		/// \brief Fetch the next element from the scanner
+		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
+		void fetch( unsigned short mask)
+		{
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = element.m_content?std::strlen( element.m_content):0;
+			}
+			else
+			{
+				element.m_content = input->getItemPtr();
+				element.m_size = input->getItemSize();
+			}
+		}
+
 		/// \brief Skip to the next element
 		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
 		/// \return iterator pointing to the next element
@@ -1257,9 +1275,7 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch( mask);
 			}
 			return *this;
 		}
@@ -1297,9 +1313,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch( 0xFFFF);
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From 416783e24f4db85033efb707425b93604d7ce24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 11/56] fix: semicolon duplicated behind a numeric reference
 out of range

---
 include/textwolf/xmlscanner.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8a0c437..5ca16b1 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -643,7 +643,6 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From 31653a4272fef0f6034472c83ce849a7452155e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/56] fix: "x" lost in text that looks like a hexadecimal
 reference but is not

---
 include/textwolf/xmlscanner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 5ca16b1..b681e68 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -582,6 +582,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
-- 
2.43.0


From 5c3d6b829d2d27c45d4f6acfaaaf47a793aa374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 13/56] fix: scanner copy constructor did not copy the token
 state

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index b681e68..a4311a5 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1018,11 +1018,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From 3acdb82392fd01f51fbccfb1f6e0cc2377b42d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 14/56] fix: header parser copy constructor did not copy
 encoding and last error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From d79dc6a137f8ffd83a176531b27e1aa25dd50363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 15/56] fix: path select copy constructor did not copy the
 context

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..acaf345 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From 0b7bb25df4431a4a84d4127fbe2aea0bdf9cc996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 16/56] fix: scope closed once per iterator copy instead of
 once per element

---
 include/textwolf/xmlpathselect.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index acaf345..45050e9 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -116,6 +116,7 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		closeProcessElement(); //... no effect if already done at the end of the previous iteration
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -146,6 +147,7 @@ private:
 				follows.resize( context.scope.range.followidx);
 				tokens.resize( context.scope.range.tokenidx_to);
 			}
+			context.type = XMLScannerBase::None; //... the scope is closed only once
 		}
 	}
 
@@ -276,6 +278,7 @@ private:
 					{
 						context.key = 0;
 						context.keysize = 0;
+						closeProcessElement();
 						return 0; //end of all candidates
 					}
 				}
@@ -285,6 +288,7 @@ private:
 		{
 			context.key = 0;
 			context.keysize = 0;
+			closeProcessElement();
 		}
 		return type;
 	}
@@ -401,11 +405,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From 51c17fa184f26db4c5cff1642d566387bfa983a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 17/56] fix: descendant attribute search given up at the first
 content

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 45050e9..ef03138 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -236,7 +236,7 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (!tk->core.follow && tk->core.mask.rejects( context.type))
 			{
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
-- 
2.43.0


From d0788bf81e60691788510f640d097ffe66f06dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 18/56] fix: user defined named entities never found

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a4311a5..8dba106 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -951,7 +951,9 @@ private:
 		}
 		else if (m_entityMap)
 		{
-			EntityMap::const_iterator itr = m_entityMap->find( str);
+			// the map is ordered by key addresses, therefore we have to compare the keys one by one
+			EntityMap::const_iterator itr = m_entityMap->begin();
+			while (itr != m_entityMap->end() && 0!=std::strcmp( itr->first, str)) ++itr;
 			if (itr == m_entityMap->end())
 			{
 				error = ErrUndefinedCharacterEntity;
-- 
2.43.0


From a6eefbf241dcaa17e9135500578f6e13e0954e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 19/56] fix: character references in path expression keys not
 decoded

---
 include/textwolf/xmlscanner.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8dba106..f0c2e38 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -823,7 +823,17 @@ public:
 				}
 				else if (ch == Amp)
 				{
-					pc = parseStaticNumericEntityValue( ir);
+					InputReader er( ir);
+					er.skip();
+					pc = parseStaticNumericEntityValue( er);
+					if (pc)
+					{
+						ir = er;
+					}
+					else
+					{
+						pc = '&'; //... not a numeric entity
+					}
 				}
 				else
 				{
-- 
2.43.0


From cbb42d978ef00394744f16c9f2bfb5b3b6ba05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 20/56] fix: attribute value condition truncated at the first
 non tag character

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..8f3f432 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -565,6 +565,16 @@ public:
 		Mask printOpMask;		//< mask for printing element actions
 
 	private:
+		///\class IsValueCharMap
+		///\brief Defines the set of characters of an attribute value to compare with
+		struct IsValueCharMap :public XMLScannerBase::IsContentCharMap
+		{
+			IsValueCharMap()
+			{
+				(*this)(Lt,true);
+			}
+		};
+
 		///\brief Define an output operation for a certain element type in this state
 		///\param [in] op XML operation type of this output
 		///\return *this
@@ -581,7 +591,8 @@ public:
 		///\return *this
 		PathElement& doSelect( Operation op, const char* value)
 		{
-			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const IsValueCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +601,7 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					if (!StaticXMLScanner::parseStaticToken( (op == ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:(const XMLScannerBase::IsTokenCharMap&)isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-- 
2.43.0


From ce6dc2f81fb2d75a77671513b2469a555d56e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 21/56] fix: keys longer than 1024 bytes truncated silently

---
 include/textwolf/xmlpathautomaton.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 8f3f432..3c9cd9c 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -597,15 +597,14 @@ public:
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
 					if (!StaticXMLScanner::parseStaticToken( (op == ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:(const XMLScannerBase::IsTokenCharMap&)isTagCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
-- 
2.43.0


From eff55d25d5f5c5a9e5e1c4f09bf0c155bb63985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 22/56] fix: combined index ranges not intersected

---
 include/textwolf/xmlpathautomaton.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 3c9cd9c..9c88a46 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -631,13 +631,13 @@ public:
 		{
 			if (range.end == -1)
 			{
-				range = Range( p_start, p_end);
+				range.end = p_end;
 			}
-			else if (p_end < range.end)
+			else if (p_end != -1 && p_end < range.end)
 			{
 				range.end = p_end;
 			}
-			else if (p_start > range.start)
+			if (p_start > range.start)
 			{
 				range.start = p_start;
 			}
-- 
2.43.0


From bc6eba7c084b4f4a9b2ba91e255630f62e11afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 23/56] fix: names with dash or with certain non ASCII
 characters rejected

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..99dc663 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -279,8 +279,10 @@ private:
 
 	static bool isIdentifierChar( SrcScanner& src)
 	{
+		if (src.control() == Dash) return true;
 		if (src.control() == Undef || src.control() == Any)
 		{
+			if (*src > 127) return true;
 			static const char opchr[] = "*~/(){}[]@,;";
 			return (0==std::strchr( opchr, *src));
 		}
-- 
2.43.0


From 1b1917250149b2e9fb748917e81ee6a29e52028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 24/56] fix: missing assignment operator of automaton state

---
 include/textwolf/xmlpathautomaton.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 9c88a46..9dd2680 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -243,6 +243,21 @@ public:
 			if (srckey) delete [] srckey;
 		}
 
+		///\brief Assignment operator
+		///\param [in] orig element to copy
+		State& operator=( const State& orig)
+		{
+			if (this != &orig)
+			{
+				core = orig.core;
+				defineKey( orig.keysize, orig.key, orig.srckey);
+				keysize = orig.keysize;
+				next = orig.next;
+				link = orig.link;
+			}
+			return *this;
+		}
+
 		///\brief Check it the state definition is empty
 		///\return true for an empty state
 		bool isempty()				{return key==0&&core.typeidx==0&&next==0&&link==0&&core.mask.empty();}
-- 
2.43.0


From 2820a730ae636a86e149dd1e5e81f153113056dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 25/56] fix: missing assignment operator of tag stack

---
 include/textwolf/xmltagstack.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..ef7bd08 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -44,6 +44,23 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	/// \param[in] o tag stack to copy
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size);
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = xx;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From eb0055399e865f5315b9327d8ef08ef75730b386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 26/56] fix: assignment and copy of StaticBuffer

---
 include/textwolf/staticbuffer.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..1b2d252 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +53,25 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	/// \param[in] o buffer to copy
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* xx = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!xx) throw std::bad_alloc();
+			std::memcpy( xx, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free(m_ar);
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_ar = xx;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From fcc518af1ed540f203203548e3f924b324e9c663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 27/56] fix: StaticBuffer access one behind the end not refused

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 1b2d252..adb91c7 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -142,7 +142,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -151,7 +151,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From 5a4934726e6d154ca2d12f9558dc058f3a62c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 28/56] fix: default construction, copy and assignment of
 IStreamIterator

---
 include/textwolf/istreamiterator.hpp | 37 +++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..c3a0051 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -116,10 +117,38 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o iterator to copy
 	IStreamIterator( const IStreamIterator& o)
-		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+		:m_input(o.m_input),m_buf(0),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (o.m_buf)
+		{
+			m_buf = (char*)std::malloc(m_bufsize);
+			if (!m_buf) throw std::bad_alloc();
+			std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		}
+	}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to copy
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		if (this != &o)
+		{
+			char* xx = 0;
+			if (o.m_buf)
+			{
+				xx = (char*)std::malloc(o.m_bufsize);
+				if (!xx) throw std::bad_alloc();
+				std::memcpy( xx, o.m_buf, o.m_readsize);
+			}
+			std::free( m_buf);
+			m_input = o.m_input;
+			m_buf = xx;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
-- 
2.43.0


From 2bcd36745b2335e92eeccfffb9e1fc9dfea3ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 29/56] fix: IStreamIterator difference wrong across buffer
 refills

---
 include/textwolf/istreamiterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index c3a0051..da96994 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -174,7 +174,7 @@ public:
 
 	int operator - (const IStreamIterator& o) const
 	{
-		return (int)m_readpos - o.m_readpos;
+		return (int)((m_abspos + m_readpos) - (o.m_abspos + o.m_readpos));
 	}
 
 	PositionIndex position() const
-- 
2.43.0


From 6dda9d3a5fa6433ecf5b722f53de70d514cb22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 30/56] fix: read failure without system error code taken as
 end of file

---
 include/textwolf/istreamiterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index da96994..a48cdbe 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -56,6 +56,7 @@ public:
 		try
 		{
 			m_errno = 0;
+			errno = 0;
 			m_input->read( (char*)buf, bufsize);
 			return m_input->gcount();
 		}
@@ -68,13 +69,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From ca4bbfe5d699132a3a715210b812c77e0fe25615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 31/56] fix: carriage return in content not escaped

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..050792d 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From 3d16db573540c5ecee32b31134e947164605dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 32/56] fix: XML header and DOCTYPE keywords decoded in the
 application character set

---
 include/textwolf/xmlprinter.hpp | 41 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 050792d..c622c12 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -130,6 +130,14 @@ public:
 		m_output.print( (textwolf::UChar)(unsigned char)ch, buf);
 	}
 
+	/// \brief Prints a 0-terminated ASCII string to an STL back insertion sequence buffer in the IO character set encoding
+	/// \param [in] str ASCII string to print
+	/// \param [in,out] buf buffer to print to
+	void printAsciiToBuffer( const char* str, BufferType& buf) const
+	{
+		for (; *str; ++str) printToBuffer( *str, buf);
+	}
+
 public:
 	/// \brief Default constructor
 	/// \param[in] subDocument do not require an Xml header to be printed if set to true
@@ -169,19 +177,14 @@ public:
 			m_lasterror = "printing xml header not at the beginning of the document";
 			return false;
 		}
-		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printAsciiToBuffer( "<?xml version=\"1.0\" encoding=\"", buf);
+		printAsciiToBuffer( encoding?encoding:"UTF-8", buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
-		}
-		else
-		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printAsciiToBuffer( "\" standalone=\"", buf);
+			printAsciiToBuffer( standalone, buf);
 		}
+		printAsciiToBuffer( "\"?>\n", buf);
 		m_state = Content;
 		return true;
 	}
@@ -203,27 +206,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAsciiToBuffer( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
+				printAsciiToBuffer( " PUBLIC \"", buf);
 				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
+				printAsciiToBuffer( "\" \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAsciiToBuffer( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printAsciiToBuffer( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
+				printAsciiToBuffer( " SYSTEM \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printAsciiToBuffer( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
+				printAsciiToBuffer( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printAsciiToBuffer( ">", buf);
 			}
 		}
 		return true;
-- 
2.43.0


From 2b82b2607d7191d1624d021d8442d01d65497ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 33/56] fix: tag closed behind an attribute name without value

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index c622c12..b7568c1 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -244,6 +244,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "attribute without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From 521207019ac11f82b7223d644d8c799988388b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 34/56] fix: ISO-8859-3 code page shifted behind unassigned
 codes

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index 88e70e9..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 8de215afe7aa16448945ef484707519b3d1a60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 35/56] fix: bytes skipped behind the end of a chunk were taken
 from the next one

---
 include/textwolf/sourceiterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/sourceiterator.hpp b/include/textwolf/sourceiterator.hpp
index c37a3b7..46492d0 100644
--- a/include/textwolf/sourceiterator.hpp
+++ b/include/textwolf/sourceiterator.hpp
@@ -79,6 +79,7 @@ public:
 	/// \brief Prefix increment operator (required by textwolf for an input iterator)
 	inline SrcIterator& operator++()
 	{
+		if (m_itr >= m_end && m_eom) longjmp(*m_eom,1); //... the byte to skip is in the next chunk
 		++m_itr;
 		return *this;
 	}
-- 
2.43.0


From c76a15701759edc6bbcc59ba79135d1d42caecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 36/56] fix: internal subset directly behind the document type
 name

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index f0c2e38..08333dc 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -343,7 +343,7 @@ public:
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Gt,ENTITYE).miss(ErrIllegalDocumentAttributeDef)
+			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Gt,ENTITYE)(Osb,ENTITYLC).miss(ErrIllegalDocumentAttributeDef)
 			[ ENTITYSQ ].action(ReturnSQString,DocAttribValue)(Sq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYDQ ].action(ReturnDQString,DocAttribValue)(Dq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYLC ](Csb,ENTITY).other( ENTITYLC)
-- 
2.43.0


From 0740e8338500c3b3806f10f9e9b31a95099c778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 37/56] fix: position at the end of a stream

---
 include/textwolf/istreamiterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index a48cdbe..d612905 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -164,7 +164,9 @@ public:
 	{
 		if (m_readpos+1 >= m_readsize)
 		{
+			bool behindEnd = (m_readpos >= m_readsize);
 			fillbuf();
+			if (behindEnd && m_readsize == 0) ++m_abspos; //... count like the other iterators
 		}
 		else
 		{
-- 
2.43.0


From 30687fd2c954554540ae1a272455b8985f772aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 38/56] fix: path selection inside of the XML header leaked
 into the document root

---
 include/textwolf/xmlpathselect.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index ef03138..06a52b3 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -117,7 +117,7 @@ private:
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
 		closeProcessElement(); //... no effect if already done at the end of the previous iteration
-		if (context.type == XMLScannerBase::OpenTag)
+		if (context.type == XMLScannerBase::OpenTag || context.type == XMLScannerBase::HeaderStart)
 		{
 			//last step of open scope has to be done after all tokens were visited,
 			//e.g. with the next element initialization
@@ -126,19 +126,19 @@ private:
 		context.scope.range.tokenidx_to = tokens.size();
 		context.scope.range.followidx = follows.size();
 		context.init( type, key, keysize);
-		if (context.type == XMLScannerBase::OpenTag)
+		if (context.type == XMLScannerBase::OpenTag || context.type == XMLScannerBase::HeaderStart)
 		{
 			// first step of open scope saves the context context on stack
 			scopestk.push_back( context.scope);
 			context.scope.mask = context.scope.followMask;
-			context.scope.mask.match( XMLScannerBase::OpenTag);
-			//... we reset the mask but ensure that this 'OpenTag' is processed for sure
+			context.scope.mask.match( type);
+			//... we reset the mask but ensure that this open tag or header start is processed for sure
 		}
 	}
 
 	void closeProcessElement()
 	{
-		if (context.type == XMLScannerBase::CloseTag || context.type == XMLScannerBase::CloseTagIm)
+		if (context.type == XMLScannerBase::CloseTag || context.type == XMLScannerBase::CloseTagIm || context.type == XMLScannerBase::HeaderEnd)
 		{
 			if (!scopestk.empty())
 			{
-- 
2.43.0


From 90be768588f92d4bc429dda30881a80e885338a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 39/56] fix: names to select were cut at the first character
 that is not a name character

---
 include/textwolf/xmlpathautomaton.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 9dd2680..77b1de0 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -580,11 +580,11 @@ public:
 		Mask printOpMask;		//< mask for printing element actions
 
 	private:
-		///\class IsValueCharMap
-		///\brief Defines the set of characters of an attribute value to compare with
-		struct IsValueCharMap :public XMLScannerBase::IsContentCharMap
+		///\class IsKeyCharMap
+		///\brief Defines the set of characters of a name or an attribute value to compare with
+		struct IsKeyCharMap :public XMLScannerBase::IsContentCharMap
 		{
-			IsValueCharMap()
+			IsKeyCharMap()
 			{
 				(*this)(Lt,true);
 			}
@@ -606,8 +606,7 @@ public:
 		///\return *this
 		PathElement& doSelect( Operation op, const char* value)
 		{
-			static const XMLScannerBase::IsTagCharMap isTagCharMap;
-			static const IsValueCharMap isValueCharMap;
+			static const IsKeyCharMap isKeyCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -615,7 +614,7 @@ public:
 					std::string pb;
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( (op == ThisAttributeValue)?(const XMLScannerBase::IsTokenCharMap&)isValueCharMap:(const XMLScannerBase::IsTokenCharMap&)isTagCharMap, itr, pb))
+					if (!StaticXMLScanner::parseStaticToken( isKeyCharMap, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-- 
2.43.0


From 90566923345880f08f818e7e5ccb48394729e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 40/56] fix: expression text ending with '@' accepted

---
 include/textwolf/xmlpathautomatonparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 99dc663..04f6bb7 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -208,6 +208,7 @@ public:
 					break;
 			}
 		}
+		if (state == SelectAttribute) return src.getPosition()+1; //... name of the attribute missing
 		expr.assignType( typeidx);
 		return 0;
 	}
-- 
2.43.0


From 03b1451940f3fddf2d5e5d113c269f5314e3c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 41/56] fix: start of a range without end ignored

---
 include/textwolf/xmlpathautomaton.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 77b1de0..2ec245c 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -655,6 +655,10 @@ public:
 			{
 				range.start = p_start;
 			}
+			if (range.start > 0 && range.end == -1)
+			{
+				range.end = std::numeric_limits<int>::max(); //... a start index needs the elements to be counted
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 479d91bdb33708888fcd310231b344313481a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 42/56] fix: elements selected by an index range counted twice

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 06a52b3..d5a4ad3 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -208,7 +208,7 @@ private:
 						}
 					}
 				}
-				else
+				else if (st.next != -1)
 				{
 					produce( tokenidx, st);
 					tk = &tokens[ tokenidx];
-- 
2.43.0


From ad4bbadfba43ee9a31f109634ee4ddbc818c2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 43/56] fix: DOCTYPE printed inside of the root element or
 before the XML header

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index b7568c1..b95a138 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -199,6 +199,11 @@ public:
 	{
 		if (rootid)
 		{
+			if (m_state != Content || !m_tagstack.empty())
+			{
+				m_lasterror = "printing DOCTYPE not before the root element";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From b3613bf8b214676ca260bf93d64f346b854ce551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 44/56] fix: XmlHdrParser refused documents starting with
 DOCTYPE or comment

---
 include/textwolf/xmlhdrparser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 1093d85..2d757d7 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -96,9 +96,9 @@ public:
 					{
 						break;
 					}
-					else if (((ch|32) >= 'a' && (ch|32) <= 'z') || ch == '_')
+					else if (((ch|32) >= 'a' && (ch|32) <= 'z') || ch == '_' || ch == '!')
 					{
-						return true;
+						return true; /*... root element, comment or DOCTYPE without xml header before*/
 					}
 					else
 					{
-- 
2.43.0


From 17b930a452adde76824965a661d061a3d50d7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 45/56] fix: UTF8: do not read behind the end of a text that
 ends inside a character

---
 include/textwolf/charset_utf8.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index 1e93d6b..272a51e 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -94,6 +94,7 @@ struct UTF8
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
+			if (*itr == 0) break; //... character truncated at the end of the text
 			++itr;
 		}
 	}
@@ -124,7 +125,7 @@ struct UTF8
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
-			buf[ bufpos] = *itr;
+			if ((buf[ bufpos] = *itr) == 0) break; //... character truncated at the end of the text
 			++itr;
 		}
 	}
@@ -140,6 +141,7 @@ struct UTF8
 		{
 			static const UChar minchar[ 5] = {0x80,0x800,0x10000,0x200000,0x4000000};
 			int gg = bufpos-2;
+			if (bufpos < size( buf, bufpos, itr)) return MaxChar; //... truncated
 			if (gg < 0 || gg > 4) return MaxChar;
 
 			res = ((unsigned char)buf[0])&(B00011111>>gg);
-- 
2.43.0


From 7133fdb1b7f7f78f83179120d5e5230b8f8ab09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 46/56] fix: path index bound at the largest integer

---
 include/textwolf/xmlpathautomaton.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 2ec245c..e4e2303 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -678,6 +678,14 @@ public:
 			return doRange( p_start, std::numeric_limits<int>::max());
 		}
 
+		///\brief Get the upper boundary of a range from the index of its last element
+		///\param [in] idx index of the last element
+		///\return the index of the upper boundary element (not belonging to range anymore)
+		static int boundaryAfter( int idx)
+		{
+			return (idx < std::numeric_limits<int>::max())?(idx+1):idx;
+		}
+
 		///\brief Define the output of the current element
 		///\param [in] typeidx type of the element produced
 		///\return *this
@@ -743,7 +751,7 @@ public:
 		///\brief Define maximum element index to push
 		///\param [in] idx maximum element index
 		///\return *this
-		PathElement& TO(int idx)							{return doCount((idx>=0)?(idx+1):-1);}
+		PathElement& TO(int idx)							{return doCount( (idx>=0)?boundaryAfter( idx):-1);}
 		///\brief Define minimum element index to push
 		///\param [in] idx minimum element index
 		///\return *this
@@ -752,11 +760,11 @@ public:
 		///\param [in] idx1 minimum element index
 		///\param [in] idx2 maximum element index
 		///\return *this
-		PathElement& RANGE(int idx1, int idx2)						{return doRange(idx1,(idx2>=0)?(idx2+1):-1); return *this;}
+		PathElement& RANGE(int idx1, int idx2)						{return doRange( idx1, (idx2>=0)?boundaryAfter( idx2):-1); return *this;}
 		///\brief Define index of the element index to push
 		///\param [in] idx element index
 		///\return *this
-		PathElement& INDEX(int idx)							{return doRange(idx,idx+1); return *this;}
+		PathElement& INDEX(int idx)							{return doRange( idx, boundaryAfter( idx)); return *this;}
 
 		///\brief Define element type to push
 		///\param [in] type element type
-- 
2.43.0


From 1ad8207fa734b1cb1fbdb7abbc69e0808c728d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 47/56] fix: value of the post increment of the scanner
 iterator keeps its text

---
 include/textwolf/xmlscanner.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 08333dc..689cbe2 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -16,6 +16,7 @@
 #include "textwolf/textscanner.hpp"
 #include "textwolf/traits.hpp"
 #include <map>
+#include <string>
 #include <cstddef>
 #include <cstring>
 
@@ -1226,6 +1227,14 @@ public:
 			ElementType m_type;		///< type of the element
 			const char* m_content;		///< value string of the element
 			std::size_t m_size;		///< size of the value string in bytes
+			std::string m_saved;		///< own copy of the value, if it has to survive the next item of the scanner
+
+			void save()
+			{
+				if (!m_size) return;
+				m_saved.assign( m_content, m_size);
+				m_content = m_saved.c_str();
+			}
 		public:
 			/// \brief Check if the element does neither mark the end of document nor reports an error occurred
 			/// \return true, if the element is a valid document element
@@ -1251,7 +1260,21 @@ public:
 			Element( const End&)		:m_type(Exit),m_content(0),m_size(0) {}
 			/// \brief Copy constructor
 			/// \param [in] orig element to copy
-			Element( const Element& orig)	:m_type(orig.m_type),m_content(orig.m_content),m_size(orig.m_size) {}
+			Element( const Element& orig)	:m_type(orig.m_type),m_content(orig.m_content),m_size(orig.m_size),m_saved(orig.m_saved)
+			{
+				if (!m_saved.empty()) m_content = m_saved.c_str();
+			}
+			/// \brief Assignment
+			/// \param [in] orig element to assign
+			Element& operator=( const Element& orig)
+			{
+				m_type = orig.m_type;
+				m_content = orig.m_content;
+				m_size = orig.m_size;
+				m_saved = orig.m_saved;
+				if (!m_saved.empty()) m_content = m_saved.c_str();
+				return *this;
+			}
 		};
 		// input iterator traits
 		typedef Element value_type;
@@ -1269,6 +1292,7 @@ public:
 		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
 		void fetch( unsigned short mask)
 		{
+			element.m_saved.clear();
 			element.m_type = input->nextItem(mask);
 			if (element.m_type == ErrorOccurred)
 			{
@@ -1356,7 +1380,7 @@ public:
 		iterator& operator++()				{return skip();}
 		/// \brief Postincrement
 		/// \return *this
-		iterator operator++(int)			{iterator tmp(*this); skip(); return tmp;}
+		iterator operator++(int)			{iterator tmp(*this); tmp.element.save(); skip(); return tmp;}
 
 		/// \brief Compare to check for equality
 		/// \return true, if equal
-- 
2.43.0


From 1e05116482242c02464f437b34cea2cbfd51b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:17 +0000
Subject: [PATCH 48/56] fix: look for the unsupported '::' in the characters of
 a path expression, not in its bytes

---
 include/textwolf/xmlpathautomatonparse.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 04f6bb7..d64a2ab 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,16 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		SrcScanner ns( m_srccharset, CStringIterator( esrc, esrcsize));
+		while (*ns)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
+			std::size_t nspos = ns.getPosition();
+			bool isColon = (*ns == ':');
+			++ns;
+			if (isColon && *ns == ':')
 			{
-				return xpos+1;
+				return nspos+1;
 			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
 		}
 
 		// Parse the expression:
-- 
2.43.0


From d0bb8ff1133e4793e1e0b7a2d164b0dbcf925ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:17 +0000
Subject: [PATCH 49/56] fix: terminate the names of path expressions with a
 null character of the automaton encoding

---
 include/textwolf/xmlpathautomatonparse.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index d64a2ab..bf60c93 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -305,7 +305,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
-			return idlist.back().c_str();
+			return terminated( idlist.back());
 		}
 		const char* parseValue( SrcScanner& src)
 		{
@@ -318,7 +318,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
-				return idlist.back().c_str();
+				return terminated( idlist.back());
 			}
 			else if (isIdentifierChar(src))
 			{
@@ -346,6 +346,12 @@ private:
 		}
 
 	private:
+		const char* terminated( std::string& id) const
+		{
+			atmcharset->print( 0, id); //... the null character of the automaton character set may have more than one byte
+			return id.c_str();
+		}
+
 		const AtmCharSet* atmcharset;
 		std::list<std::string> idlist;
 	};
-- 
2.43.0


From 73a19cf15e5c8a0c4dd01cab62d90967752bbfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 50/56] fix: free the buffer of a stream iterator if reading
 the first block fails

---
 include/textwolf/istreamiterator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index d612905..5e9b8da 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -112,7 +112,15 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf); //... the destructor is not called if the constructor throws
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
-- 
2.43.0


From a3094cf973e461dc0b5edb85ac40b457cef6198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 51/56] fix: the constructor of exception may throw

---
 include/textwolf/exception.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..9a69737 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,7 +52,8 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	/// \remark May throw std::bad_alloc as the base class allocates its message
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-- 
2.43.0


From abf1ea6c118cef6b4326f59087057f179daddc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:42 +0000
Subject: [PATCH 52/56] fix: keep the size of the tag stack if it cannot grow

---
 include/textwolf/xmltagstack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index ef7bd08..f03c77e 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -70,12 +70,14 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t mm = m_size;
+			while (m_pos + ofs > mm) mm *= 2;
+			if (m_pos + ofs > mm) throw std::bad_alloc();
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, mm);
 			if (!xx) throw std::bad_alloc();
 			m_ptr = xx;
+			m_size = mm;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
 		m_pos += ofs;
-- 
2.43.0


From eccc66a732c70196141b8cbff12018ce9dc82b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:47 +0000
Subject: [PATCH 53/56] fix: do not lose or leak the key of a state if the
 memory for it cannot be allocated

---
 include/textwolf/xmlpathautomaton.hpp | 45 +++++++++++++++------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index e4e2303..bc106af 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -249,8 +249,8 @@ public:
 		{
 			if (this != &orig)
 			{
-				core = orig.core;
 				defineKey( orig.keysize, orig.key, orig.srckey);
+				core = orig.core;
 				keysize = orig.keysize;
 				next = orig.next;
 				link = orig.link;
@@ -269,28 +269,33 @@ public:
 		void defineKey( unsigned int p_keysize, const char* p_key, const char* p_srckey)
 		{
 			unsigned int ii;
-			if (key)
-			{
-				delete [] key;
-				key = 0;
-			}
-			if (srckey)
-			{
-				delete [] srckey;
-				srckey = 0;
-			}
-			if (p_key)
+			char* newkey = 0;
+			char* newsrckey = 0;
+			try
 			{
-				key = new char[ keysize=p_keysize];
-				for (ii=0; ii<keysize; ii++) key[ii]=p_key[ii];
+				if (p_key)
+				{
+					newkey = new char[ p_keysize];
+					for (ii=0; ii<p_keysize; ii++) newkey[ii]=p_key[ii];
+				}
+				if (p_srckey)
+				{
+					for (ii=0; p_srckey[ii]!=0; ii++);
+					newsrckey = new char[ ii+1];
+					for (ii=0; p_srckey[ii]!=0; ii++) newsrckey[ii]=p_srckey[ii];
+					newsrckey[ ii] = 0;
+				}
 			}
-			if (p_srckey)
+			catch (...)
 			{
-				for (ii=0; p_srckey[ii]!=0; ii++);
-				srckey = new char[ ii+1];
-				for (ii=0; p_srckey[ii]!=0; ii++) srckey[ii]=p_srckey[ii];
-				srckey[ ii] = 0;
+				delete [] newkey;
+				throw;
 			}
+			if (key) delete [] key;
+			if (srckey) delete [] srckey;
+			key = newkey;
+			srckey = newsrckey;
+			if (key) keysize = p_keysize;
 		}
 
 		///\brief Define a state transition by key and operation
@@ -302,8 +307,8 @@ public:
 		///\param[in] p_follow true if the search reaches all included follow scopes of the definition scope
 		void defineNext( Operation op, unsigned int p_keysize, const char* p_key, const char* p_srckey, int p_next, bool p_follow=false)
 		{
-			core.mask.seekop( op);
 			defineKey( p_keysize, p_key, p_srckey);
+			core.mask.seekop( op);
 			next = p_next;
 			core.follow = p_follow;
 		}
-- 
2.43.0


From d53ee3f8410d6af1152386247391bfe2be6e5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:51 +0000
Subject: [PATCH 54/56] fix: link a new state only after it has been added

---
 include/textwolf/xmlpathautomaton.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index bc106af..5a4579e 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -487,9 +487,9 @@ private:
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
@@ -532,9 +532,9 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 				
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
-- 
2.43.0


From d4c2bdcd55291429abef826545f5fd647deb548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 55/56] fix: copy of an exception does not request memory

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 9a69737..ad3cd5a 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -57,7 +57,7 @@ struct exception	:public std::runtime_error
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0


From adeb29af31fec64a398a968dd3a7e958d919394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 56/56] fix: description of a range printed the output stream

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 5a4579e..677de18 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -357,7 +357,7 @@ public:
 			}
 			if (core.cnt_end > 0)
 			{
-				rt << '[' << core.cnt_start << ',' << rt << core.cnt_end << ']';
+				rt << '[' << core.cnt_start << ',' << core.cnt_end << ']';
 			}
 			if (core.typeidx)
 			{
-- 
2.43.0

