#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the texts readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["include/textwolf/"+f for f in files],
       "mechanism":[{"name":n,"where":"include/textwolf/"+w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"include/textwolf/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Encoding and decoding agree with the standard for every character",
 "For UTF-8, UTF-16 (both byte orders), UCS-2, UCS-4 (both byte orders) and single-byte encodings, writing any character the encoding can represent produces exactly the byte sequence the standard prescribes, and reading that sequence yields exactly that character. This holds for every code point of the encoding, independent of the characters read or written before and after it.",
 ["inputs"],"every code point representable in each of the supported encodings, in every context of neighbouring characters of each length class",
 "the tests round trip a handful of sample characters per encoding; a boundary (0x7ff/0x800, 0xffff/0x10000, a surrogate edge) or a pair of characters interacting through the reader's cache is not reached",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp","textscanner.hpp","charset_interface.hpp"],
 [("UTF8 print/value/size tables","charset_utf8.hpp"),("UTF16 surrogate pairs","charset_utf16.hpp"),("UCS2/UCS4 print/value","charset_ucs.hpp"),("TextScanner character cache","textscanner.hpp")],
 ["bytes appended by charset print","TextScanner::chr()","charset value()"])
p("C02","Malformed multi-byte sequences are flagged, not decoded as a character",
 "Reading a byte sequence that is not a well-formed character of a multi-byte encoding (stray or missing continuation bytes, illegal lead bytes, overlong forms, unpaired surrogates, multi-byte characters truncated at the end of the input) yields a value that is no valid Unicode character. It is never decoded as a valid character, never makes the reader read beyond the end of the input and never fails to terminate.",
 ["inputs"],"all byte sequences up to a length that covers every lead/continuation/end-of-input pattern of each encoding",
 "the tests only read well-formed text; malformed input appears nowhere in them",
 ["charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","textscanner.hpp"],
 [("UTF8::value_impl continuation check","charset_utf8.hpp"),("UTF16::value_impl surrogate check","charset_utf16.hpp")],
 ["TextScanner::chr()"])
p("C03","ISO-8859 code pages map exactly; unencodable characters become references",
 "For each of the supported ISO-8859 code pages every byte decodes to the character the ISO standard assigns and every such character encodes back to that byte. A character that a single-byte or two-byte output encoding cannot represent is written as a numeric character reference for exactly that character, never as a different or an empty character.",
 ["inputs","configurations"],"all code pages, all 256 bytes, all Unicode characters; all limited output encodings",
 "the tests touch a few bytes of one code page and no unencodable character except by accident",
 ["codepages.hpp","charset_isolatin.hpp","charset_interface.hpp","charset_ucs.hpp","charset_utf16.hpp"],
 [("IsoLatinCodePage::invcode / operator[]","codepages.hpp"),("Encoder::encode fallback","charset_interface.hpp")],
 ["charset::IsoLatin print/value","bytes appended by print"])
p("C04","Reading a character by any mixture of accessors gives one consistent answer",
 "While reading text character by character, classifying a character, asking for its ASCII value, decoding it, copying it to another encoding and skipping it are consistent with each other whatever subset of them is invoked, in whatever order and however often. Each step advances by exactly one character, the reported position is the start of the current character, and the end of the text is reported forever once reached.",
 ["histories","inputs"],"all short texts over the character length classes of each encoding, all sequences of accessor calls per character",
 "the tests use one fixed access pattern (copy, then advance)",
 ["textscanner.hpp","char.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],
 [("TextScanner partial-character cache (buf, bytes read)","textscanner.hpp"),("control character map","char.hpp")],
 ["TextScanner chr/control/ascii/copychar/getPosition/operator++"])
p("S01","A well-formed document yields exactly the tokens the XML grammar prescribes",
 "For every well-formed document of the supported XML subset (XML declaration, processing instructions, comments, document type declaration, elements, attributes, character data and references) iterating delivers exactly the open tags, attribute names and values, contents and close tags of the document, in document order and with their exact text, then end of document. Comments, processing instructions and the document type's internal subset do not leak into the delivered tokens and no error is reported.",
 ["inputs"],"all documents derivable from the grammar up to a size bound, with all variations of optional white space, quoting style, empty-element form and names",
 "the scanner test prints tokens of two hand-written documents without comparing most of them",
 ["xmlscanner.hpp"],
 [("scanner state machine table","xmlscanner.hpp"),("token parsers","xmlscanner.hpp")],
 ["XMLScanner::nextItem, getItemPtr, getItemSize"],
 [("scanner state","tokenizer state, token under construction, pending entity","xmlscanner.hpp")])
p("S02","Token stream does not depend on how the document arrives in chunks",
 "Feeding a document in pieces, cut at any set of byte positions (inside a multi-byte character, an entity, a tag, between CR and LF or an empty piece included), delivers exactly the same sequence of tokens, texts, positions and errors as feeding it in one piece. This holds for each supported way of resuming after input ran out and for every input encoding.",
 ["inputs","schedules"],"all partitions of each document of a corpus that reaches every scanner state, all encodings, both resumption styles",
 "the tests feed complete documents, or fixed chunks of one document",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp"],
 [("resumable token state","xmlscanner.hpp"),("SrcIterator end-of-chunk jump","sourceiterator.hpp"),("TextScanner partial-character cache","textscanner.hpp")],
 ["XMLScanner::nextItem with SrcIterator"],
 [("TokState","partial token, entity under construction, CR flag","xmlscanner.hpp")])
p("S03","Any input terminates without memory errors; the end of document is final",
 "For every byte sequence, well-formed or not, in every input encoding, tokenizing reaches end of document or an error within a number of steps proportional to the input length, without reading past the end of the input or touching invalid memory. After end of document every further request reports end of document; after an error, further requests still terminate and stay within the input.",
 ["inputs"],"every scanner context combined with all short continuations over an alphabet with every character class, including truncation and non-character bytes",
 "the tests contain no malformed or truncated document; several loops skip to a terminator that may never come",
 ["xmlscanner.hpp","textscanner.hpp"],
 [("state machine and token parser loops","xmlscanner.hpp")],
 ["XMLScanner::nextItem"])
p("S04","Malformed or truncated markup is reported as an error, not silently accepted",
 "A document that ends in the middle of markup (tag, attribute value, comment, processing instruction, declaration, document type) is reported as an error and never as a normal end of document. Structurally illegal markup (missing attribute value or equals sign, garbage inside a tag, unterminated or mismatching quotes, '<' inside a quoted value, '<!-' not followed by '-', '<![' not followed by 'CDATA[') is reported as an error at that place, after all the tokens preceding it were delivered unchanged (a token that the illegal character directly adjoins may be missing).",
 ["inputs"],"every truncation point of every corpus document and every single-construct deletion/insertion mutation from an enumerated list",
 "no test feeds erroneous input",
 ["xmlscanner.hpp"],
 [("error transitions of the state machine","xmlscanner.hpp"),("end-of-text handling","xmlscanner.hpp")],
 ["XMLScanner::nextItem, getError"])
p("S05","References are replaced exactly; undefined ones error, non-references stay",
 "In element content and attribute values every decimal or hexadecimal character reference and every predefined or user-supplied named entity is replaced by exactly the character it denotes, wherever it stands in the text and whatever precedes and follows it. A reference to an undefined entity is reported as an error, and an ampersand that does not start a reference is kept in the text verbatim together with everything following it.",
 ["inputs"],"all character references over representative code points of every encoded length, all names up to the length limits, every position in content and in both attribute quotings, every follow-up character class",
 "the tests use two or three entities",
 ["xmlscanner.hpp","charset_interface.hpp"],
 [("entity parsing","xmlscanner.hpp"),("entity map","xmlscanner.hpp")],
 ["item text of Content, TagAttribValue"])
p("S06","Line ends in content and values are normalized to a single line feed",
 "In element content and quoted attribute values CR LF and lone CR are delivered as one LF and lone LF as LF, so that the number and place of the line breaks is preserved, also across chunk boundaries, next to references and markup, and in consecutive runs. Character references to CR are not normalized.",
 ["inputs","schedules"],"all strings over {CR, LF, letter, space, reference, markup} up to a length bound in each context, all chunkings",
 "no test contains CR characters in scanned text",
 ["xmlscanner.hpp"],[("end of line handling in token parser","xmlscanner.hpp")],
 ["item text of Content, TagAttribValue"])
p("S07","Delivered text is independent of input encoding and exact in output encoding",
 "Scanning the same document encoded in any supported input encoding delivers the same tokens, and the text of each token is exactly the encoding, in the requested output encoding, of the characters of the document. Item sizes count exactly the bytes of the text and each item starts afresh with no residue of earlier items.",
 ["inputs","configurations"],"all pairs of input and output encodings, documents with characters of every encoded length in every token type",
 "tests use a single output encoding (UTF-8) and few characters",
 ["xmlscanner.hpp","textscanner.hpp","charset_interface.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],
 [("copychar transcoding","textscanner.hpp"),("output buffer handling","xmlscanner.hpp")],
 ["getItemPtr/getItemSize"])
p("S08","Masking types omits exactly the texts of those types and nothing else",
 "Masking out token types only omits the extraction of the texts of these types: the sequence of token types delivered and the texts of the tokens not masked out are the same as without mask, for every subset of the types and also when the mask changes between requests. Structural errors and the end of the document can not be masked away.",
 ["configurations","histories","inputs"],"all masks over the token types (all subsets of the types occurring), switched at every token, on all corpus documents and chunkings",
 "the tests request all types only",
 ["xmlscanner.hpp"],[("nextItem mask and skipToken","xmlscanner.hpp")],
 ["XMLScanner::nextItem(mask)"])
p("S09","Every input source and reading style delivers the same document",
 "A document delivers the same characters and tokens whether read from a terminated string, a string with length, a chunk-fed source, a byte-array or a buffered stream, for any stream buffer size and any pattern of short reads, and whether the tokens are requested directly or by iterating with prefix or postfix increments. Positions reported refer to the same byte offsets of the document for every source.",
 ["inputs","schedules","configurations"],"all sources, all buffer sizes up to a bound plus the default, all short-read patterns of small documents, documents straddling the default buffer size at every offset",
 "tests read small documents from one source with complete reads",
 ["istreamiterator.hpp","cstringiterator.hpp","sourceiterator.hpp","textscanner.hpp","xmlscanner.hpp"],
 [("IStreamIterator::fillbuf","istreamiterator.hpp"),("CStringIterator","cstringiterator.hpp"),("SrcIterator","sourceiterator.hpp")],
 ["iterator operator*/++/-/position","XMLScanner::nextItem"])
p("S10","A failing read is reported as a failure, never as end of document",
 "If reading from an input stream fails at any point, at whatever byte offset and on whichever read call, the failure is raised to the caller as a file read error and is never presented as a regular end of the document or as document content. Everything delivered before the failure is a prefix of what an undisturbed read delivers.",
 ["fault_sequences"],"a fault injected at every read call and every byte offset, for every buffer size in a bound, with stream exceptions on and off and with every error code class including none",
 "no test injects read faults",
 ["istreamiterator.hpp","exception.hpp"],[("StdInputStream::read / errorcode","istreamiterator.hpp"),("IStreamIterator::fillbuf exception","istreamiterator.hpp")],
 ["exceptions out of operator++ / nextItem"])
p("S11","Token positions are exact, increasing and encoding-unit correct",
 "The position reported for a delivered token is the byte offset of that token in the input document, for every encoding unit size, and positions never decrease from one token to the next. The current reading position never lies before the last delivered token, however the input is fed.",
 ["inputs","schedules"],"all corpus documents in all encodings and all chunkings",
 "no test looks at positions of scanner tokens",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","position.hpp"],
 [("getTokenPosition/getPosition","xmlscanner.hpp"),("iterator difference","sourceiterator.hpp")],
 ["XMLScanner::getTokenPosition, getPosition"])
p("S12","Every failure and token type has its own stable, correct name and message",
 "Every error the scanner reports carries a specific error code and a non-empty message that names the cause, the code and the message agree, and both are available to users iterating with the iterator interface as well as with direct calls. Every exception raised by the library describes its own cause.",
 ["inputs","configurations"],"all error causes of the scanner reached by input, all token types, all exception causes",
 "no test provokes an error or prints an exception",
 ["exception.hpp","xmlscanner.hpp"],[("exception::what table","exception.hpp"),("getErrorString, getElementTypeName tables","xmlscanner.hpp"),("XMLScanner::iterator","xmlscanner.hpp")],
 ["exception::what()","XMLScanner::getError, iterator content"])
p("S13","Tokens are delivered as soon as they are complete; nothing is read ahead",
 "When a document arrives piecewise, every token is delivered as soon as the character that ends it has been given completely: the character behind a name, the closing quote of a value, the start of the markup behind a content, the bracket that closes a tag, declaration or document type. No further input is requested or read before the token has been delivered. This holds for every input encoding and every size of the pieces.",
 ["inputs","schedules","configurations"],"all documents of a grammar with recorded ends of tokens, given byte by byte, in chunks and split at every byte, and read by an iterator that records how far it was read",
 "the tests compare token lists, not when a token comes; an application that answers to a message (the document is a dialog) hangs if a token is held back",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp"],
 [("nextItem: token actions before the next character is read","xmlscanner.hpp"),("TextScanner reads the bytes of the current character only","textscanner.hpp"),("SrcIterator raises end of chunk on access","sourceiterator.hpp")],
 ["XMLScanner::nextItem, requests for input"])
p("B01","Bounded output buffers never overflow and report overflow exactly",
 "A fixed-size output buffer behaves like a string limited to its capacity: writes up to the capacity are stored exactly, a write that does not fit reports overflow and never touches memory outside of the buffer, and clearing makes it reusable. An append that does not fit stores the part of it that fits. Written to by the character set encoders or by the printer, it receives the same bytes as a string, and so does an output stream.",
 ["histories","inputs"],"all operation sequences up to a depth over all small capacities, compared with a reference string",
 "no test uses the fixed-size buffer near its capacity",
 ["staticbuffer.hpp","ostreamoutput.hpp","xmlprinter.hpp"],[("StaticBuffer bounds and overflow flag","staticbuffer.hpp")],
 ["StaticBuffer API"])
p("P01","Path selection yields exactly the matches of the expression in the document",
 "For every path expression over child and descendant steps, wildcards, attributes, attribute conditions and content, processing a document's tokens delivers a match at exactly those tokens that the expression selects in the document tree, once per way of matching, tagged with the expression's number and at the moment the token is processed. Names, values and scopes outside of the selected path never match.",
 ["inputs","programs"],"all expressions up to a number of steps over a small name alphabet crossed with all documents up to a size over the same alphabet, against a declarative tree matcher",
 "the test prints results for a few fixed expressions on a fixed document",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("XMLPathSelect token/scope stacks","xmlpathselect.hpp"),("automaton construction","xmlpathautomaton.hpp")],
 ["XMLPathSelect::push results"],[("scope stack, token list, follows, triggers","active automaton states per open element","xmlpathselect.hpp")])
p("P02","Expressions in one automaton do not influence each other",
 "An automaton built from several expressions delivers, for every document, exactly the union of the matches each of the expressions delivers alone. This holds for every order of adding them, for expressions sharing prefixes or being identical, and for any result numbers.",
 ["programs","inputs"],"all pairs (and triples of a subset) of expressions up to a depth crossed with all small documents",
 "the test prints results of one fixed set of expressions",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("shared state insertion / link lists","xmlpathautomaton.hpp"),("token rejection","xmlpathselect.hpp")],
 ["XMLPathSelect::push results"])
p("P03","Textual path expressions mean the same as programmatically built ones",
 "Every path expression text in the documented abbreviated syntax selects exactly what the corresponding expression built by calls selects, whatever optional white space and quoting is used. A text that is not a valid expression is rejected with an error position inside of the text and leaves the automaton selecting exactly what it selected before.",
 ["programs"],"all strings over the token alphabet of the syntax up to a length, plus all expressions derivable from the grammar up to a depth",
 "the tests parse a few fixed valid expressions",
 ["xmlpathautomatonparse.hpp","xmlpathautomaton.hpp"],[("expression parser","xmlpathautomatonparse.hpp")],
 ["XMLPathSelectAutomatonParser::addExpression"])
p("P04","Index ranges select exactly the matches with index in the range",
 "An expression restricted by an index, a start, an end or an index range selects exactly those matches whose ordinal number among the matches within the same parent context lies in the range, for every bound including the first index and open ends. Combining ranges selects their intersection. The description of the automaton (tostring) shows the range.",
 ["programs","inputs"],"all range forms with all bounds up to a maximum, crossed with documents with up to more matches than the maximum in several parents",
 "the tests use one or two index values",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("range counters","xmlpathselect.hpp"),("doRange","xmlpathautomaton.hpp")],
 ["XMLPathSelect::push results"])
p("P05","Names and values match by exact equality of characters",
 "A name or attribute value condition in an expression matches a token's text if and only if both consist of exactly the same characters, for texts of any length, with any prefix relationship and with any characters including non-ASCII ones, blanks, punctuation and those written as character references.",
 ["inputs","programs"],"all pairs of texts up to a length over a mixed alphabet, with every character class and encoded length",
 "the tests only use short ASCII names",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp","xmlscanner.hpp"],[("key parsing and comparison","xmlpathautomaton.hpp"),("match","xmlpathselect.hpp")],
 ["XMLPathSelect::push results"])
p("P06","How the results of an event are iterated does not change the matches",
 "Iterating the results of each processed token delivers the same matches whether iterators are incremented in prefix or postfix form, copied, compared or dereferenced repeatedly, and neither copying nor destroying an iterator changes the matches of later tokens.",
 ["histories"],"all iteration styles per event on all documents of a bound for expressions with results at every event type including element end",
 "the tests use one iteration style",
 ["xmlpathselect.hpp"],[("XMLPathSelect::iterator","xmlpathselect.hpp")],
 ["XMLPathSelect::push results"])
p("W01","Printed documents are well-formed and scan back to what was printed",
 "Every sequence of print operations that the printer accepts and that prints one root element (header and document type before it), closed completely, produces a document that is well-formed and scans back to exactly the printed elements, attributes and contents in the same order and nesting. An operation that is not allowed in the current context is refused, writes nothing and leaves the printer usable as before.",
 ["histories","configurations"],"all operation sequences up to a depth over names/values alphabet, for all output encodings",
 "the printer is only exercised by one fixed example",
 ["xmlprinter.hpp","xmltagstack.hpp"],[("printer state machine","xmlprinter.hpp"),("TagStack","xmltagstack.hpp")],
 ["bytes printed","return values","scan back with XMLScanner"])
p("W02","Any text printed as content or value reads back unchanged",
 "Every character string printed as content or attribute value, in every combination of application encoding and document encoding, is escaped and encoded such that an XML parser reads back exactly the same string. This includes markup characters, both quotes, line breaks, tabs, non-ASCII characters and characters not representable in the document encoding.",
 ["inputs","configurations"],"all strings up to a length over an alphabet with every special character and every encoded length, every single code point class, all encoding pairs",
 "the example prints a few ASCII strings",
 ["xmlprinter.hpp","charset_interface.hpp"],[("printToBufferContent / printToBufferAttributeValue","xmlprinter.hpp"),("Encoder fallback","charset_interface.hpp")],
 ["bytes printed, read back"])
p("W03","Closing tags always match the innermost open tag, at any depth and length",
 "Closing an element prints the name of the innermost element still open, for any nesting depth, any name lengths and any interleaving of opening and closing. Closing more elements than were opened is refused.",
 ["histories","inputs"],"all push/pop sequences up to a depth with name lengths around the internal alignment and growth boundaries, compared with a reference stack",
 "no test nests deeper than a few short names",
 ["xmltagstack.hpp","xmlprinter.hpp"],[("TagStack storage growth and alignment","xmltagstack.hpp")],
 ["TagStack top/pop","bytes printed by exitTagContext"])
p("H01","Encoding declaration is found in every encoding unit size and byte order",
 "Reading the XML declaration of a document encoded with one, two or four byte units in either byte order delivers exactly the declared encoding name, or none if none is declared, independent of attribute order, quoting style, white space and document type following. The consumed data is complete, so that a scanner given the same bytes processes the same document.",
 ["inputs","configurations"],"all declarations derivable from a grammar with all attribute subsets and orders, quotings, white space variants, encoding names and unit sizes/byte orders",
 "tests cover a few fixed declarations",
 ["xmlhdrparser.hpp"],[("XmlHdrParser state machine","xmlhdrparser.hpp")],
 ["XmlHdrParser::parse, getEncoding, consumedData"])
p("H02","Declaration reading is chunk-independent, total and never runs away",
 "Feeding the declaration in chunks cut at any positions gives the same result as feeding it at once, and any input, malformed or truncated, ends with the declaration recognized, more data requested or an error reported. It never accesses memory outside of the input, and a malformed declaration is reported as an error with a message. A parser that has been cleared behaves as a new one.",
 ["inputs","schedules"],"all partitions of all declarations of a corpus; all byte strings over the parser's character classes up to a length",
 "tests feed complete correct declarations only",
 ["xmlhdrparser.hpp"],[("XmlHdrParser resumable state","xmlhdrparser.hpp")],
 ["XmlHdrParser::parse, lasterror"])
p("X01","Copies and assignments are independent and equivalent to their originals",
 "At any point of processing, a copy of a scanner, reader, header parser, printer, path selection, automaton or buffer object continues exactly as the original would have continued, and using or destroying one of them never affects the other. Assigning one object to another has the same effect as copying.",
 ["histories"],"copy, copy-then-diverge and assignment at every step of all corpus runs, for every copyable class",
 "the tests never copy an object in mid-processing",
 ["xmlscanner.hpp","textscanner.hpp","xmlhdrparser.hpp","xmlprinter.hpp","xmltagstack.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","staticbuffer.hpp","istreamiterator.hpp","sourceiterator.hpp"],
 [("copy constructors and assignment operators","*.hpp")],
 ["behaviour of the copy vs original"])
p("X02","Objects are independent: interleaved use gives the results of separate use",
 "Several scanners, readers, header parsers, printers or path selections used alternately, in any interleaving of their steps, deliver exactly what each of them delivers when used alone, also when they share the same automaton, entity map or code page. Constructing and destroying other objects in between has no influence.",
 ["schedules","histories"],"all interleavings of two objects' step sequences on short documents, for each pair of class instantiations",
 "the tests use one object at a time",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","xmlhdrparser.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlprinter.hpp","char.hpp","codepages.hpp"],
 [("no mutable shared state; static tables are constant","*.hpp")],
 ["results under interleaving"])
p("X03","Memory use does not grow with the amount of what is processed",
 "Scanning, selecting and printing need memory for the longest item, the nesting depth and the expressions defined only: processing the same kind of content again and again, however long, never needs more memory than the first rounds did. The memory used is proportional to the item length, the depth and the number of expressions.",
 ["histories","inputs"],"all compositions of a few groups of markup, events, print calls and stack operations repeated many times, all sources and kinds of objects; growth with size compared at several sizes",
 "no test measures memory or processes a long document; a scanner or selection that runs in a server for days must not grow",
 ["xmlscanner.hpp","istreamiterator.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlprinter.hpp","xmltagstack.hpp","staticbuffer.hpp"],
 [("token stacks cut back when a scope is closed","xmlpathselect.hpp"),("TagStack growth and pop","xmltagstack.hpp"),("output buffer cleared per item","xmlscanner.hpp")],
 ["bytes requested from the allocator and not given back"])
p("X04","Objects give back all memory they requested",
 "When an object of the library is destroyed, all memory it has requested is released, wherever its processing stopped: at the end, at an error, in the middle of a token or of a chunk, after an exception (raised by a constructor, too), after copying, after being assigned to or reset, after rejected definitions, in whatever order originals and copies are destroyed. No memory is released twice.",
 ["histories"],"all kinds of objects stopped at every step x ways of copying and assigning x orders of destruction, sequences of operations on several objects, all calls that end with an exception, all short expression texts, documents cut anywhere",
 "the tests end the process without looking at what is left",
 ["istreamiterator.hpp","staticbuffer.hpp","xmltagstack.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlpathselect.hpp","xmlscanner.hpp","xmlprinter.hpp","xmlhdrparser.hpp"],
 [("malloc/free in IStreamIterator","istreamiterator.hpp"),("malloc/free in TagStack and StaticBuffer","xmltagstack.hpp"),("new[]/delete[] of state keys","xmlpathautomaton.hpp")],
 ["bytes and blocks in use before and after"])
p("X05","Running out of memory is reported and does no damage",
 "If a request for memory fails in any operation, at any point, the operation raises std::bad_alloc or textwolf::exception, or it has its usual result; the process is never ended and no memory is leaked or corrupted. A source that could not be copied is unchanged; a target and an object whose operation failed can be destroyed or assigned to and then work as new; tag stacks and path automata keep everything they held before, and the failed addition can be repeated.",
 ["histories"],"fault points: every single request for memory of every operation of all kinds of objects at every step fails, alone and with all later ones",
 "no test lets a request for memory fail",
 ["exception.hpp","istreamiterator.hpp","staticbuffer.hpp","xmltagstack.hpp","xmlpathautomaton.hpp","xmlpathselect.hpp","xmlscanner.hpp","xmlprinter.hpp","xmlhdrparser.hpp"],
 [("allocate before release in assignments","xmltagstack.hpp"),("State::defineKey, linking of states","xmlpathautomaton.hpp"),("conversion of bad_alloc to OutOfMem","xmlpathautomaton.hpp")],
 ["exceptions raised; behaviour of all objects afterwards; bytes and blocks in use"])
p("X06","Objects in different threads need no synchronization",
 "Threads that each use objects of their own can do so at the same time without any lock: no operation on an object writes memory that an operation on another object reads or writes, tables built on first use are built under mutual exclusion, and the results are those of a single thread. An automaton, an entity map and an object that is copied from can be used by several threads at the same time as long as none changes them.",
 ["schedules"],"all pairs of histories of all kinds of objects in two threads started with no table built yet, in both orders and alternating, all accesses to memory checked for conflicts; absence of conflicts makes all interleavings equivalent",
 "the tests have one thread; a data race has a visible effect in rare schedules only",
 ["xmlscanner.hpp","textscanner.hpp","char.hpp","charset_interface.hpp","charset_isolatin.hpp","codepages.hpp","exception.hpp","xmlhdrparser.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlprinter.hpp","xmltagstack.hpp"],
 [("static tables and buffers of functions","*.hpp"),("selections read the automaton only","xmlpathselect.hpp")],
 ["results and memory accesses under two threads"],[("static objects of functions","tables shared by all objects","*.hpp")])
p("X07","Effort is proportional to the input and independent of what came before it",
 "Scanning, parsing the XML declaration, selecting, printing and the tag stack process a token, an event or a call with an effort that depends on that token, event or call and on what is open around it, not on the amount processed before: the millionth element of a document costs what the tenth did. Four times longer tokens, declarations, values, tag stacks, expressions or documents cost about four times the effort, whatever the source (memory, chunks of any size, streams of any block size) and the encoding.",
 ["bounds"],"all sequences of parts repeated many times in all ways of reading, all small sets of expressions with all sequences of groups of events, all sequences of print calls, 32 kinds of sizes in several orders of magnitude, chunks and blocks of different sizes; effort counted in basic blocks executed",
 "tests use short documents; quadratic effort shows with sizes no test has, or with a certain size of chunks",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","xmlhdrparser.hpp","xmlpathselect.hpp","xmlpathautomaton.hpp","xmlpathautomatonparse.hpp","xmlprinter.hpp","xmltagstack.hpp","staticbuffer.hpp"],
 [("one pass over the input","xmlscanner.hpp"),("header parsed incrementally","xmlhdrparser.hpp"),("list of active tokens cut with the scope","xmlpathselect.hpp"),("stack of tags","xmltagstack.hpp")],
 ["number of basic blocks executed"],[("growth of buffers","lists and stacks that grow with the document","*.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
