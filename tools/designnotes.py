# per property: (what is specified and the oracle, why the tests cannot settle it / remarks)
D={
"C01":("The byte sequence of every character is computed by encoders written from the standards (RFC 3629, RFC 2781, UCS-2/4 as plain integers, ISO tables of mc/iso_tables.hpp). `print` of the real encoder must give exactly these bytes; `TextScanner` on these bytes must give exactly the character, alone and between neighbours of every encoded length.",
 "An encoder bug concerns single blocks (lengths, surrogates, boundary of 5 bit groups); tests sample a handful of characters."),
"C02":("A strict reference decoder (Unicode table 3-7, extended to 5 and 6 byte forms only as 'not a valid character') decides for each byte sequence if its first character is well-formed. The real reader must deliver the same character or, if it is malformed, a value that is no Unicode scalar value; every sequence lies in a heap block of exactly its size followed by the terminator the interface requires, under AddressSanitizer.",
 "The space of malformed sequences is a product of byte classes; only enumeration shows that no combination is taken for a character."),
"C03":("Tables of the nine code pages (ISO-8859-1, 2, 3, 4, 9, 10, 13, 14, 15) from the Unicode consortium mappings as installed with iconv and Python, written down in mc/iso_tables.hpp (bytes without assignment are not judged). Characters not representable must be written as `&#x...;` that an independent decoder reads back as exactly this character.",
 "9 pages x 256 bytes and 1.1 million code points: complete enumeration."),
"C04":("The text is known because the harness generated it. Every sequence of accessor calls (control, ascii, chr, copychar to the same, another instance and another code page, position, skip in three styles) is made per character and every answer is compared with the text. In the suite 'resumed-reading' a call interrupted by the end of a chunk is repeated.",
 "The reader keeps a partially filled character buffer as hidden state: the state depends on which accessors were called in which order."),
"S01":("A generator derives documents from the grammar and writes down the expected tokens while doing so; the scanner must deliver exactly these. Insignificant white space (between markup) is part of the variations, and the white space contents the scanner is documented to deliver are part of the expectation.",
 "A transition of the state machine missing for one character class in one state shows only for one layout of one construct at one place."),
"S02":("Differential: tokens, texts, token positions and errors of the document fed at once. Every partition within the bounds is fed with both resumption styles (chunk with end flag, final empty chunk with null terminator) and with the documented `setjmp`/`putInput` protocol. The reference run itself is judged by S01/S03..S07.",
 "The re-entry after longjmp may happen at every byte of every construct in every encoding."),
"S03":("Bound of 4*n+64 tokens, the watchdog (hang), AddressSanitizer and UndefinedBehaviorSanitizer (array bounds) on exactly sized heap blocks, read in five ways (sized string, exact copy, stream with 3 byte buffer, null terminated `char*`, one chunk); after the end three more requests must report the end again.",
 "59 contexts, found by giving every state of the scanner a shortest prefix, times all continuations over the 24 character classes cover every transition pair of the state machine."),
"S04":("The generator knows which truncations end in the middle of markup and where the illegal character is; expected: the tokens before it unchanged (the last one may be missing if the illegal character adjoins it), then an error, never Exit.",
 "45+28 kinds of illegal markup at every place of small documents; truncation at every character of all compositions of 16 constructs."),
"S05":("`mc/expand.hpp`, a reference expansion written from the statement: scans the text for `&`, decides by the grammar if a reference starts, replaces, keeps or reports it.",
 "References next to references, in the middle of others, of maximal length, cut by chunk ends."),
"S06":("The normalization rule of XML 1.0 section 2.11 applied to the text the harness generated.",
 "The CR state is kept across entity handling, chunk ends and token ends."),
"S07":("The text each token must have is known in code points and encoded by the reference encoders; the input document is encoded by them too.",
 "16 input x 8 output encodings, items of changing lengths."),
"S08":("Differential: types and unmasked texts of the run without mask; masked types deliver no text.",
 "All 256 subsets of the types with text and masks changing at every request."),
"S09":("Differential between the sources, and the iterator's own contract (`*`, `++`, `-`, position) against the plain array.",
 "Stream buffers end in the middle of every construct; short reads in every pattern."),
"S10":("The stream fails at read k; expected: an exception that names a file read error, and everything delivered before is a prefix of the undisturbed run.",
 "Fault points: every read call, every byte offset, every kind of failure."),
"S11":("The generator records the byte offset at which each token starts in each encoding.",
 "Positions are computed from the iterator and the number of look-ahead bytes, which differ by encoding, source and chunk."),
"S12":("Table of the specific error of 56 constructs, derived from the documentation of the error codes; agreement of code, message and iterator interface for every context x continuation.",
 "Every state of the scanner has its own error."),
"B01":("A `std::string` cut at the capacity, with the overflow flag of the statement; external memory is surrounded by guard bytes and is a heap block of its own.",
 "Operation sequences (depth 4 / 6) at every fill level."),
"P01":("A naive reference selector: it keeps the whole path of open elements and evaluates the expression from the definition at each token (streaming semantics: conditions must have been met before).",
 "The implementation keeps token stacks, masks and follow lists that depend on the whole history."),
"P02":("The union of the results of each expression alone, in the real code (differential).",
 "States are shared between expressions with common prefixes."),
"P03":("A reference recognizer of the syntax (written as a recursive descent parser from the documentation) gives the calls; the automaton built by these calls is the reference. Rejected texts must leave the results of an automaton with other expressions unchanged and the position must lie inside of the text.",
 "All strings over the syntax alphabet up to length 5 / 6."),
"P04":("Ordinals counted by the reference selector per parent context; range = intersection of all the range calls.",
 "Bounds x combinations x number of matches. Only content results are judged, other ranges are recorded findings."),
"P05":("Equality of code point sequences.",
 "Pairs of texts in all places where a text is compared."),
"P06":("Differential: the simple `for (; i!=e; ++i)` loop.",
 "12 ways of iterating, changing from event to event."),
"W01":("A reference state machine of the printer decides which operations are allowed; what is printed must be accepted by a strict XML parser written for this purpose (mc/print.hpp) and read back to the list of items printed. Refused operations must not change the buffer.",
 "All operation sequences up to depth 5 / 7."),
"W02":("The strict parser with independent decoders for all 16 encodings, with the normalizations an XML processor makes (line ends, attribute values).",
 "Escaping is decided per character, context and pair of encodings."),
"W03":("A list of strings.",
 "The stack is one growing byte array with aligned entries."),
"H01":("The declaration the harness generated.",
 "Orders, layouts, unit sizes and byte orders multiply to millions of declarations."),
"H02":("Differential: the input passed at once, judged by a reference parser for the grammar (`mc/hdr.hpp`).",
 "Partitions, truncations, arbitrary bytes after every beginning."),
"X01":("Differential: the run of an object of the same history that was never copied.",
 "28 kinds of objects copied or assigned at every step of every history, in 7 ways, used in 7 orders afterwards."),
"X02":("Differential: each object used alone.",
 "All interleavings of the steps of two objects. Single threaded (the interleaving is the schedule)."),
"S13":("The generator records behind which character every token has to be there. The document is fed in pieces; whenever the scanner asks for more, every token whose end lies in what was given must have been delivered. A second driver uses an iterator that records the farthest byte read. The tokens themselves are compared, too.",
 "Where a token is recognized depends on the construct, its neighbours, the encoding and where the piece ends; the tests never look at the time of delivery."),
"X06":("Two real threads under a controlled scheduler (only one runs at a time), every execution in a process of its own so that no static table is built yet. All code is compiled with the instrumentation of -fsanitize=thread, but linked with a run time library of ours (`mc/race.cpp`) that keeps vector clocks for both threads: two accesses to the same byte, one of them a write, not ordered by the construction of a static object or an atomic operation, are reported. This is partial order reduction taken to its end: without conflicting accesses every interleaving of machine instructions is equivalent to the explored ones, so the exploration of both orders and of alternating steps covers all schedules. Results are compared with those of one thread, too.",
 "A race shows in one of millions of schedules and on some machines only; here it is found independent of timing."),
"X07":("The code is compiled with -fsanitize-coverage=trace-pc; every basic block executed counts 1, bytes moved by functions of the C library count 1/8. No time is measured, so a count is the same in every run. In the suites 'scanners', 'selections' and 'printers' a composition is repeated; windows (or rounds) later in the history must cost what the first ones did. In 'proportional' the effort for 4n is compared with the one for n. The same scenario is explored for chunks and stream blocks of several sizes, since an effort per chunk that depends on what came before (a token scanned again from its start whenever input runs out) shows only then.",
 "Quadratic effort is invisible in tests with short documents, and a limit on time would be unreliable."),
"X03":("malloc, calloc, realloc, free and operator new/delete are wrapped at link time and counted. Histories are cyclic: a group of operations that brings the object back to where it was is repeated; the bytes in use and the peak of every later round must not exceed those of the warm-up rounds. In the suite 'proportional' four times the size may need at most eight times the memory (geometric growth of containers).",
 "A leak into a stack that is never cut back concerns combinations of expressions and events; short tests show nothing."),
"X04":("Bytes and blocks in use before and after a complete scenario must be equal (a scenario that leaves something behind is run three times, so that tables built once per process are not counted). AddressSanitizer notices blocks released twice or used after release.",
 "Every stop point, copy way and destruction order is a different combination of owners."),
"X05":("For every operation (construction, copy, assignment, step, push, definition of an expression) the n-th request for memory fails, for n=1,2,… until the operation makes fewer than n requests; alone and together with all later ones. Either an exception is raised or the result is the usual one. The source, a copy made before, the object assigned from it and the repeated operation are followed to their end and compared with the undisturbed history; memory in use must be balanced; AddressSanitizer.",
 "The analogue of crash points: a fault at each point of each operation, which no test provokes."),
}
