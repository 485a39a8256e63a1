T="stateless bounded model checking: exhaustive enumeration of "
A=" Exhaustive within the bounds written to the evidence file; beyond them nothing is claimed. Trusted: the reference model of the harness, the compiler, AddressSanitizer."
B=A.replace(", AddressSanitizer","")
NOTE={
"C01":(T+"characters and short texts per encoding against the encoding standards","All code points of every encoding and all short texts over characters at the length boundaries, written and read by the real encoders and reader."+B),
"C02":(T+"byte sequences per encoding against a reference decoder","All byte sequences up to the bound, decoded by the real reader and by a strict reference decoder."+A),
"C03":(T+"bytes, characters and code pages against the ISO tables","All 256 bytes and all code points for all code pages; the tables come from the iconv/Unicode mappings recorded in mc/iso_tables.hpp."+B),
"C04":(T+"accessor call sequences on all short texts","Every sequence of accessors per character up to the bound compared with the decoded text."+A),
"S01":(T+"documents of the grammar against a reference tokenizer","All documents derivable within the size bound with all variations up to the deviation bound; known deviations of the scanner are listed as findings."+A),
"S02":(T+"partitions of documents into chunks (all cut sets up to a bound, all encodings, both feeding styles)","Differential: every chunking must give the tokens of the whole document."+A),
"S03":(T+"byte sequences behind every scanner context, with truncation at every position","Termination by step bound and watchdog, memory safety by AddressSanitizer on exactly sized heap blocks."+A),
"S04":(T+"truncations of documents at every character, kinds of illegal markup at every place and every character class not allowed in a scanner context","The generator knows the place of the error and the tokens before it."+A),
"S05":(T+"entity references and entity tables in all contexts against a reference expansion","Reference expansion in mc/expand.hpp."+A),
"S06":(T+"line break sequences in all contexts and encodings against the XML normalization rule",""+A.strip()),
"S07":(T+"documents and texts per pair of input and output encoding","Expected texts are encoded by independent reference encoders."+A),
"S08":(T+"token masks and mask changes on a document corpus (differential against the unmasked run)",""+A.strip()),
"S09":(T+"input sources, buffer and chunk sizes and patterns of short reads for every document (differential)","All sources must give the tokens, characters and positions of the plain string."+A),
"S10":(T+"fault points: the read fails at every read call and byte offset, with every kind of failure","Everything delivered before the failure is compared with the undisturbed run."+A),
"S11":(T+"documents in all encodings, sources and chunkings against computed token positions","The generator records the offset of every token."+A),
"S12":(T+"malformed documents and all error, token and exception codes",""+A.strip()),
"B01":(T+"operation sequences on bounded buffers against a reference string",""+A.strip()),
"P01":(T+"expressions x documents (all token sequences up to a bound) against a reference selector","Every expression up to 3 steps on every document up to the bound, matches compared after each token with a naive reference selector; memory errors of the selection are looked for in P03 to P06 and X01."+B),
"P02":(T+"pairs and triples of expressions x documents (union of the results alone)",""+B.strip()),
"P03":(T+"expression texts: all strings over the syntax alphabet up to a bound, parsed by a reference grammar, and all layouts of generated expressions",""+A.strip()),
"P04":(T+"index ranges, their combinations and documents against a reference selector",""+A.strip()),
"P05":(T+"pairs of texts as condition and token, in all positions of a path",""+A.strip()),
"P06":(T+"iteration styles per event (all sequences of increments, copies, compares, dereferences)",""+A.strip()),
"W01":(T+"print operation sequences against a reference printer state machine and by reading back",""+A.strip()),
"W02":(T+"texts x application encodings x document encodings, read back by a reference reader",""+A.strip()),
"W03":(T+"operation sequences on the tag stack and printer against a reference stack",""+A.strip()),
"H01":(T+"declarations (layouts, attribute orders, encodings, unit sizes) against the generated declaration",""+A.strip()),
"H02":(T+"declaration bytes and chunk partitions (differential, with fault inputs)",""+A.strip()),
"X01":(T+"copy and assignment points of every class over a corpus of histories",""+A.strip()),
"X02":(T+"interleavings of the steps of two objects (all schedules) against running each alone",""+A.strip()),
"S13":(T+"documents in pieces against recorded ends of tokens","The generator records for every token the character that ends it; at every request for input the tokens complete so far must have been delivered."+A),
"X06":(T+"pairs of histories in two threads under a controlled scheduler, reduced by partial order: conflicting accesses not ordered by synchronization are violations","Without conflicts all interleavings are equivalent to those explored; both orders of building the static tables are explored."),
"X07":(T+"repeated compositions of markup, events and print calls, and sizes in several orders of magnitude, executed with a count of the basic blocks executed","Counts are deterministic, no time is measured. Later rounds must cost what earlier ones did; four times the size at most 4.5 times the effort."),
"X03":(T+"repeated compositions of markup, events, print calls and stack operations under a counting allocator","Memory in use and its peak in later rounds must not exceed those of the first rounds."),
"X04":(T+"stop points, copies, assignments and destruction orders of all kinds of objects under a counting allocator","Bytes and blocks in use behind the scenario equal those before; AddressSanitizer notices double frees."),
"X05":(T+"fault points: every request for memory of every operation fails, alone and with all later ones","The request that fails is enumerated completely for every operation of every history."+A),
}
