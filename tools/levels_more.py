CHECKS.update({
"B01":("exploration",T%("all byte sequences over an alphabet of 27 letters, long repetitions, all cuts","partition and determinism conditions"),"Illegal UTF-8, unmatched isolates, legacy controls, separators."),
"B02":("exploration",T%("all texts over alphabets of bidi classes","a transcription of rules W1–W7, N1–N2 working on single characters"),"Up to length 5 over all 12 classes, 7–9 over reduced ones (thorough: 7, 9–11)."),
"B03":("exploration",T%("all texts with matched isolates","a transcription of UAX#9 with isolating run sequences"),"FSI is a known finding."),
"B04":("exploration",T%("all texts with matched isolates","levels and rule L2 of UAX#9"),"Compares the display order produced by the documented client loop."),
"B05":("exploration",T%("all texts with brackets, all bracket pairs, all code-points as brackets, nesting depths around the limit","a transcription of BD16 and N0"),"Bracket data from the UCD."),
"B06":("exploration",T%("all texts with all single and double cuts","rule L2 applied per line"),""),
"B07":("exploration",T%("all texts, positions and cuts","embedding levels of the reference implementation"),""),
"B08":("exploration",T%("all texts with isolates and all subsets of delimiters being out-of-line","the reference implementation, or the text with inline delimiters"),""),
"B09":("exploration",T%("all lists of up to 3 options, for all short texts","the reference implementation applied to the text the options define"),""),
})
CHECKS.update({
"B10":("model_checking","exhaustive enumeration of thread interleavings of the real code up to a bound of context switches, under a controlled scheduler (stateless model checking), with scheduling points at every read, callback and trace statement or, by instrumentation, at every statement; exhaustive enumeration of chunkings and reader faults","22 scenarios of 1–3 clients; bounds per scenario are in the evidence file."),
})
CHECKS.update({
"C11":("model_checking","exhaustive enumeration of all operation sequences up to a depth on the real publisher with scripted subscribers, in lock-step with a model (explicit-state model checking)","Also single recognizers with all step functions of small size. Depth 6 over all 13 operations (thorough: 7), deeper for fewer operations."),
})
CHECKS.update({
"C12":("exploration",T%("all texts over 22 letters, sizes around changes of representation, all code-points","grapheme clusters of a reference implementation and a definition of legal text"),"Length 4 (thorough: 5), sizes up to 65540 bytes."),
"C13":("exploration",T%("all code-points in all contexts, all strings over 28 graphemes, all environment settings","East Asian Width and emoji properties of the UCD"),"Strings of length 4 (thorough: 5)."),
})
CHECKS.update({
"C14":("model_checking","exhaustive enumeration of thread interleavings of the real code up to a bound of context switches, under a controlled scheduler (stateless model checking), with scheduling points at every read, delivery and trace statement or, by instrumentation, at every statement; each schedule of a first use in a new process","All pairs of 20 clients, 23 further scenarios of 2–3 clients; bounds per scenario are in the evidence file."),
})
CHECKS.update({
"S01":("exploration",T%("all pairs of a code-point and an exported table","property values of the UCD"),"The complete space: 1114112 code-points, 56 tables."),
"P01":("fault_enumeration",T%("all documents of up to 3 (thorough: 5) lines of 11 kinds with 3 line ends, all reader faults","the data lines the document was made of"),"Also lines with up to 20 fields, long documents, code-points of all planes."),
"P02":("exploration",T%("all sets made of 11 elementary ranges, in all ways to append them; runs of the generator for subsets of 9 lines","the set of code-points the table was made of"),"Generated source is parsed and evaluated; the generator gets documents, missing and truncated ones, from a local server."),
})
CHECKS.update({
"T01":("model_checking","exhaustive enumeration of all sequences of insertions up to a depth on the real trie, compared with a set of prefixes as the model (explicit-state model checking)","8 sizes and alphabets; sequences of up to 5 (thorough: 6) words, and all starting points and steps for up to 49 words."),
})
CHECKS.update({
"C15":("model_checking","exhaustive enumeration of all sequences of API calls up to a depth on the real segmenter, in lock-step with a model of its life cycle (explicit-state model checking)","17 kinds of calls to depth 5 (thorough: 6), 8 kinds to depth 6 (thorough: 7) for 4 combinations of breakers."),
})
CHECKS.update({
"L01":("exploration",T%("all texts over the 38 line-break classes, all code-points in contexts, all pairs of texts","a transcription of LB1–LB31"),"Length 4 over 38 classes (thorough: also 5 over 27), up to 7 (9) over 5–9 classes; class table generated by the package's own generator from UCD data; periodic texts of up to 1025 code-points."),
})
CHECKS.update({
"G01":("exploration",T%("all documents made of subsets of 11 ranges per class, in several orders and styles, all faults of reading and writing","the ranges the document was made of"),"Up to 3 (thorough: 6) ranges per class; output of the five generators is compiled into a copy of their package and asked for classes and tables."),
})
CHECKS.update({
"C16":("exploration",T%("all texts over 31 letters × all lists of up to 3 of the module's breakers, longer texts for usual lists, breakers used before","what each breaker reports when it reads the text alone, and the boundaries of reference implementations"),"Length 3 for pairs, 2 for triples, up to 6 over reduced alphabets (thorough: 4, 3, 8), periodic texts of up to 4100 code-points. The line breaker is built with a class table made by its generator."),
})
CHECKS.update({
"P03":("exploration",T%("all files of up to 4 (thorough: 5) lines of 9 kinds with 2 line ends, all sequences of 6 (7) tokens, all code-points","the lines and tokens the file was made of"),"Also lines of up to 63 KB and beyond, missing files and directories."),
})
