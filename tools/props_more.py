RE="bidi/resolver.go"; RO="bidi/reordering.go"; SC="bidi/scanner.go"
prop("B01","Bidi resolution is total and partitions any input",
 "For any byte sequence — legal UTF-8 or not, with unmatched isolates, legacy controls or any nesting — resolving, reordering, splitting and querying terminate without panicking. The resolved level runs partition the text up to the first paragraph separator (the whole text if separators are ignored) by byte positions, the segments of the ordering cover every byte exactly once, and splitting divides the positions at the cut. Resolving the same text again gives the same result.",
 ["inputs"],"all byte sequences; checked for all words over an alphabet of 27 byte sequences up to a length bound, and long repetitions",
 "Tests use about two dozen well-formed samples.",
 [RE,RO,SC],
 [("scanning of runes with byte lengths","bidi/scanner.go: nextRune, scanRunes, Scan"),("parsing of isolating run sequences, unclosed ones","bidi/resolver.go: pass1, pass2, parseIRS, applySubIRS"),("flattening to runs","bidi/reordering.go: flatten, pieces, cutScrapAt")],
 [("stack of scraps","text intervals with a class and nested isolates","bidi/resolver.go: parser.stack")],["ResolvedLevels.String/Reorder/Split/DirectionAt"])
prop("B02","Implicit bidi levels are resolved as UAX#9 demands (W1–W7, N1–N2)",
 "For every text without isolates and brackets, the class (L, R, EN, AN) each character is resolved to is the one which rules W1–W7 and N1–N2 of UAX#9 give, for both paragraph directions.",
 ["inputs"],"all texts; checked for all texts up to a length bound over alphabets of 12 bidi classes with representatives of different byte lengths",
 "Rules interact over sequences (e.g. ET next to NSM next to EN after AL); tests cover about one text per rule.",
 [RE,"bidi/actions.go",SC],
 [("rules W1–W3 in the scanner","bidi/scanner.go: applyRulesW1to3, nextContext"),("rules as rewriting of the scrap stack","bidi/actions.go: rule*"),("matching of rules","bidi/resolver.go: pass1, pass2, matchRulesLHS")],
 [("directional context","most recent strong type and embedding direction per scrap","bidi/scrap.go: dirContext"),("dictionary of rules","rules by left-hand side","bidi/resolver.go: prepareRulesTrie")],["ResolvedLevels.String"])
prop("B03","Isolates are resolved separately and are neutral to their surroundings",
 "For every text with matched isolates (LRI, RLI up to PDI) nested to any depth, the characters within an isolate are resolved independently of those outside with the isolate's direction, the isolate as a whole is a neutral for its surroundings, and a PDI without an initiator is a neutral, as UAX#9 demands.",
 ["inputs"],"all texts with matched isolates up to a length bound, including empty, adjacent and nested isolates and isolates at the start and end; directions on all levels are compared",
 "Tests contain a handful of isolates, mostly in the examples from the standard.",
 [RE,SC],
 [("nested parsing of isolating run sequences","bidi/resolver.go: parseIRS, applySubIRS"),("context and bracket handler stacks","bidi/scanner.go: nextContext, handleIsolatingRunSwitch")],
 [("stack of isolating run sequences","contexts re-established by PDI","bidi/scanner.go: ctxstack, IRSStack; bidi/resolver.go: spIRS")],["ResolvedLevels.String/DirectionAt"])
prop("B04","Reordering gives the visual order of UAX#9",
 "Output of the segments of all runs in sequence, as shown in the documentation of SegmentIterator (for a device with the paragraph's direction), displays the characters in exactly the order rules I1, I2 and L2 of UAX#9 define. Adjacent runs differ in direction, lengths of runs and segments agree, and reordering leaves the resolved levels unchanged.",
 ["inputs"],"all texts up to a length bound with strong types, numbers, neutrals and matched isolates",
 "Tests check run counts and the display of three sample sentences.",
 [RO],
 [("reversal of runs","bidi/reordering.go: reorder, reverseRun, reverseIsolate"),("flattening of isolates to runs","bidi/reordering.go: flattenFor, pieces, swapIsolates, appendRun"),("iteration","bidi/reordering.go: SegmentIterator")],
 None,["ResolvedLevels.Reorder, Run.SegmentIterator"])
prop("B05","Bracket pairs are identified and resolved as UAX#9 demands (BD16, N0)",
 "Brackets are paired within their isolating run sequence by algorithm BD16 — for all of Unicode's paired brackets including canonical equivalents, up to a nesting depth of 63 — and resolved by rule N0, marks after brackets included. Everything not paired is neutral.",
 ["inputs"],"all texts over alphabets with brackets up to a length bound; all combinations of opening and closing brackets; all code-points in place of a bracket; nesting depths 58–70",
 "Tests use one or two types of brackets in a few texts.",
 ["bidi/brackets.go","bidi/bracketpairs.go",RE,SC],
 [("bracket pairing","bidi/brackets.go: bracketPairHandler, popWith"),("rule N0","bidi/resolver.go: resolveBrackets, performRuleN0"),("bracket table","bidi/bracketpairs.go")],
 [("stack of opening brackets, list of pairs","one per isolating run sequence","bidi/brackets.go: bracketPairHandler")],["ResolvedLevels.String/DirectionAt"])
prop("B06","Splitting into lines: every line is ordered by itself, nothing else changes",
 "Splitting resolved levels at a character boundary gives two pieces, each of which displays as rule L2 of UAX#9 demands for this line with the levels resolved for the whole paragraph — also within nested isolates and when splitting pieces again. Positions are shifted by the cut if requested and kept if not; the levels split are left unchanged.",
 ["inputs","histories"],"all texts up to a length bound, all single cuts and all pairs of cuts in both orders, with and without shifting",
 "Tests split two texts at one position.",
 [RO],
 [("splitting of nested sequences","bidi/reordering.go: Split, split, shiftzero, copyScraps")],
 [("tree of scraps","isolates as children","bidi/reordering.go: ResolvedLevels")],["ResolvedLevels.Split/Reorder"])
prop("B07","Direction queries agree with the resolved level of each position",
 "For every byte of the text, the direction returned is left-to-right if the embedding level UAX#9 gives to its character is even and right-to-left if odd — inside of isolates and at their delimiters, too, and for every line cut off with Split, with and without shifted positions.",
 ["inputs","histories"],"all texts up to a length bound, all positions, all single and double cuts",
 "No test queries directions within isolates or after splitting.",
 [RO],
 [("direction lookup","bidi/reordering.go: DirectionAt, directionAt, findEmbeddingDir")],None,["ResolvedLevels.DirectionAt"])
prop("B08","Out-of-line markup is equivalent to inline isolate characters",
 "Isolate delimiters supplied by the markup function for a text position — LRI, RLI, PDI or a PDI followed by an initiator — have exactly the effect the corresponding characters would have if inserted there, except that they occupy no text position. This holds at the start and the end of the text and for any mix of inline and out-of-line delimiters.",
 ["inputs","configurations"],"all texts with isolates up to a length bound and all subsets of delimiters being out-of-line",
 "One test uses markup, with one pair of delimiters.",
 [SC],
 [("markup queries","bidi/scanner.go: nextRune, markupToBidi")],
 [("pending markup","second half of a combined markup, last position queried","bidi/scanner.go: lastMarkup, lastMarkupPos")],["ResolveParagraph with markup"])
prop("B09","Options have exactly their documented effect, the last one wins",
 "The paragraph direction, test mode (uppercase letters are right-to-left; '<', '>' and '=' delimit isolates) and the treatment of paragraph separators (end of text, or white space) are as given by the last option of each kind. Options not given or nil, and the legacy option, have no effect.",
 ["configurations","inputs"],"all lists of up to three options for all short texts, fewer lists for longer ones; all paragraph separators",
 "Tests use single options in fixed combinations.",
 [SC],
 [("options","bidi/scanner.go: Option, DefaultDirection, TestMode, IgnoreParagraphSeparators"),("application of modes","bidi/scanner.go: Scan, nextRune, initialOuterScrap")],
 [("mode flags","bit set","bidi/scanner.go: bidiScanner.mode")],["ResolveParagraph with options"])
prop("B10","Resolving is independent of schedules, concurrency and the reader",
 "The result of resolving a paragraph depends on nothing but its text, markup and options: not on how the internal goroutines are scheduled, not on other paragraphs being resolved concurrently, nor on how the reader cuts the text into chunks (empty reads included). Concurrent queries, splits and reorderings of the same resolved levels each have the result they have alone. A call never deadlocks and leaves no goroutine running, and a text whose reader fails is resolved as the prefix delivered.",
 ["schedules","inputs","faults"],"all interleavings of one to three concurrent calls with a bounded number of context switches; all chunkings of short texts, with an empty read or a failure at any position",
 "Tests run single calls under whatever schedule they get, with texts from strings.Reader.",
 [RE,SC,RO,"bidi/trie/trie.go"],
 [("scanner goroutine and resolver connected by a channel","bidi/resolver.go: newParser, ResolveParagraph; bidi/scanner.go: Scan"),("set-up of rules, once","bidi/resolver.go: prepareRulesTrie")],
 [("pipe of scraps","channel between scanner and parser, closed at the end","bidi/resolver.go: parser.pipe"),("rules trie","shared by all parsers","bidi/resolver.go: rulesTrie")],["ResolveParagraph, ResolvedLevels"])
prop("C11","Publishers deliver each rune to every active subscriber and harvest the done",
 "Every subscriber which is not done receives each published rune exactly once, with its class; the publisher returns the longest match of those still active and the element-wise sum of all penalties reported. Afterwards exactly the subscribers which are done have been unsubscribed, once each, and all others remain, for any history of subscriptions (from within callbacks, too), publishing, popping and fixing. Recognizers taken from the pool behave like new ones, whatever they have been used for.",
 ["histories"],"all sequences of operations up to a length bound with 8 kinds of scripted subscribers, and of recognizers with two publishers",
 "Tests of the queue push and pop a few subscribers; breakers use a narrow set of behaviours.",
 ["prioq.go","automata.go"],
 [("queue with a gap between done and active subscribers","prioq.go: Push, Pop, PopDone, Fix, bubbleUp, bubbleDown"),("publishing and harvesting","automata.go: PublishRuneEvent"),("pool of recognizers","automata.go: NewPooledRecognizer, releaseIntoPool")],
 [("gap","index of the first subscriber done","prioq.go: DefaultRunePublisher.gap")],["PublishRuneEvent, Push, Pop, PopDone, Top, Len"])
prop("C12","Grapheme strings hold exactly the graphemes of their text",
 "A grapheme string returns its Go string unchanged, and its graphemes 0…Len-1 are the extended grapheme clusters of the text between the first legal rune and the next illegal byte (or the end), for texts of any size up to the maximum, whichever representation is used. Indexes outside panic, larger texts panic, and a string made from bytes does not change with them. The position of the first legal rune and the illegal prefix are exact.",
 ["inputs"],"all texts over an alphabet with graphemes of each kind and illegal UTF-8, short or filled up to sizes around changes of representation; all code-points",
 "Tests use four short texts; none is illegal or has a size near 255 bytes.",
 ["grapheme/string.go","uax.go"],
 [("short and mid-size representation","grapheme/string.go: makeShortString, makeMidString, Nth, Len"),("trimming","uax.go: PositionOfFirstLegalRune; grapheme/string.go: prepareBreaking, rr")],
 [("breaks","positions of boundaries as uint8 or uint16","grapheme/string.go: shortString, midString")],["grapheme.String"])
prop("C13","Display widths follow UAX#11 and the context",
 "The width of a grapheme is 0 if it is empty, starts with illegal UTF-8 or is a single zero width character, 2 if its first character is wide, fullwidth or a (non-ASCII) emoji, and 1 if narrow or halfwidth; neutral and ambiguous characters are wide in East Asian contexts and narrow otherwise. A context is East Asian if forced, by its script or by its locale; missing fields are derived, also after fields of a used (or copied) context have been changed. The width of a string is the sum over its graphemes.",
 ["inputs","configurations"],"all code-points, all short strings over an alphabet, all contexts of a list, all pairs of environment settings",
 "Tests check a dozen characters in two contexts.",
 ["uax11/width.go","emoji/emoji.go"],
 [("width of a grapheme","uax11/width.go: Width, StringWidth, graphemeWidth"),("contexts","uax11/width.go: evaluateContext, findResolver, ContextFromEnvironment")],
 [("resolver","derived from a context on first use","uax11/width.go: Context.resolve")],["uax11.Width, StringWidth"])
prop("C14","Concurrent clients do not interfere",
 "Segmenters, breakers, grapheme strings, widths and character classes used by goroutines at the same time, each with objects of its own (or sharing a grapheme string or a predefined context for reading), deliver what they deliver if used alone, for every interleaving. Set-up of character classes may be requested by any number of clients concurrently, explicitly or by the first use, and is complete when the request returns.",
 ["interleavings"],"all interleavings with a bounded number of context switches, at reads, trace statements and deliveries or at all statements; first use in new processes",
 "Tests are single-threaded and run after set-up.",
 ["automata.go","segment/segment.go","grapheme/grapheme.go","grapheme/string.go","uax29/uax29.go","emoji/emoji.go","uax11/width.go"],
 [("global pool of recognizers","automata.go: NewPooledRecognizer, releaseIntoPool"),("one-time set-up","grapheme/grapheme.go: SetupGraphemeClasses; uax29/uax29.go: SetupUAX29Classes; emoji/emoji.go: SetupEmojisClasses")],
 [("recognizers","owned by one publisher until it unsubscribes them","automata.go: Recognizer"),("tables of classes","written by set-up, read-only afterwards","grapheme/graphemeclasses.go, uax29/uax29classes.go, emoji/emojiclasses.go")],["segments, graphemes, widths and classes of each client"])
prop("S01","Shaping tables agree with the Unicode Character Database",
 "Each of the exported tables of package shaping (joining types, Indic positional and syllabic categories) contains exactly the characters which have this property value in Unicode 13, for every code-point. The tables are well-formed (sorted, disjoint ranges, correct LatinOffset), so that all functions of package unicode may be used with them.",
 ["inputs"],"all code-points in all 56 tables",
 "There are no tests.",
 ["shaping/arabictables.go","shaping/uipctables.go","shaping/uisctables.go"],
 [("generated tables","shaping/arabictables.go, shaping/uipctables.go, shaping/uisctables.go")],
 [("range tables","R16, R32, LatinOffset","shaping/*tables.go")],["unicode.Is, unicode.In with the exported tables"])
prop("P01","Every data line of a UCD file is delivered once, with its range and fields",
 "For every document in the format of the Unicode Character Database, Parse calls its callback for each data line in order, with the code-point or range and all the fields and the comment of the line, and never for comment lines or blank lines; lines may end with LF, CR or CR LF, in any combination, and the last one may lack an end. Neither the size of the document nor the reader's chunks matter. If the reader fails, Parse ends, returns an error, and has delivered all lines complete before the failure.",
 ["inputs","faults"],"all documents with few lines of each kind, all line ends, chunk sizes, reader faults at all positions; long documents; all code-points",
 "The test parses a single line.",
 ["internal/ucdparse/linebuf.go","internal/ucdparse/scan.go","internal/ucdparse/ucdparse.go"],
 [("line buffer","internal/ucdparse/linebuf.go: newLineBuffer, AdvanceLine, IsIgnoredLine"),("scanner steps","internal/ucdparse/scan.go: Parse, Next, ScanRuneRange, ScanItemBody")],
 [("cursor","position and lookahead in the current line","internal/ucdparse/linebuf.go: lineBuffer")],["ucdparse.Parse, Token.Range, Token.Field, Token.Comment"])
prop("P02","Generated range tables hold exactly the ranges collected",
 "For every ascending list of ranges, whether adjacent ones are appended joined or separately, the collector's output is Go source of a well-formed range table (16-bit and 32-bit ranges, LatinOffset) which contains exactly these code-points. The generator CLI produces one exported table per category of the selected field of a UCD file, and fails, without an output file, if the UCD file cannot be read completely.",
 ["inputs","configurations","faults"],"all sets of elementary ranges around the sizes which matter; runs of the CLI for all subsets of lines, fields, prefixes and styles; missing and truncated files",
 "There are no tests of the generator.",
 ["internal/ucdparse/gentables.go","internal/tablegen/main.go"],
 [("collector","internal/ucdparse/gentables.go: Append, Output"),("generator","internal/tablegen/main.go: main, append, printVarSection")],
 [("collected ranges","list of ranges of a category","internal/ucdparse/gentables.go: RangeTableCollector.ranges")],["RangeTableCollector.Output; files written by tablegen"])
prop("T01","The dictionary of bidi rules holds exactly the prefixes allocated",
 "For every sequence of words entered into a trie, in any order and repeatedly, the frozen trie maps exactly the prefixes of these words to positions, distinct for distinct prefixes, and every other word to none, whether looked up as a whole or stepwise by an iterator. Lookups change nothing. A position allocated for a word remains valid until other words are allocated, however often families have been relocated to make room.",
 ["histories","inputs"],"all sequences of up to 5 (thorough: 6) words of up to 4 letters, for several sizes and alphabets; all starting points and steps for entering all short words",
 "Tests enter three words.",
 ["bidi/trie/hashtrie.go"],
 [("allocation and relocation","bidi/trie/hashtrie.go: AllocPositionForWord, insertFirstbornChildAndProgress, insertChildIntoFamily, moveFamily"),("lookup","bidi/trie/hashtrie.go: advanceToChild, Iterator.Next")],
 [("families","cells linked by link and sibling, identified by header cells","bidi/trie/hashtrie.go: TinyHashTrie")],["AllocPositionForWord, Iterator.Next"])
prop("C15","The calls of a segmenter's API follow their protocol in every order",
 "In every sequence of calls — initialization with readers, slices, nil or failing readers, setting of buffers, bounded and unbounded steps — each call has its documented outcome: steps before initialization are refused with an error, buffers may be set until the first step after an initialization and are refused by a panic then, initialization clears segment, error and position, a nil input is an empty text, and after an error no step continues. Segments are delivered in the client's buffer if it suffices (max not above its capacity), and as slices of an input slice.",
 ["histories","faults"],"all sequences of API calls up to a depth, over initializations, buffer settings and steps",
 "Tests call Init once, then Next up to the end.",
 ["segment/segment.go"],
 [("life cycle","segment/segment.go: Init, InitFromSlice, init, Next, BoundedNext, next"),("buffers","segment/segment.go: RuneBuffer, Buffer, runewrite")],
 [("inUse, err, reader","state of the life cycle","segment/segment.go: Segmenter"),("runesBuf","buffer or slice limits of the current segment","segment/segment.go: runewrite")],["Segmenter.Init/InitFromSlice/RuneBuffer/Buffer/Next/BoundedNext/Err/Text/Bytes/Runes"])
prop("L01","Line breaks occur exactly where UAX#14 allows or demands them",
 "For every text of code-points other than U+0000, the segments delivered by a segmenter with a LineWrap breaker (with a class table generated from the Unicode Character Database) end exactly at the break opportunities of rules LB1–LB31 of UAX#14 (Unicode 10, with numbers by the regular expression of LB25, as the package's test file demands), whatever the breaker has been used for before. The penalty of a mandatory break (LB4, LB5) is lower than that of any break which is merely allowed.",
 ["inputs","histories"],"all texts over representatives of the 38 classes up to a length bound, longer ones over interacting classes; all code-points in contexts; all pairs of short texts for one breaker",
 "The package is not built without a class table; its tests compare the sample lines of LineBreakTest.txt, tolerate 10 failures, and no sample has two combining marks or more than four characters of interest.",
 ["uax14/uax14.go","uax14/rules.go","uax14/internal/generator/generator.go"],
 [("rules as recognizers","uax14/rules.go: rule_*, finish_*, step*_LB25"),("substitution of combining marks","uax14/uax14.go: substitueSomeClasses, CodePointClassFor, ProceedWithRune"),("resolution of classes","uax14/uax14.go: resolveSomeClasses, ClassForRune")],
 [("last class, ZWJ and substitution flags, blocking of RI rules","carried from code-point to code-point","uax14/uax14.go: LineWrap")],["segment.Segmenter with uax14.NewLineWrap"])

prop("G01","Generators turn exactly what a data file lists into Go tables",
 "For every data file in the format of the Unicode Character Database which uses the classes of its generator, the code written by each class generator (grapheme, uax29, emoji, uax14) compiles within its package, and afterwards the class tables hold exactly the code-points the file lists for them, and class look-up agrees with it — irrespective of order, grouping and formatting of lines, of comments and of classes which do not occur. The code written by the generator of bracket pairs lists exactly the pairs of its file. A generator fails with a non-zero exit status whenever its file is missing or cannot be read completely, or its output cannot be written completely.",
 ["inputs","faults"],"all documents made of subsets of up to 3 (thorough: 6) of 11 ranges per class and 18 special ranges, in several orders and styles; all pairs of missing classes; the complete Unicode data; faults at every line of the document and every KB of output",
 "Generators have no tests at all.",
 ["grapheme/internal/generator/generator.go","uax29/internal/generator/generator.go","emoji/internal/generator/generator.go","uax14/internal/generator/generator.go","bidi/internal/gen/brackgen.go","internal/ucdparse/ucdparse.go"],
 [("reading","*/internal/generator/generator.go: loadUnicode…File; bidi/internal/gen/brackgen.go: readBrackets"),("writing","*/internal/generator/generator.go: generateRanges, templates, checkFatal")],
 [("lists of code-points per class","collected from ranges, in a map","*/internal/generator/generator.go: loadUnicode…File")],["generator [-v], brackgen [-o -pkg]: files written, exit status"])
prop("C16","Breakers combined in one segmenter do not influence each other",
 "For every text and every list of the breakers of this module (words, graphemes, lines, white space), the segments delivered end exactly at the positions for which the first breaker or the secondary breakers together report a feasible penalty, and carry the penalties each breaker reports if it reads the whole text alone (those of secondary breakers being added up); for two breakers, these are the boundaries of either. This holds for breakers which have been used in other lists before, too. With word and grapheme breakers, a segment is delivered before more input is read than their rules have to look at, and one more code-point.",
 ["inputs","configurations","histories"],"all texts over 31 letters × all lists of up to three breakers, longer texts for usual lists",
 "Tests use a list of two breakers once, for a single sentence.",
 ["segment/segment.go","uax29/uax29.go","grapheme/grapheme.go","uax14/uax14.go","segment/simplewordbreak.go","automata.go"],
 [("book-keeping of active matches","segment/segment.go: readEnoughInputAndFindBreak, insertPenalties"),("penalties of breakers","uax29/uax29.go, grapheme/grapheme.go, uax14/rules.go: DoAccept in rules; ProceedWithRune")],
 [("longest active match","part of the queue which breakers may still add penalties to","segment/segment.go: Segmenter.longestActiveMatch")],["segment.NewSegmenter with several breakers: Next, Penalties, Text; runes read from the input"])
prop("P03","Conformance test files are read completely",
 "For every file, the reader of Unicode's test files delivers exactly the lines which are neither empty nor comments, in order and each once, with the text in front of the # sign and the comment of this very line; if the file cannot be read completely, it reports an error. A line with break marks is split into the text of all of its code-points and the segments between ÷ signs, which make up this text.",
 ["inputs","faults"],"all files of up to 4 (thorough: 5) lines of 9 kinds; long files and lines; all sequences of up to 6 tokens of a line; all code-points",
 "The reader serves the conformance tests, but is not tested: tests pass if it delivers too few lines.",
 ["internal/ucdparse/testfiles.go"],
 [("lines","internal/ucdparse/testfiles.go: Scan, Err"),("segments","internal/ucdparse/testfiles.go: BreakTestInput")],
 [("text, comment","current line","internal/ucdparse/testfiles.go: ucdTestFile")],["OpenTestFile, Scan, Text, Comment, Err, BreakTestInput"])
