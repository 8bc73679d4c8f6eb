#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

SEG="segment/segment.go"
prop("C01","Word boundaries are those of UAX#29",
 "Segmenting any text with the word breaker delivers exactly the words which the rules WB1–WB999 of UAX#29 define (for the Unicode version the class tables are generated for), whatever the input method. The result depends on nothing but the text.",
 ["inputs"],"all texts; checked for every text up to a length bound over an alphabet with one or more representatives of each word-break class",
 "The conformance file contains a finite list of mostly short samples with at most one Regional Indicator chain and few combinations of ignored characters; rules interact over sequences.",
 ["uax29/uax29.go","segment/segment.go","automata.go"],
 [("word break rules as state functions","uax29/uax29.go: rule_*"),("publishing of runes to active recognizers","automata.go"),("collecting of penalties into break opportunities","segment/segment.go: readEnoughInputAndFindBreak")],
 [("previous class, blocked rules","which word class precedes, over ignored characters","uax29/uax29.go: WordBreaker")],["Segmenter.Next/Text"])
prop("C02","Grapheme boundaries are those of UAX#29",
 "Segmenting any text with the grapheme breaker delivers exactly the extended grapheme clusters which the rules GB1–GB999 of UAX#29 define (for the Unicode version the class tables are generated for), whatever the input method.",
 ["inputs"],"all texts; checked for every text up to a length bound over an alphabet with representatives of each grapheme-break class",
 "The conformance file is a finite list of short samples (two or three classes per line); rules interact over sequences, e.g. emoji ZWJ sequences, chains of regional indicators, Prepend.",
 ["grapheme/grapheme.go","segment/segment.go","automata.go"],
 [("grapheme rules as state functions","grapheme/grapheme.go: rule_*"),("break opportunities","segment/segment.go")],
 [("previous class, blocked classes","state of the breaker","grapheme/grapheme.go: Breaker")],["Segmenter.Next/Text"])
prop("C03","Code-point classes agree with the Unicode Character Database",
 "The class of every code-point — for words, for graphemes, for emoji properties — is the one given in the Unicode Character Database of the version the tables are generated for, and the default class if the code-point is unassigned there (surrogates excepted). Each code-point belongs to exactly one class of its kind; the exported range tables contain exactly the code-points of their class or property.",
 ["inputs"],"all 1,114,112 code-points",
 "Tests look at a few dozen code-points; tables have thousands of ranges.",
 ["uax29/uax29classes.go","grapheme/graphemeclasses.go","emoji/emojiclasses.go","grapheme/grapheme.go","uax29/uax29.go"],
 [("class lookup","uax29/uax29.go: UAX29ClassForRune; grapheme/grapheme.go: ClassForRune"),("class tables","uax29/uax29classes.go, grapheme/graphemeclasses.go, emoji/emojiclasses.go")],None,["ClassForRune, emoji range tables"])
prop("C04","Segments partition the text, and all accessors and input methods agree",
 "For any input and any combination of the breakers provided, the segments delivered are non-empty and their concatenation is exactly the input text; there is no segment after the last one. Text, bytes and runes of a segment agree, and a reader, a slice and a minimal rune reader deliver the same segments and penalties, without modifying the input.",
 ["inputs","configurations"],"all inputs including illegal UTF-8, NUL and U+FFFD; six combinations of breakers; three input methods; texts beyond the sizes of internal buffers",
 "Tests use a handful of legal texts shorter than the internal buffers.",
 ["segment/segment.go","segment/deque.go","segment/simplewordbreak.go"],
 [("reading and queueing of code-points","segment/segment.go: readRune"),("ring buffer","segment/deque.go"),("output buffer, slice-backed output","segment/segment.go: runewrite")],
 [("queue of code-points with penalties","code-points read but not delivered","segment/deque.go")],["Segmenter.Next/Text/Bytes/Runes/Penalties"])
prop("C05","A segment ends exactly where penalties allow, with the accumulated penalties",
 "A segment ends after a code-point exactly if the penalties which the primary or the secondary breakers have reported for this position make a break feasible, with zero being feasible only if configured. The penalties delivered with a segment are the sums of all the penalties reported for its end, even if reported belatedly while a match was active, separately for the primary breaker and the secondary ones.",
 ["programs","configurations"],"all breakers which obey to the interface's contract: penalties for the current and previous positions within the active match; every setting for zero penalties",
 "Tests use the three breakers provided, which report few distinct penalties.",
 ["segment/segment.go"],
 [("insertion of penalties","segment/segment.go: insertPenalties"),("selection of break opportunities","segment/segment.go: findBreakOpportunity, isPossibleBreak")],
 [("penalties of queued code-points","two accumulated penalties per position","segment/deque.go: atom"),("longest active match","how far back penalties may still arrive","segment/segment.go")],["Segmenter.Next/Penalties"])
prop("C06","A re-initialized segmenter behaves like a new one",
 "After initialization with a new text, a segmenter (with its breakers) delivers the same segments, penalties and errors as a new segmenter with new breakers would, whatever has been done before: texts read completely, abandoned after any number of segments, ended by a reader's error or stopped at a bound.",
 ["histories"],"all histories of previous uses",
 "Tests re-use a segmenter only after complete texts, if at all.",
 ["segment/segment.go","automata.go","uax29/uax29.go","grapheme/grapheme.go","segment/simplewordbreak.go"],
 [("initialization","segment/segment.go: Init, InitFromSlice"),("end-of-text handling of breakers","automata.go; StartRulesFor/ProceedWithRune of the breakers")],
 [("active recognizers, previous class, blocked classes, RI counters","state carried over within a breaker","uax29/uax29.go, grapheme/grapheme.go, automata.go")],["Segmenter.Init..Next"])
prop("C07","Bounded segmentation stops at the bound and continues seamlessly",
 "A bounded step delivers the same segment as an unbounded one if this segment ends at or before the bound, the text up to the bound if not, and nothing if the bound has been reached already, in which case it says so. Bounded and unbounded steps may be mixed in any order without losing, duplicating or re-breaking text.",
 ["histories","inputs"],"all sequences of bounded and unbounded steps with all bounds, for all texts",
 "One test calls it with one bound.",
 ["segment/segment.go"],
 [("bounded iteration","segment/segment.go: BoundedNext, next, distanceTo"),("front segment","segment/segment.go: getFrontSegment")],
 [("position, queue","position of the front of the queue within the text","segment/segment.go")],["Segmenter.BoundedNext/Next/Err"])
prop("C08","Reader faults are reported; segments before are exact",
 "If the reader fails with an error at any read, the segmenter delivers only segments it would have delivered without the fault, including all segments which did not need the failing read, then stops and reports exactly this error, and goes on to report it. End-of-input is no error, and after a fault the segmenter may be used for a new text.",
 ["fault_sequences","inputs"],"all texts, every position of the fault, several kinds of errors, transient and permanent faults, bounded and unbounded iteration",
 "No test injects faults.",
 ["segment/segment.go"],
 [("reading of code-points","segment/segment.go: readRune, readEnoughInputAndFindBreak"),("error state","segment/segment.go: setErr, Err")],
 [("error","first error other than end-of-input","segment/segment.go: Segmenter.err")],["Segmenter.Next/Err"])
prop("C09","Limits of segment length are enforced and reported",
 "A segment read from a reader is delivered completely if it is not longer than the configured maximum (the larger of the maximum given and the buffer's capacity, or the default maximum). A longer segment is never truncated or delivered, but ends the segmentation with the too-long error; the limit stays in effect when the segmenter is used again.",
 ["inputs","configurations"],"all combinations of buffer capacities, maxima and segment lengths",
 "No test configures buffers or exceeds the default limit.",
 ["segment/segment.go"],
 [("output buffer","segment/segment.go: runewrite.WriteRune"),("configuration","segment/segment.go: RuneBuffer")],
 [("output buffer","runes of the current segment","segment/segment.go: runewrite")],["Segmenter.RuneBuffer/Next/Err"])
prop("C10","The whitespace breaker delivers alternating runs of white space and words",
 "Segmented by default or with the simple word breaker, a text is split into its maximal runs of white space and non-white-space; a word is delivered with the penalty for a break before white space, and white space with the merit for a break after it.",
 ["inputs"],"all texts without NUL; all code-points",
 "Tests use a few English sentences and one length.",
 ["segment/simplewordbreak.go","segment/segment.go"],
 [("simple word breaker","segment/simplewordbreak.go")],
 [("match type and length","current run","segment/simplewordbreak.go")],["Segmenter.Next/Penalties"])
exec(open('tools/props_more.py').read())
with open('properties.jsonl','w') as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
