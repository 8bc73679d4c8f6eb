# C16: several breakers of this module in one segmenter
LISTS=lambda breakers,text,want: gomain(["fmt","os","strings","github.com/npillmayer/uax/segment","github.com/npillmayer/uax/grapheme","github.com/npillmayer/uax/uax29"],'''
var _ = uax29.NewWordBreaker
func main() {
	grapheme.SetupGraphemeClasses()
	s := segment.NewSegmenter(%s)
	s.Init(strings.NewReader(%s))
	got := ""
	for s.Next() {
		p1, p2 := s.Penalties()
		got += fmt.Sprintf("%%q %%d %%d|", s.Text(), p1, p2)
	}
	if got != %s {
		fmt.Println(got)
		os.Exit(1)
	}
}
'''%(breakers,text,want))
KW,KG,KS="uax29.NewWordBreaker(1)","grapheme.NewBreaker(1)","segment.NewSimpleWordBreaker()"
seed("c16-third-match","C16","three breakers, the third of which has a long match while the others have none",
 "matches of breakers behind the second one are not waited for: segments are delivered before their penalties are complete",
 [("segment/segment.go","				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {","				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch && i <= 1 {")],
 LISTS(", ".join([KG,KG,KW]),'"a\'a"','`"a" -10 10000|"\'" -10 9990|"a" -10 0|`'))
seed("c16-newline-before","C16","a line feed following a one-letter word, and a breaker with a shorter match in the same list",
 "the word breaker reports the penalty of a mandatory break for the position before the code-point which precedes a line feed, too",
 [("uax29/uax29.go","		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyForMustBreak)\n	} else if c == CRClass {","		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyForMustBreak, PenaltyForMustBreak)\n	} else if c == CRClass {")],
 LISTS(", ".join([KS,KW]),'"(a\\n"','`"(" 0 10|"a" 100 -10000|"\\n" -100 -9990|`'))
seed("c16-shared-block","C16","two breakers for graphemes in one list, and flags",
 "breakers for graphemes share the information that regional indicators are blocked",
 [("grapheme/grapheme.go","	gb.blocked = make(map[GraphemeClass]bool)","	gb.blocked = blockedClasses"),
  ("grapheme/grapheme.go","// We introduce an offest for Emoji code-point classes\n","// blockedClasses holds classes which do not start recognizers.\nvar blockedClasses = make(map[GraphemeClass]bool)\n\n// We introduce an offest for Emoji code-point classes\n")],
 LISTS(", ".join([KG,KG]),'"\\U0001F1E6\\U0001F1E7\\U0001F1E8\\U0001F1E9"','`"🇦🇧" -10 -10|"🇨🇩" -10 -10|`'))
LINE2=lambda a,b,wa,wb: gomain(["fmt","os","strings",U+"/segment",U+"/uax14"],'''
func main() {
	r, s := segment.NewSegmenter(uax14.NewLineWrap()), segment.NewSegmenter(uax14.NewLineWrap())
	r.Init(strings.NewReader("%s"))
	s.Init(strings.NewReader("%s"))
	var p, q []string
	for more := true; more; {
		more = false
		if r.Next() {
			p = append(p, r.Text())
			more = true
		}
		if s.Next() {
			q = append(q, s.Text())
			more = true
		}
	}
	if got := strings.Join(p, "|") + " " + strings.Join(q, "|"); got != "%s %s" {
		fmt.Printf("%%+q\\n", got)
		os.Exit(1)
	}
}
'''%(a,b,wa,wb))
seed("c14-line-flags","C14","two line breakers in use at the same time, one of which reads a regional indicator while the other one's pair of indicators is incomplete",
 "line breakers share the information that rules for regional indicators are blocked",
 [("uax14/uax14.go","	uax14.blockedRI = true","	blockedRI = true"),("uax14/uax14.go","	uax14.blockedRI = false","	blockedRI = false"),
  ("uax14/uax14.go","func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {\n","func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {\n	uax14.blockedRI = blockedRI\n"),
  ("uax14/uax14.go","// NewLineWrap creates a new UAX#14 line breaker.\n","var blockedRI bool // are rules for Regional_Indicator currently blocked?\n\n// NewLineWrap creates a new UAX#14 line breaker.\n")],
 LINE2("\\U0001F1E6\\U0001F1E7\\U0001F1E8","a\\U0001F1E6\\U0001F1E7","\\U0001F1E6\\U0001F1E7|\\U0001F1E8","a|\\U0001F1E6\\U0001F1E7"),LINESH)
seed("b02-huge","B02","a paragraph of more than 65535 bytes","text positions are kept in 16 bits, runs behind the first 64 KB have wrong positions",
 [("bidi/scanner.go","		r:       pos + charpos(length),","		r:       charpos(uint16(pos) + uint16(length)),")],
 BIDI('strings.Repeat("a", 70000) + "\\u05d0"',[],STR,'"[0-LRI-0] [0-L-70000] [70000-R-70002] [70002-PDI-70002]"'))
seed("b03-many-isolates","B03","more than 32 isolates within one run","isolates are forgotten if there are more than 32 of them in a run",
 [("bidi/scrap.go","	s.children = append(s.children, ch)","	if len(s.children) < 32 {\n		s.children = append(s.children, ch)\n	}")],
 BIDI('strings.Repeat("\\u2067\\u05d0\\u2069", 33)',[],'fmt.Sprint(rl.DirectionAt(3+8*30), rl.DirectionAt(3+8*32))','fmt.Sprint(bidi.RightToLeft, bidi.RightToLeft)'))
seed("b05-many-pairs","B05","more than 64 bracket pairs in an isolating run sequence","brackets behind the first 64 pairs of a sequence are treated as neutrals",
 [("bidi/brackets.go","	inx := 0\n	bph.mx.Lock()\n	defer bph.mx.Unlock()\n","	inx := 0\n	bph.mx.Lock()\n	defer bph.mx.Unlock()\n	if len(bph.pairings) >= cap(bph.stack)+1 {\n		return false, 0\n	}\n")],
 BIDI('strings.Repeat("a(a)\\u05d0", 66)',["bidi.DefaultDirection(bidi.RightToLeft)"],'fmt.Sprint(rl.DirectionAt(6*63+3), rl.DirectionAt(6*65+3))','fmt.Sprint(bidi.LeftToRight, bidi.LeftToRight)'))
