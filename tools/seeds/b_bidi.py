def BIDI(text, opts, expr, want, markup="nil"):
    """expr: Go expression (string) over rl (*bidi.ResolvedLevels) and text"""
    return gomain(["fmt","os","strings",U+"/bidi"],'''
// show outputs text as recommended by the documentation of package bidi
func show(text string, rl *bidi.ResolvedLevels, dev bidi.Direction) string {
	s := ""
	for _, run := range rl.Reorder().Runs {
		it := run.SegmentIterator(run.IsOpposite(dev))
		for it.Next() {
			dir, from, to := it.Segment()
			seg := []rune(text[from:to])
			if dir != dev {
				for i, j := 0, len(seg)-1; i < j; i, j = i+1, j-1 {
					seg[i], seg[j] = seg[j], seg[i]
				}
			}
			s += string(seg)
		}
	}
	return strings.Map(func(r rune) rune {
		if r >= 0x2066 && r <= 0x2069 {
			return -1
		}
		return r
	}, s)
}

func dirs(rl *bidi.ResolvedLevels, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += rl.DirectionAt(uint64(i)).String()[:1]
	}
	return s
}

func main() {
	text := %s
	_, _ = show, dirs
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			os.Exit(1)
		}
	}()
	rl := bidi.ResolveParagraph(strings.NewReader(text), %s%s)
	got := strings.TrimSpace(%s)
	if want := %s; got != want {
		fmt.Printf("%%q, must be %%q\\n", got, want)
		os.Exit(1)
	}
}
'''%(text,markup,''.join(', '+o for o in opts),expr,want))
STR="rl.String()"
L2R="show(text, rl, bidi.LeftToRight)"
seed("b01-tab-ends","B01","a text containing a segment separator (TAB)","segment separators end the paragraph, the rest of the text has no levels",
 [("bidi/scanner.go","	if bidiclz == bidi.B { // paragraph separator read","	if bidiclz == bidi.B || bidiclz == bidi.S { // paragraph separator read")],
 BIDI('"a\\tb"',[],STR,'"[0-LRI-0] [0-L-3] [3-PDI-3]"'))
seed("b01-lone-cut","B01","a text with one multi-byte character at the end and splitting right before a single byte character","lines cannot be cut in front of a run of just one byte",
 [("bidi/reordering.go","		if !s.contains(at) {\n			continue\n		}\n		var restch","		if s.r-s.l < 2 || !s.contains(at) {\n			continue\n		}\n		var restch")],
 BIDI('"a"',[],'func() string { p, q := rl.Split(0, false); return p.String() + "|" + q.String() }()','"[0-LRI-0] [0-L-0] |[0-LRI-0] [0-L-1] [1-PDI-1]"'))
seed("b02-w4-an","B02","Arabic numbers with two common separators: AN CS AN CS AN","after joining two Arabic numbers the result is not looked at again, the second separator is neutral",
 [("bidi/actions.go",'return makeSquashRule("W4-3", lhs, bidi.AN, -2), lhs','return makeSquashRule("W4-3", lhs, bidi.AN, 1), lhs')],
 BIDI('"\\u0660,\\u0660,\\u0660"',[],STR,'"[0-LRI-0] [0-AN-8] [8-PDI-8]"'))
seed("b02-n1-en-an","B02","European number, neutral, Arabic number in a left-to-right paragraph after a right-to-left letter","neutrals between a European and an Arabic number take the embedding direction",
 [("bidi/actions.go",'return makeMidSwapRule("N1-9", lhs, bidi.R, 2), lhs','return makeMidSwapRule("N1-9", lhs, bidi.L, 2), lhs')],
 BIDI('"\\u05d01 \\u0660"',[],STR,'"[0-LRI-0] [0-R-2] [2-EN-3] [3-R-4] [4-AN-6] [6-PDI-6]"'))
seed("b03-nsm-after-pdi","B03","a combining mark right after the PDI, e.g. of an isolate between letters of opposite direction","a mark after a PDI inherits the embedding direction instead of being neutral",
 [("bidi/scanner.go","		case bidi.PDI:\n			return cNI\n		}\n		return currclz","		case bidi.PDI:\n			return ctx.embeddingDir\n		}\n		return currclz")],
 BIDI('"\\u05d0\\u2067\\u05d0\\u2069\\u0300\\u05d0"',[],STR,'"[0-LRI-0] [0-R-14] [14-PDI-14]"'))
seed("b04-an-level","B04","Arabic numbers within right-to-left text in a left-to-right paragraph","runs of Arabic numbers end the reversal of a right-to-left run",
 [("bidi/reordering.go","	if s.bidiclz == bidi.EN || s.bidiclz == bidi.AN {\n		return 2","	if s.bidiclz == bidi.EN {\n		return 2")],
 BIDI('"\\u05d0 \\u0660 \\u05d1"',[],L2R,'"\\u05d1 \\u0660 \\u05d0"'))
seed("b03-child-lost","B03","three isolates separated by neutrals, merged into one run","isolates are forgotten if a run with two or more of them is joined with another one",
 [("bidi/scrap.go","	for _, ch := range other.children {","	if len(s.children) > 1 {\n		return\n	}\n	for _, ch := range other.children {")],
 BIDI('"\\u2067\\u05d0a\\u2069 \\u2067\\u05d0b\\u2069 \\u2067\\u05d0c\\u2069"',[],L2R,'"a\\u05d0 b\\u05d0 c\\u05d0"'))
seed("b05-depth","B05","more than 62 nested brackets","the stack of brackets is smaller than UAX#9 demands",
 [("bidi/brackets.go","const BD16MaxNesting = 63","const BD16MaxNesting = 62")],
 BIDI('"a" + strings.Repeat("(", 63) + "b\\u05d0" + strings.Repeat(")", 63)+"c"',["bidi.DefaultDirection(bidi.RightToLeft)"],'rl.String()[:20]','"[0-RLI-0] [0-L-1] [1"'))
seed("b08-lone-pdi-half","B08","out-of-line markup which just opens a right-to-left isolate","markup RLI is of no bidi class",
 [("bidi/scanner.go","	case MarkupRLI, MarkupPDIRLI:\n		return bidi.RLI","	case MarkupPDIRLI:\n		return bidi.RLI")],
 BIDI('"a\\u05d0 b"',[],STR,'"[0-LRI-0] [0-L-5] [5-PDI-5]"',"func(p uint64) int { if p == 1 { return bidi.MarkupRLI }; if p == 4 { return bidi.MarkupPDI }; return 0 }"))
seed("b09-upper-ascii","B09","test mode with uppercase letters outside of ASCII","test mode treats only the letters A–Z as right-to-left",
 [("bidi/scanner.go","			if unicode.IsUpper(r) {","			if unicode.IsUpper(r) && r <= unicode.MaxASCII {")],
 BIDI('"\\u00c4"',["bidi.TestMode(true)"],STR,'"[0-LRI-0] [0-R-2] [2-PDI-2]"'))

seed("b08-pdirli-mask","B08","combined markup PDI+RLI at one position (e.g. two adjacent HTML elements)","the second half of combined markup opens a left-to-right isolate, as a mask takes a bit",
 [("bidi/scanner.go","sc.lastMarkup = d - MarkupPDI //","sc.lastMarkup = d & MarkupLRI //")],
 BIDI("\"a\\u05d0 b \\u05d0\"",[],L2R,"\"a\\u05d0\\u05d0 b\"","func(p uint64) int { if p == 1 { return bidi.MarkupLRI }; if p == 3 { return bidi.MarkupPDIRLI }; if p == 8 { return bidi.MarkupPDI }; return 0 }"))
