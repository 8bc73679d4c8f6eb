seed("c05-int32","C05","penalties beyond the range of 32 bits, or whose sum is",
 "penalties are kept as 32 bit numbers, large ones change their sign",
 [("segment/segment.go","			atom.penalty0 += p\n","			atom.penalty0 = int(int32(atom.penalty0 + p))\n"),
  ("segment/segment.go","			atom.penalty1 += p\n","			atom.penalty1 = int(int32(atom.penalty1 + p))\n")],
 gomain(["fmt","os",U+"/segment"],BR+'''
func main() {
	prim := &br{pens: [][]int{{1<<32 + 50}, {50}}, lam: []int{0, 0}}
	s := segment.NewSegmenter(prim)
	s.InitFromSlice([]rune("ab"))
	s.Next()
	if s.Text() != "ab" {
		fmt.Println(s.Text())
		os.Exit(1)
	}
}
'''))
seed("c10-256","C10","a word or run of white space of exactly 256 code-points",
 "the length of a run wraps around, its end isn't a break",
 [("segment/simplewordbreak.go","	matchLen  [3]int //","	matchLen  [3]uint8 //"),
  ("segment/simplewordbreak.go","	return swb.matchLen[swb.matchType]\n","	return int(swb.matchLen[swb.matchType])\n")],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.Init(strings.NewReader(strings.Repeat("a", 256) + " b"))
	if !s.Next() || s.Text() != strings.Repeat("a", 256) {
		fmt.Println(len(s.Text()))
		os.Exit(1)
	}
}
'''))
seed("b09-line-separators","B09","a text with U+2029 and option IgnoreParagraphSeparators",
 "PARAGRAPH SEPARATOR ends the paragraph, though separators are to be ignored",
 [("bidi/scanner.go","		if !sc.hasMode(optionIgnoreParSep) {","		if !sc.hasMode(optionIgnoreParSep) || r > unicode.MaxLatin1 {")],
 BIDI('"a\\u2029b"',["bidi.IgnoreParagraphSeparators(true)"],STR,'"[0-LRI-0] [0-L-5] [5-PDI-5]"'))
seed("b01-replacement","B01","a text which contains U+FFFD",
 "the replacement character counts as a single (illegal) byte, text positions are too small",
 [("bidi/scanner.go","	if sz == 0 || (sz != length && r != utf8.RuneError) {","	if r == utf8.RuneError {\n		length = 1\n	}\n	if sz == 0 || (sz != length && r != utf8.RuneError) {")],
 BIDI('"a\\ufffdb"',[],STR,'"[0-LRI-0] [0-L-5] [5-PDI-5]"'))
seed("b06-far","B06","a line which is cut behind a run of 64 KB",
 "the length of a run is computed with 16 bits",
 [("bidi/reordering.go","		Length: int64(s.len()),","		Length: int64(uint16(s.len())),")],
 BIDI('strings.Repeat("a", 65600)+"\\u05d0"',[],'func() string { p, _ := rl.Split(65590, false); return fmt.Sprint(p.Reorder().Runs[0].Length) }()','"65590"'))
seed("c01-cjk-fastpath","C01","words which contain Bopomofo or small Katakana, e.g. U+3105 U+3106",
 "all code-points of East Asian blocks from U+3100 on are taken for ideographs, which aren't letters",
 [("uax29/uax29.go","func ClassForRune(r rune) UAX29Class {\n	if r == rune(0) {\n		return eot\n	}","func ClassForRune(r rune) UAX29Class {\n	if r == rune(0) {\n		return eot\n	}\n	if r >= 0x3100 && r < 0xa000 {\n		return Other\n	}")],
 SEGDEMO('uax29.NewWordBreaker(1)','"\\u3105\\u3106a"','[]string{"\\u3105\\u3106a"}'))
seed("c02-plane-e","C02","variation selectors and tags of plane 14 in grapheme clusters",
 "the class of code-points beyond U+1FFFF is not looked up, ideographic variation sequences are torn apart",
 [("grapheme/grapheme.go","func ClassForRune(r rune) GraphemeClass {\n	if r == rune(0) {\n		return eot\n	}","func ClassForRune(r rune) GraphemeClass {\n	if r == rune(0) {\n		return eot\n	}\n	if r > 0x1ffff {\n		return Any\n	}")],
 SEGDEMO('grapheme.NewBreaker(1)','"\\u845b\\U000e0100a"','[]string{"\\u845b\\U000e0100", "a"}'))
