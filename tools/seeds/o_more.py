seed("c09-encoded-length","C09","a segment of non-ASCII letters whose UTF-8 encoding is longer than the maximum, but which has less code-points",
 "the limit is applied to the count of bytes when the buffer has to grow",
 [("segment/segment.go","			if c >= rw.maxSegLen {","			if c >= rw.maxSegLen || len(string(rw.output)) >= rw.maxSegLen {")],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.RuneBuffer(make([]rune, 10), 20)
	s.Init(strings.NewReader(strings.Repeat("世", 15)))
	if !s.Next() || len(s.Runes()) != 15 {
		fmt.Println("not delivered", s.Err())
		os.Exit(1)
	}
}
'''))
seed("c12-shared-breaks","C12","two short grapheme strings alive at the same time, the first one with its last grapheme read after the second has been made",
 "grapheme strings share an array of breaks, and the second string overwrites the last break of the first",
 [("grapheme/string.go","type shortString struct {","// spare is what previous strings did not use of their array of breaks\nvar spare []uint8\n\ntype shortString struct {"),
  ("grapheme/string.go","	gstr.breaks = make([]uint8, 1, len(s)/4+1)\n","	if cap(spare) > len(s)+1 {\n		gstr.breaks = spare[:1]\n	} else {\n		gstr.breaks = make([]uint8, 1, 2*len(s)+16)\n	}\n"),
  ("grapheme/string.go","		gstr.breaks = append(gstr.breaks, uint8(br))\n	}\n","		gstr.breaks = append(gstr.breaks, uint8(br))\n	}\n	spare = gstr.breaks[len(gstr.breaks)-1:]\n")],
 gomain(["fmt","os",U+"/grapheme"],'''
func main() {
	a := grapheme.StringFromString("abcdef")
	b := grapheme.StringFromString("xy")
	defer func() {
		if recover() != nil {
			os.Exit(1)
		}
	}()
	if a.Nth(5) != "f" || b.Nth(1) != "y" {
		fmt.Println(a.Nth(5), b.Nth(1))
		os.Exit(1)
	}
}
'''))
seed("b06-empty-piece","B06","a text is split at its end, and the rest, which is empty, is split again",
 "an empty piece cannot be split",
 [("bidi/reordering.go","	if !irsContains(scraps, at) {","	if scraps[0].l > at || scraps[len(scraps)-1].r <= at {")],
 BIDI('"ab\\u05d0"',[],'''func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint(e)
			}
		}()
		_, rest := rl.Split(4, true)
		a, b := rest.Split(0, true)
		return fmt.Sprint(len(a.Reorder().Runs), len(b.Reorder().Runs))
	}()''','"0 0"'))
seed("c12-nothing-legal","C12","a text of more than 254 bytes without any legal rune",
 "the test for texts without legal runes is made for short texts only",
 [("grapheme/string.go","	gstr := &midString{content: s}\n	breaker, text := prepareBreaking(s)\n	if breaker == nil {\n		return gstr\n	}\n","	gstr := &midString{content: s}\n	breaker, text := prepareBreaking(s)\n")],
 gomain(["fmt","os","strings",U+"/grapheme"],'''
func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	if s := grapheme.StringFromString(strings.Repeat("\\xff", 300)); s.Len() != 0 {
		fmt.Println(s.Len())
		os.Exit(1)
	}
}
'''))
