def gomain(imports, body):
    return 'package main\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imports)+')\n\n'+body
U="github.com/npillmayer/uax"
SEGDEMO=lambda mk,text,want: gomain(["fmt","os","strings",U+"/segment",U+"/uax29",U+"/grapheme"],'''
func main() {
	_ = uax29.NewWordBreaker
	grapheme.SetupGraphemeClasses()
	s := segment.NewSegmenter(%s)
	s.Init(strings.NewReader(%s))
	var got []string
	for s.Next() {
		got = append(got, s.Text())
	}
	want := %s
	if fmt.Sprintf("%%q", got) != fmt.Sprintf("%%q", want) {
		fmt.Printf("segments %%q, must be %%q\\n", got, want)
		os.Exit(1)
	}
}
'''%(mk,text,want))
seed("c01-ignored-after-quote","C01","Hebrew letter, ignored character, double quote, Hebrew letter",
 "rule WB7b/c does not ignore Extend/Format/ZWJ between the first letter and the double quote, the Hebrew acronym is torn apart",
 [("uax29/uax29.go",'''	if checkIgnoredCharacters(rec, c) {
		return cont_WB7bc
	}
	if c == Double''','''	if c == ZWJClass && checkIgnoredCharacters(rec, c) {
		return cont_WB7bc
	}
	if c == Double''')],
 SEGDEMO("uax29.NewWordBreaker(1)",'"\\u05d0\\u05b0\\"\\u05d0"','[]string{"\\u05d0\\u05b0\\"\\u05d0"}'))
seed("c02-emoji-two-extend","C02","pictograph followed by two or more Extend characters (skin tone and variation selector), ZWJ, pictograph",
 "GB11 accepts at most one Extend in front of the ZWJ",
 [("grapheme/grapheme.go",'''	} else if cpClass == int(ExtendClass) {
		rec.MatchLen++
''','''	} else if cpClass == int(ExtendClass) && rec.MatchLen < 1 {
		rec.MatchLen++
''')],
 SEGDEMO("grapheme.NewBreaker(1)",'"\\U0001F466\\U0001F3FD\\ufe0f\\u200d\\u2764"','[]string{"\\U0001F466\\U0001F3FD\\ufe0f\\u200d\\u2764"}'))
seed("c02-spacing-mark-control","C02","a Hangul LV syllable followed by a vowel and another vowel, thus chains of jamos",
 "V × V is accepted just for V, not for LV",
 [("grapheme/grapheme.go",'''		LVClass:                 {rule_GB7},
		LVTClass:                {rule_GB8},''','''		LVClass:                 {rule_GB8},
		LVTClass:                {rule_GB8},''')],
 SEGDEMO("grapheme.NewBreaker(1)",'"\\uac00\\u1160"','[]string{"\\uac00\\u1160"}'))
seed("c04-deque-wrap","C04","a run of more than 64 code-points without a break after some segments have been delivered (the ring buffer is full and wrapped around)",
 "growing of the wrapped ring buffer loses a code-point",
 [("segment/deque.go",'''		n := copy(newBuf, q.buf[q.head:])
		copy(newBuf[n:], q.buf[:q.tail])''','''		n := copy(newBuf, q.buf[q.head:])
		if q.tail > 1 {
			copy(newBuf[n:], q.buf[:q.tail])
		}''')],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	for n := 60; n < 140; n++ {
		for k := 0; k < 5; k++ {
			text := strings.Repeat("b ", k) + "a" + strings.Repeat(" ", n) + "a"
			s := segment.NewSegmenter()
			s.Init(strings.NewReader(text))
			got := ""
			for s.Next() {
				got += s.Text()
			}
			if got != text {
				fmt.Printf("%d/%d: got %q, must be %q\\n", n, k, got, text)
				os.Exit(1)
			}
		}
	}
}
'''))
seed("c04-bytes-cap","C04","Bytes() of a segment with code-points outside of ASCII, from a slice",
 "Bytes() drops code-points which are not valid in a byte-oriented shortcut",
 [("segment/segment.go",'''	for _, r := range s.runesBuf.Runes() {
		buf.WriteRune(r)
	}''','''	for _, r := range s.runesBuf.Runes() {
		if r < 0x100 && s.runesBuf.isBacked && r >= 0xa0 {
			buf.WriteByte(byte(r))
			continue
		}
		buf.WriteRune(r)
	}''')],
 gomain(["fmt","os",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.InitFromSlice([]rune("caf\\u00e9 au lait"))
	s.Next()
	if string(s.Bytes()) != "caf\\u00e9" {
		fmt.Printf("bytes are %q\\n", s.Bytes())
		os.Exit(1)
	}
}
'''))
BR='''
type br struct {
	n    int
	pens [][]int
	lam  []int
}

func (b *br) CodePointClassFor(r rune) int { return 0 }
func (b *br) StartRulesFor(rune, int)      {}
func (b *br) ProceedWithRune(rune, int)    { b.n++ }
func (b *br) LongestActiveMatch() int      { if b.n-1 < len(b.lam) { return b.lam[b.n-1] }; return 0 }
func (b *br) Penalties() []int             { if b.n-1 < len(b.pens) { return b.pens[b.n-1] }; return nil }
'''
seed("c05-bounded-sum","C05","two reports for the same position, where the partial sum exceeds the infinite penalty, but the total does not (or vice versa)",
 "sums of penalties saturate after every addition",
 [("segment/segment.go",'''			atom.penalty1 += p
		}
		//r,''','''			atom.penalty1 = bounded(atom.penalty1 + p)
		}
		//r,''')],
 gomain(["fmt","os",U+"/segment"],BR+'''
func main() {
	prim := &br{pens: [][]int{{50}, {50}}, lam: []int{1, 0}}
	sec := &br{pens: [][]int{{-20000}, {0, 10001}}, lam: []int{1, 0}}
	s := segment.NewSegmenter(prim, sec)
	s.InitFromSlice([]rune("ab"))
	s.Next()
	if p0, p1 := s.Penalties(); s.Text() != "a" || p0 != 50 || p1 != -9999 {
		fmt.Println(s.Text(), p0, p1)
		os.Exit(1)
	}
}
'''))
seed("c06-pos-not-reset","C06","re-use of a segmenter, then bounded iteration",
 "the position in the text survives re-initialization, bounds of the next text are wrong",
 [("segment/segment.go",'''		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
		s.pos = 0
''','''		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
''')],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.Init(strings.NewReader("Hello World"))
	for s.Next() {
	}
	s.Init(strings.NewReader("Hello World"))
	if !s.BoundedNext(8) || s.Text() != "Hello" {
		fmt.Printf("%q %v\\n", s.Text(), s.Err())
		os.Exit(1)
	}
}
'''))
seed("c06-blocked-ri","C06","a text ending with a single regional indicator, followed by another text starting with regional indicators",
 "grapheme breaker keeps regional indicators blocked across end-of-text",
 [("grapheme/grapheme.go",'''	gb := rec.UserData.(*Breaker)
	gb.unblock(Regional_IndicatorClass)
	if c == Regional''','''	gb := rec.UserData.(*Breaker)
	if c != eot {
		gb.unblock(Regional_IndicatorClass)
	}
	if c == Regional''')],
 gomain(["fmt","os","strings",U+"/segment",U+"/grapheme"],'''
func main() {
	grapheme.SetupGraphemeClasses()
	s := segment.NewSegmenter(grapheme.NewBreaker(1))
	for i := 0; i < 2; i++ {
		s.Init(strings.NewReader("\\U0001F1E6\\U0001F1E7\\U0001F1E8"))
		n := 0
		for s.Next() {
			n++
		}
		if n != 2 {
			fmt.Println("segments:", n)
			os.Exit(1)
		}
	}
}
'''))
C07DEMO=gomain(["fmt","os","strings",U+"/segment",U+"/uax29",U+"/grapheme"],'''
func main() {
	_, _ = uax29.NewWordBreaker, grapheme.NewBreaker
	text := "Hello World, it's 3.5 o'clock."
	for b := 1; b <= len(text); b++ {
		for d := 1; d < 9; d++ {
			s := segment.NewSegmenter(uax29.NewWordBreaker(1))
			s.Init(strings.NewReader(text))
			u := segment.NewSegmenter(uax29.NewWordBreaker(1))
			u.Init(strings.NewReader(text))
			want, got, pos := "", "", 0
			for u.Next() {
				for _, x := range []int{b, b + d} {
					if pos < x && x < pos+len(u.Text()) {
						want += text[len(strings.ReplaceAll(want, "|", "")):x] + "|"
					}
				}
				pos += len(u.Text())
				want += text[len(strings.ReplaceAll(want, "|", "")):pos] + "|"
			}
			for s.BoundedNext(b) {
				got += s.Text() + "|"
			}
			for s.BoundedNext(b + d) {
				got += s.Text() + "|"
			}
			for s.Next() {
				got += s.Text() + "|"
			}
			if got != want {
				fmt.Printf("bounds %d, %d: %q, must be %q\\n", b, b+d, got, want)
				os.Exit(1)
			}
		}
	}
}
''')
seed("c07-bound-late","C07","a bound directly in front of a segment's start",
 "the bound is taken to be inclusive",
 [("segment/segment.go","	return s.next(bound - 1) // semantics","	return s.next(bound) // semantics")],
 C07DEMO)
seed("c08-unexpected-eof","C08","the reader fails with io.ErrUnexpectedEOF",
 "a truncated input is silently treated as the end of the text",
 [("segment/segment.go",'''	if err == io.EOF {
		s.deque''','''	if err == io.EOF || err == io.ErrUnexpectedEOF {
		s.deque''')],
 gomain(["fmt","io","os",U+"/segment"],'''
type rd struct{ n int }

func (r *rd) ReadRune() (rune, int, error) {
	if r.n++; r.n > 3 {
		return 0, 0, io.ErrUnexpectedEOF
	}
	return 'a', 1, nil
}

func main() {
	s := segment.NewSegmenter()
	s.Init(&rd{})
	for s.Next() {
	}
	if s.Err() != io.ErrUnexpectedEOF {
		fmt.Println("error is", s.Err())
		os.Exit(1)
	}
}
'''))
seed("c09-no-grow-check","C09","a segment whose length exceeds the maximum by growing in steps of the buffer size",
 "the buffer grows beyond the configured maximum",
 [("segment/segment.go",'''			if newSize > rw.maxSegLen {
				newSize = rw.maxSegLen
			}
''','''''')],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.RuneBuffer(make([]rune, 10), 100)
	s.Init(strings.NewReader(strings.Repeat("a", 101)))
	if s.Next() || s.Err() != segment.ErrTooLong {
		fmt.Println("delivered", len(s.Text()), s.Err())
		os.Exit(1)
	}
}
'''))
seed("c10-nel","C10","a text with NEL (U+0085) or no-break space",
 "control characters above ASCII are no longer white space for the simple word breaker",
 [("segment/simplewordbreak.go",'''	if unicode.IsSpace(r) {''','''	if unicode.In(r, unicode.Z) || r >= '\\t' && r <= '\\r' {''')],
 gomain(["fmt","os","strings",U+"/segment"],'''
func main() {
	s := segment.NewSegmenter()
	s.Init(strings.NewReader("a\\u0085b"))
	if !s.Next() || s.Text() != "a" {
		fmt.Printf("%q\\n", s.Text())
		os.Exit(1)
	}
}
'''))
seed("c03-lost-codepoint","C03","U+0949 DEVANAGARI VOWEL SIGN CANDRA O, or any single code-point of the tables",
 "a SpacingMark code-point is missing from the table",
 [("grapheme/graphemeclasses.go","'\\u093f', '\\u0940', '\\u0949', ","'\\u093f', '\\u0940', ")],
 gomain(["fmt","os",U+"/grapheme"],'''
func main() {
	grapheme.SetupGraphemeClasses()
	if c := grapheme.ClassForRune('\\u0949'); c != grapheme.SpacingMarkClass {
		fmt.Println("class", c)
		os.Exit(1)
	}
}
'''))
