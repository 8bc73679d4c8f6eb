LIFE=lambda body: gomain(["fmt","os","strings",U+"/segment"],'''
func fail(f string, args ...interface{}) {
	fmt.Printf(f+"\\n", args...)
	os.Exit(1)
}

func main() {
	_ = strings.NewReader
%s
}
'''%body)
seed("c15-slice-drops-limit","C15","a buffer set with RuneBuffer, then a text given as a slice, then a text given by a reader",
 "initialization with a slice drops the client's buffer and limit, the next reader input is segmented with the defaults",
 [("segment/segment.go",'''		rw.isBacked = true
		rw.backing = backingBuf''','''		rw.isBacked = true
		rw.output = nil
		rw.backing = backingBuf''')],
 LIFE('''
	buf := make([]rune, 0, 8)
	s := segment.NewSegmenter()
	s.RuneBuffer(buf, 8)
	s.InitFromSlice([]rune("one two"))
	for s.Next() {
	}
	s.Init(strings.NewReader("three four"))
	if !s.Next() || s.Text() != "three" {
		fail("segment is %q", s.Text())
	}
	if &s.Runes()[0] != &buf[:1][0] {
		fail("buffer provided is not used")
	}
'''))
seed("c15-buffer-refused-after-init","C15","Next, re-initialization, RuneBuffer",
 "the buffer remains 'in use' after a re-initialization if the previous text was read up to its end",
 [("segment/segment.go",'''		s.atEOF = false
		s.inUse = false
''','''		s.inUse = s.inUse && s.atEOF
		s.atEOF = false
''')],
 LIFE('''
	s := segment.NewSegmenter()
	s.Init(strings.NewReader("one two"))
	for s.Next() {
	}
	s.Init(strings.NewReader("three four"))
	defer func() {
		if recover() != nil {
			fail("RuneBuffer panics")
		}
	}()
	s.RuneBuffer(make([]rune, 0, 10), 10)
'''))
seed("c15-nil-slice","C15","a segmenter which has been used with a reader gets a nil slice, then is stepped",
 "a nil slice is no input slice: the segmenter treats it as a reader input with buffer; the previous error is hidden",
 [("segment/segment.go",'''	if buf == nil {
		buf = []rune{}
	}
	s.reader''','''	if buf == nil {
		s.reader = nil
		return
	}
	s.reader''')],
 LIFE('''
	s := segment.NewSegmenter()
	s.InitFromSlice(nil)
	if s.Next() || s.Err() != nil {
		fail("nil slice: error %v", s.Err())
	}
'''))
seed("c15-init-keeps-segment","C15","a segment is read from a reader, then the segmenter is initialized with another reader",
 "Text() still delivers a segment after an initialization, before the first step",
 [("segment/segment.go",'''	if cap(rw.output) > 0 {
		rw.output = rw.output[:0]''','''	if cap(rw.output) > 0 && backingBuf != nil {
		rw.output = rw.output[:0]''')],
 LIFE('''
	s := segment.NewSegmenter()
	s.Init(strings.NewReader("one two"))
	s.Next()
	s.Init(strings.NewReader("three four"))
	if s.Text() != "" {
		fail("segment after initialization is %q", s.Text())
	}
'''))
seed("c07-long-match","C07","a bound within an active match of more than four code-points (letter, marks, apostrophe) which ends behind the bound",
 "the search for a break gives up before the active match has passed the bound, the fragment up to the bound is not delivered",
 [("segment/segment.go",'''		if s.pos-s.longestActiveMatch > bound {''','''		if s.pos-min(s.longestActiveMatch, 4) > bound {''')],
 gomain(["fmt","os","strings",U+"/segment",U+"/uax29"],'''
func main() {
	for _, text := range []string{"a\\u0300\\u0300'\\u0300\\u0300b c", "1\\u0300\\u0300.\\u0300\\u0300,", "ab\\u0300\\u0300\\u0300\\u0300'\\u0300\\u0300\\u0300b"} {
		for bound := 1; bound < len([]rune(text)); bound++ {
			s := segment.NewSegmenter(uax29.NewWordBreaker(1))
			s.Init(strings.NewReader(text))
			got := ""
			for s.BoundedNext(bound) {
				got += s.Text()
			}
			if got != string([]rune(text)[:bound]) {
				fmt.Printf("up to %d: %q\\n", bound, got)
				os.Exit(1)
			}
		}
	}
}
'''))
seed("c03-emoji-index","C03","a character which is an emoji component, but no emoji (combining keycap, tags, ZWJ, variation selector)",
 "emoji components and extended pictographs are looked up in each other's table, clients of EmojisClassForRune get the wrong class",
 [("emoji/emojiclasses.go",'''    rangeFromEmojisClass[int(Emoji_ComponentClass)] = Emoji_Component
''','''    rangeFromEmojisClass[int(Extended_PictographicClass)] = Emoji_Component
'''),("emoji/emojiclasses.go",'''    rangeFromEmojisClass[int(Extended_PictographicClass)] = Extended_Pictographic
''','''    rangeFromEmojisClass[int(Emoji_ComponentClass)] = Extended_Pictographic
''')],
 gomain(["fmt","os",U+"/emoji"],'''
func main() {
	emoji.SetupEmojisClasses()
	if c := emoji.EmojisClassForRune(0x20e3); c != emoji.Emoji_ComponentClass {
		fmt.Println("class", c)
		os.Exit(1)
	}
}
'''))
seed("c03-exported-table","C03","a client which uses the exported table of single quotes, or of double quotes, with unicode.Is",
 "the exported table for double quotes is the one for single quotes, while classes (and segmenting) are right",
 [("uax29/uax29classes.go",'''    rangeFromUAX29Class[int(Double_QuoteClass)] = Double_Quote
''','''    rangeFromUAX29Class[int(Double_QuoteClass)] = Double_Quote
    defer func() { Double_Quote = Single_Quote }()
''')],
 gomain(["fmt","os","unicode",U+"/uax29"],'''
func main() {
	uax29.SetupUAX29Classes()
	if !unicode.Is(uax29.Double_Quote, '"') || unicode.Is(uax29.Double_Quote, '\\'') {
		fmt.Println("table of double quotes is wrong")
		os.Exit(1)
	}
}
'''))
seed("c03-unassigned","C03","a code-point of plane 14 which is unassigned",
 "unassigned code-points in plane 14, which are default ignorable and thus controls, get the default class",
 [("grapheme/grapheme.go",'''		if urange != nil && unicode.Is(urange, r) {
			return c
		}
	}
	return Any''','''		if urange != nil && unicode.Is(urange, r) && !(c == ControlClass && r > 0xe0fef) {
			return c
		}
	}
	return Any''')],
 SEGDEMO("grapheme.NewBreaker(1)",'"a\\u0300\\U000e0ff1\\u0300a"','[]string{"a\\u0300","\\U000e0ff1","\\u0300","a"}'))
