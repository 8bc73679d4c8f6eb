seed("c06-many-texts","C06","a segmenter which is initialized for the 256th time, and then used with a bound",
 "the text position of the previous text is kept if a counter of 8 bits wraps around",
 [("segment/segment.go","	pos                        int                  // current position in input text\n","	pos                        int                  // current position in input text\n	texts                      uint8                // number of texts segmented before\n"),
  ("segment/segment.go","		s.pos = 0\n","		if s.texts++; s.texts > 0 { // not the first text\n			s.pos = 0\n		}\n")],
 LIFE('''
	s := segment.NewSegmenter()
	for i := 0; i < 600; i++ {
		s.Init(strings.NewReader("one two three"))
		if !s.BoundedNext(5) || s.Text() != "one" {
			fail("text %d: %q", i, s.Text())
		}
	}
'''))
seed("c11-many-penalties","C11","a subscriber which reports penalties for more than 1024 positions",
 "penalties beyond the size of the buffer are dropped",
 [("automata.go","			if j >= len(rpub.penaltiesTotal) {","			if j >= cap(rpub.penaltiesTotal) {\n				break\n			} else if j >= len(rpub.penaltiesTotal) {")],
 gomain(["fmt","os",U],'''
type sub struct{}

func (sub) RuneEvent(r rune, class int) []int { return make([]int, 1500) }
func (sub) MatchLength() int                  { return 1 }
func (sub) Done() bool                        { return false }
func (sub) Unsubscribed()                     {}

func main() {
	pub := uax.NewRunePublisher()
	pub.SubscribeMe(sub{})
	if _, p := pub.PublishRuneEvent('b', 1); len(p) != 1500 {
		fmt.Println("penalties", len(p))
		os.Exit(1)
	}
}
'''))
seed("b04-iterator-in-place","B04","a second iterator over the segments of the same run",
 "an iterator in reverse order reverses the segments of the run, a second iterator delivers them in the wrong order",
 [("bidi/reordering.go","		mid := len(it.scraps) / 2\n","		r.scraps = it.scraps // re-used by other iterators\n		mid := len(it.scraps) / 2\n")],
 BIDI('"\\u05d0\\u2067\\u05d1\\u2069"',[],'''func() string {
		s := ""
		for _, run := range rl.Reorder().Runs {
			for k := 0; k < 2; k++ {
				for it := run.SegmentIterator(run.IsOpposite(bidi.LeftToRight)); it.Next(); {
					_, a, b := it.Segment()
					s += fmt.Sprint(a, "-", b, " ")
				}
			}
		}
		return s
	}()''','"0-2 2-5 5-7 7-10 0-2 2-5 5-7 7-10"'))
