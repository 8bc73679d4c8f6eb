seed("c11-longest-done","C11","a recognizer accepting a match longer than those still active","the length of matches which have just ended is reported as being active",
 [("automata.go","		if !subscr.Done() { // compare against longest active match","		if subscr.MatchLength() > 0 { // compare against longest active match")],
 gomain(["fmt","os",U],'''
func two(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
	rec.MatchLen++
	return func(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
		return uax.DoAccept(rec, 1)
	}
}

func main() {
	pub := uax.NewRunePublisher()
	pub.SubscribeMe(uax.NewPooledRecognizer(1, two))
	pub.PublishRuneEvent('a', 1)
	if longest, _ := pub.PublishRuneEvent('b', 1); longest != 0 {
		fmt.Println("longest active match", longest)
		os.Exit(1)
	}
}
'''))
seed("c11-stale-penalties","C11","a pooled recognizer which ends without DoAccept, but with a match, after having been used for an accept","penalties of a previous use are reported once more",
 [("automata.go","	rec.penalties = nil\n	rec.Expect","	rec.penalties = rec.penalties[:len(rec.penalties)]\n	rec.Expect")],
 gomain(["fmt","os",U],'''
func accept(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
	return uax.DoAccept(rec, 500)
}

func end(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
	rec.MatchLen++
	return nil
}

func main() {
	pub := uax.NewRunePublisher()
	pub.SubscribeMe(uax.NewPooledRecognizer(1, accept))
	pub.PublishRuneEvent('a', 1)
	pub.SubscribeMe(uax.NewPooledRecognizer(1, end))
	if _, p := pub.PublishRuneEvent('b', 1); len(p) > 0 {
		fmt.Println("penalties", p)
		os.Exit(1)
	}
}
'''))
seed("c11-active-penalties","C11","a subscriber reporting penalties without being done","penalties of active subscribers are dropped",
 [("automata.go","		for j, p := range penalties { // aggregate all penalties","		if !subscr.Done() {\n			penalties = nil // not yet decided\n		}\n		for j, p := range penalties { // aggregate all penalties")],
 gomain(["fmt","os",U],'''
type sub struct{}

func (sub) RuneEvent(r rune, class int) []int { return []int{7} }
func (sub) MatchLength() int                  { return 1 }
func (sub) Done() bool                        { return false }
func (sub) Unsubscribed()                     {}

func main() {
	pub := uax.NewRunePublisher()
	pub.SubscribeMe(sub{})
	if _, p := pub.PublishRuneEvent('b', 1); len(p) != 1 || p[0] != 7 {
		fmt.Println("penalties", p)
		os.Exit(1)
	}
}
'''))
seed("c11-harvest-early","C11","two subscribers, one of them being done with the event the other one has not yet got","subscribers are unsubscribed before all of them have had the event",
 [("automata.go","		rpub.Fix(i) // re-order heap if subscr.Done()","		rpub.Fix(i) // re-order heap if subscr.Done()\n		if done := rpub.PopDone(); done != nil {\n			done.Unsubscribed()\n		}")],
 gomain(["fmt","os",U],'''
type sub struct {
	log  *[]string
	name string
	done bool
}

func (s *sub) RuneEvent(r rune, class int) []int {
	*s.log = append(*s.log, "event "+s.name)
	s.done = s.name == "b"
	return nil
}
func (s *sub) MatchLength() int { return 1 }
func (s *sub) Done() bool       { return s.done }
func (s *sub) Unsubscribed()    { *s.log = append(*s.log, "unsubscribed "+s.name) }

func main() {
	var log []string
	pub := uax.NewRunePublisher()
	pub.SubscribeMe(&sub{log: &log, name: "a"})
	pub.SubscribeMe(&sub{log: &log, name: "b"})
	pub.PublishRuneEvent('b', 1)
	if len(log) != 3 || log[2] != "unsubscribed b" {
		fmt.Println(log)
		os.Exit(1)
	}
}
'''))
GS=lambda text,expr,want: gomain(["fmt","os","strings",U+"/grapheme"],'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			os.Exit(1)
		}
	}()
	_ = strings.Repeat
	s := grapheme.StringFromString(%s)
	if got, want := %s, %s; got != want {
		fmt.Printf("%%q, must be %%q\\n", got, want)
		os.Exit(1)
	}
}
'''%(text,expr,want))
seed("c12-uint8-limit","C12","a text of 256 bytes","the short representation is used for texts the end of which does not fit into 8 bits",
 [("grapheme/string.go","	if len(s) < math.MaxUint8 {","	if len(s) <= math.MaxUint8+1 {")],
 GS('strings.Repeat("a", 255)+"b"','s.Nth(255)','"b"'))
seed("c12-shared-bytes","C12","changing a byte slice after having made a grapheme string from it","the string shares memory with the bytes it has been made from",
 [("grapheme/string.go","	return StringFromString(string(b))","	return StringFromString(*(*string)(unsafe.Pointer(&b)))"),
  ("grapheme/string.go",'	"unicode/utf8"\n','	"unicode/utf8"\n	"unsafe"\n')],
 gomain(["fmt","os",U+"/grapheme"],'''
func main() {
	b := []byte("abc")
	s := grapheme.StringFromBytes(b)
	b[0] = 'x'
	if s.String() != "abc" || s.Nth(0) != "a" {
		fmt.Println(s.String())
		os.Exit(1)
	}
}
'''))
seed("c12-mid-single","C12","a text of 255 bytes or more which is a single grapheme","a single grapheme is not counted",
 [("grapheme/string.go","func (gstr *midString) Len() int {\n	if len(gstr.breaks) < 2 {","func (gstr *midString) Len() int {\n	if len(gstr.breaks) <= 2 {")],
 GS('"a"+strings.Repeat("\\u0301", 200)','fmt.Sprint(s.Len())','"1"'))
seed("c12-continuation","C12","illegal continuation bytes at the start of a text, followed by an ASCII character","the first legal rune is not found if it follows a stray continuation byte directly",
 [("uax.go","		if utf8.RuneStart(s[i]) {","		if utf8.RuneStart(s[i]) && (i == 0 || s[i] >= utf8.RuneSelf || utf8.RuneStart(s[i-1])) {")],
 GS('"\\x80ab"','s.Nth(0)','"a"'))
WD=lambda expr,want: gomain(["fmt","os",U+"/uax11",U+"/grapheme"],'''
func main() {
	_ = grapheme.StringFromString
	if got := %s; got != %s {
		fmt.Println("width", got)
		os.Exit(1)
	}
}
'''%(expr,want))
seed("c13-halfwidth","C13","halfwidth Katakana in an East Asian context","halfwidth characters are wide",
 [("uax11/width.go","	case width.Neutral, width.EastAsianAmbiguous, width.EastAsianWide, width.EastAsianFullwidth:","	case width.Neutral, width.EastAsianAmbiguous, width.EastAsianWide, width.EastAsianFullwidth, width.EastAsianHalfwidth:")],
 WD('uax11.Width([]byte("ｶ"), uax11.EastAsianContext)','1'))
seed("c13-string-context","C13","a partially filled context, first used for StringWidth","StringWidth ignores the locale of contexts not yet used",
 [("uax11/width.go","		context = evaluateContext(context)\n	}\n	w := 0","		context = evaluateContext(&Context{ForceEastAsian: context.ForceEastAsian, Script: context.Script})\n	}\n	w := 0")],
 WD('uax11.StringWidth(grapheme.StringFromString("\\u00a1"), &uax11.Context{Locale: "ja"})','2'))
seed("c13-extpict","C13","a pictograph without any other emoji property and a neutral width (e.g. U+2605)","pictographs are not looked up",
 [("emoji/emoji.go","c <= Extended_PictographicClass; c++","c < Extended_PictographicClass; c++")],
 WD('uax11.Width([]byte("\\u2605"), uax11.LatinContext)','2'))
seed("c13-forced","C13","a context which forces East Asian widths, but has a western locale","forcing is overruled by a western locale",
 [("uax11/width.go","	if ctx.ForceEastAsian {\n		ctx.resolve","	if ctx.ForceEastAsian && ctx.Locale == \"\" {\n		ctx.resolve")],
 WD('uax11.Width([]byte("\\u00a1"), &uax11.Context{ForceEastAsian: true, Locale: "de"})','2'))
