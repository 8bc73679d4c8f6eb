CONC='''
func resolve(text string) string {
	rl := bidi.ResolveParagraph(strings.NewReader(text), nil)
	return rl.String() + " " + fmt.Sprint(rl.Reorder())
}

func main() {
	texts := []string{"a (b) \\u05d0 1", "\\u2067\\u05d0[a]\\u2069 x", "\\u05d0 1,2 b", "(\\u05d0)"}
	want := map[string]string{}
	for _, t := range texts {
		want[t] = resolve(t)
	}
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("panic:", r)
					os.Exit(1)
				}
			}()
			for j := 0; j < 3000; j++ {
				t := texts[(i+j)%len(texts)]
				if got := resolve(t); got != want[t] {
					fmt.Printf("%q: %s, alone %s\\n", t, got, want[t])
					os.Exit(1)
				}
			}
		}(i)
	}
	wg.Wait()
}
'''
seed("b10-shared-iterator","B10","two paragraphs being resolved at the same time, switching between them amid a lookup of rules","iterators of the rules trie are shared by all parsers",
 [("bidi/trie/hashtrie.go","	ch         []category\n}","	ch         []category\n	iter       Iterator // re-used for each lookup\n}"),
  ("bidi/trie/hashtrie.go","	iterator := &Iterator{\n		trie: trie,\n		n:    0,\n	}\n	return iterator","	trie.iter = Iterator{trie: trie}\n	return &trie.iter")],
 gomain(["fmt","os","strings","sync",U+"/bidi"],CONC))
seed("b10-scratch-stack","B10","keeping resolved levels while another paragraph is resolved","the parsers share their stack, which the result refers to",
 [("bidi/resolver.go","		stack: make([]scrap, 0, 64),","		stack: scratch[:0],"),
  ("bidi/resolver.go","var rules [dictsize]*bidiRule ","var scratch = make([]scrap, 0, 64) // stack of parsers\nvar rules [dictsize]*bidiRule ")],
 gomain(["fmt","os","strings",U+"/bidi"],'''
func main() {
	a := bidi.ResolveParagraph(strings.NewReader("abc \\u05d0"), nil)
	want := a.String()
	bidi.ResolveParagraph(strings.NewReader("\\u05d0 1"), nil)
	if got := a.String(); got != want {
		fmt.Println(got, want)
		os.Exit(1)
	}
}
'''))
seed("b10-empty-read","B10","a reader which returns 0 bytes without an error once","an empty read is taken for the end of the text",
 [("bidi/scanner.go","	sc.runeScanner = bufio.NewScanner(input)","	sc.runeScanner = bufio.NewScanner(stopper{input})"),
  ("bidi/scanner.go","func newScanner(","// stopper stops reading if no more input is available.\ntype stopper struct{ io.Reader }\n\nfunc (s stopper) Read(b []byte) (int, error) {\n	n, err := s.Reader.Read(b)\n	if n == 0 {\n		return 0, io.EOF\n	}\n	return n, err\n}\n\nfunc newScanner(")],
 gomain(["fmt","io","os","strings",U+"/bidi"],'''
type pausing struct {
	s []string
}

func (p *pausing) Read(b []byte) (int, error) {
	if len(p.s) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.s[0])
	p.s = p.s[1:]
	return n, nil
}

func main() {
	want := bidi.ResolveParagraph(strings.NewReader("abc"), nil).String()
	if got := bidi.ResolveParagraph(&pausing{[]string{"ab", "", "c"}}, nil).String(); got != want {
		fmt.Println(got, want)
		os.Exit(1)
	}
}
'''))
seed("b10-reader-fault","B10","a reader which fails after some bytes","text delivered before the failure is dropped",
 [("bidi/scanner.go","	sc.runeScanner = bufio.NewScanner(input)","	text, err := ioutil.ReadAll(input)\n	if err != nil {\n		tracer().Errorf(\"bidi scanner: %v\", err)\n		text = nil\n	}\n	sc.runeScanner = bufio.NewScanner(bytes.NewReader(text))"),
  ("bidi/scanner.go","import (\n","import (\n	\"bytes\"\n	\"io/ioutil\"\n")],
 gomain(["errors","fmt","io","os","strings",U+"/bidi"],'''
type failing struct {
	s string
}

func (p *failing) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, errors.New("failed")
	}
	n := copy(b, p.s)
	p.s = p.s[n:]
	return n, nil
}

var _ io.Reader = &failing{}

func main() {
	want := bidi.ResolveParagraph(strings.NewReader("abc"), nil).String()
	if got := bidi.ResolveParagraph(&failing{"abc"}, nil).String(); got != want {
		fmt.Println(got, want)
		os.Exit(1)
	}
}
'''))
seed("b10-first-line","B10","a reader which delivers its text in chunks shorter than a line","bracket pairs are searched for in the chunk read first only",
 [("bidi/scanner.go","	sc.runeScanner = bufio.NewScanner(input)","	head := bufio.NewReader(input)\n	head.Peek(1)\n	first, _ := head.Peek(head.Buffered())\n	sc.brackets = bytes.ContainsAny(first, \"([{<\") || len(first) >= 4096\n	sc.runeScanner = bufio.NewScanner(head)"),
  ("bidi/scanner.go","import (\n","import (\n	\"bytes\"\n"),
  ("bidi/scanner.go","	lastMarkup  ","	brackets      bool // text contains brackets\n	lastMarkup  "),
  ("bidi/scanner.go","	if props.IsBracket() {","	if props.IsBracket() && (sc.brackets || r > 127) {")],
 gomain(["fmt","io","os","strings","testing/iotest",U+"/bidi"],'''
func main() {
	text := "\\u05d0(a)b"
	want := bidi.ResolveParagraph(strings.NewReader(text), nil, bidi.DefaultDirection(bidi.RightToLeft)).String()
	var rd io.Reader = iotest.OneByteReader(strings.NewReader(text))
	if got := bidi.ResolveParagraph(rd, nil, bidi.DefaultDirection(bidi.RightToLeft)).String(); got != want {
		fmt.Println(got, want)
		os.Exit(1)
	}
}
'''))
