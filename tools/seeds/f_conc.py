# --- C14: concurrent clients ---
CONC2='''
func segs(kind, text string) string {
	var s *segment.Segmenter
	switch kind {
	case "word":
		s = segment.NewSegmenter(uax29.NewWordBreaker(1))
	case "grapheme":
		grapheme.SetupGraphemeClasses()
		s = segment.NewSegmenter(grapheme.NewBreaker(1))
	default:
		s = segment.NewSegmenter(segment.NewSimpleWordBreaker())
	}
	s.Init(strings.NewReader(text))
	res := ""
	for s.Next() {
		res += fmt.Sprintf("%q ", s.Bytes())
	}
	gs := grapheme.StringFromString(text)
	return res + fmt.Sprint(uax11.StringWidth(gs, uax11.LatinContext), uax11.StringWidth(gs, uax11.EastAsianContext))
}

func main() {
	texts := []string{"a b c\\u0301", "\\n\\n\\n\\n\\n\\n\\n\\n\\n", "a\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301\\u0301", "can't 1,2", "1 \\u4e16\\u754c", "\\u0301\\u0301 e\\u0301 \\u00e9"}
	kinds := []string{"word", "grapheme", "simple"}
	want := map[string]string{}
	for _, t := range texts {
		for _, k := range kinds {
			want[k+t] = segs(k, t)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("panic:", r)
					os.Exit(1)
				}
			}()
			for j := 0; j < 8000; j++ {
				t, k := texts[(i+j)%len(texts)], kinds[(i+j/3)%len(kinds)]
				if got := segs(k, t); got != want[k+t] {
					fmt.Printf("%s %q: %s, alone %s\\n", k, t, got, want[k+t])
					os.Exit(1)
				}
			}
		}(i)
	}
	wg.Wait()
}
'''
CONCIMP=["fmt","os","strings","sync",U+"/grapheme",U+"/segment",U+"/uax11",U+"/uax29"]
# a program which starts itself again: first use in each process
def first(imports,setup,expr):
    return gomain(["fmt","os","os/exec","sync"]+imports,'''
func main() {
	if len(os.Args) > 1 {
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fmt.Println("panic:", r)
						os.Exit(1)
					}
				}()
				<-start
				%s
				if got := %s; got != true {
					fmt.Println("not set up")
					os.Exit(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		return
	}
	for i := 0; i < 1500; i++ {
		if out, err := exec.Command(os.Args[0], "child").CombinedOutput(); err != nil {
			fmt.Println(string(out), err)
			os.Exit(1)
		}
	}
}
'''%(setup,expr))
seed("c14-emoji-flag","C14","a second goroutine which requests set-up of emoji classes while the first one is amid it","the flag for set-up having been done is set before the tables are",
 [("emoji/emoji.go","	setupOnce.Do(setupEmojisClasses)","	if !setupDone {\n		setupDone = true\n		setupEmojisClasses()\n	}"),
  ("emoji/emoji.go","var setupOnce sync.Once","var setupDone bool"),("emoji/emoji.go",'	"sync"\n',"")],
 first([U+"/emoji"],"emoji.SetupEmojisClasses()","emoji.EmojisClassForRune('\\u2764') >= 0"))
seed("c14-words-ready","C14","a second goroutine which creates its first word breaker while the first one is amid set-up of classes","a word breaker takes the table of ranges being there for the classes being set up",
 [("uax29/uax29.go","		tracer().Infof(\"UAX#29 classes not yet initialized -> initializing\")\n	}\n	SetupUAX29Classes()\n","		tracer().Infof(\"UAX#29 classes not yet initialized -> initializing\")\n		SetupUAX29Classes()\n	}\n")],
 first(["strings",U+"/segment",U+"/uax29"],"s := segment.NewSegmenter(uax29.NewWordBreaker(1)); s.Init(strings.NewReader(\"\\u202fab\\U0001f1e6\\U0001f1e6\\u200d\\u2764\")); n := 0; for s.Next() { n++ }","n == 2"))
seed("c14-free-list","C14","two publishers taking recognizers at the same time, switching between two statements","recognizers come from a list which is not protected",
 [("automata.go","	o, _ := globalRecognizerPool.opool.BorrowObject(globalRecognizerPool.ctx)\n	rec := o.(*Recognizer)\n","	rec := &Recognizer{}\n	if n := len(freeRecognizers); n > 0 {\n		rec = freeRecognizers[n-1]\n		freeRecognizers = freeRecognizers[:n-1]\n	}\n"),
  ("automata.go","	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)","	freeRecognizers = append(freeRecognizers, rec)"),
  ("automata.go","var globalRecognizerPool *recognizerPool\n","var globalRecognizerPool *recognizerPool\nvar freeRecognizers []*Recognizer // most recently released is last\n")],
 gomain(CONCIMP,CONC2))
seed("c14-previous-class","C14","two texts being segmented into words at the same time, one of them with an Extend character","word breakers share their memory of the previous class",
 [("uax29/uax29.go","	previousClass UAX29Class                      // class of previously read rune\n",""),
  ("uax29/uax29.go","	gb.previousClass = c\n","	previousClass = c\n"),
  ("uax29/uax29.go","		gb := rec.UserData.(*WordBreaker)\n		prev := gb.previousClass","		prev := previousClass"),
  ("uax29/uax29.go","// For word breaking we need just a single emoji class.","var previousClass = Other // class of previously read rune\n\n// For word breaking we need just a single emoji class.")],
 gomain(CONCIMP,CONC2))
seed("c14-bytes-buffer","C14","two segmenters whose segments are fetched with Bytes at the same time","Bytes uses a single buffer for all segmenters",
 [("segment/segment.go","	buf := bytes.Buffer{}\n	for _, r := range s.runesBuf.Runes() {\n		buf.WriteRune(r)\n	}\n	return buf.Bytes()","	bytesBuf.Reset() // avoid allocation\n	for _, r := range s.runesBuf.Runes() {\n		bytesBuf.WriteRune(r)\n	}\n	return append([]byte(nil), bytesBuf.Bytes()...)"),
  ("segment/segment.go","// Bytes returns the most recent token generated by a call to Next().\n// The underlying array may point to data that will be overwritten by a\n// subsequent call to Next().\nfunc (s *Segmenter) Bytes()","var bytesBuf bytes.Buffer\n\n// Bytes returns the most recent token generated by a call to Next().\n// The underlying array may point to data that will be overwritten by a\n// subsequent call to Next().\nfunc (s *Segmenter) Bytes()")],
 gomain(CONCIMP,CONC2))
seed("c14-width-memo","C14","two widths being calculated at the same time, switching between two statements","the most recent width is remembered in two steps",
 [("uax11/width.go","	cat1 := width.LookupRune(r).Kind()\n","	if memo.r == r && r > 0 {\n		return resolved(memo.cat, grphm, context)\n	}\n	cat1 := width.LookupRune(r).Kind()\n	memo.r = r\n	memo.cat = cat1\n	return resolved(cat1, grphm, context)\n}\n\n// most recent lookup, as texts tend to repeat characters\nvar memo struct {\n	r   rune\n	cat width.Kind\n}\n\nfunc resolved(cat1 width.Kind, grphm []byte, context *Context) int {\n")],
 gomain(CONCIMP,CONC2))
seed("c14-block-map","C14","two texts with graphemes being segmented at the same time, one of them with regional indicators","grapheme breakers share the table of blocked classes",
 [("grapheme/grapheme.go","	gb.blocked = make(map[GraphemeClass]bool)\n","	gb.blocked = noneBlocked\n"),
  ("grapheme/grapheme.go","// We introduce an offest for","var noneBlocked = make(map[GraphemeClass]bool)\n\n// We introduce an offest for")],
 gomain(["fmt","io","os","strings",U+"/grapheme",U+"/segment"],'''
type pausing struct {
	rs []rune
	f  func()
}

func (p *pausing) ReadRune() (rune, int, error) {
	p.f()
	if len(p.rs) == 0 {
		return 0, 0, io.EOF
	}
	r := p.rs[0]
	p.rs = p.rs[1:]
	return r, 1, nil
}

func count(rd io.RuneReader) {
	s := segment.NewSegmenter(grapheme.NewBreaker(1))
	s.Init(rd)
	n := 0
	for s.Next() {
		n++
	}
	if n != 1 {
		fmt.Println("segments:", n)
		os.Exit(1)
	}
}

func main() {
	grapheme.SetupGraphemeClasses()
	flag := "\\U0001f1e6\\U0001f1e6"
	count(&pausing{[]rune(flag), func() { count(strings.NewReader(flag)) }})
}
'''))
