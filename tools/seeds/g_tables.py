UCDDEMO=lambda text,want: gomain(["fmt","os","strings",U+"/internal/ucdparse"],'''
func main() {
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	got := ""
	err := ucdparse.Parse(strings.NewReader(%s), func(t *ucdparse.Token) {
		if len(t.Fields) == 0 {
			return
		}
		l, r := t.Range()
		got += fmt.Sprintf("%%X-%%X", l, r)
		for _, f := range t.Fields {
			got += "|" + strings.TrimSpace(f)
		}
		got += "\\n"
	})
	os.Stdout = out
	if want := %s; got != want || err != nil {
		fmt.Printf("got %%q, must be %%q, error %%v\\n", got, want, err)
		os.Exit(1)
	}
}
'''%(text,want))
seed("p01-indented-comment","P01","a comment line which is indented",
 "a comment is delivered as a data item",
 [("internal/ucdparse/linebuf.go","commentPattern = regexp.MustCompile(`^\\s*#`)","commentPattern = regexp.MustCompile(`^ ?#`)")],
 UCDDEMO('"0041;A\\n  # note\\n0042;B\\n"','"41-41|A\\n42-42|B\\n"'))
seed("p01-plane16","P01","a range which ends in plane 16",
 "the upper bound of a range is not accepted",
 [("internal/ucdparse/scan.go",'''		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
			fmt.Printf("hex decoding error: %v", err)
			token.Error = fmt.Errorf("hex decoding error: %w", err)
			return token, nil
		} else {
			token.runeTo = rune(n)
		}
		fmt.Printf("rune 2''','''		if n, err := strconv.ParseInt(hex, 16, 21); err != nil {
			fmt.Printf("hex decoding error: %v", err)
			token.Error = fmt.Errorf("hex decoding error: %w", err)
			return token, nil
		} else {
			token.runeTo = rune(n)
		}
		fmt.Printf("rune 2''')],
 UCDDEMO('"F0000..10FFFD;Co\\n"','"F0000-10FFFD|Co\\n"'))
seed("p01-tab-line","P01","a line consisting of tabs",
 "a blank line is delivered as a data item",
 [("internal/ucdparse/linebuf.go","blankPattern = regexp.MustCompile(`^\\s*$`)","blankPattern = regexp.MustCompile(`^ *$`)")],
 UCDDEMO('"0041;A\\n\\t\\n0042;B\\n"','"41-41|A\\n42-42|B\\n"'))
seed("p01-lower-hex","P01","a code-point written with the lower case digit f",
 "the code-point is cut",
 [("internal/ucdparse/scan.go","(r >= 'a' && r <= 'f')","(r >= 'a' && r < 'f')")],
 UCDDEMO('"00ad..00af;A\\n"','"AD-AF|A\\n"'))
seed("p01-five-fields","P01","a data line with more than five fields",
 "the sixth field is part of the fifth",
 [("internal/ucdparse/scan.go",'token.Fields = strings.Split(a[0], ";")','token.Fields = strings.SplitN(a[0], ";", 5)')],
 UCDDEMO('"0041;a;b;c;d;e;f\\n"','"41-41|a|b|c|d|e|f\\n"'))
seed("p01-single-digit","P01","a code-point with a single digit",
 "the code-point of a line is 0",
 [("internal/ucdparse/scan.go",'''	if pos > marker {
		fmt.Printf("hex word %s\\n", sc.Buf.Text[marker:pos])
		hex := sc.Buf.Text[marker:pos]
		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
			fmt.Printf("hex decoding error: %v", err)
			token.Error = fmt.Errorf("hex decoding error: %w", err)
			return token, nil
		} else {
			token.runeFrom''','''	if pos > marker+1 {
		fmt.Printf("hex word %s\\n", sc.Buf.Text[marker:pos])
		hex := sc.Buf.Text[marker:pos]
		if n, err := strconv.ParseInt(hex, 16, 32); err != nil {
			fmt.Printf("hex decoding error: %v", err)
			token.Error = fmt.Errorf("hex decoding error: %w", err)
			return token, nil
		} else {
			token.runeFrom''')],
 UCDDEMO('"A;A\\n"','"A-A|A\\n"'))
GENDEMO=lambda text,args,want: gomain(["fmt","io","net","net/http","os","os/exec","strings"],'''
func main() {
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		panic(err)
	}
	code := run(dir)
	os.RemoveAll(dir)
	os.Exit(code)
}

func run(dir string) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, http.HandlerFunc(func(rw http.ResponseWriter, _ *http.Request) { io.WriteString(rw, %s) }))
	if out, err := exec.Command("go", "build", "-o", dir+"/tablegen", "./internal/tablegen").CombinedOutput(); err != nil {
		panic(string(out))
	}
	args := append([]string{"-o", dir + "/t.go", "-p", "p", "-u", "http://" + l.Addr().String()}, strings.Fields("%s")...)
	if out, err := exec.Command(dir+"/tablegen", args...).CombinedOutput(); err != nil {
		panic(string(out))
	}
	b, _ := os.ReadFile(dir + "/t.go")
	got := strings.Join(strings.Fields(string(b)), " ")
	for _, want := range %s {
		if !strings.Contains(got, want) {
			fmt.Printf("%%s is missing in\\n%%s\\n", want, b)
			return 1
		}
	}
	return 0
}
'''%(text,args,want))
seed("p02-tab","P02","a tab in front of the category",
 "the category is not trimmed, source code does not compile",
 [("internal/tablegen/main.go","t = strings.TrimSpace(t)",'t = strings.Trim(t, " ")')],
 GENDEMO('"0041;\\tAa\\t# x\\n"',"-f 2 -x X",'[]string{"var _X_Aa = ", "X_Aa *unicode.RangeTable = _X_Aa"}'))
seed("p02-nul","P02","a range which starts at U+0000",
 "the range is taken for the token at the start of the document and dropped",
 [("internal/tablegen/main.go",'''		if t == "" {
			return''','''		if t == "" || l == 0 {
			return''')],
 GENDEMO('"0000..001F;Cc\\n007F;Cc\\n"',"-f 2 -x X",'[]string{"{0x0000, 0x001f, 1}"}'))
seed("p02-one-latin","P02","a category with exactly one range in Latin-1",
 "LatinOffset is missing",
 [("internal/ucdparse/gentables.go","	if t.latinOffset > 0 {","	if t.latinOffset > 1 {")],
 gomain(["bytes","fmt","os","strings",U+"/internal/ucdparse"],'''
func main() {
	c := &ucdparse.RangeTableCollector{Cat: "X"}
	c.Append(0x41, 0x5a)
	c.Append(0x391, 0x3a9)
	var b bytes.Buffer
	c.Output(&b)
	if !strings.Contains(b.String(), "LatinOffset: 1") {
		fmt.Println(b.String())
		os.Exit(1)
	}
}
'''))
SHAPEDEMO=lambda conds: gomain(["fmt","os","unicode",U+"/shaping"],'''
func main() {
	if %s {
		fmt.Println("wrong table")
		os.Exit(1)
	}
}
'''%" || ".join(("" if is_ else "")+("!" if is_ else "")+"unicode.Is(shaping.%s, 0x%x)"%(t,c) for t,c,is_ in conds))
seed("s01-order","S01","the second half of a large table, binary search",
 "two ranges are not in order, characters next to them are not found",
 [("shaping/uisctables.go",'''		{0x1171d, 0x1171f, 1},
''','''		{0x11171d - 0x100000, 0x1171f, 1},
''') ] if False else [("shaping/arabictables.go",'''		{0x0860, 0x0860, 1},
		{0x0862, 0x0865, 1},
''','''		{0x0862, 0x0865, 1},
		{0x0860, 0x0860, 1},
''')],
 SHAPEDEMO([("ARAB_D",0x860,True),("ARAB_D",0x862,True),("ARAB_D",0x868,True),("ARAB_D",0x858,False),("ARAB_D",0x865,True)]))
seed("s01-alias","S01","characters of a category which only few scripts use",
 "the exported table is that of another category",
 [("shaping/uipctables.go","UIPC_Top_And_Bottom_And_Right ","UIPC_Top_And_Bottom_And_Right ")] if False else
 [("shaping/uisctables.go","UISC_Consonant_Killer *unicode.RangeTable = _UISC_Consonant_Killer","UISC_Consonant_Killer *unicode.RangeTable = _UISC_Pure_Killer")],
 SHAPEDEMO([("UISC_Consonant_Killer",0xe4c,True),("UISC_Consonant_Killer",0xd3b,False)]))
seed("s01-range-end","S01","the last character of a range, Oriya",
 "a character is not in the table",
 [("shaping/uipctables.go","{0x0b41, 0x0b44, 1}","{0x0b41, 0x0b43, 1}")],
 SHAPEDEMO([("UIPC_Bottom",0xb44,True)]))
TRIEDEMO=lambda size,cat,words,lookup: gomain(["fmt","os",U+"/bidi/trie"],'''
func main() {
	t, _ := trie.NewTinyHashTrie(%d, %d)
	words := %s
	in := map[string]bool{}
	for _, w := range words {
		t.AllocPositionForWord([]byte(w))
		for i := range w {
			in[w[:i+1]] = true
		}
	}
	t.Freeze()
	seen := map[int]string{}
	letters := %s
	var look func(w string)
	look = func(w string) {
		if len(w) > 1 {
			p := t.AllocPositionForWord([]byte(w))
			if (p != 0) != in[w] {
				fmt.Printf("position of %%q is %%d\\n", w, p)
				os.Exit(1)
			}
			if p != 0 && seen[p] != "" {
				fmt.Printf("%%q and %%q share a position\\n", w, seen[p])
				os.Exit(1)
			}
			seen[p] = w
			if p == 0 {
				delete(seen, 0)
			}
		}
		if len(w) < 4 {
			for _, c := range letters {
				look(w + string(c))
			}
		}
	}
	look("")
}
'''%(size,cat,words,lookup))
seed("t01-move-links","T01","a family of words is moved whose members have children, and the children's family is moved thereafter",
 "the link from a moved member's children is not updated, later words get lost",
 [("bidi/trie/hashtrie.go",'''		trie.ch[r+delta] = trie.ch[r]
		trie.ch[r] = empty
		trie.link[r+delta] = trie.link[r]
		if trie.link[r] != empty {''','''		trie.ch[r+delta] = trie.ch[r]
		trie.ch[r] = empty
		trie.link[r+delta] = trie.link[r]
		if trie.link[r] != empty && trie.ch[r+delta] == trie.headercode {''')],
 TRIEDEMO(251,50,'[]string{"\\x02\\x31\\x02", "\\x02\\x00\\x31", "\\x02\\x31\\x00"}','"\\x00\\x31\\x02"'))
seed("t01-move-child","T01","a family has to be moved, and the first place it fits into has no room for the new child",
 "another word is overwritten by the new child",
 [("bidi/trie/hashtrie.go",'''		if trie.ch[h+pointer(c)] != empty {
			continue
		}
		tracer()''','''		if trie.ch[h+pointer(c)] == trie.headercode {
			continue
		}
		tracer()''')],
 TRIEDEMO(139,46,'[]string{"\\x15\\x0d", "\\x14\\x15", "\\x14\\x14", "\\x14\\x0d", "\\x0d\\x15", "\\x0d\\x14", "\\x0d\\x0d", "\\x15\\x15", "\\x15\\x14"}','"\\x0d\\x14\\x15"'))
seed("t01-child-slot","T01","a first child, whose header finds a place, but the slot of the child is occupied",
 "another word is overwritten by the new child",
 [("bidi/trie/hashtrie.go","if trie.ch[h] == empty && trie.ch[h+pointer(c)] == empty {","if trie.ch[h] == empty && trie.ch[h+pointer(c)] <= category(trys/8) {")],
 TRIEDEMO(227,20,'[]string{"\\x04\\x03", "\\x06\\x00", "\\x02\\x04", "\\x05\\x01", "\\x00\\x05", "\\x03\\x02", "\\x05\\x06", "\\x01\\x03"}','"\\x00\\x01\\x02\\x03\\x04\\x05\\x06"'))
