package checks

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifmc/bref"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
	xbidi "golang.org/x/text/unicode/bidi"
)

// --- B01: any input ----------------------------------------------------------------------

var anyLetters = []string{"a", "א", "1", "(", ")", "!", " ", "\xff", "\xc3", "\xe2\x82", "\x80", "\ufffd", "\x00", "\u0300", "\u00ad",
	"\u2066", "\u2067", "\u2069", "\u2068", "\u202a", "\u202e", "\u202c", "\n", "\u2029", "\u200f", "٠", "+", "\t"}

// endOfParagraph is the position of the first paragraph separator.
func endOfParagraph(s string) int {
	for i := 0; i < len(s); {
		p, sz := xbidi.LookupString(s[i:])
		if sz == 0 { // illegal
			sz = 1
		} else if r, n := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || n > 1 {
			if p.Class() == xbidi.B {
				return i
			}
			sz = n
		} else {
			sz = 1
		}
		i += sz
	}
	return len(s)
}

func anyInput(s string, e int, ignore bool, splits bool) string {
	d := bidiDir(e)
	opts := []bidi.Option{bidi.DefaultDirection(d), bidi.IgnoreParagraphSeparators(ignore)}
	rl := bidi.ResolveParagraph(strings.NewReader(s), nil, opts...)
	end := len(s)
	if !ignore {
		end = endOfParagraph(s)
	}
	m, fail := levelsOf(rl, 0, end)
	if fail != "" {
		return fail
	}
	for _, c := range m {
		if c == "" {
			return "position without a class"
		}
	}
	if _, fail := display(rl, 0, end, d); fail != "" {
		return fail
	}
	before := snapshot(rl)
	if again := snapshot(bidi.ResolveParagraph(strings.NewReader(s), nil, opts...)); again != before {
		return "resolved differently the second time: " + before + " | " + again
	}
	for k := 0; k <= end+1; k++ {
		rl.DirectionAt(uint64(k))
	}
	if !splits {
		return ""
	}
	for at := 0; at <= end+1; at++ {
		cut := at
		if cut > end {
			cut = end
		}
		for _, shift0 := range []bool{false, true} {
			p, q := rl.Split(uint64(at), shift0)
			if _, fail := levelsOf(p, 0, cut); fail != "" {
				return fmt.Sprintf("first part after Split(%d): %s", at, fail)
			}
			if _, fail := display(p, 0, cut, d); fail != "" {
				return fmt.Sprintf("first part after Split(%d): %s", at, fail)
			}
			from, to := cut, end
			if shift0 {
				from, to = 0, end-cut
			}
			if _, fail := levelsOf(q, from, to); fail != "" {
				return fmt.Sprintf("second part after Split(%d,%v): %s", at, shift0, fail)
			}
			if _, fail := display(q, from, to, d); fail != "" {
				return fmt.Sprintf("second part after Split(%d,%v): %s", at, shift0, fail)
			}
		}
		if after := snapshot(rl); after != before {
			return fmt.Sprintf("Split(%d) modifies its receiver: %s → %s", at, before, after)
		}
	}
	return ""
}

// key: e/ignore/splits/repeat/hex bytes
func replayAny(key string) (string, error) {
	p := strings.Split(key, "/")
	if len(p) != 5 {
		return "", fmt.Errorf("illegal key")
	}
	n, _ := strconv.Atoi(p[3])
	var b []byte
	for i := 0; i+1 < len(p[4]); i += 2 {
		x, err := strconv.ParseUint(p[4][i:i+2], 16, 8)
		if err != nil {
			return "", err
		}
		b = append(b, byte(x))
	}
	return anyInput(strings.Repeat(string(b), n), int(p[0][0]-'0'), p[1] == "1", p[2] == "1"), nil
}

func exploreAny(w *mc.Worker) {
	one := func(s string, rep int, splits bool, modes ...int) {
		if modes == nil {
			modes = []int{0, 1, 2, 3}
		}
		for _, m := range modes {
			e, ign := m&1, m&2 != 0
			sp := 0
			if splits {
				sp = 1
			}
			key := fmt.Sprintf("%d/%d/%d/%d/%x", e, m>>1, sp, rep, s)
			w.Case(key, func() string { return anyInput(strings.Repeat(s, rep), e, ign, splits) })
			w.Steps(len(s) * rep)
			w.NonTrivial()
			w.Sample(func() string { return fmt.Sprintf("%q ×%d", s, rep) })
		}
	}
	for n := 0; n <= w.Pick(4, 5); n++ {
		mc.Product(len(anyLetters), n, func(idx []int) bool {
			if w.Stop() {
				return false
			}
			if w.Mine() {
				s := ""
				for _, x := range idx {
					s += anyLetters[x]
				}
				one(s, 1, n <= w.Pick(3, 4))
			}
			return true
		})
	}
	// every code-point
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		if w.Stop() {
			return
		}
		if w.Mine() {
			one("a"+string(r)+"א", 1, false, 1)
		}
	}
	// deep nesting and long texts
	for n := 1; n <= 2; n++ {
		mc.Product(len(anyLetters), n, func(idx []int) bool {
			if w.Stop() {
				return false
			}
			s := ""
			for _, x := range idx {
				s += anyLetters[x]
			}
			for _, rep := range []int{30, 64, 65, 130, w.Pick(300, 1500)} {
				if w.Mine() {
					one(s, rep, false)
				}
			}
			return true
		})
	}
}

// --- B05: brackets -----------------------------------------------------------------------

var spacesB05 = []bidiSpace{
	{"class", "L R EN ( ) [ ] ON", 0, 6, 8},
	{"class", "L R ( ) [ ]", 7, 8, 9},
	{"class", "AL EN AN ( ) NSM BN", 1, 6, 8},
	{"class", "L R ET EN ( )", 1, 7, 9},
	{"dirs", "L R ( ) RLI PDI", 1, 7, 9},
	{"dirs", "L R ( ) [ ] LRI PDI", 1, 6, 7},
	{"order", "L R EN ( ) LRI PDI", 1, 5, 7},
}

func exploreBrackets(w *mc.Worker) {
	f := bidiKinds["class"]
	both := func(rs []rune) {
		if !w.Mine() || w.Stop() {
			return
		}
		for e := 0; e < 2; e++ {
			bidiOne(w, "class", f, rs, e)
		}
	}
	// every pair of an opening and a closing bracket
	var op, cl []rune
	for o, c := range ucd.Brackets() {
		if ucd.Age(o) <= 13 {
			op, cl = append(op, o), append(cl, c)
		}
	}
	for _, a := range [][]rune{op, cl} { // maps are not ordered
		for i := range a {
			for j := i; j > 0 && a[j] < a[j-1]; j-- {
				a[j], a[j-1] = a[j-1], a[j]
			}
		}
	}
	for _, o := range op {
		for _, c := range cl {
			both([]rune{'a', o, 'b', 'א', c, 'c'})
			both([]rune{'א', o, 'b', 'א', c, 'א'})
			both([]rune{'a', o, 'b', '(', 'א', c, 'c', ')'})
			both([]rune{'a', '(', 'b', o, 'א', ')', 'c', c, 'a'})
		}
	}
	// every code-point in place of a bracket
	openers, closers := ucd.Brackets(), map[rune]rune{}
	for o, c := range openers {
		closers[c] = o
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 || ucd.Age(r) > 13 {
			continue
		}
		p, _ := xbidi.LookupRune(r)
		switch p.Class() {
		case xbidi.B, xbidi.LRI, xbidi.RLI, xbidi.FSI, xbidi.PDI, xbidi.LRE, xbidi.RLE, xbidi.LRO, xbidi.RLO, xbidi.PDF:
			continue
		}
		c, o := rune(')'), rune('(')
		if x, is := openers[r]; is {
			c = x
		}
		if x, is := closers[r]; is {
			o = x
		}
		both([]rune{'a', r, 'b', 'א', c, 'c'})
		both([]rune{'a', o, 'b', 'א', r, 'c'})
	}
	// nesting up to the limit of the stack: 63 opening brackets
	for depth := 58; depth <= 70; depth++ {
		for _, inner := range []string{"", "b", "א", "bא", "1"} {
			for closing := 0; closing <= depth+1; closing += w.Pick(3, 1) {
				for _, tail := range []string{"", "a", "(aא)", "א(a)"} {
					for _, pre := range []string{"", "a", "(א)a", "[(bא)"} {
						for _, iso := range []bool{false, true} {
							s := pre + strings.Repeat("(", depth) + inner + strings.Repeat(")", closing) + tail
							if iso {
								s = "(" + pre + string(rune(rRLI)) + strings.Repeat("(", depth) + inner + strings.Repeat(")", closing) +
									string(rune(rPDI)) + tail + ")"
							}
							both([]rune(s))
						}
					}
				}
			}
		}
	}
	// the limit is one per isolating run sequence: brackets outside, within two isolates, and between
	// them count separately, and an overflow ends the processing for its own sequence only
	ds := []int{0, 1, 31, 32, 62, 63, 64}
	if w.Quick() {
		ds = []int{0, 1, 32, 63, 64}
	}
	for _, outer := range ds {
		for _, in1 := range ds {
			for _, in2 := range ds {
				for _, mid := range ds {
					for _, tail := range []string{"", "(aא)"} {
						rep := strings.Repeat
						s := "א" + rep("(", outer) + "a" + string(rune(rRLI)) + rep("(", in1) + "b" + rep(")", in1) + tail + string(rune(rPDI)) +
							rep("[", mid) + "א" + string(rune(rLRI)) + "א" + rep("(", in2) + "1" + rep(")", in2) + tail + string(rune(rPDI)) +
							"a" + rep("]", mid) + rep(")", outer) + tail + "א"
						both([]rune(s))
					}
				}
			}
		}
	}
	withLong(exploreBidi(spacesB05), longB05, nil)(w)
}

var longB05 = []bidiLong{
	{"class", "L R EN ( ) [ ]", 3, []int{60, 300}, []int{1000}},
	{"class", "L R ( )", 5, []int{100}, []int{300}},
}

// --- B08: markup --------------------------------------------------------------------------

// markupText makes a text with some of the isolate controls being out-of-line. Returns nil if
// this cannot be expressed.
func markupText(rs []rune, bits, e int) (*bidiText, bidi.OutOfLineBidiMarkup) {
	chars := make([]bref.Char, len(rs))
	mk := make([]bool, len(rs))
	k := 0
	for i, r := range rs {
		chars[i], _ = bidiChar(r)
		switch chars[i].C {
		case bref.LRI, bref.RLI, bref.PDI:
			mk[i] = bits>>k&1 == 1
			k++
		}
	}
	if k == 0 || bits >= 1<<k {
		return nil, nil
	}
	t := makeBidiText(rs, chars, mk, e)
	m := map[uint64]int{}
	for i, r := range rs {
		if !mk[i] {
			continue
		}
		pos := uint64(t.off[i])
		prev, is := m[pos]
		switch {
		case r == rPDI && !is:
			m[pos] = bidi.MarkupPDI
		case r == rLRI && !is:
			m[pos] = bidi.MarkupLRI
		case r == rRLI && !is:
			m[pos] = bidi.MarkupRLI
		case r == rLRI && prev == bidi.MarkupPDI:
			m[pos] = bidi.MarkupPDILRI
		case r == rRLI && prev == bidi.MarkupPDI:
			m[pos] = bidi.MarkupPDIRLI
		default:
			return nil, nil
		}
	}
	return t, func(pos uint64) int { return m[pos] }
}

func markupCase(rs []rune, bits, e int) string {
	t, f := markupText(rs, bits, e)
	if t == nil {
		return ""
	}
	rl := bidi.ResolveParagraph(strings.NewReader(t.s), f, bidi.DefaultDirection(bidiDir(e)))
	if !t.ref.Matched { // compare with the inline text
		in := newBidiText(rs, e)
		ri := in.resolve()
		for i := range rs {
			if in.chars[i].C == bref.LRI || in.chars[i].C == bref.RLI || in.chars[i].C == bref.PDI {
				continue
			}
			if d1, d2 := rl.DirectionAt(uint64(t.off[i])), ri.DirectionAt(uint64(in.off[i])); d1 != d2 {
				return fmt.Sprintf("%s: direction at character %d differs from the one with inline controls", t.show(), i)
			}
		}
		o1, fail := t.visualOrder(rl, 0, len(rs), 0)
		if fail != "" {
			return fail
		}
		o2, fail := in.visualOrder(ri, 0, len(rs), 0)
		if fail != "" {
			return fail
		}
		if !sameInts(o1, o2) {
			return fmt.Sprintf("%s: order %v, with inline controls %v", t.show(), o1, o2)
		}
		return ""
	}
	if fail := t.checkClasses(rl); fail != "" {
		return fail
	}
	if fail := t.checkDirections(rl, 0, len(rs), 0); fail != "" {
		return fail
	}
	if fail := t.checkLine(rl, 0, len(rs), 0); fail != "" {
		return fail
	}
	if len(rs) > 24 {
		return ""
	}
	return t.checkSplit(rl, false, false)
}

func replayMarkup(key string) (string, error) {
	p := strings.SplitN(key, "/", 3)
	if len(p) != 3 {
		return "", fmt.Errorf("illegal key")
	}
	e, _ := strconv.Atoi(p[0])
	bits, _ := strconv.Atoi(p[1])
	rs, err := parseText(p[2])
	if err != nil {
		return "", err
	}
	return markupCase(rs, bits, e), nil
}

var spacesB08 = []bidiSpace{
	{"markup", "L R EN ON LRI RLI PDI", 1, 5, 7},
	{"markup", "R LRI RLI PDI", 6, 7, 9},
	{"markup", "L R2 AN ( ) RLI PDI", 1, 5, 7},
	{"markup", "AL EN NSM BN LRI PDI", 1, 5, 7},
}

func exploreMarkup(w *mc.Worker) {
	do := func(rs []rune, bits int) {
		for e := 0; e < 2; e++ {
			if t, _ := markupText(rs, bits, e); t == nil {
				continue
			}
			key := strconv.Itoa(e) + "/" + strconv.Itoa(bits) + "/" + textKey(rs)
			w.Case(key, func() string { return markupCase(rs, bits, e) })
			w.Steps(len(rs))
			w.NonTrivial()
			w.Sample(func() string { return fmt.Sprintf("%s, %b out-of-line", newBidiText(rs, e).show(), bits) })
		}
	}
	// long texts and deep nesting, up to 60 controls
	al := sigma("L R EN LRI RLI PDI")
	for k := 1; k <= w.Pick(3, 5); k++ {
		mc.Product(len(al), k, func(idx []int) bool {
			if w.Stop() {
				return false
			}
			if !w.Mine() {
				return true
			}
			var unit, end []rune
			n, open := 0, 0
			for _, x := range idx {
				unit = append(unit, al[x])
				if al[x] >= rLRI && al[x] <= rPDI {
					n++
				}
				if al[x] == rLRI || al[x] == rRLI {
					open++
				} else if al[x] == rPDI && open > 0 {
					open--
				}
			}
			for range open {
				end = append(end, rPDI, 'a')
				n++
			}
			if n == 0 {
				return true
			}
			for _, rep := range []int{10 / n, 60 / n} {
				if rep < 2 {
					continue
				}
				rs := slices.Concat([]rune{'1'}, slices.Repeat(unit, rep), []rune{'א'}, slices.Repeat(end, rep), []rune{'א'})
				all := 0
				for _, r := range rs {
					if r >= rLRI && r <= rPDI {
						all = all<<1 | 1
					}
				}
				for _, bits := range []int{all, all & 0x5555555555555555, all & 0x3333333333333333, all & 0xf0f0f0f0f0f0f0f, all &^ 1, 1} {
					if bits > 0 {
						do(rs, bits)
					}
				}
			}
			return true
		})
	}
	for _, sp := range spacesB08 {
		al := sigma(sp.letters)
		for n := sp.min; n <= w.Pick(sp.quick, sp.thorough); n++ {
			mc.Product(len(al), n, func(idx []int) bool {
				if w.Stop() {
					return false
				}
				if !w.Mine() {
					return true
				}
				rs := make([]rune, n)
				k := 0
				for i, x := range idx {
					rs[i] = al[x]
					if al[x] >= rLRI && al[x] <= rPDI {
						k++
					}
				}
				for bits := 1; bits < 1<<k; bits++ {
					do(rs, bits)
				}
				return true
			})
		}
	}
}

// --- B09: options -------------------------------------------------------------------------

type optState struct {
	e            int
	testing, ign bool
}

var optMenu = []struct {
	name  string
	opt   func() bidi.Option
	apply func(s *optState)
}{
	{"R", func() bidi.Option { return bidi.DefaultDirection(bidi.RightToLeft) }, func(s *optState) { s.e = 1 }},
	{"L", func() bidi.Option { return bidi.DefaultDirection(bidi.LeftToRight) }, func(s *optState) { s.e = 0 }},
	{"T", func() bidi.Option { return bidi.TestMode(true) }, func(s *optState) { s.testing = true }},
	{"t", func() bidi.Option { return bidi.TestMode(false) }, func(s *optState) { s.testing = false }},
	{"P", func() bidi.Option { return bidi.IgnoreParagraphSeparators(true) }, func(s *optState) { s.ign = true }},
	{"p", func() bidi.Option { return bidi.IgnoreParagraphSeparators(false) }, func(s *optState) { s.ign = false }},
	{"Y", func() bidi.Option { return bidi.RecognizeLegacy(true) }, func(s *optState) {}},
	{"y", func() bidi.Option { return bidi.RecognizeLegacy(false) }, func(s *optState) {}},
	{"0", func() bidi.Option { return nil }, func(s *optState) {}},
}

func optionCase(opts string, rs []rune) string {
	var st optState
	var list []bidi.Option
	for _, c := range opts {
		for _, m := range optMenu {
			if m.name == string(c) {
				list = append(list, m.opt())
				m.apply(&st)
			}
		}
	}
	text := rs
	if !st.ign {
		for i, r := range rs {
			if p, _ := xbidi.LookupRune(r); p.Class() == xbidi.B {
				text = rs[:i]
				break
			}
		}
	}
	chars := make([]bref.Char, len(text))
	for i, r := range text {
		chars[i], _ = bidiChar(r)
		if st.testing {
			switch {
			case unicode.IsUpper(r):
				chars[i] = bref.Char{C: bref.R}
			case r == '>':
				chars[i] = bref.Char{C: bref.LRI}
			case r == '<':
				chars[i] = bref.Char{C: bref.RLI}
			case r == '=':
				chars[i] = bref.Char{C: bref.PDI}
			}
		}
	}
	t := makeBidiText(text, chars, nil, st.e)
	rl := bidi.ResolveParagraph(strings.NewReader(string(rs)), nil, list...)
	if !t.ref.Matched {
		_, fail := levelsOf(rl, 0, len(t.s))
		return fail
	}
	if fail := t.checkClasses(rl); fail != "" {
		return fail
	}
	if fail := t.checkDirections(rl, 0, len(text), 0); fail != "" {
		return fail
	}
	return t.checkLine(rl, 0, len(text), 0)
}

func replayOption(key string) (string, error) {
	a, b, _ := strings.Cut(key, "/")
	rs, err := parseText(b)
	if err != nil {
		return "", err
	}
	return optionCase(a, rs), nil
}

var optLetters = []rune{'a', 'A', 'א', '1', '<', '>', '=', '\n', ' '}

func exploreOptions(w *mc.Worker) {
	var lists []string
	for n := 0; n <= 3; n++ {
		mc.Product(len(optMenu), n, func(idx []int) bool {
			s := ""
			for _, x := range idx {
				s += optMenu[x].name
			}
			lists = append(lists, s)
			return true
		})
	}
	one := func(l string, rs []rune) {
		key := l + "/" + textKey(rs)
		w.Case(key, func() string { return optionCase(l, rs) })
		w.Steps(len(rs))
		if l != "" {
			w.NonTrivial()
		}
		w.Sample(func() string { return fmt.Sprintf("options %s, text %q", l, string(rs)) })
	}
	for n := 0; n <= 3; n++ { // all lists, short texts
		mc.Product(len(optLetters), n, func(idx []int) bool {
			rs := make([]rune, n)
			for i, x := range idx {
				rs[i] = optLetters[x]
			}
			for _, l := range lists {
				if w.Stop() {
					return false
				}
				if len(l) == 3 && n == 3 && w.Quick() && rs[0] != 'A' {
					continue
				}
				if w.Mine() {
					one(l, rs)
				}
			}
			return true
		})
	}
	mc.Product(len(optMenu), 4, func(idx []int) bool { // lists of four, and long ones
		l := ""
		for _, x := range idx {
			l += optMenu[x].name
		}
		if w.Mine() {
			for _, t := range []string{"A1", "a<\nA", "א=>b", "A\r<א"} {
				one(l, []rune(t))
			}
		}
		return !w.Stop()
	})
	mc.Product(len(optMenu), 3, func(idx []int) bool {
		for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257} {
			l := optMenu[idx[0]].name + strings.Repeat(optMenu[idx[1]].name, n) + optMenu[idx[2]].name
			if w.Mine() {
				for _, t := range []string{"a<\nA", "א=>b\u2029C"} {
					one(l, []rune(t))
				}
			}
		}
		return !w.Stop()
	})
	for _, n := range []int{31, 63, 64, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536} { // far separators
		for _, f := range []string{"a", "א", " ", "aא", "1"} {
			for _, b := range []string{"\n", "\u2029"} {
				if n > 5000 && f != "a" {
					continue
				}
				for _, l := range []string{"", "P", "T", "TP", "R", "RP", "PYp"} {
					for _, e := range []string{"אA1", "<A" + b + "b"} {
						if w.Stop() {
							return
						}
						if w.Mine() {
							one(l, []rune(strings.Repeat(f, n/len([]rune(f)))+b+e))
						}
					}
				}
			}
		}
	}
	seps := []rune{'\n', '\r', 0x1c, 0x1d, 0x1e, 0x85, 0x2029, '\t', 0x1f, 0x2028, 0x0b, 0x0c} // B, and S or WS
	for _, b := range seps {
		for _, l := range []string{"", "P", "PR", "R", "Pp"} {
			for _, s := range []string{"a%a", "א%b", "a%א", "%", "a%%b", "1%א", "⁧א%b⁩c"} {
				if w.Mine() {
					one(l, []rune(strings.ReplaceAll(s, "%", string(b))))
				}
			}
		}
	}
	for r := rune(0); r <= unicode.MaxRune; r++ { // every code-point
		if r >= 0xd800 && r < 0xe000 || ucd.Age(r) > 13 {
			continue
		}
		switch p, _ := xbidi.LookupRune(r); p.Class() {
		case xbidi.LRE, xbidi.RLE, xbidi.LRO, xbidi.RLO, xbidi.PDF, xbidi.FSI:
			continue
		}
		for _, l := range []string{"T", "Tt", "R"} {
			if w.Mine() {
				one(l, []rune{'a', r, '1', r})
			}
		}
	}
	for n := 4; n <= w.Pick(5, 6); n++ { // few lists, longer texts
		mc.Product(len(optLetters), n, func(idx []int) bool {
			rs := make([]rune, n)
			for i, x := range idx {
				rs[i] = optLetters[x]
			}
			for _, l := range []string{"", "T", "TP", "TR", "PR", "TPR"} {
				if w.Stop() {
					return false
				}
				if w.Mine() {
					one(l, rs)
				}
			}
			return true
		})
	}
}

func init() {
	mc.Register(&mc.Check{ID: "B01", Level: "exploration",
		Rule:        "all byte strings over an alphabet with illegal UTF-8, unmatched isolates, legacy controls, paragraph separators: resolved levels, orderings and splits partition the text, nothing panics or fails to terminate",
		Assumptions: []string{"paragraph separators are those of golang.org/x/text/unicode/bidi"}, Explore: exploreAny, Replay: replayAny,
		Bound: func(tier string) string {
			if tier == "thorough" {
				return "28 letters, length ≤ 5 (splits at every byte for length ≤ 4), repetitions of words of length ≤ 2 up to 1500 times"
			}
			return "28 letters, length ≤ 4 (splits at every byte for length ≤ 3), repetitions of words of length ≤ 2 up to 300 times"
		}})
	mc.Register(&mc.Check{ID: "B05", Level: "exploration",
		Rule:        "all texts over alphabets with brackets are resolved and compared with a transcription of BD16, N0; all pairs of brackets; all code-points in place of brackets; nesting up to and beyond 63",
		Assumptions: bidiAssumptions, Explore: exploreBrackets, Replay: replayBidi, Bound: bidiBound(spacesB05, longB05, nil)})
	mc.Register(&mc.Check{ID: "B08", Level: "exploration",
		Rule:        "all texts with isolates, with every subset of the isolate controls given as out-of-line markup, are compared with the reference (matched) or with inline controls (unmatched)",
		Assumptions: bidiAssumptions, Explore: exploreMarkup, Replay: replayMarkup, Bound: bidiBound(spacesB08, nil, nil)})
	mc.Register(&mc.Check{ID: "B09", Level: "exploration",
		Rule:        "all lists of up to 3 options from a menu of 9, for all texts of length ≤ 3 over 9 letters; all lists of 4 and lists of up to 259 for a few texts; fewer lists for longer texts, and separators at far positions",
		Assumptions: bidiAssumptions, Explore: exploreOptions, Replay: replayOption,
		Bound: func(tier string) string {
			if tier == "thorough" {
				return "texts up to length 6"
			}
			return "texts up to length 5 (of those of length 3, with lists of 3 options only those starting with A)"
		}})
}
