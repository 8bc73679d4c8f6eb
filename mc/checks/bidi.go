package checks

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifmc/bref"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
	xbidi "golang.org/x/text/unicode/bidi"
)

const (
	rLRI = 0x2066
	rRLI = 0x2067
	rFSI = 0x2068
	rPDI = 0x2069
)

var (
	bracketOnce sync.Once
	openers     map[rune]rune
	closers     map[rune]rune
)

func canonBracket(r rune) rune {
	switch r {
	case 0x2329:
		return 0x3008
	case 0x232a:
		return 0x3009
	}
	return r
}

// bidiChar classifies a rune for the reference implementation. The classes are those of the
// (trusted) package x/text, pairs of brackets are taken from the UCD.
func bidiChar(r rune) (bref.Char, bool) {
	bracketOnce.Do(func() {
		openers = ucd.Brackets()
		closers = map[rune]rune{}
		for o, c := range openers {
			closers[c] = o
		}
	})
	p, _ := xbidi.LookupRune(r)
	var c bref.Char
	switch p.Class() {
	case xbidi.L:
		c.C = bref.L
	case xbidi.R:
		c.C = bref.R
	case xbidi.AL:
		c.C = bref.AL
	case xbidi.EN:
		c.C = bref.EN
	case xbidi.ES:
		c.C = bref.ES
	case xbidi.ET:
		c.C = bref.ET
	case xbidi.AN:
		c.C = bref.AN
	case xbidi.CS:
		c.C = bref.CS
	case xbidi.NSM:
		c.C = bref.NSM
	case xbidi.BN:
		c.C = bref.BN
	case xbidi.ON, xbidi.WS, xbidi.S, xbidi.B:
		c.C = bref.ON
	case xbidi.LRI:
		c.C = bref.LRI
	case xbidi.RLI:
		c.C = bref.RLI
	case xbidi.PDI:
		c.C = bref.PDI
	default:
		return c, false
	}
	if cl, is := openers[r]; is {
		c.Open = int(canonBracket(cl))
	} else if _, is := closers[r]; is {
		c.Close = int(canonBracket(r))
	}
	return c, true
}

func bidiDir(e int) bidi.Direction {
	if e == 1 {
		return bidi.RightToLeft
	}
	return bidi.LeftToRight
}

// bidiText is a text with its reference resolution.
type bidiText struct {
	s     string
	rs    []rune
	off   []int // byte offsets of characters, and of the end
	at    []int // byte offset → character
	chars []bref.Char
	e     int
	ref   bref.Result
}

func newBidiText(rs []rune, e int) *bidiText {
	chars := make([]bref.Char, len(rs))
	for i, r := range rs {
		chars[i], _ = bidiChar(r)
	}
	for i, r := range rs { // P2, P3, X5c
		if r == rFSI {
			chars[i].C = bref.LRI
			if firstStrong(rs[i+1:]) == 1 {
				chars[i].C = bref.RLI
			}
		}
	}
	return makeBidiText(rs, chars, nil, e)
}

// firstStrong finds the direction of the text up to the matching PDI: 0, 1 or -1 if undetermined.
func firstStrong(rs []rune) int {
	depth := 0
	for _, r := range rs {
		p, _ := xbidi.LookupRune(r)
		switch p.Class() {
		case xbidi.LRI, xbidi.RLI, xbidi.FSI:
			depth++
		case xbidi.PDI:
			if depth--; depth < 0 {
				return -1
			}
		case xbidi.L:
			if depth == 0 {
				return 0
			}
		case xbidi.R, xbidi.AL:
			if depth == 0 {
				return 1
			}
		}
	}
	return -1
}

// fsiAgrees is true if every FSI has the direction of the surrounding sequence.
func fsiAgrees(rs []rune, e int) bool {
	st := []int{e}
	for i, r := range rs {
		d := st[len(st)-1]
		switch r {
		case rLRI:
			st = append(st, 0)
		case rRLI:
			st = append(st, 1)
		case rFSI:
			f := firstStrong(rs[i+1:])
			if f < 0 {
				f = 0
			}
			if f != d {
				return false
			}
			st = append(st, f)
		case rPDI:
			if len(st) > 1 {
				st = st[:len(st)-1]
			}
		}
	}
	return true
}

// exploreFSI: package bidi does not detect the direction of FSI isolates (a known finding for
// a sample of texts), but treats them as having the direction of the surrounding text.
func exploreFSI(w *mc.Worker) {
	f := bidiKinds["dirs"]
	for e, rs := range [][]rune{{rFSI, 'א', '!', rPDI, 'a'}, {'א', rFSI, '!', 'a', rPDI}} {
		if w.Mine() {
			bidiOne(w, "dirs", f, rs, e)
		}
	}
	al := []rune{'a', 'א', '1', '!', rFSI, rRLI, rPDI}
	for n := 2; n <= w.Pick(5, 7); n++ {
		mc.Product(len(al), n, func(idx []int) bool {
			rs := make([]rune, n)
			for i, x := range idx {
				rs[i] = al[x]
			}
			if w.Stop() {
				return false
			}
			if !strings.ContainsRune(string(rs), rFSI) || !w.Mine() {
				return true
			}
			for e := 0; e < 2; e++ {
				if fsiAgrees(rs, e) {
					bidiOne(w, "dirs", f, rs, e)
				}
			}
			return true
		})
	}
}

// makeBidiText makes a text with given classes. Characters marked as markup are not part of
// the text, they have a length of zero.
func makeBidiText(rs []rune, chars []bref.Char, markup []bool, e int) *bidiText {
	t := &bidiText{rs: rs, e: e, chars: chars}
	t.off = make([]int, len(rs)+1)
	var sb strings.Builder
	for i, r := range rs {
		t.off[i] = sb.Len()
		if markup == nil || !markup[i] {
			for sb.WriteRune(r); len(t.at) < sb.Len(); {
				t.at = append(t.at, i)
			}
		}
	}
	t.s = sb.String()
	t.off[len(rs)], t.at = len(t.s), append(t.at, len(rs))
	t.ref = bref.Resolve(t.chars, e)
	return t
}

func (t *bidiText) resolve(opts ...bidi.Option) *bidi.ResolvedLevels {
	return bidi.ResolveParagraph(strings.NewReader(t.s), nil, append(opts, bidi.DefaultDirection(bidiDir(t.e)))...)
}

// invisible characters have no place in the visual order
func invisible(c bref.Class) bool {
	return c == bref.LRI || c == bref.RLI || c == bref.PDI || c == bref.BN
}

// levelsOf reads the textual representation of resolved levels: a class per byte.
func levelsOf(rl *bidi.ResolvedLevels, from, to int) ([]string, string) {
	str := rl.String()
	m := make([]string, to-from)
	pos := from
	for _, f := range strings.Fields(str) {
		p := strings.Split(strings.Trim(f, "[]"), "-")
		if len(p) != 3 {
			return nil, "strange level run " + f
		}
		l, e1 := strconv.Atoi(p[0])
		r, e2 := strconv.Atoi(p[2])
		if e1 != nil || e2 != nil || l != pos || r < l || r > to {
			return nil, fmt.Sprintf("level runs do not partition %d…%d: %s", from, to, str)
		}
		for k := l; k < r; k++ {
			m[k-from] = p[1]
		}
		pos = r
	}
	if pos != to && !(str == "" && from == to) {
		return nil, fmt.Sprintf("level runs do not cover %d…%d: %s", from, to, str)
	}
	return m, ""
}

type bidiSeg struct {
	dir  bidi.Direction
	l, r int
}

// display iterates over the ordering as recommended by the package's documentation.
func display(rl *bidi.ResolvedLevels, from, to int, d bidi.Direction) ([]bidiSeg, string) {
	var segs []bidiSeg
	cover := make([]bool, to-from)
	n := 0
	runs := rl.Reorder().Runs
	for i := range runs {
		run := &runs[i]
		if run.IsOpposite(run.Dir) || !run.IsOpposite(1-run.Dir) {
			return nil, "IsOpposite"
		}
		if run.Length <= 0 {
			return nil, fmt.Sprintf("empty run: %v", runs)
		}
		if i > 0 && runs[i-1].Dir == run.Dir {
			return nil, fmt.Sprintf("adjacent runs of the same direction: %v", runs)
		}
		it := run.SegmentIterator(run.IsOpposite(d))
		total := 0
		var mine [][2]uint64
		for it.Next() {
			dir, a, b := it.Segment()
			if dir != run.Dir || it.Dir != run.Dir {
				return nil, fmt.Sprintf("direction of segment %d…%d isn't that of its run", a, b)
			}
			if it.EOF() != (total+int(b-a) == int(run.Length)) {
				return nil, fmt.Sprintf("iterator at EOF: %v, after %d…%d of %v", it.EOF(), a, b, runs)
			}
			mine = append(mine, [2]uint64{a, b})
			l, r := int(a), int(b)
			if l < from || r > to || l >= r {
				return nil, fmt.Sprintf("segment %d…%d is out of %d…%d", l, r, from, to)
			}
			for k := l; k < r; k++ {
				if cover[k-from] {
					return nil, fmt.Sprintf("position %d is output twice: %v", k, runs)
				}
				cover[k-from] = true
			}
			n += r - l
			total += r - l
			if dir != run.Dir {
				return nil, "direction of segment differs from run's"
			}
			segs = append(segs, bidiSeg{dir, l, r})
		}
		if total != int(run.Length) {
			return nil, fmt.Sprintf("segments of a run are of total length %d: %v", total, run)
		}
		if !it.EOF() {
			return nil, "iterator not at EOF after the last segment"
		}
		if it.Next() || it.Next() {
			return nil, "iterator continues after the last segment"
		}
		// iterators are independent of each other, in either order
		for _, rev := range []bool{!run.IsOpposite(d), run.IsOpposite(d)} {
			it, k := run.SegmentIterator(rev), 0
			for ; it.Next(); k++ {
				_, a, b := it.Segment()
				at := k
				if rev != run.IsOpposite(d) {
					at = len(mine) - 1 - k
				}
				if at < 0 || at >= len(mine) || mine[at] != [2]uint64{a, b} {
					return nil, fmt.Sprintf("segment %d…%d of another iterator (reverse %v), have been %v", a, b, rev, mine)
				}
			}
			if k != len(mine) {
				return nil, fmt.Sprintf("another iterator delivers %d segments, have been %v", k, mine)
			}
		}
	}
	if n != to-from {
		return nil, fmt.Sprintf("%d of %d bytes are output: %v", n, to-from, runs)
	}
	return segs, ""
}

// visualOrder lists the visible characters (indices) in the order of display; offset is the text
// position of position 0 of rl.
func (t *bidiText) visualOrder(rl *bidi.ResolvedLevels, from, to, shift int) ([]int, string) {
	d := bidiDir(t.e)
	segs, fail := display(rl, t.off[from]-shift, t.off[to]-shift, d)
	if fail != "" {
		return nil, fail
	}
	order := make([]int, 0, to-from)
	for _, s := range segs {
		l, r := s.l+shift, s.r+shift
		a, b := t.at[l], t.at[r]
		if t.off[a] != l || t.off[b] != r {
			return nil, fmt.Sprintf("segment boundary within a character %d…%d", l, r)
		}
		start := len(order)
		for i := a; i < b; i++ {
			if !invisible(t.chars[i].C) {
				order = append(order, i)
			}
		}
		if s.dir != d {
			for x, y := start, len(order)-1; x < y; x, y = x+1, y-1 {
				order[x], order[y] = order[y], order[x]
			}
		}
	}
	return order, ""
}

// refOrder is the visual order of a line, seen in the paragraph's direction.
func (t *bidiText) refOrder(from, to int) []int {
	var lv, ix []int
	for i := from; i < to; i++ {
		if t.chars[i].C != bref.BN { // rule X9
			lv = append(lv, t.ref.Level[i])
			ix = append(ix, i)
		}
	}
	o := bref.Visual(lv)
	if t.e == 1 {
		for x, y := 0, len(o)-1; x < y; x, y = x+1, y-1 {
			o[x], o[y] = o[y], o[x]
		}
	}
	res := make([]int, 0, len(o))
	for _, k := range o {
		if i := ix[k]; !invisible(t.chars[i].C) {
			res = append(res, i)
		}
	}
	return res
}

func (t *bidiText) show() string {
	var sb strings.Builder
	for i := range t.rs {
		fmt.Fprintf(&sb, "%s ", bclassName[t.chars[i].C])
		if t.chars[i].Open != 0 || t.chars[i].Close != 0 {
			fmt.Fprintf(&sb, "%c ", t.rs[i])
		}
	}
	return sb.String()
}

var bclassName = map[bref.Class]string{bref.L: "L", bref.R: "R", bref.AL: "AL", bref.EN: "EN", bref.ES: "ES", bref.ET: "ET", bref.AN: "AN",
	bref.CS: "CS", bref.NSM: "NSM", bref.BN: "BN", bref.ON: "ON", bref.LRI: "LRI", bref.RLI: "RLI", bref.PDI: "PDI"}

// --- what is checked for a text ----------------------------------------------------------

// classes of the outermost level
func (t *bidiText) checkClasses(rl *bidi.ResolvedLevels) string {
	m, fail := levelsOf(rl, 0, len(t.s))
	if fail != "" {
		return fail
	}
	for i, c := range t.ref.Outer {
		for k := t.off[i]; k < t.off[i+1]; k++ {
			if t.chars[i].C != bref.BN && m[k] != bclassName[c] {
				return fmt.Sprintf("%s resolved as %s, character %d must be %s", t.show(), rl, i, bclassName[c])
			}
		}
	}
	return ""
}

func (t *bidiText) refDir(i int) bidi.Direction {
	if t.ref.Resolved[i] == bref.R {
		return bidi.RightToLeft
	}
	return bidi.LeftToRight
}

// directions of characters, on all levels
func (t *bidiText) checkDirections(rl *bidi.ResolvedLevels, from, to, shift int) string {
	for i := from; i < to; i++ {
		if t.chars[i].C == bref.BN {
			continue
		}
		for k := t.off[i]; k < t.off[i+1]; k++ {
			if d := rl.DirectionAt(uint64(k - shift)); d != t.refDir(i) {
				return fmt.Sprintf("%s: direction at character %d of line %d…%d is %v", t.show(), i, from, to, d)
			}
		}
	}
	return ""
}

func (t *bidiText) checkLine(rl *bidi.ResolvedLevels, from, to, shift int) string {
	got, fail := t.visualOrder(rl, from, to, shift)
	if fail != "" {
		return t.show() + fail
	}
	if want := t.refOrder(from, to); !sameInts(got, want) {
		return fmt.Sprintf("%s: order of display for characters %d…%d is %v, must be %v", t.show(), from, to, got, want)
	}
	return ""
}

func snapshot(rl *bidi.ResolvedLevels) string {
	return rl.String() + fmt.Sprint(rl.Reorder().Runs)
}

// lines cut with Split are ordered separately
func (t *bidiText) checkSplit(rl *bidi.ResolvedLevels, two bool, dirs bool) string {
	n := len(t.rs)
	line := func(rl *bidi.ResolvedLevels, from, to, shift int) string {
		if dirs {
			return t.checkDirections(rl, from, to, shift)
		}
		if _, fail := levelsOf(rl, t.off[from]-shift, t.off[to]-shift); fail != "" {
			return fail
		}
		return t.checkLine(rl, from, to, shift)
	}
	before := snapshot(rl)
	first := 1
	if n > 10000 { // cuts within the last characters
		first = n - 8
	}
	for a := first; a < n; a++ {
		for _, shift0 := range []bool{false, true} {
			shift := 0
			if shift0 {
				shift = t.off[a]
			}
			p, s := rl.Split(uint64(t.off[a]), shift0)
			if fail := line(p, 0, a, 0); fail != "" {
				return fail
			}
			if fail := line(s, a, n, shift); fail != "" {
				return fail
			}
			if after := snapshot(rl); after != before {
				return fmt.Sprintf("Split(%d) modifies its receiver: %s → %s", t.off[a], before, after)
			}
			if !two {
				continue
			}
			for b := a + 1; b < n; b++ {
				q, r := s.Split(uint64(t.off[b]-shift), shift0)
				shift2 := shift
				if shift0 {
					shift2 = t.off[b]
				}
				if fail := line(q, a, b, shift); fail != "" {
					return "second line: " + fail
				}
				if fail := line(r, b, n, shift2); fail != "" {
					return "third line: " + fail
				}
			}
			for b := 1; b < a; b++ {
				q, r := p.Split(uint64(t.off[b]), false)
				if fail := line(q, 0, b, 0); fail != "" {
					return "first half of line: " + fail
				}
				if fail := line(r, b, a, 0); fail != "" {
					return "second half of line: " + fail
				}
			}
		}
	}
	return ""
}

// positions at which there is nothing to cut off
func (t *bidiText) checkSplitOutside(rl *bidi.ResolvedLevels) string {
	n := len(t.rs)
	before := snapshot(rl)
	for _, at := range []uint64{0, uint64(len(t.s)), uint64(len(t.s)) + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 33, 1<<63 + 1, math.MaxUint64} {
		for _, shift0 := range []bool{false, true} {
			p, s := rl.Split(at, shift0)
			cut := n
			if at == 0 {
				cut = 0
			}
			if fail := t.checkLine(p, 0, cut, 0); fail != "" {
				return fmt.Sprintf("first part of Split(%d): %s", at, fail)
			}
			if fail := t.checkLine(s, cut, n, 0); fail != "" {
				return fmt.Sprintf("second part of Split(%d): %s", at, fail)
			}
			if after := snapshot(rl); after != before {
				return fmt.Sprintf("Split(%d) modifies its receiver: %s → %s", at, before, after)
			}
			for i, x := range []*bidi.ResolvedLevels{p, s} { // cut pieces again, one of them is empty
				from, to := 0, cut
				if i == 1 {
					from, to = cut, n
				}
				for _, k := range []int{0, 1, n - 1, n, n + 1} {
					if k < 0 {
						continue
					}
					pos, c := uint64(len(t.s)+1), to
					if k <= n {
						pos, c = uint64(t.off[k]), min(max(k, from), to)
					}
					q, r := x.Split(pos, shift0)
					shift := 0
					if shift0 {
						shift = t.off[c]
					}
					if fail := t.checkLine(q, from, c, 0); fail != "" {
						return fmt.Sprintf("first part of Split(%d), Split(%d): %s", at, pos, fail)
					}
					if fail := t.checkLine(r, c, to, shift); fail != "" {
						return fmt.Sprintf("second part of Split(%d), Split(%d): %s", at, pos, fail)
					}
				}
				x.DirectionAt(0)
				if from == to && len(x.Reorder().Runs) != 0 {
					return "there is something in an empty piece"
				}
			}
		}
	}
	return ""
}

// there is no text at these positions, the direction is the same for all of them
func (t *bidiText) checkDirOutside(rl *bidi.ResolvedLevels) string {
	outside := rl.DirectionAt(uint64(len(t.s)))
	for _, at := range []uint64{uint64(len(t.s)) + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1 << 33, 1<<63 + 1, math.MaxUint64} {
		if d := rl.DirectionAt(at); d != outside {
			return fmt.Sprintf("%s: direction at position %d is %v", t.show(), at, d)
		}
	}
	return ""
}

// bidiKinds maps a kind of check to its function.
var bidiKinds = map[string]func(t *bidiText) string{
	"class": func(t *bidiText) string { return t.checkClasses(t.resolve()) },
	"dirs": func(t *bidiText) string {
		rl := t.resolve()
		if fail := t.checkClasses(rl); fail != "" {
			return fail
		}
		return t.checkDirections(rl, 0, len(t.rs), 0)
	},
	"order": func(t *bidiText) string {
		rl := t.resolve()
		before := rl.String()
		if fail := t.checkLine(rl, 0, len(t.rs), 0); fail != "" {
			return fail
		}
		if fail := t.checkLine(rl, 0, len(t.rs), 0); fail != "" {
			return "ordering for the second time: " + fail
		}
		if rl.String() != before {
			return "Reorder modifies its receiver"
		}
		return ""
	},
	"split1":   func(t *bidiText) string { return t.checkSplit(t.resolve(), false, false) },
	"split2":   func(t *bidiText) string { return t.checkSplit(t.resolve(), true, false) },
	"splitout": func(t *bidiText) string { return t.checkSplitOutside(t.resolve()) },
	"dirout":   func(t *bidiText) string { return t.checkDirOutside(t.resolve()) },
	"dirline1": func(t *bidiText) string { return t.checkSplit(t.resolve(), false, true) },
	"dirline":  func(t *bidiText) string { return t.checkSplit(t.resolve(), true, true) },
	"dirat":    func(t *bidiText) string { return t.checkDirections(t.resolve(), 0, len(t.rs), 0) },
}

// keys:  kind/e/text
func bidiCase(key string) (string, error) {
	p := strings.SplitN(key, "/", 3)
	if len(p) != 3 || bidiKinds[p[0]] == nil {
		return "", fmt.Errorf("illegal key")
	}
	if fill, word, ok := strings.Cut(p[2], "^"); ok {
		f, err := parseText(fill)
		if err != nil {
			return "", err
		}
		rs, err := parseText(word)
		if err != nil {
			return "", err
		}
		e, _ := strconv.Atoi(p[1])
		return bidiKinds[p[0]](newBidiText(farText(f[0], rs), e)), nil
	}
	text, n, repeated := strings.Cut(p[2], "*")
	rs, err := parseText(text)
	if err != nil {
		return "", err
	}
	if repeated {
		k, err := strconv.Atoi(n)
		if err != nil {
			return "", err
		}
		rs = slices.Repeat(rs, k)
	}
	e, _ := strconv.Atoi(p[1])
	return bidiKinds[p[0]](newBidiText(rs, e)), nil
}

func sigma(s string) []rune { // alphabet from class names
	m := map[string]rune{"L": 'a', "R": 'א', "AL": 'ا', "EN": '1', "ES": '+', "ET": '$', "AN": '٠', "CS": ',', "NSM": 0x300,
		"BN": 0xad, "ON": '!', "WS": ' ', "S": '\t', "LRI": rLRI, "RLI": rRLI, "PDI": rPDI, "(": '(', ")": ')', "[": '[', "]": ']',
		// other representatives of other lengths
		"L2": 'é', "R2": 0x10800, "AL2": 0x1EE00, "EN2": 0x6f1, "ES2": 0x208a, "ET2": '€', "AN2": 0x10E60, "CS2": 0xa0,
		"NSM2": 0xE0100, "BN2": 0x200b, "ON2": '…', "WS2": 0x2003}
	var a []rune
	for _, f := range strings.Fields(s) {
		r, ok := m[f]
		if !ok {
			panic(f)
		}
		a = append(a, r)
	}
	return a
}

// bidiSpace is a space of texts: all words over an alphabet with lengths min…max.
type bidiSpace struct {
	kind     string
	letters  string
	min      int
	quick    int
	thorough int
}

func exploreBidi(spaces []bidiSpace) func(w *mc.Worker) {
	return func(w *mc.Worker) {
		for _, sp := range spaces {
			al := sigma(sp.letters)
			f := bidiKinds[sp.kind]
			for n := sp.min; n <= w.Pick(sp.quick, sp.thorough); n++ {
				mc.Product(len(al), n, func(idx []int) bool {
					if w.Stop() {
						return false
					}
					if !w.Mine() {
						return true
					}
					rs := make([]rune, n)
					for i, x := range idx {
						rs[i] = al[x]
					}
					for e := 0; e < 2; e++ {
						bidiOne(w, sp.kind, f, rs, e)
					}
					return true
				})
			}
		}
	}
}

// bidiLong is a space of long texts: units of up to k letters, repeated to a length of (about) n,
// following and followed by other letters.
type bidiLong struct {
	kind    string
	letters string
	unit    int
	quick   []int
	more    []int // additional lengths
}

var bidiFrames = [][2][]rune{{nil, nil}, {{'a'}, {'א'}}, {{'א', '!'}, {'1'}}, {{rRLI, 'a'}, {rPDI, '1', 'a'}}, {{'1', rLRI}, {'א', rPDI, '!'}}}

// bidiNest is a space of deeply nested texts: units of up to 3 letters (one of them an isolate), repeated, and closed
type bidiNest struct {
	kind        string
	opens, core string
	depths      []int
}

// exploreHuge explores texts of units of one or two letters, repeated to a length of about 70000.
func exploreHuge(w *mc.Worker, kind, letters string) {
	al := sigma(letters)
	for k := 1; k <= 2; k++ {
		mc.Product(len(al), k, func(idx []int) bool {
			if w.Stop() {
				return false
			}
			if !w.Mine() {
				return true
			}
			var unit []rune
			for _, x := range idx {
				unit = append(unit, al[x])
			}
			key := fmt.Sprintf("%s/%d/%s*%d", kind, idx[0]%2, textKey(unit), 70000/k)
			w.Case(key, func() string { fail, _ := bidiCase(key); return fail })
			w.Steps(70000)
			w.NonTrivial()
			return true
		})
	}
}

// farText puts a text at byte positions around 65536, after (nearly) as many bytes of the fill character.
func farText(fill rune, rs []rune) []rune {
	return append(slices.Repeat([]rune{fill}, 65533/utf8.RuneLen(fill)), rs...)
}

// exploreFar explores all words of 4 letters, and of 3 within isolates, at positions around 65536.
func exploreFar(w *mc.Worker, kind, letters string) {
	al := sigma(letters)
	for k := 3; k <= 4; k++ {
		mc.Product(len(al), k, func(idx []int) bool {
			if w.Stop() {
				return false
			}
			if !w.Mine() {
				return true
			}
			var word []rune
			for _, x := range idx {
				word = append(word, al[x])
			}
			e := (idx[0] + idx[1] + idx[2]) % 2
			if k == 3 {
				word = slices.Concat([]rune{[]rune{rLRI, rRLI}[idx[2]%2]}, word, []rune{rPDI})
			}
			for i, fill := range []rune{'a', 'א'} {
				key := fmt.Sprintf("%s/%d/%x^%s", kind, (e+i)%2, fill, textKey(word))
				w.Case(key, func() string { fail, _ := bidiCase(key); return fail })
				w.Steps(65533)
				w.Add("texts_beyond_64_KB", 1)
				w.NonTrivial()
			}
			return true
		})
	}
}

func exploreBidiLong(longs []bidiLong, nests []bidiNest) func(w *mc.Worker) {
	return func(w *mc.Worker) {
		for _, l := range longs {
			al := sigma(l.letters)
			lens := l.quick
			if !w.Quick() {
				lens = append(slices.Clone(lens), l.more...)
			}
			for k := 1; k <= l.unit; k++ {
				if !mc.Product(len(al), k, func(idx []int) bool {
					if w.Stop() {
						return false
					}
					if !w.Mine() {
						return true
					}
					var unit []rune
					for _, x := range idx {
						unit = append(unit, al[x])
					}
					for _, n := range lens {
						body := slices.Repeat(unit, n/k)
						for i, fr := range bidiFrames {
							rs := slices.Concat(fr[0], body, fr[1])
							bidiOne(w, l.kind, bidiKinds[l.kind], rs, (i+n)%2)
						}
					}
					return true
				}) {
					return
				}
			}
		}
		for _, ns := range nests {
			op, core := sigma(ns.opens), sigma(ns.core)
			for k := 1; k <= 3; k++ {
				if !mc.Product(len(op), k, func(idx []int) bool {
					if w.Stop() {
						return false
					}
					if !w.Mine() {
						return true
					}
					var unit, end []rune
					for _, x := range idx {
						unit = append(unit, op[x])
						if op[x] == rLRI || op[x] == rRLI {
							end = append(end, rPDI)
						}
					}
					if len(end) == 0 {
						return true
					}
					for _, depth := range ns.depths {
						n := depth / len(end)
						for i, c := range core {
							for _, tail := range []rune{'a', 'א', '1'} {
								closing := end
								if i%2 == 1 { // with a character behind each PDI
									closing = nil
									for range end {
										closing = append(closing, rPDI, tail)
									}
								}
								rs := slices.Concat([]rune{core[len(core)-1-i]}, slices.Repeat(unit, n), []rune{c}, slices.Repeat(closing, n), []rune{tail})
								for e := 0; e < 2; e++ {
									bidiOne(w, ns.kind, bidiKinds[ns.kind], rs, e)
								}
							}
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}
}

func bidiOne(w *mc.Worker, kind string, f func(t *bidiText) string, rs []rune, e int) {
	t := newBidiText(rs, e)
	if !t.ref.Matched { // documented deviation from the standard
		w.Add("texts_with_unmatched_isolates_skipped", 1)
		return
	}
	key := kind + "/" + strconv.Itoa(e) + "/" + textKey(rs)
	w.Case(key, func() string { return f(t) })
	w.Steps(len(rs))
	seen := map[bref.Class]bool{}
	for _, c := range t.ref.Resolved {
		seen[c] = true
	}
	if len(seen) > 1 {
		w.NonTrivial()
	}
	w.Sample(func() string { return t.show() })
	w.Outcome(fmt.Sprint(t.ref.Resolved, t.ref.Level))
}

func bidiBound(spaces []bidiSpace, longs []bidiLong, nests []bidiNest) func(tier string) string {
	return func(tier string) string {
		var sb strings.Builder
		for _, l := range longs {
			n := l.quick
			if tier == "thorough" {
				n = append(slices.Clone(n), l.more...)
			}
			fmt.Fprintf(&sb, "%s: all units of up to %d letters of {%s}, repeated to lengths of %v, in 5 frames; ", l.kind, l.unit, l.letters, n)
		}
		for _, ns := range nests {
			fmt.Fprintf(&sb, "%s: all units of up to 3 letters of {%s} with an isolate, nested %v deep around {%s}; ", ns.kind, ns.opens, ns.depths, ns.core)
		}
		for _, sp := range spaces {
			n := sp.quick
			if tier == "thorough" {
				n = sp.thorough
			}
			fmt.Fprintf(&sb, "%s: all texts of length %d…%d over {%s}, both paragraph directions; ", sp.kind, sp.min, n, sp.letters)
		}
		sb.WriteString("texts beyond 64 KB: all words of 4 letters, and of 3 within isolates, around byte 65536 (not B02)")
		return sb.String()
	}
}

var bidiAssumptions = []string{
	"bidi classes of characters are those of golang.org/x/text/unicode/bidi",
	"texts without legacy embeddings/overrides; texts with unmatched isolate initiators only in B01 (documented deviations)",
	"boundary neutrals (BN) and isolate controls are invisible: their place in the order is not compared",
}

const implicitLetters = "L R AL EN ES ET AN CS NSM BN ON WS"
const implicitLetters2 = "L2 R2 AL2 EN2 ES2 ET2 AN2 CS2 NSM2 BN2 ON2 WS2"

var spacesB02 = []bidiSpace{
	{"class", implicitLetters, 0, 5, 7},
	{"class", implicitLetters2, 1, 4, 6},
	{"class", "L R EN AN ON", 6, 8, 10},
	{"class", "AL EN ES ET CS AN", 6, 7, 9},
	{"class", "R EN ET ES ON", 6, 8, 10},
	{"class", "L AL EN NSM BN", 6, 8, 10},
	{"class", "R EN ET BN", 6, 9, 11},
}

var spacesB03 = []bidiSpace{
	{"dirs", "L R EN ON LRI RLI PDI", 0, 7, 8},
	{"dirs", "L R LRI RLI PDI", 8, 8, 10},
	{"dirs", "AL EN ET NSM RLI PDI", 1, 7, 9},
	{"dirs", "L AL EN AN ON CS NSM BN LRI RLI PDI", 1, 5, 7},
	{"dirs", "R ( ) LRI PDI", 1, 8, 10},
	{"dirs", "R LRI RLI PDI", 9, 10, 12},
}

var spacesB04 = []bidiSpace{
	{"order", "L R EN AN ON", 0, 7, 9},
	{"order", "L R EN ON LRI RLI PDI", 1, 6, 8},
	{"order", "L R AN LRI RLI PDI", 1, 7, 9},
	{"order", "L R LRI RLI PDI", 8, 8, 10},
	{"order", "L2 R2 EN2 ON2 NSM RLI PDI", 1, 6, 7},
	{"order", "L2 R2 BN2 EN LRI RLI PDI", 1, 5, 7},
}

var spacesB06 = []bidiSpace{
	{"split2", "L R EN ON LRI RLI PDI", 0, 5, 7},
	{"split1", "L R EN LRI RLI PDI", 6, 6, 8},
	{"split2", "R EN LRI PDI", 6, 7, 9},
	{"split2", "L RLI PDI", 6, 8, 10},
	{"split2", "L R2 NSM AN ON2 RLI PDI", 1, 5, 6},
	{"splitout", "L R2 EN ON LRI RLI PDI", 0, 4, 5},
}

var spacesB07 = []bidiSpace{
	{"dirat", "L R EN AN ON LRI RLI PDI", 0, 6, 8},
	{"dirat", "L R LRI RLI PDI", 7, 8, 10},
	{"dirline", "L R EN LRI RLI PDI", 2, 6, 7},
	{"dirline", "L2 R2 EN ON2 RLI PDI", 2, 5, 7},
	{"dirout", "L R2 EN ON LRI RLI PDI", 0, 4, 5},
}

var longB02 = []bidiLong{
	{"class", implicitLetters, 2, []int{40, 130, 300}, []int{64, 1000}},
	{"class", "L R EN AN ET ON", 3, []int{60}, []int{300}},
	{"class", "AL EN ES CS NSM BN", 3, []int{60}, []int{300}},
}
var longB03 = []bidiLong{
	{"dirs", "L R EN AN ON CS NSM BN ( )", 2, []int{40, 130}, []int{64, 300, 1000}},
	{"dirs", "L R EN ON LRI RLI PDI", 4, []int{64, 200}, []int{600}},
}
var nestB03 = []bidiNest{{"dirs", "LRI RLI L R EN (", "L R EN ON AN", []int{12, 30, 60}}}
var longB04 = []bidiLong{
	{"order", "L R EN AN ON NSM BN L2 R2", 2, []int{40, 130, 300}, []int{64, 1000}},
	{"order", "L R EN AN ON", 3, []int{60, 100}, []int{300}},
	{"order", "L R EN ON LRI RLI PDI", 4, []int{64, 200}, []int{600}},
}
var nestB04 = []bidiNest{{"order", "LRI RLI L R EN", "L R EN ON AN", []int{12, 30, 60}}}
var longB06 = []bidiLong{
	{"split1", "L R EN AN ON R2 ON2", 2, []int{40}, []int{100}},
	{"split1", "L R LRI RLI PDI", 4, []int{40}, []int{100}},
}
var nestB06 = []bidiNest{{"split1", "LRI RLI L R", "L R EN", []int{12, 24}}}
var longB07 = []bidiLong{
	{"dirat", "L R EN AN ON R2 ON2 NSM BN", 2, []int{40, 130, 300}, []int{64, 1000}},
	{"dirat", "L R EN LRI RLI PDI", 4, []int{64, 200}, []int{600}},
}
var nestB07 = []bidiNest{{"dirat", "LRI RLI L R EN", "L R EN ON", []int{12, 30, 60}}}

func withLong(f func(w *mc.Worker), longs []bidiLong, nests []bidiNest) func(w *mc.Worker) {
	return func(w *mc.Worker) {
		exploreBidiLong(longs, nests)(w)
		f(w)
	}
}

func replayBidi(key string) (string, error) { return bidiCase(key) }

func init() {
	mc.Register(&mc.Check{ID: "B02", Level: "exploration",
		Rule:        "all texts without isolates and brackets over alphabets of bidi classes are resolved, the class of every byte is compared with a transcription of W1–W7, N1–N2",
		Assumptions: bidiAssumptions, Explore: func(w *mc.Worker) {
			exploreHuge(w, "class", "L R EN ON")
			withLong(exploreBidi(spacesB02), longB02, nil)(w)
		}, Replay: replayBidi, Bound: bidiBound(spacesB02, longB02, nil)})
	mc.Register(&mc.Check{ID: "B03", Level: "exploration",
		Rule:        "all texts with matched isolates (and unmatched PDIs) are resolved, the classes of the outermost sequence and the directions on all levels are compared with UAX#9",
		Assumptions: bidiAssumptions, Explore: func(w *mc.Worker) {
			exploreFSI(w)
			exploreFar(w, "dirs", "L R EN ON")
			withLong(exploreBidi(spacesB03), longB03, nestB03)(w)
		}, Replay: replayBidi, Bound: bidiBound(spacesB03, longB03, nestB03)})
	mc.Register(&mc.Check{ID: "B04", Level: "exploration",
		Rule:        "all texts are resolved and reordered, the order of display (as output by the client loop of the documentation) is compared with rules I1, I2, L2",
		Assumptions: bidiAssumptions, Explore: func(w *mc.Worker) {
			exploreHuge(w, "order", "L R2 EN")
			exploreFar(w, "order", "L R EN ON")
			withLong(exploreBidi(spacesB04), longB04, nestB04)(w)
		}, Replay: replayBidi, Bound: bidiBound(spacesB04, longB04, nestB04)})
	mc.Register(&mc.Check{ID: "B06", Level: "exploration",
		Rule:        "all texts are resolved and split at every position (and pair of positions), in both modes; every line is reordered and compared with rule L2 for this line; and at positions outside of the text",
		Assumptions: bidiAssumptions, Explore: func(w *mc.Worker) {
			exploreFar(w, "split1", "L R EN")
			withLong(exploreBidi(spacesB06), longB06, nestB06)(w)
		}, Replay: replayBidi, Bound: bidiBound(spacesB06, longB06, nestB06)})
	mc.Register(&mc.Check{ID: "B07", Level: "exploration",
		Rule:        "all texts are resolved, the direction at every byte, before and after splitting, and at positions outside of the text, is compared with UAX#9",
		Assumptions: bidiAssumptions, Explore: func(w *mc.Worker) {
			exploreFar(w, "dirat", "L R EN ON")
			exploreFar(w, "dirline1", "L R EN")
			withLong(exploreBidi(spacesB07), longB07, nestB07)(w)
		}, Replay: replayBidi, Bound: bidiBound(spacesB07, longB07, nestB07)})
}
