package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"slices"
	"strconv"
	"strings"
	"unicode"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/mc"
)

// breakers under test, by name
var breakerNames = []string{"simple", "word", "grapheme", "word+grapheme", "simple+word", "none"}

func breakersFor(name string) []uax.UnicodeBreaker {
	var bs []uax.UnicodeBreaker
	if name[0] == '=' { // scripted breakers, see C05
		for _, s := range strings.Split(name[1:], "/") {
			sc := &scripted{}
			for _, c := range s {
				sc.script = append(sc.script, int(c-'a'))
			}
			bs = append(bs, sc)
		}
		return bs
	}
	for _, n := range strings.Split(name, "+") {
		switch n {
		case "simple":
			bs = append(bs, segment.NewSimpleWordBreaker())
		case "word":
			bs = append(bs, uax29.NewWordBreaker(1))
		case "grapheme":
			grapheme.SetupGraphemeClasses()
			bs = append(bs, grapheme.NewBreaker(1))
		case "line": // if package uax14 has been built
			bs = append(bs, newLineBreaker())
		}
	}
	return bs
}

// withLines adds line breakers if there are any (see check.sh).
func withLines(names []string) []string {
	if newLineBreaker != nil {
		names = append(slices.Clone(names), "line", "word+line")
	}
	return names
}

func usualBreakers() []string {
	return withLines([]string{"simple", "word", "grapheme", "word+grapheme"})
}

// seg is a delivered segment.
type seg struct {
	text   string
	p0, p1 int
}

func (s seg) String() string { return fmt.Sprintf("%q(%d|%d)", s.text, s.p0, s.p1) }

// observe reads the current segment with all the accessors.
func observe(s *segment.Segmenter) (seg, string) {
	t := s.Text()
	if b := string(s.Bytes()); b != t {
		return seg{}, fmt.Sprintf("Bytes() is %q, Text() is %q", b, t)
	}
	if r := string(s.Runes()); r != t {
		return seg{}, fmt.Sprintf("Runes() is %q, Text() is %q", r, t)
	}
	p0, p1 := s.Penalties()
	return seg{t, p0, p1}, ""
}

// drain reads all the segments.
func drain(s *segment.Segmenter, max int) (out []seg, fail string) {
	for s.Next() {
		g, f := observe(s)
		if f != "" {
			return out, f
		}
		out = append(out, g)
		if len(out) > max {
			return out, "too many segments (endless loop?)"
		}
	}
	if s.Text() != "" || len(s.Bytes()) != 0 || len(s.Runes()) != 0 {
		return out, fmt.Sprintf("there is a segment %q after Next() has returned false", s.Text())
	}
	if s.Next() {
		return out, "Next() returned true after it had returned false"
	}
	return out, ""
}

func sameSegs(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func joined(a []seg) string {
	var sb strings.Builder
	for _, s := range a {
		sb.WriteString(s.text)
	}
	return sb.String()
}

// --- C04: partition -------------------------------------------------------------------------

// input bytes may be illegal UTF-8; a text is given by letters
var partLetters = []string{"a", " ", "\x00", "\u0300", "1", "\n", "\U0001F1E6", "\r", "é", "\xff", "\ufffd", "\u200d", "\U0001F600", "'", "\xe2\x82"}

func partitionCase(key string) (string, error) {
	br, text, ok := strings.Cut(key, ":")
	if !ok {
		return "", fmt.Errorf("illegal key")
	}
	if list, ok := strings.CutPrefix(text, "runes "); ok {
		return illegalCase(br, list)
	}
	t, err := strconv.Unquote(text)
	if err != nil {
		return "", err
	}
	want := string([]rune(t)) // illegal bytes are read as U+FFFD
	var first []seg
	for mode := 0; mode < 3; mode++ {
		s := segment.NewSegmenter(breakersFor(br)...)
		var keep []rune
		switch mode {
		case 0:
			s.Init(strings.NewReader(t))
		case 1:
			keep = []rune(t + "\u2603\u2603\u2603")
			s.InitFromSlice(keep[:len(keep)-3])
		case 2:
			s.Init(&oneByOne{rs: []rune(t)})
		}
		got, fail := drain(s, len(t)+2)
		if fail != "" {
			return fmt.Sprintf("input method %d: %s, segments %v", mode, fail, got), nil
		}
		if s.Err() != nil {
			return fmt.Sprintf("input method %d: error %v", mode, s.Err()), nil
		}
		for _, g := range got {
			if g.text == "" {
				return fmt.Sprintf("input method %d: empty segment in %v", mode, got), nil
			}
		}
		if joined(got) != want {
			return fmt.Sprintf("input method %d: segments are %v, text is %q", mode, got, want), nil
		}
		if mode == 0 {
			first = got
		} else if !sameSegs(first, got) {
			return fmt.Sprintf("input method %d: segments are %v, must be %v", mode, got, first), nil
		}
		if keep != nil && string(keep) != want+"\u2603\u2603\u2603" {
			return "input slice has been modified", nil
		}
	}
	return "", nil
}

// slices may contain anything
var illegalRunes = []rune{'a', ' ', 0x300, 0x1f1e6, 0xd800, 0xdfff, -1, 0x110000, 0x7fffffff, -0x80000000, 0, 0xffff, 0x10ffff}

func illegalCase(br, list string) (string, error) {
	var in []rune
	for _, f := range strings.Fields(list) {
		n, err := strconv.ParseInt(f, 16, 32)
		if err != nil {
			return "", err
		}
		in = append(in, rune(n))
	}
	s := segment.NewSegmenter(breakersFor(br)...)
	s.InitFromSlice(slices.Clone(in))
	var out []rune
	for s.Next() {
		rs := s.Runes()
		if len(rs) == 0 || len(out)+len(rs) > len(in) {
			return fmt.Sprintf("segment %x after %x, text is %x", rs, out, in), nil
		}
		out = append(out, rs...)
		if s.Text() != string(rs) || string(s.Bytes()) != string(rs) {
			return fmt.Sprintf("segment %x has text %q and bytes %q", rs, s.Text(), s.Bytes()), nil
		}
	}
	if s.Err() != nil || !slices.Equal(in, out) {
		return fmt.Sprintf("code-points delivered are %x of %x, error %v", out, in, s.Err()), nil
	}
	return "", nil
}

// oneByOne is a rune reader which is no other kind of reader.
type oneByOne struct {
	rs  []rune
	pos int
}

func (o *oneByOne) ReadRune() (rune, int, error) {
	if o.pos >= len(o.rs) {
		return 0, 0, io.EOF
	}
	o.pos++
	return o.rs[o.pos-1], len(string(o.rs[o.pos-1])), nil
}

func explorePartition(w *mc.Worker) {
	for n := 1; n <= w.Pick(4, 5); n++ {
		for _, br := range withLines(breakerNames) {
			if !mc.Product(len(illegalRunes), n, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				var sb strings.Builder
				for _, i := range idx {
					fmt.Fprintf(&sb, " %x", illegalRunes[i])
				}
				key := br + ":runes" + sb.String()
				w.Case(key, func() string { s, _ := partitionCase(key); return s })
				w.Steps(n)
				w.Add("slices_with_illegal_code-points", 1)
				return !w.Stop()
			}) {
				return
			}
		}
	}
	do := func(br, t string) bool {
		key := br + ":" + strconv.QuoteToASCII(t)
		w.Case(key, func() string { s, _ := partitionCase(key); return s })
		w.Steps(3 * len([]rune(t)))
		if len(t) > 1 {
			w.NonTrivial()
		}
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	for n := 0; n <= w.Pick(4, 5); n++ {
		for _, br := range withLines(breakerNames) {
			if !mc.Product(len(partLetters), n, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				var sb strings.Builder
				for _, i := range idx {
					sb.WriteString(partLetters[i])
				}
				return do(br, sb.String())
			}) {
				return
			}
		}
	}
	// long runs: growing, wrapping and shrinking of internal buffers (the time line breakers
	// need for long runs grows more than linearly; nothing is said about that)
	for _, br := range breakerNames {
		for _, n := range []int{62, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4095, 4096, 4097, 8193, 20000}[:w.Pick(13, 15)] {
			if !mc.Product(4, 3, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				l := []string{"a", " ", "\u0300", "1"}
				return do(br, l[idx[0]]+strings.Repeat(l[idx[1]], n)+l[idx[2]]+l[idx[0]])
			}) {
				return
			}
		}
	}
}

// --- C05: penalties -------------------------------------------------------------------------

// a report list says which penalties a scripted breaker reports for the break after a rune, and
// how many runes later
type report struct{ delay, p int }

var reportMenu = [][]report{
	{}, {{0, 50}}, {{1, 50}}, {{2, -50}}, {{0, -50}}, {{1, 9999}}, {{0, 10000}}, {{1, 10000}}, {{0, 50}, {1, -50}},
	{{0, 9000}, {1, 1000}}, {{0, -20000}, {2, 10001}}, {{0, 10001}, {1, -1}, {2, -1}}, {{3, 1}}, {{2, 10000}},
	// large ones
	{{0, 40000}}, {{1, -40000}}, {{0, 65536 + 50}}, {{0, -1 << 31}}, {{1, 1<<32 + 7}}, {{0, 1 << 50}, {1, -1 << 50}, {1, 3}}, {{0, -9999}}, {{1, 65536}},
}

const smallReports = 14 // without large ones

// scripted is a breaker which obeys to its contract: penalties may be reported belatedly, but
// just within the active match.
type scripted struct {
	script  []int // index into reportMenu for each rune
	j       int   // runes read
	pen     []int
	lam     int
	nothing []int // forces an uncomparable type if used by value
}

func (b *scripted) CodePointClassFor(r rune) int { return int(r) }
func (b *scripted) StartRulesFor(rune, int)      {}
func (b *scripted) ProceedWithRune(r rune, c int) {
	now := b.j // index of this rune
	b.j++
	n := len(b.script)
	if r == 0 { // end of text
		b.j = 0
		now = max(now, n)
	}
	b.pen = b.pen[:0]
	b.lam = 0
	for i := 0; i <= now && i < n; i++ {
		for _, rep := range reportMenu[b.script[i]] {
			at := i + rep.delay
			if at > n {
				at = n // not later than end of text
			}
			if at == now {
				for len(b.pen) <= now-i {
					b.pen = append(b.pen, 0)
				}
				b.pen[now-i] += rep.p
			} else if at > now && now-i+1 > b.lam {
				b.lam = now - i + 1
			}
		}
	}
}
func (b *scripted) LongestActiveMatch() int { return b.lam }
func (b *scripted) Penalties() []int        { return b.pen }

func total(menu int) (p int) {
	for _, r := range reportMenu[menu] {
		p += r.p
	}
	return
}

// key: <zero0><zero1>:<script>/<script>...  each script as letters
func penaltyCase(key string) (string, error) {
	z, rest, _ := strings.Cut(key, ":")
	scripts := strings.Split(rest, "/")
	n := len(scripts[0])
	var bs []uax.UnicodeBreaker
	for _, s := range scripts {
		sc := &scripted{}
		for _, c := range s {
			sc.script = append(sc.script, int(c-'a'))
		}
		bs = append(bs, sc)
	}
	z0, z1 := z[0] == '1', z[1] == '1'
	feasible := func(p int, zero bool) bool { return p < uax.InfinitePenalty && (p != 0 || zero) }
	text := []rune("abcdefghijkl")[:n]
	var want []seg
	start := 0
	for i := 0; i < n; i++ {
		p0, p1 := 0, 0
		for k := range scripts {
			p := total(int(scripts[k][i] - 'a'))
			if k == 0 {
				p0 = p
			} else {
				p1 += p
			}
		}
		if feasible(p0, z0) || len(scripts) > 1 && feasible(p1, z1) {
			want = append(want, seg{string(text[start : i+1]), p0, p1})
			start = i + 1
		}
	}
	for mode := 0; mode < 2; mode++ {
		for _, b := range bs {
			b.(*scripted).j = 0
		}
		s := segment.NewSegmenter(bs...)
		s.BreakOnZero(z0, z1)
		if mode == 0 {
			s.Init(strings.NewReader(string(text)))
		} else {
			s.InitFromSlice(text)
		}
		got, fail := drain(s, n+1)
		if fail != "" {
			return fail, nil
		}
		if !sameSegs(got, want) {
			return fmt.Sprintf("segments are %v, must be %v", got, want), nil
		}
	}
	return "", nil
}

func explorePenalties(w *mc.Worker) {
	var letters []int // of the menu, if not all of them
	run := func(nbreakers, n, menu int, zeros []string) bool {
		return mc.Product(menu, n*nbreakers, func(idx []int) bool {
			if letters != nil {
				at := make([]int, len(idx))
				for i, x := range idx {
					at[i] = letters[x]
				}
				idx = at
			}
			last := false // the end of the text has to be a possible break
			for k := 0; k < nbreakers; k++ {
				p := total(idx[k*n+n-1])
				last = last || (k == 0 && p < uax.InfinitePenalty && p != 0)
			}
			if !last || !w.Mine() {
				return true
			}
			b := make([]byte, 0, 16)
			for i, a := range idx {
				if i > 0 && i%n == 0 {
					b = append(b, '/')
				}
				b = append(b, byte('a'+a))
			}
			for _, z := range zeros {
				key := z + ":" + string(b)
				w.Case(key, func() string { s, _ := penaltyCase(key); return s })
				w.Steps(n * nbreakers)
				w.NonTrivial()
				w.Sample(func() string { return key })
			}
			return !w.Stop()
		})
	}
	all := []string{"00", "01", "10", "11"}
	m := smallReports
	for n := 1; n <= w.Pick(4, 5); n++ {
		if !run(1, n, m, []string{"00", "10"}) {
			return
		}
	}
	for n := 1; n <= w.Pick(2, 3); n++ {
		if !run(2, n, m, all) {
			return
		}
	}
	if !run(2, 3, 7, all) || !run(3, 2, w.Pick(7, 9), all) || !run(1, w.Pick(5, 6), 9, []string{"00"}) || !run(2, w.Pick(3, 4), w.Pick(8, 6), []string{"00"}) {
		return
	}
	if !run(4, 2, w.Pick(4, 6), all) || !run(5, 1, w.Pick(6, 10), all) {
		return
	}
	for i := smallReports; i < len(reportMenu); i++ {
		letters = append(letters, i)
	}
	letters = append(letters, 0, 1, 7)
	if !run(1, 2, len(letters), all) || !run(1, 3, len(letters), all) || !run(2, 2, len(letters), all) || !w.Quick() && !run(1, 4, len(letters), all) {
		return
	}
}

// --- C06: histories of texts ------------------------------------------------------------------

var errInjected = errors.New("injected")

type faultReader struct {
	rs    []rune
	n     int // number of successful reads
	err   error
	reads int
	after bool // deliver runes again after the error
	done  bool
}

func (f *faultReader) ReadRune() (rune, int, error) {
	if f.reads == f.n && !(f.after && f.done) {
		f.done = true
		return 0, 0, f.err
	}
	if f.reads >= len(f.rs) {
		return 0, 0, io.EOF
	}
	f.reads++
	return f.rs[f.reads-1], len(string(f.rs[f.reads-1])), nil
}

var histLetters = []rune{'a', ' ', 0x300, '1', '.', 0x1F1E6, '\r', 0x1F600, 0x200d, 0x5d0, '"'}

// boundedRun iterates with growing bounds
func boundedRun(s *segment.Segmenter, t []rune) string {
	s.Init(strings.NewReader(string(t)))
	var out []seg
	var errs []error
	for b := 1; b <= len(t)+1; b++ {
		for s.BoundedNext(b) {
			g, fail := observe(s)
			if fail != "" {
				return fail
			}
			if out = append(out, g); len(out) > len(t)+2 {
				return "too many segments"
			}
		}
		errs = append(errs, s.Err())
	}
	return fmt.Sprint(out, errs)
}

func fullRun(s *segment.Segmenter, t []rune, slice bool) string {
	if slice {
		s.InitFromSlice(t)
	} else {
		s.Init(strings.NewReader(string(t)))
	}
	got, fail := drain(s, len(t)+2)
	if s.Err() != nil {
		fail += " err " + s.Err().Error()
	}
	return fmt.Sprint(got, fail)
}

// abandon uses a segmenter for a text, in different ways
func abandon(s *segment.Segmenter, kind string, t []rune, k int) {
	switch kind {
	case "next": // k segments
		s.Init(strings.NewReader(string(t)))
		for i := 0; i < k && s.Next(); i++ {
		}
	case "slice":
		s.InitFromSlice(t)
		for i := 0; i < k && s.Next(); i++ {
		}
	case "error": // error after k runes
		s.Init(&faultReader{rs: t, n: k, err: errInjected})
		for s.Next() {
		}
	case "bound":
		s.InitFromSlice(t)
		for s.BoundedNext(k) {
		}
	case "long": // a long text without breaks, then k segments of t
		s.Init(strings.NewReader(strings.Repeat("aa\u0300", 25+20*k) + string(t)))
		for i := 0; i < k && s.Next(); i++ {
		}
	case "toolong": // ended by a segment longer than the limit of k+1 code-points
		s.Init(nil)
		s.RuneBuffer(make([]rune, 0, 1), k+1)
		s.Init(strings.NewReader(string(t) + "abcd"))
		for s.Next() {
		}
		s.Init(nil)
		s.RuneBuffer(make([]rune, 0, 8), segment.MaxSegmentSize)
	}
}

var abandonKinds = []string{"next", "slice", "error", "bound", "long", "toolong"}

// key: breaker|kind:k:text|kind:k:text|...|mode:text, with "n*kind" for n repetitions of the uses
// up to this one
func historyCase(key string) (string, error) {
	parts := strings.Split(key, "|")
	s := segment.NewSegmenter(breakersFor(parts[0])...)
	var uses []func()
	for _, p := range parts[1 : len(parts)-1] {
		f := strings.SplitN(p, ":", 3)
		k, _ := strconv.Atoi(f[1])
		t, err := parseText(f[2])
		if err != nil {
			return "", err
		}
		times, kind, repeat := strings.Cut(f[0], "*")
		if !repeat {
			times, kind = "1", f[0]
		}
		n, err := strconv.Atoi(times)
		if err != nil {
			return "", err
		}
		uses = append(uses, func() { abandon(s, kind, t, k) })
		for i := 0; i < n; i++ {
			if i == 0 {
				uses[len(uses)-1]()
				continue
			}
			for _, use := range uses {
				use()
			}
		}
	}
	mode, text, _ := strings.Cut(parts[len(parts)-1], ":")
	t, err := parseText(text)
	if err != nil {
		return "", err
	}
	run := func(s *segment.Segmenter) string {
		if mode == "bounded" {
			return boundedRun(s, t)
		}
		return fullRun(s, t, mode == "slice")
	}
	got, want := run(s), run(segment.NewSegmenter(breakersFor(parts[0])...))
	if got != want {
		return fmt.Sprintf("re-initialized segmenter delivers %s, a new one delivers %s", got, want), nil
	}
	return "", nil
}

func textsUpTo(al []rune, n int) (ts [][]rune) {
	for k := 0; k <= n; k++ {
		mc.Product(len(al), k, func(idx []int) bool {
			t := make([]rune, k)
			for i, a := range idx {
				t[i] = al[a]
			}
			ts = append(ts, t)
			return true
		})
	}
	return
}

func exploreHistories(w *mc.Worker) {
	names := usualBreakers()
	do := func(key string) bool {
		w.Case(key, func() string { s, _ := historyCase(key); return s })
		w.Steps(strings.Count(key, "|"))
		w.NonTrivial()
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	// one previous text
	first := textsUpTo(histLetters, 2)
	if !w.Quick() {
		first = textsUpTo(histLetters, 3)
	}
	second := textsUpTo(histLetters, 2)
	second = append(second, []rune{0x1F1E6, 0x1F1E6, 0x1F1E6}, []rune{0x1F1E6, 0x1F1E6, 'a'}, []rune{'.', 'a', '1'}, []rune{0x300, 0x300, 0x1F1E6}, []rune{'a', '.', 'a'}, []rune{0x200d, 0x1F600, 'a'})
	states := 0
	for _, br := range names {
		for _, kind := range abandonKinds {
			for _, t1 := range first {
				for k := 0; k <= len(t1); k++ {
					states++
					for _, t2 := range second {
						for _, mode := range []string{"reader", "slice", "bounded"} {
							if !w.Mine() {
								continue
							}
							if !do(br + "|" + kind + ":" + strconv.Itoa(k) + ":" + textKey(t1) + "|" + mode + ":" + textKey(t2)) {
								return
							}
						}
					}
				}
			}
		}
	}
	// scripted breakers: matches and belated penalties pending at the end of the previous text
	m, slen := smallReports, w.Pick(3, 4)
	if !mc.Product(m, slen, func(idx []int) bool {
		if !w.Mine() {
			return true
		}
		b := []byte{'='}
		for _, a := range idx {
			b = append(b, byte('a'+a))
		}
		for _, kind := range abandonKinds {
			for k := 0; k <= slen; k++ {
				for _, mode := range []string{"reader", "slice", "bounded"} {
					for _, t2 := range []string{"vwx", "vwxyz", "v"} {
						if !do(string(b) + "|" + kind + ":" + strconv.Itoa(k) + ":" + textKey([]rune("abcdef")[:slen]) + "|" + mode + ":" + textKey([]rune(t2))) {
							return false
						}
					}
				}
			}
		}
		w.States(6 * slen)
		return true
	}) {
		return
	}
	// two previous texts
	few := textsUpTo([]rune{'a', 0x1F1E6, '.', ' ', '1'}, w.Pick(1, 2))
	few = append(few, []rune{'a', 0x1F1E6}, []rune{0x1F1E6, 'a'}, []rune{'1', '.'})
	for _, br := range names {
		for _, k1 := range abandonKinds {
			for _, t1 := range few {
				for n1 := 0; n1 <= len(t1); n1++ {
					for _, k2 := range abandonKinds {
						for _, t2 := range few {
							for n2 := 0; n2 <= len(t2); n2++ {
								states++
								for _, t3 := range [][]rune{{0x1F1E6, 0x1F1E6, 'a'}, {'a', '.', 'a'}, {'.', '1', ' '}, {}} {
									if !w.Mine() {
										continue
									}
									if !do(fmt.Sprintf("%s|%s:%d:%s|%s:%d:%s|slice:%s", br, k1, n1, textKey(t1), k2, n2, textKey(t2), textKey(t3))) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// long lives
	for _, n := range []int{7, 8, 31, 64, 127, 128, 254, 255, 256, 511, 1023, 1024, 4096, 65535, 65536} {
		for _, br := range names {
			for i, k1 := range abandonKinds {
				for j, k2 := range abandonKinds {
					states++
					if n > 5000 && (i != j || w.Quick() && n != 65536) || !w.Mine() {
						continue
					}
					for x, t := range [][]rune{{'a', 0x1F1E6, '.', ' '}, {' ', 'a', 0x300}} {
						m := strconv.Itoa(n) + "*"
						if k1 == "long" || k2 == "long" {
							m = strconv.Itoa(min(n, 257)) + "*"
						}
						mode := []string{"reader", "slice", "bounded"}[(n+i+j)%3]
						if !do(fmt.Sprintf("%s|%s:%d:%s|%s%s:%d:%s|%s:1f1e6.1f1e6.1f1e6.20.61.2e.61", br, k1, i%4, textKey(t), m, k2, j%3+x, textKey(t[x:]), mode)) {
							return
						}
					}
				}
			}
		}
	}
	if w.Shard == 0 {
		w.States(states)
	}
}

// --- C07: bounds -----------------------------------------------------------------------------

// key: breaker:mode:text:ops   ops are separated by commas: n = Next, <number> = BoundedNext
func boundCase(key string) (string, error) {
	f := strings.Split(key, ":")
	t, err := parseText(f[2])
	if err != nil {
		return "", err
	}
	// unbounded run tells the breaks
	s := segment.NewSegmenter(breakersFor(f[0])...)
	s.InitFromSlice(t)
	ref, fail := drain(s, len(t)+2)
	if fail != "" {
		return fail, nil
	}
	ends := map[int]seg{}
	pos := 0
	for _, g := range ref {
		pos += len([]rune(g.text))
		ends[pos] = g
	}
	if pos != len(t) {
		return "unbounded segmentation does not cover the text", nil
	}
	s = segment.NewSegmenter(breakersFor(f[0])...)
	if f[1] == "slice" {
		s.InitFromSlice(t)
	} else {
		s.Init(strings.NewReader(string(t)))
	}
	front := 0
	for n, op := range strings.Split(f[3], ",") {
		bound := len(t) + 10
		var ok bool
		if op == "n" {
			ok = s.Next()
		} else {
			bound, _ = strconv.Atoi(op)
			ok = s.BoundedNext(bound)
		}
		end := front
		if front < bound && front < len(t) {
			end = front + 1
			for end < bound {
				if _, is := ends[end]; is {
					break
				}
				end++
			}
		}
		if ok != (end > front) {
			return fmt.Sprintf("call %d (%s) at position %d returns %v", n, op, front, ok), nil
		}
		if !ok {
			if front < len(t) && s.Err() != segment.ErrBoundReached {
				return fmt.Sprintf("call %d (%s): error is %v, must be ErrBoundReached", n, op, s.Err()), nil
			}
			if front >= len(t) && s.Err() != nil && s.Err() != segment.ErrBoundReached || front >= len(t) && s.Err() != nil && bound > len(t) {
				return fmt.Sprintf("call %d (%s): error at end of text is %v", n, op, s.Err()), nil
			}
			if s.Text() != "" {
				return fmt.Sprintf("call %d (%s) returned false, but there is a segment %q", n, op, s.Text()), nil
			}
			continue
		}
		if s.Err() != nil {
			return fmt.Sprintf("call %d (%s) returned true with error %v", n, op, s.Err()), nil
		}
		g, fail := observe(s)
		if fail != "" {
			return fail, nil
		}
		if g.text != string(t[front:end]) {
			return fmt.Sprintf("call %d (%s) at position %d delivers %q, must be %q", n, op, front, g.text, string(t[front:end])), nil
		}
		if r, is := ends[end]; is && (g.p0 != r.p0 || g.p1 != r.p1) {
			return fmt.Sprintf("call %d (%s): penalties %d|%d, must be %d|%d", n, op, g.p0, g.p1, r.p0, r.p1), nil
		} else if !is && (g.p0 != 0 && g.p0 < uax.InfinitePenalty) {
			return fmt.Sprintf("call %d (%s): a break at the bound only has a possible penalty %d", n, op, g.p0), nil
		}
		front = end
	}
	return "", nil
}

func exploreBounds(w *mc.Worker) {
	al := []rune{'a', ' ', 0x300, 0x1F1E6, '.', '1'}
	for n := 0; n <= w.Pick(4, 5); n++ {
		letters := al
		if n >= 4 && w.Quick() {
			letters = al[:4]
		}
		for _, t := range textsUpTo(letters, n) {
			if len(t) != n {
				continue
			}
			ops := []string{"n"}
			for b := 0; b <= n+1; b++ {
				ops = append(ops, strconv.Itoa(b))
			}
			depth := n + 1
			if depth > 4 {
				depth = 4
			}
			if n <= 2 {
				depth = 4
			}
			for _, br := range []string{"simple", "word", "grapheme"} {
				if w.Shard == 0 {
					w.States((n + 1) * (n + 3))
				}
				for _, mode := range []string{"slice", "reader"} {
					if !mc.Product(len(ops), depth, func(idx []int) bool {
						if !w.Mine() {
							return true
						}
						o := make([]string, depth+1)
						for i, a := range idx {
							o[i] = ops[a]
						}
						o[depth] = "n"
						key := br + ":" + mode + ":" + textKey(t) + ":" + strings.Join(o, ",")
						w.Case(key, func() string { s, _ := boundCase(key); return s })
						w.Steps(depth + 1)
						w.NonTrivial()
						w.Sample(func() string { return key })
						return !w.Stop()
					}) {
						return
					}
				}
			}
		}
	}
	// scripted breakers: penalties reported belatedly, by one or two breakers
	scripts := func(nbreakers, n, menu, depth int) bool {
		text := textKey([]rune("abcdefghijkl")[:n])
		ops := []string{"n"}
		for b := 0; b <= n; b++ {
			ops = append(ops, strconv.Itoa(b))
		}
		return mc.Product(menu, n*nbreakers, func(idx []int) bool {
			if p := total(idx[n-1]); p == 0 || p >= uax.InfinitePenalty {
				return true // the end of the text has to be a possible break
			}
			if !w.Mine() {
				return true
			}
			b := []byte{'='}
			for i, a := range idx {
				if i > 0 && i%n == 0 {
					b = append(b, '/')
				}
				b = append(b, byte('a'+a))
			}
			w.States((n + 1) * (n + 3))
			return mc.Product(len(ops), depth, func(idx []int) bool {
				o := make([]string, depth+1)
				for i, a := range idx {
					o[i] = ops[a]
				}
				o[depth] = "n"
				key := string(b) + ":" + []string{"slice", "reader"}[idx[0]&1] + ":" + text + ":" + strings.Join(o, ",")
				w.Case(key, func() string { s, _ := boundCase(key); return s })
				w.Steps(depth + 1)
				w.NonTrivial()
				return !w.Stop()
			})
		})
	}
	m := smallReports
	for n := 1; n <= 3; n++ {
		if !scripts(1, n, m, w.Pick(3, 4)) {
			return
		}
	}
	if !scripts(1, 4, m, w.Pick(2, 3)) || !scripts(2, 2, m, w.Pick(2, 4)) || !scripts(2, 3, w.Pick(5, 10), w.Pick(2, 3)) || !w.Quick() && !scripts(1, 5, m, 2) {
		return
	}
	// extreme bounds
	var extreme []string
	for _, b := range []int{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1 << 31, -1, 1, 2, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<32 + 2, math.MaxInt64 - 1, math.MaxInt64} {
		extreme = append(extreme, strconv.Itoa(b))
	}
	extreme = append(extreme, "n")
	for _, t := range textsUpTo([]rune{'a', ' ', 0x300, 0x1F1E6}, 3) {
		for _, br := range usualBreakers() {
			if !mc.Product(len(extreme), 2, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				key := br + ":" + []string{"slice", "reader"}[idx[0]&1] + ":" + textKey(t) + ":" + extreme[idx[0]] + "," + extreme[idx[1]] + ",n,n"
				w.Case(key, func() string { s, _ := boundCase(key); return s })
				w.Steps(4)
				w.Add("extreme_bounds", 1)
				return !w.Stop()
			}) {
				return
			}
		}
	}
	// bounds around 65536 in longer texts
	for _, t := range []string{"61*65530+20.61.62.20.63.64.65.20.66.20.67.20.20.68", "61*30000+20+62*35530+20.63.20.64.65.20.66.67.20.20.68.69"} {
		for b1 := 65526; b1 <= 65545; b1++ {
			for b2 := b1; b2 <= 65545; b2 += w.Pick(3, 1) {
				for i, mode := range []string{"slice", "reader"} {
					if !w.Mine() || (b1+b2+i)%2 == 1 && w.Quick() {
						continue
					}
					o := strings.Repeat(strconv.Itoa(b1)+",", 4) + strings.Repeat(strconv.Itoa(b2)+",", 3) + "n,n,n"
					key := "simple:" + mode + ":" + t + ":" + o
					w.Case(key, func() string { s, _ := boundCase(key); return s })
					w.Steps(10)
					w.Add("texts_beyond_65536", 1)
					if w.Stop() {
						return
					}
				}
			}
		}
	}
	// monotone use with larger texts: segments up to a bound, then the rest
	for _, br := range usualBreakers() {
		for _, t := range []string{"Hello World, how are you?", "héllo wörld\u0300 \U0001F1E6\U0001F1E6\U0001F1E6 \r\n3.14 can't", strings.Repeat("a", 70) + " " + strings.Repeat("b\u0300", 70)} {
			rs := []rune(t)
			for b1 := 0; b1 <= len(rs)+1; b1++ {
				for b2 := 0; b2 <= len(rs)+1; b2 += w.Pick(3, 1) {
					for _, mode := range []string{"slice", "reader"} {
						if !w.Mine() {
							continue
						}
						o := strings.Repeat(strconv.Itoa(b1)+",", 20) + strings.Repeat(strconv.Itoa(b2)+",", 20) + "n,n,n"
						if br == "grapheme" && len(rs) > 100 && w.Quick() {
							continue
						}
						key := br + ":" + mode + ":" + textKey(rs) + ":" + o
						w.Case(key, func() string { s, _ := boundCase(key); return s })
						w.Steps(43)
						w.NonTrivial()
						if w.Stop() {
							return
						}
					}
				}
			}
		}
	}
}

// --- C08: faults of the reader -----------------------------------------------------------------

var faultKinds = map[string]error{"error": errInjected, "unexpected": io.ErrUnexpectedEOF, "wrapped": fmt.Errorf("wrapped: %w", io.EOF)}
var faultNames = []string{"error", "unexpected", "wrapped"}

// key: breaker:kind:k:after:bounded:text
func faultCase(key string) (string, error) {
	f := strings.Split(key, ":")
	k, _ := strconv.Atoi(f[2])
	t, err := parseText(f[5])
	if err != nil {
		return "", err
	}
	next := func(s *segment.Segmenter) bool {
		if f[4] == "bounded" {
			return s.BoundedNext(len(t) + 5)
		}
		return s.Next()
	}
	// fault-free run: which segments are delivered after how many reads?
	s := segment.NewSegmenter(breakersFor(f[0])...)
	r := &faultReader{rs: t, n: -1}
	s.Init(r)
	var ref []seg
	var reads []int
	for next(s) {
		g, fail := observe(s)
		if fail != "" {
			return fail, nil
		}
		ref = append(ref, g)
		n := r.reads
		reads = append(reads, n)
		if len(ref) > len(t) {
			return "too many segments", nil
		}
	}
	if joined(ref) != string(t) {
		return "fault-free run is lossy", nil
	}
	s = segment.NewSegmenter(breakersFor(f[0])...)
	inject := faultKinds[f[1]]
	r = &faultReader{rs: t, n: k, err: inject, after: f[3] == "again"}
	s.Init(r)
	var got []seg
	for next(s) {
		g, fail := observe(s)
		if fail != "" {
			return fail, nil
		}
		got = append(got, g)
		if len(got) > len(t)+1 {
			return "too many segments", nil
		}
	}
	if s.Err() != inject {
		return fmt.Sprintf("error is %v, must be %v", s.Err(), inject), nil
	}
	if len(got) > len(ref) || !sameSegs(got, ref[:len(got)]) {
		return fmt.Sprintf("segments %v are no prefix of the fault-free segments %v", got, ref), nil
	}
	// a segment which does not need the failing read has to be delivered
	must := 0
	for i := range ref {
		if reads[i] < k || reads[i] == k && k < len(t) {
			must = i + 1
		}
	}
	if len(got) < must {
		return fmt.Sprintf("segments %v, must be %v", got, ref[:must]), nil
	}
	if s.Text() != "" {
		return fmt.Sprintf("there is a segment %q after the error", s.Text()), nil
	}
	for i := 0; i < 3; i++ { // errors are sticky
		if next(s) || s.Err() != inject {
			return fmt.Sprintf("segmenter continues after the error, err=%v", s.Err()), nil
		}
	}
	// the segmenter may be re-used
	if got, want := fullRun(s, t, false), fmt.Sprint(ref, ""); got != want {
		return fmt.Sprintf("re-used segmenter delivers %s, must be %s", got, want), nil
	}
	return "", nil
}

func exploreFaults(w *mc.Worker) {
	al := []rune{'a', ' ', 0x300, '.', 0x1F1E6, '\r', 0}
	for n := 0; n <= w.Pick(4, 5); n++ {
		for _, t := range textsUpTo(al, n) {
			if len(t) != n {
				continue
			}
			for _, br := range usualBreakers() {
				for _, kind := range faultNames {
					for k := 0; k <= n; k++ {
						for _, after := range []string{"stop", "again"} {
							for _, b := range []string{"unbounded", "bounded"} {
								if !w.Mine() {
									continue
								}
								key := fmt.Sprintf("%s:%s:%d:%s:%s:%s", br, kind, k, after, b, textKey(t))
								w.Case(key, func() string { s, _ := faultCase(key); return s })
								w.Steps(n)
								if k > 0 {
									w.NonTrivial()
								}
								w.Sample(func() string { return key })
								if w.Stop() {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// --- C09: limits -------------------------------------------------------------------------------

// key: mode:order:cap:max:len1,len2,...  with words of these lengths (cap -1: no buffer is set, -2:
// nil, -3: empty); order tells when the buffer is set: before or after Init, or first of all; mode may have a suffix: u letters of 2, 3
// and 4 bytes, w with the word breaker, g each segment is a grapheme cluster, b by bounded steps
func limitCase(key string) (string, error) {
	f := strings.Split(key, ":")
	c, _ := strconv.Atoi(f[2])
	m, _ := strconv.Atoi(f[3])
	limit := segment.MaxSegmentSize
	s := segment.NewSegmenter()
	mode, variant, _ := strings.Cut(f[0], "-")
	letters := []rune("bcd")
	bounded := false
	switch variant {
	case "u":
		letters = []rune("é漢😀")
	case "w":
		s = segment.NewSegmenter(breakersFor("word")...)
	case "g":
		s = segment.NewSegmenter(breakersFor("grapheme")...)
	case "b":
		bounded = true
	}
	var sb strings.Builder
	for i, l := range strings.Split(f[4], ",") {
		n, _ := strconv.Atoi(l)
		if i > 0 {
			if variant == "w" {
				sb.WriteString("!") // spaces are not separated
			} else {
				sb.WriteString(" ")
			}
		}
		if variant == "g" {
			if n > 0 {
				sb.WriteString("x" + strings.Repeat("\u0301", n-1))
			}
			continue
		}
		sb.WriteString(strings.Repeat(string(letters[i]), n))
	}
	text := []rune(sb.String())
	var want [][]rune
	for i := 0; i < len(text); {
		j := i + 1
		if variant == "w" || variant == "g" {
			for j < len(text) && (variant == "w" && text[i] != '!' && text[j] != '!' || text[j] == 0x301) {
				j++
			}
		} else {
			for j < len(text) && (text[j] == ' ') == (text[i] == ' ') {
				j++
			}
		}
		want = append(want, text[i:j])
		i = j
	}
	next := func() bool {
		if bounded {
			return s.BoundedNext(len(text) + 1)
		}
		return s.Next()
	}
	setBuf := func() {
		if c > 0 {
			s.RuneBuffer([]rune(strings.Repeat("#", c))[:c:c], m)
		} else if c == 0 {
			s.RuneBuffer(make([]rune, 0, 3), m)
		} else if c == -2 {
			s.RuneBuffer(nil, m)
		} else if c == -3 {
			s.RuneBuffer([]rune{}, m)
		}
	}
	if c < -1 && m > 0 {
		limit = m
	}
	if c >= 0 {
		limit = m
		cc := c
		if c == 0 {
			cc = 3
		}
		if cc > limit {
			limit = cc
		}
	}
	round := func(set func()) string {
		if mode == "slice" {
			s.InitFromSlice(text)
		} else {
			s.Init(strings.NewReader(string(text)))
		}
		set()
		for i, ww := range want {
			ok := next()
			if mode == "reader" && len(ww) > limit {
				if ok {
					return fmt.Sprintf("segment %d of length %d is delivered with length %d, limit is %d", i, len(ww), len(s.Runes()), limit)
				}
				if s.Err() != segment.ErrTooLong {
					return fmt.Sprintf("error for a segment of length %d with limit %d is %v", len(ww), limit, s.Err())
				}
				if next() || s.Err() != segment.ErrTooLong {
					return "segmenter continues after ErrTooLong"
				}
				return ""
			}
			if !ok {
				return fmt.Sprintf("segment %d of length %d is not delivered (limit %d, error %v)", i, len(ww), limit, s.Err())
			}
			if s.Text() != string(ww) {
				return fmt.Sprintf("segment %d is of length %d, must be of length %d", i, len(s.Runes()), len(ww))
			}
		}
		if next() || s.Err() != nil {
			return fmt.Sprintf("error at end of text: %v", s.Err())
		}
		return ""
	}
	if f[1] != "first" {
		s.Init(strings.NewReader(""))
	}
	if f[1] != "after" {
		setBuf()
		setBuf = func() {}
	}
	if r := round(setBuf); r != "" {
		return r, nil
	}
	if r := round(func() {}); r != "" { // limits do not change with re-use
		return "second round: " + r, nil
	}
	return "", nil
}

func exploreLimits(w *mc.Worker) {
	do := func(key string) bool {
		w.Case(key, func() string { s, _ := limitCase(key); return s })
		w.Steps(2 * strings.Count(key, ","))
		w.NonTrivial()
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	for _, variant := range []string{"", "-u", "-w", "-g", "-b"} {
		n := w.Pick(6, 9)
		if variant != "" {
			n -= 2
		}
		for _, mode := range []string{"reader%:before", "reader%:after", "reader%:first", "slice%:before", "slice%:after"} {
			mode = strings.Replace(mode, "%", variant, 1)
			for c := -3; c <= n; c++ {
				for m := 0; m <= n && (c != -1 || m == 0); m++ {
					for a := 0; a <= n+1; a++ {
						for b := 0; b <= n+1; b++ {
							for d := 0; d <= 2; d++ {
								if !w.Mine() {
									continue
								}
								if !do(fmt.Sprintf("%s:%d:%d:%d,%d,%d", mode, c, m, a, b, d*n/2)) {
									return
								}
							}
						}
					}
				}
			}
			lens := []int{4095, 4096, 4097, 8191, 8192, 8193, 12289, 65535, 65536, 65537, 70000}
			cms := []string{"-1:0", "1:65536", "4096:8192", "10:5000", "5000:10", "70000:0", "-2:4096", "-3:5000", "-2:70000"}
			if variant == "-g" || variant == "-w" { // grapheme clusters and words need quadratic time
				lens = []int{1023, 1024, 1025, 4095, 4096, 4097}[:w.Pick(3, 6)]
				cms = []string{"-1:0", "10:1024", "1024:10", "4096:0", "1:4096", "-2:1024"}
			}
			for _, l := range lens {
				for _, cm := range cms {
					if !w.Mine() {
						continue
					}
					if !do(fmt.Sprintf("%s:%s:%d,%d", mode, cm, 3, l)) || !do(fmt.Sprintf("%s:%s:%d,%d", mode, cm, l, 5)) {
						return
					}
				}
			}
		}
	}
}

// --- C10: whitespace breaker --------------------------------------------------------------------

func simpleCase(key string) (string, error) {
	mode, text, _ := strings.Cut(key, ":")
	t, err := parseText(text)
	if err != nil {
		return "", err
	}
	var want []seg
	for i := 0; i < len(t); {
		j := i
		sp := unicode.IsSpace(t[i])
		for j < len(t) && unicode.IsSpace(t[j]) == sp {
			j++
		}
		p := segment.PenaltyBeforeWhitespace
		if sp {
			p = segment.PenaltyAfterWhitespace
		}
		want = append(want, seg{string(t[i:j]), p, 0})
		i = j
	}
	var s *segment.Segmenter
	if mode[0] == 'd' {
		s = segment.NewSegmenter()
	} else {
		s = segment.NewSegmenter(&segment.SimpleWordBreaker{})
	}
	if strings.HasSuffix(mode, "slice") {
		s.InitFromSlice(t)
	} else {
		s.Init(strings.NewReader(string(t)))
	}
	got, fail := drain(s, len(t)+1)
	if fail != "" {
		return fail, nil
	}
	if !sameSegs(got, want) {
		return fmt.Sprintf("segments are %.300v, must be %.300v", fmt.Sprint(got), fmt.Sprint(want)), nil
	}
	return "", nil
}

func exploreSimple(w *mc.Worker) {
	do := func(key string) bool {
		w.Case(key, func() string { s, _ := simpleCase(key); return s })
		w.Steps(strings.Count(key, ".") + 1)
		w.NonTrivial()
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	al := []rune{'a', ' ', '\n', 0x3000, 'é', '.', 0x85}
	modes := []string{"dslice", "dreader", "eslice", "ereader"}
	for n := 0; n <= w.Pick(6, 8); n++ {
		mode := modes[n%4]
		if !mc.Product(len(al), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			rs := make([]rune, n)
			for i, a := range idx {
				rs[i] = al[a]
			}
			if n <= 4 {
				for _, m := range modes {
					if !do(m + ":" + textKey(rs)) {
						return false
					}
				}
				return true
			}
			return do(mode + ":" + textKey(rs))
		}) {
			return
		}
	}
	for r := rune(1); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r <= 0xdfff || !w.Mine() {
			continue
		}
		if !do("dslice:" + textKey([]rune{'a', r, r, 'a', ' ', r})) {
			return
		}
	}
	// long runs, and long sequences of short ones
	lens := []int{255, 256, 257, 1023, 1025, 4095, 4096, 4097, 65535, 65536, 65537}
	for l := 7; l <= w.Pick(140, 700); l++ {
		lens = append(lens, l)
	}
	for _, l := range lens {
		for _, unit := range []string{"61", "20", "e9", "3000", "10400", "a", "61.20", "20.20.61.62", "a.e9.3000"} {
			for i, rest := range []string{"", "+61", "+20", "+20.62.20", "+62.3000.63"} {
				if !w.Mine() {
					continue
				}
				n := l
				if strings.Contains(unit, ".") {
					n = l / (strings.Count(unit, ".") + 1)
				}
				w.Add("long_texts", 1)
				text := unit + "*" + strconv.Itoa(n) + rest
				if i == 3 {
					text = "61.20+" + text
				}
				mode := modes[(i+l)%4]
				if l > 60000 { // readers have a limit for segments
					mode = modes[(i+l)%2*2]
				}
				if !do(mode + ":" + text) {
					return
				}
			}
		}
	}
}

func init() {
	mc.Register(&mc.Check{ID: "C04", Level: "exploration", Explore: explorePartition, Replay: partitionCase,
		Rule: "every byte sequence over letters which include NUL, U+FFFD and illegal UTF-8 up to the given length, and long runs around buffer sizes; segmented with 6 combinations of breakers (and 2 with a line breaker, if it can be built) through 3 input methods, observed with all accessors; slices with illegal code-points (non-trivial: more than one byte)",
		Bound: func(string) string {
			return "length ≤ 4 (quick) / 5 (thorough) over 15 letters; slices of up to 4 / 5 over 13 legal and illegal code-points, followed by code-points which do not belong to the slice; runs of up to 4096 / 20000"
		}})
	mc.Register(&mc.Check{ID: "C05", Level: "exploration", Explore: explorePenalties, Replay: penaltyCase,
		Rule: "scripted breakers: every assignment of report lists (penalty, number of code-points it is reported belatedly; several reports accumulate) to the positions of a text, for 1–3 breakers and every setting of BreakOnZero; segments and penalties are compared with the definition of a feasible break",
		Bound: func(string) string {
			return "1 breaker: texts ≤ 4 / 5 over 14 report lists, 5 / 6 over 9; 2 breakers: texts ≤ 2 / 3 over 14; 3 breakers: texts of 2 over 7 / 9; 4 and 5 breakers: texts of 2 and 1; penalties up to ±2^50 (8 more report lists): texts ≤ 3 / 4"
		}})
	mc.Register(&mc.Check{ID: "C06", Level: "model_checking", Explore: exploreHistories, Replay: historyCase,
		Rule: "every history of one or two previous texts, each used in one of 6 ways (k segments by reader or slice, reader error after k code-points, bound at k, a long text without breaks, a segment longer than the limit) for every k, followed by a text which is read completely; for 4 combinations of breakers, 6 with line breakers; differential oracle: a new segmenter. States: histories (segmenter states reached)",
		Bound: func(string) string {
			return "previous text ≤ 2 / 3 over 11 letters, next text ≤ 2 plus selected longer ones; a scripted breaker (see C05) with all scripts of length 3 / 4 over 14 report lists; two previous texts ≤ 1 / 2 over 5 letters; all pairs of ways to use two texts, repeated 7 to 65536 times"
		}})
	mc.Register(&mc.Check{ID: "C07", Level: "model_checking", Explore: exploreBounds, Replay: boundCase,
		Rule: "every sequence of Next and BoundedNext(b) calls, for every b from 0 to text length + 1, against a model with state (position, bound reached); for 4 combinations of breakers, 6 with line breakers",
		Bound: func(string) string {
			return "texts ≤ 4 / 5 over 6 (quick: 4 for the longest) letters, call sequences of length 5; scripted breakers (see C05): 1 breaker, texts ≤ 4 / 5 over 14 report lists, 2 breakers, texts of 2 and 3; three longer texts with all pairs of bounds; pairs of 15 extreme bounds (math.MinInt64 to MaxInt64) on texts ≤ 3; all pairs of bounds from 65526 to 65545 in texts of 64 K code-points"
		}})
	mc.Register(&mc.Check{ID: "C08", Level: "fault_enumeration", Explore: exploreFaults, Replay: faultCase,
		Rule:  "every text up to the given length, with a reader fault at every read, 3 kinds of errors, readers which stay faulty or recover, by Next and BoundedNext, for 4 combinations of breakers, 6 with line breakers (non-trivial: fault is not at the first read)",
		Bound: func(string) string { return "texts ≤ 4 / 5 over 7 letters" }})
	mc.Register(&mc.Check{ID: "C09", Level: "exploration", Explore: exploreLimits, Replay: limitCase,
		Rule: "every combination of buffer capacity (or a nil or empty buffer), time of setting it, maximum size and lengths of three segments, two rounds; for letters of 1 to 4 bytes, runs of white space, words and grapheme clusters, by unbounded and bounded steps; plus lengths around the boundaries of the default buffer",
		Bound: func(string) string {
			return "capacity, maximum ≤ 6 / 9, lengths ≤ 7 / 10; lengths around 4096, 8192 and 65536"
		}})
	mc.Register(&mc.Check{ID: "C10", Level: "exploration", Explore: exploreSimple, Replay: simpleCase,
		Rule: "every text over 7 letters up to the given length, every code-point in a context, and long periodic texts, segmented with the whitespace breaker and compared with runs of white space",
		Bound: func(string) string {
			return "length ≤ 6 / 8 over 7 letters; all code-points except NUL and surrogates; texts of 9 repeated words with 5 endings, for each length up to 140 / 700 and around 255, 1024, 4096, 65536"
		}})
}
