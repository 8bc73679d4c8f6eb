package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/mc"
)

// C16: segmenters with more than one of the breakers of this module.

// newLineBreaker is set if package uax14 has been built (see check.sh).
var newLineBreaker func() uax.UnicodeBreaker
var lineBoundaries func([]rune) []int

func combinedBreaker(kind byte) uax.UnicodeBreaker {
	switch kind {
	case 'w':
		return uax29.NewWordBreaker(1)
	case 'g':
		grapheme.SetupGraphemeClasses()
		return grapheme.NewBreaker(1)
	case 's':
		return segment.NewSimpleWordBreaker()
	case 'l':
		return newLineBreaker()
	}
	panic("unknown breaker")
}

// boundaries by the rules of Unicode (or by white space)
func combinedBoundaries(kind byte, rs []rune) []int {
	cs := make([]int, len(rs))
	switch kind {
	case 'w':
		for i, r := range rs {
			cs[i] = wordClass(r)
		}
		return refWords(cs)
	case 'g':
		for i, r := range rs {
			cs[i] = graphClass(r)
		}
		return refGraphemes(cs)
	case 'l':
		return lineBoundaries(rs)
	}
	var breaks []int
	for i := 1; i < len(rs); i++ {
		if isSpaceRune(rs[i-1]) != isSpaceRune(rs[i]) {
			breaks = append(breaks, i)
		}
	}
	return breaks
}

func isSpaceRune(r rune) bool {
	return r == ' ' || r >= '\t' && r <= '\r' || r == 0x85 || r == 0xa0 || r == 0x1680 || r >= 0x2000 && r <= 0x200a || r == 0x2028 || r == 0x2029 || r == 0x202f || r == 0x205f || r == 0x3000
}

// penaltiesOf lets a breaker read a whole text and collects what it reports for the positions behind each code-point.
func penaltiesOf(b uax.UnicodeBreaker, rs []rune) []int {
	sum := make([]int, len(rs)+1)
	for i := 0; i <= len(rs); i++ {
		r := rune(0) // end of text
		if i < len(rs) {
			r = rs[i]
		}
		c := b.CodePointClassFor(r)
		b.StartRulesFor(r, c)
		b.ProceedWithRune(r, c)
		b.LongestActiveMatch()
		for k, p := range b.Penalties() {
			if i-k >= 0 {
				sum[i-k] += p
			}
		}
	}
	return sum[:len(rs)]
}

// combinedCase judges a segmenter for breakers with kinds. If it is given a text in advance, the breakers have segmented
// it before (in the order of prior).
func combinedCase(kinds, prior string, before, rs []rune, slice bool) string {
	byKind := map[byte][]uax.UnicodeBreaker{}
	take := func(kinds string) (list []uax.UnicodeBreaker) {
		n := map[byte]int{}
		for i := range len(kinds) {
			k := kinds[i]
			if n[k] == len(byKind[k]) {
				byKind[k] = append(byKind[k], combinedBreaker(k))
			}
			list = append(list, byKind[k][n[k]])
			n[k]++
		}
		return
	}
	if prior != "" {
		s := segment.NewSegmenter(take(prior)...)
		s.Init(strings.NewReader(string(before)))
		for s.Next() {
		}
	}
	// what the breakers say on their own
	var p [2][]int
	p[0], p[1] = make([]int, len(rs)), make([]int, len(rs))
	bounds := map[int]bool{}
	for i := range len(kinds) {
		for at, x := range penaltiesOf(combinedBreaker(kinds[i]), rs) {
			p[min(i, 1)][at] += x
		}
		if i < 2 {
			for _, b := range combinedBoundaries(kinds[i], rs) {
				bounds[b] = true
			}
		}
	}
	var want []seg
	start := 0
	for i := range rs {
		feasible := func(x int) bool { return x != 0 && x < uax.InfinitePenalty }
		if feasible(p[0][i]) || len(kinds) > 1 && feasible(p[1][i]) {
			want = append(want, seg{string(rs[start : i+1]), p[0][i], p[1][i]})
			start = i + 1
		}
	}
	s := segment.NewSegmenter(take(kinds)...)
	if slice {
		s.InitFromSlice(rs)
	} else {
		s.Init(strings.NewReader(string(rs)))
	}
	got, fail := drain(s, len(rs)+1)
	if fail != "" {
		return fail
	}
	if err := s.Err(); err != nil {
		return "error: " + err.Error()
	}
	if joined(got) != string(rs) {
		return fmt.Sprintf("segments are %v", got)
	}
	if !sameSegs(got, want) {
		return fmt.Sprintf("segments are %v, must be %v", got, want)
	}
	if len(kinds) <= 2 { // boundaries are those of both of them
		var list []int
		for b := range bounds {
			list = append(list, b)
		}
		sort.Ints(list)
		var have []int
		pos := 0
		for _, g := range got[:max(len(got)-1, 0)] {
			pos += len([]rune(g.text))
			have = append(have, pos)
		}
		if !sameInts(have, list) {
			return fmt.Sprintf("boundaries are %s, those of the breakers are %s", showBreaks(rs, have), showBreaks(rs, list))
		}
	}
	return ""
}

// combinedReads: Text is read ahead as far as the rules of the breaker need it.
//
// Rules for words look at most at the second one of the code-points behind a break which are not ignored, all others
// look at the next code-point (LB25 and other rules for numbers decide at the end of a number, line breaks are not judged;
// matches of white space breakers span whole words).
// Segmenters are allowed to read one more code-point.
func combinedReads(kinds string, rs []rune) string {
	var bs []uax.UnicodeBreaker
	for i := range len(kinds) {
		bs = append(bs, combinedBreaker(kinds[i]))
	}
	rd := &countingRunes{rs: rs}
	s := segment.NewSegmenter(bs...)
	s.Init(rd)
	pos := 0
	for s.Next() {
		pos += len(s.Runes())
		limit := pos + 1
		if strings.Contains(kinds, "w") {
			n := 0
			for limit = pos; limit < len(rs) && n < 2; limit++ {
				if !wIgn(wordClass(rs[limit])) {
					n++
				}
			}
			if n < 2 { // end of text decides
				limit++
			}
		}
		if strings.Contains(kinds, "g") { // emoji
			n := pos
			for n < len(rs) && (graphClass(rs[n]) == gEX || graphClass(rs[n]) == gZWJ) {
				n++
			}
			limit = max(limit, n+1)
		}
		if rd.pos > limit+1 && rd.pos > pos+2 {
			return fmt.Sprintf("%d code-points have been read when segment %q up to %d is delivered, %d would do", rd.pos, s.Text(), pos, limit)
		}
	}
	return ""
}

type countingRunes struct {
	rs  []rune
	pos int
}

func (c *countingRunes) ReadRune() (rune, int, error) {
	r, n, err := (&oneByOne{rs: c.rs, pos: c.pos}).ReadRune()
	c.pos++
	return r, n, err
}

var combinedLetters = []rune{'a', ' ', '.', '1', '\'', '\u0300', '\u200d', '\n', '\r', '-', '(', ')', '一', '\U0001F600', '\U0001F466', '\U0001F3FB', '\U0001F1E6', '\u05d0', '"',
	'\u1100', '\u11a8', '\u0903', '\u0600', '\u200b', '\u00ad', '_', '\u30a2', '\u00a0', '$', '\ufffc', '\u2014'}

func exploreCombined(w *mc.Worker) {
	single := "wgs"
	if newLineBreaker != nil {
		single = "lwgs"
	}
	text := func(idx []int) []rune {
		rs := make([]rune, len(idx))
		for i, x := range idx {
			rs[i] = combinedLetters[x]
		}
		return rs
	}
	do := func(kinds, prior string, before, rs []rune, slice bool) bool {
		w.Steps(len(rs) + len(before))
		if len(rs) > 1 {
			w.NonTrivial()
		}
		key := fmt.Sprintf("%s:%s:%s:%s:%t", kinds, prior, textKey(before), textKey(rs), slice)
		w.Case(key, func() string { return combinedCase(kinds, prior, before, rs, slice) })
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	var lists [][]string // of 1, 2, 3 breakers
	lists = append(lists, strings.Split(single, ""))
	for range 2 {
		var more []string
		for _, l := range lists[len(lists)-1] {
			for _, k := range single {
				more = append(more, l+string(k))
			}
		}
		lists = append(lists, more)
	}
	// all combinations, shorter texts for more breakers
	for n := 0; n <= w.Pick(3, 4); n++ {
		if !mc.Product(len(combinedLetters), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			rs := text(idx)
			for k, list := range lists {
				if k == 2 && n > w.Pick(2, 3) {
					break
				}
				for i, kinds := range list {
					if !do(kinds, "", nil, rs, i%2 == 0) {
						return false
					}
				}
			}
			return true
		}) {
			return
		}
	}
	// usual pairs and triples
	for _, kinds := range []string{"lw", "wg", "lwg", "gw", "wlg"} {
		if strings.Contains(kinds, "l") && newLineBreaker == nil {
			continue
		}
		few := w.Pick(20, len(combinedLetters))
		if !mc.Product(few, 4, func(idx []int) bool {
			return !w.Mine() || do(kinds, "", nil, text(idx), true)
		}) {
			return
		}
		for _, al := range [][]int{{0, 2, 3, 4, 5, 6}, {13, 5, 6, 14, 15, 16}, {7, 8, 1, 5, 17, 18}, {9, 10, 11, 3, 28, 17}} {
			n := w.Pick(6, 8)
			if !mc.Product(len(al), n, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				at := make([]int, n)
				for i, x := range idx {
					at[i] = al[x]
				}
				return do(kinds, "", nil, text(at), false)
			}) {
				return
			}
		}
	}
	// long periodic texts
	for k := 1; k <= 2; k++ {
		if !mc.Product(len(combinedLetters), k, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			unit := textKey(text(idx))
			for i, kinds := range []string{"lwg", "wg", "sg", "gl"} {
				if strings.Contains(kinds, "l") && newLineBreaker == nil {
					continue
				}
				for _, n := range []int{65, 300, 4100}[:w.Pick(3-k+1, 3)] {
					if n > 1000 && (k > 1 && i != 1 || strings.Contains(kinds, "l")) {
						continue
					}
					key := fmt.Sprintf("%s*%d", unit, n)
					rs, _ := parseText(key)
					key = fmt.Sprintf("%s:::%s:%t", kinds, key, n == 300)
					w.Steps(n)
					w.Add("long_texts", 1)
					w.Case(key, func() string { return combinedCase(kinds, "", nil, rs, n == 300) })
					if w.Stop() {
						return false
					}
				}
			}
			return true
		}) {
			return
		}
	}
	// breakers which have been used before, in a different combination
	hist := []rune{'a', '\u0300', '\'', '\U0001F1E6', '\u200d', '\U0001F600', '\r', '1', ' ', '-', '\u05d0', '('}
	for n := 1; n <= 2; n++ {
		for m := 1; m <= w.Pick(2, 3); m++ {
			if !mc.Product(len(hist), n+m, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				rs := make([]rune, n+m)
				for i, x := range idx {
					rs[i] = hist[x]
				}
				for _, c := range [][2]string{{"wg", "gw"}, {"w", "gw"}, {"lwg", "wl"}, {"gl", "lwg"}} {
					if newLineBreaker == nil && strings.Contains(c[0]+c[1], "l") {
						continue
					}
					if !do(c[1], c[0], rs[:n], rs[n:], false) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	}
	// reading ahead
	for _, kinds := range []string{"g", "w", "wg", "gw"} {
		few := len(combinedLetters)
		for n := 1; n <= w.Pick(4, 5); n++ {
			if n == 4 && len(kinds) > 1 && w.Quick() {
				few = 16
			}
			if !mc.Product(few, n, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				rs := text(idx)
				w.Steps(n)
				w.Case("reads:"+kinds+":"+textKey(rs), func() string { return combinedReads(kinds, rs) })
				return !w.Stop()
			}) {
				return
			}
		}
	}
}

func replayCombined(key string) (string, error) {
	f := strings.Split(key, ":")
	switch {
	case len(f) == 3 && f[0] == "reads":
		rs, err := parseText(f[2])
		if err != nil {
			return "", err
		}
		return combinedReads(f[1], rs), nil
	case len(f) == 5:
		before, err := parseText(f[2])
		if err != nil {
			return "", err
		}
		rs, err := parseText(f[3])
		if err != nil {
			return "", err
		}
		return combinedCase(f[0], f[1], before, rs, f[4] == "true"), nil
	}
	return "", fmt.Errorf("illegal key")
}

func init() {
	mc.Register(&mc.Check{
		ID: "C16", Level: "exploration",
		Rule: "every text over 31 letters of different classes up to a length × all lists of up to 3 breakers (words, graphemes, lines, white space), longer texts over reduced alphabets for usual lists, long periodic texts, breakers used before in another list; compared with " +
			"what each breaker reports when it reads the whole text alone, and with boundaries of reference implementations; code-points read at each delivery",
		Assumptions: []string{"package uax14 is built with a class table made by its generator"},
		Explore:     exploreCombined, Replay: replayCombined,
		Bound: func(tier string) string {
			if tier == "quick" {
				return "length 3 for pairs, 2 for triples, 4–6 for 5 usual lists"
			}
			return "length 4 for pairs, 3 for triples, 4–8 for 5 usual lists"
		},
	})
}
