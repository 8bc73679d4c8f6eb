package checks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// --- C12: grapheme strings -------------------------------------------------------------------

// refLegal returns the position of the first legal rune, or -1.
func refLegal(s string) int {
	for i := range len(s) {
		if r, n := utf8.DecodeRuneInString(s[i:]); n > 1 || r != utf8.RuneError {
			return i
		}
	}
	return -1
}

// refClusters returns the graphemes of the longest legal text starting with the first legal
// rune. It is not ok if the class of a character is debatable (U+FFFD, see C03).
func refClusters(s string) (clusters []string, ok bool) {
	start := refLegal(s)
	if start < 0 {
		return nil, true
	}
	var rs []rune
	var cs []int
	for s = s[start:]; s != ""; {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			break
		}
		rs = append(rs, r)
		cs = append(cs, graphClass(r))
		s = s[n:]
	}
	glue := func(c int) bool { return c == gEX || c == gSM || c == gZWJ || c == gPP }
	for i, r := range rs {
		if r == utf8.RuneError && (i > 0 && glue(cs[i-1]) || i+1 < len(rs) && glue(cs[i+1])) {
			return nil, false
		}
	}
	from := 0
	for _, b := range append(refGraphemes(cs), len(rs)) {
		clusters = append(clusters, string(rs[from:b]))
		from = b
	}
	return clusters, true
}

func panics(f func()) (is bool) {
	defer func() { is = recover() != nil }()
	f()
	return
}

func gstringCase(s string, fromBytes bool) string {
	want, ok := refClusters(s)
	var gs grapheme.String
	if fromBytes {
		b := []byte(s)
		gs = grapheme.StringFromBytes(b)
		for i := range b {
			b[i] = 'x'
		}
	} else {
		gs = grapheme.StringFromString(s)
	}
	decoy := grapheme.StringFromString("世\u0301\r\n" + s[len(s)/2:]) // strings are independent of each other
	defer decoy.Len()
	if gs.String() != s {
		return fmt.Sprintf("the string is %q", gs.String())
	}
	n := gs.Len()
	if !ok {
		return ""
	}
	if n != len(want) {
		var have []string
		for i := range min(n, 20) {
			have = append(have, gs.Nth(i))
		}
		return fmt.Sprintf("length is %d, must be %d (%q)", n, len(want), have)
	}
	for i := n - 1; i >= 0; i-- {
		if g := gs.Nth(i); g != want[i] {
			return fmt.Sprintf("grapheme %d is %q, must be %q", i, g, want[i])
		}
	}
	for i := range n { // once again, the other way round
		if gs.Nth(i) != want[i] {
			return fmt.Sprintf("grapheme %d has changed", i)
		}
	}
	near := func(i int) bool { return n <= 16 || i < 3 || i >= n-3 || i%255 < 2 }
	for i := 0; i < n && n <= 4200; i++ { // in any order
		if !near(i) {
			continue
		}
		for j := 0; j < n; j++ {
			if near(j) && (gs.Nth(i) != want[i] || gs.Nth(j) != want[j] || gs.Nth(j) != want[j]) {
				return fmt.Sprintf("graphemes %d, %d, %d are %q, %q, %q", i, j, j, gs.Nth(i), gs.Nth(j), gs.Nth(j))
			}
		}
	}
	if n > 0 {
		for _, i := range []int{-1, n, n + 1, 256 + n - 1, 65536} {
			if (i < 0 || i >= n) && !panics(func() { gs.Nth(i) }) {
				return fmt.Sprintf("no panic for grapheme %d of %d", i, n)
			}
		}
	} else if !panics(func() { gs.Nth(1) }) || !panics(func() { gs.Nth(-1) }) {
		return "no panic for graphemes of an empty string"
	}
	if gs.String() != s || gs.Len() != n {
		return "string has changed"
	}
	if n > 0 && gs.Nth(n-1) != want[n-1] { // after a panic
		return "last grapheme has changed"
	}
	return ""
}

func legalCase(s string) string {
	pos, prefix := uax.PositionOfFirstLegalRune(s)
	want := refLegal(s)
	if pos != want {
		return fmt.Sprintf("position of first legal rune is %d, must be %d", pos, want)
	}
	if want < 0 {
		want = len(s)
	}
	if string(prefix) != s[:want] {
		return fmt.Sprintf("prefix is %q", prefix)
	}
	return ""
}

var gletters = []string{"a", "\u00e9", "\u0301", "\r", "\n", "\u200d", "👦", "\U0001F3FD", "\U0001F1E6", "世", "\u1100", "\u1161", "\u0903", "\u0600",
	"\x00", "\ufffd", "\xff", "\xc3", "\x80", "\xe2\x81", "\xf0\x9f\x91", "\xed\xa0\x80"}

// sized returns a text of n bytes with a word in it: at the start, in the middle or at the end.
func sized(word string, n, where int, fill string) string {
	k := max(0, n-len(word))
	pad := strings.Repeat(fill, k/len(fill)) + strings.Repeat("b", k%len(fill))
	switch where {
	case 0:
		return word + pad
	case 1:
		at := k / 2 / len(fill) * len(fill)
		return pad[:at] + word + pad[at:]
	}
	return pad + word
}

func gsizes(quick bool) (sizes []int) {
	for n := 250; n <= 260; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 508, 512, 1020, 1024, 4096, 32765, 32766)
	if !quick {
		sizes = append(sizes, 1019, 1021, 1022, 1023, 1025, 1026, 8192, 16384, 32700)
	}
	return
}

var gfills = []string{"a", "e\u0301", "世", "\U0001F1E6\U0001F1E7", "👦\u200d👦", "\r\n", "\xff", "\xe2\x81"}

func maxLenCase(n int, fromBytes bool) string {
	s := strings.Repeat("a", n)
	is := panics(func() {
		if fromBytes {
			grapheme.StringFromBytes([]byte(s))
		} else {
			grapheme.StringFromString(s)
		}
	})
	if is && n <= grapheme.MaxByteLen {
		return fmt.Sprintf("panic for %d bytes", n)
	}
	if !is && n > 65535 {
		return fmt.Sprintf("no panic for %d bytes", n)
	}
	if !is {
		return gstringCase(s, fromBytes)
	}
	return ""
}

func exploreStrings(w *mc.Worker) {
	grapheme.SetupGraphemeClasses()
	words := func(letters []string, n int, f func(s string)) {
		mc.Product(len(letters), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			if w.Stop() {
				return false
			}
			s := ""
			for _, k := range idx {
				s += letters[k]
			}
			f(s)
			return true
		})
	}
	for n := 0; n <= w.Pick(4, 5); n++ {
		words(gletters, n, func(s string) {
			for b := range 2 {
				if b == 1 && n > 3 {
					continue
				}
				w.Case(fmt.Sprintf("s/%d/%x", b, s), func() string { return gstringCase(s, b == 1) })
			}
			w.Case(fmt.Sprintf("l/0/%x", s), func() string { return legalCase(s) })
			w.Steps(len(s))
			if len(s) != n {
				w.NonTrivial()
			}
			w.Outcome(fmt.Sprint(refClusters(s)))
			w.Sample(func() string { return fmt.Sprintf("%q", s) })
		})
	}
	few := []string{"a", "\u0301", "\u200d", "👦", "\U0001F1E6", "\xff", "\r"}
	for n := 5; n <= w.Pick(6, 8); n++ {
		words(few, n, func(s string) {
			w.Case(fmt.Sprintf("s/0/%x", s), func() string { return gstringCase(s, false) })
			w.Steps(len(s))
		})
	}
	for n := 1; n <= w.Pick(2, 3); n++ {
		for _, size := range gsizes(w.Quick()) {
			if n > 1 && size > 1000 && (w.Quick() || size > 5000) {
				continue
			}
			words(gletters, n, func(word string) {
				for where := range 3 {
					for f, fill := range gfills {
						if f > 0 && size > 1000 && w.Quick() && (where != 1 || n > 1) {
							continue
						}
						key := fmt.Sprintf("z/%d/%x/%d/%d", size, word, where, f)
						w.Case(key, func() string {
							s := sized(word, size, where, fill)
							if fail := legalCase(s); fail != "" {
								return fail
							}
							return gstringCase(s, false)
						})
						w.Steps(size)
						w.NonTrivial()
					}
				}
			})
		}
	}
	for n := 32760; n <= 32770; n++ {
		if w.Mine() {
			for b := range 2 {
				w.Case(fmt.Sprintf("m/%d/%d", b, n), func() string { return maxLenCase(n, b == 1) })
			}
		}
	}
	for n := 65530; n <= 65540; n++ {
		if w.Mine() {
			for b := range 2 {
				w.Case(fmt.Sprintf("m/%d/%d", b, n), func() string { return maxLenCase(n, b == 1) })
			}
		}
	}
	// all code-points
	for r := rune(0); r <= 0x10ffff; r++ {
		if w.Mine() && !(r >= 0xd800 && r < 0xe000) && r != utf8.RuneError && ucd.Age(r) <= 11 {
			for _, s := range []string{string(r), "\x80" + string(r), string(r) + "\x80", "a" + string(r) + "a\u0301"} {
				w.Case(fmt.Sprintf("s/0/%x", s), func() string { return gstringCase(s, false) })
				w.Case(fmt.Sprintf("l/0/%x", s), func() string { return legalCase(s) })
				w.Steps(len(s))
			}
		}
	}
}

func replayStrings(key string) (string, error) {
	p := strings.Split(key, "/")
	num := func(i int) int {
		n, _ := strconv.Atoi(p[i])
		return n
	}
	switch {
	case (p[0] == "s" || p[0] == "l") && len(p) == 3:
		b, err := hex.DecodeString(p[2])
		if err != nil {
			return "", err
		}
		if p[0] == "l" {
			return legalCase(string(b)), nil
		}
		return gstringCase(string(b), p[1] == "1"), nil
	case p[0] == "z" && len(p) == 5:
		b, err := hex.DecodeString(p[2])
		if err != nil {
			return "", err
		}
		s := sized(string(b), num(1), num(3), gfills[num(4)])
		if fail := legalCase(s); fail != "" {
			return fail, nil
		}
		return gstringCase(s, false), nil
	case p[0] == "m" && len(p) == 3:
		return maxLenCase(num(2), p[1] == "1"), nil
	}
	return "", errors.New("illegal key")
}

func init() {
	mc.Register(&mc.Check{ID: "C12", Level: "exploration",
		Rule:        "all texts of letters (graphemes of each kind, illegal and truncated UTF-8), short or filled up to sizes around those at which the representation changes; all code-points; all indexes",
		Assumptions: []string{"clusters with U+FFFD next to marks are not judged (known finding of C03)"},
		Explore:     exploreStrings, Replay: replayStrings,
		Bound: func(tier string) string {
			if tier == "thorough" {
				return "texts of 5 of 22 letters, 8 of 7; sizes up to 65540"
			}
			return "texts of 4 of 22 letters, 6 of 7; sizes up to 65540"
		}})
}
