package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
)

// texts are identified by hex code-points, separated by dots

func textKey(rs []rune) string {
	b := make([]byte, 0, 6*len(rs)+2)
	for i, r := range rs {
		if i > 0 {
			b = append(b, '.')
		}
		b = strconv.AppendInt(b, int64(r), 16)
	}
	return string(b)
}

func parseText(s string) ([]rune, error) {
	if s == "" {
		return nil, nil
	}
	if first, rest, ok := strings.Cut(s, "+"); ok {
		a, err := parseText(first)
		if err != nil {
			return nil, err
		}
		b, err := parseText(rest)
		return append(a, b...), err
	}
	if unit, n, ok := strings.Cut(s, "*"); ok {
		u, err := parseText(unit)
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(n)
		if err != nil || m < 0 {
			return nil, fmt.Errorf("not a count: %s", n)
		}
		rs := make([]rune, m) // length of the text, not number of units
		for i := range rs {
			rs[i] = u[i%len(u)]
		}
		return rs, nil
	}
	var rs []rune
	for _, f := range strings.Split(s, ".") {
		n, err := strconv.ParseInt(f, 16, 32)
		if err != nil {
			return nil, err
		}
		rs = append(rs, rune(n))
	}
	return rs, nil
}

// breaksOf segments a text and returns the positions of breaks within the text (as a bit set
// for texts up to 64 code-points).
func breaksOf(br uax.UnicodeBreaker, rs []rune, slice bool) (breaks []int, fail string) {
	seg := segment.NewSegmenter(br)
	if slice {
		seg.InitFromSlice(rs)
	} else {
		seg.Init(strings.NewReader(string(rs)))
	}
	pos := 0
	for seg.Next() {
		n := len(seg.Runes())
		if n == 0 {
			return breaks, "empty segment"
		}
		pos += n
		if pos > len(rs) {
			return breaks, "segments exceed the text"
		}
		if pos < len(rs) {
			breaks = append(breaks, pos)
		}
	}
	if seg.Err() != nil {
		return breaks, "error " + seg.Err().Error()
	}
	if pos != len(rs) {
		return breaks, fmt.Sprintf("segments cover %d of %d code-points", pos, len(rs))
	}
	return breaks, ""
}

func showBreaks(rs []rune, breaks []int) string {
	var sb strings.Builder
	k := 0
	for i, r := range rs {
		if k < len(breaks) && breaks[k] == i {
			sb.WriteString("÷ ")
			k++
		}
		fmt.Fprintf(&sb, "%04X ", r)
	}
	return strings.TrimSpace(sb.String())
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
