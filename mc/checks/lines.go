//go:build lines

package checks

import (
	"fmt"
	"slices"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax14"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// L01: line breaking. The package needs a class table, which is made by the package's generator
// from the Unicode Character Database while the check is built (see check.sh).
//
// The reference is a direct transcription of UAX#14 (Unicode 10.0, which is the version of the
// test file in the package), with LB25 for regular expressions, as used by the test file.

const (
	lAL = iota
	lB2
	lBA
	lBB
	lBK
	lCB
	lCL
	lCM
	lCP
	lCR
	lEB
	lEM
	lEX
	lGL
	lH2
	lH3
	lHL
	lHY
	lID
	lIN
	lIS
	lJL
	lJT
	lJV
	lLF
	lNL
	lNS
	lNU
	lOP
	lPO
	lPR
	lQU
	lRI
	lSP
	lSY
	lWJ
	lZW
	lZWJ
	lCount
	lNone = -1
)

const lineClassNames = "AL B2 BA BB BK CB CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SP SY WJ ZW ZWJ"

var lineRep = []rune{'a', 0x2014, 0x2010, 0xb4, 0xb, 0xfffc, '}', 0x300, ')', '\r', 0x261d, 0x1f3fb, '!', 0xa0, 0xac00, 0xac01, 0x5d0, '-', 0x4e00, 0x2024,
	',', 0x1100, 0x11a8, 0x1160, '\n', 0x85, 0x3005, '1', '(', '%', '$', '"', 0x1f1e6, ' ', '/', 0x2060, 0x200b, 0x200d}

// AL: AI, SG, XX and SA (not a mark), too; CM: SA (mark); NS: CJ
var lineAlt = []rune{0xa7, 0x2014, 0xad, 0x2c8, 0xc, 0xfffc, 0x3001, 0xe31, ']', '\r', 0x1f46e, 0x1f3ff, 0x203c, 0x2011, 0xb098, 0xd7a3, 0x5ea, '-', 0x1f680, 0x2026,
	'.', 0x115f, 0xd7cb, 0xd7b0, '\n', 0x85, 0x3041, 0x664, '[', 0xb0, 0x20ac, 0x2019, 0x1f1ff, ' ', '/', 0xfeff, 0x200b, 0x200d}

var lineIndex = func() map[string]int {
	m := map[string]int{}
	for i, n := range strings.Fields(lineClassNames) {
		m[n] = i
	}
	return m
}()

// lineClass is the class after rule LB1.
func lineClass(r rune) int {
	switch c := ucd.Load("line_break").Of(r); c {
	case "AI", "SG", "XX", "":
		return lAL
	case "CJ":
		return lNS
	case "SA":
		if gc := ucd.Load("gc").Of(r); gc == "Mn" || gc == "Mc" {
			return lCM
		}
		return lAL
	default:
		return lineIndex[c]
	}
}

func lAny(c int, of ...int) bool { return slices.Contains(of, c) }

// refLines returns the break opportunities within a text.
func refLines(cs []int) (breaks []int) {
	for i := 1; i < len(cs); i++ {
		if b, _ := refLineBreak(cs, i); b {
			breaks = append(breaks, i)
		}
	}
	return
}

// refLineBreak tells if there is a break in front of position i, and if it is mandatory.
func refLineBreak(cs []int, i int) (brk, must bool) {
	p, c := cs[i-1], cs[i]
	switch {
	case p == lBK: // LB4
		return true, true
	case p == lCR && c == lLF: // LB5
		return false, false
	case lAny(p, lCR, lLF, lNL):
		return true, true
	case lAny(c, lBK, lCR, lLF, lNL): // LB6
		return false, false
	case lAny(c, lSP, lZW): // LB7
		return false, false
	}
	// base returns the first position of the character with combining marks which includes position k, and its class
	base := func(k int) (int, int) {
		for k > 0 && lAny(cs[k], lCM, lZWJ) && !lAny(cs[k-1], lBK, lCR, lLF, lNL, lSP, lZW) {
			k--
		}
		if lAny(cs[k], lCM, lZWJ) { // LB10
			return k, lAL
		}
		return k, cs[k]
	}
	// before returns the class of the n-th character in front of position i, counting from 0
	before := func(n int) int {
		k := i
		for {
			if k <= 0 {
				return lNone
			}
			s, class := base(k - 1)
			if n == 0 {
				return class
			}
			k, n = s, n-1
		}
	}
	skip := 0 // SP*
	for before(skip) == lSP {
		skip++
	}
	sp := before(skip)
	if sp == lZW { // LB8
		return true, false
	}
	if p == lZWJ && lAny(c, lID, lEB, lEM) { // LB8a
		return false, false
	}
	start, c := base(i)
	if start < i { // LB9
		return false, false
	}
	p = before(0)
	al := func(c int) bool { return lAny(c, lAL, lHL) }
	switch {
	case c == lWJ || p == lWJ: // LB11
		return false, false
	case p == lGL: // LB12
		return false, false
	case c == lGL && !lAny(p, lSP, lBA, lHY): // LB12a
		return false, false
	case lAny(c, lCL, lCP, lEX, lIS, lSY): // LB13
		return false, false
	case sp == lOP: // LB14
		return false, false
	case sp == lQU && c == lOP: // LB15
		return false, false
	case lAny(sp, lCL, lCP) && c == lNS: // LB16
		return false, false
	case sp == lB2 && c == lB2: // LB17
		return false, false
	case p == lSP: // LB18
		return true, false
	case c == lQU || p == lQU: // LB19
		return false, false
	case c == lCB || p == lCB: // LB20
		return true, false
	case lAny(c, lBA, lHY, lNS) || p == lBB: // LB21
		return false, false
	case before(1) == lHL && lAny(p, lHY, lBA): // LB21a
		return false, false
	case p == lSY && c == lHL: // LB21b
		return false, false
	case c == lIN && lAny(p, lAL, lHL, lEX, lID, lEB, lEM, lIN, lNU): // LB22
		return false, false
	case al(p) && c == lNU || p == lNU && al(c): // LB23
		return false, false
	case p == lPR && lAny(c, lID, lEB, lEM) || lAny(p, lID, lEB, lEM) && c == lPO: // LB23a
		return false, false
	case lAny(p, lPR, lPO) && al(c) || al(p) && lAny(c, lPR, lPO): // LB24
		return false, false
	}
	// LB25
	next := i + 1
	for next < len(cs) && lAny(cs[next], lCM, lZWJ) {
		next++
	}
	number := func(k int) bool { // NU (NU | SY | IS)* in front of i, with k characters skipped
		for lAny(before(k), lSY, lIS) {
			k++
		}
		return before(k) == lNU
	}
	switch {
	case lAny(p, lPR, lPO) && c == lNU:
		return false, false
	case lAny(p, lPR, lPO) && lAny(c, lOP, lHY) && next < len(cs) && cs[next] == lNU:
		return false, false
	case lAny(p, lOP, lHY) && c == lNU:
		return false, false
	case lAny(c, lNU, lSY, lIS, lCL, lCP, lPO, lPR) && number(0):
		return false, false
	case lAny(c, lPO, lPR) && lAny(p, lCL, lCP) && number(1):
		return false, false
	}
	switch {
	case p == lJL && lAny(c, lJL, lJV, lH2, lH3), lAny(p, lJV, lH2) && lAny(c, lJV, lJT), lAny(p, lJT, lH3) && c == lJT: // LB26
		return false, false
	case lAny(p, lJL, lJV, lJT, lH2, lH3) && lAny(c, lIN, lPO), p == lPR && lAny(c, lJL, lJV, lJT, lH2, lH3): // LB27
		return false, false
	case al(p) && al(c): // LB28
		return false, false
	case p == lIS && al(c): // LB29
		return false, false
	case (al(p) || p == lNU) && c == lOP, p == lCP && (al(c) || c == lNU): // LB30
		return false, false
	case p == lEB && c == lEM: // LB30b
		return false, false
	case p == lRI && c == lRI: // LB30a
		n := 0
		for before(n) == lRI {
			n++
		}
		return n%2 == 0, false
	}
	return true, false // LB31
}

var lineRules = &ruleCheck{
	breaker: func() uax.UnicodeBreaker { return uax14.NewLineWrap() },
	rep:     lineRep, alt: lineAlt, class: lineClass, ref: refLines,
	focus: []focusSet{
		{[]int{lNU, lSY, lIS, lCL, lCP, lPO, lPR, lOP, lHY}, 5, 7},
		{[]int{lPR, lOP, lNU, lCM, lCL, lPO, lIS}, 6, 7},
		{[]int{lRI, lCM, lZWJ, lSP, lID}, 7, 9},
		{[]int{lOP, lQU, lSP, lCM, lCL, lNS, lB2, lZW}, 5, 7},
		{[]int{lHL, lHY, lBA, lCM, lAL, lSY, lCB}, 5, 7},
		{[]int{lBK, lCR, lLF, lNL, lSP, lCM, lZWJ, lAL}, 5, 7},
		{[]int{lID, lEB, lEM, lZWJ, lCM, lCB, lZW, lSP}, 5, 7},
		{[]int{lJL, lJV, lJT, lH2, lH3, lPR, lPO, lIN}, 5, 6},
		{[]int{lGL, lWJ, lSP, lBA, lHY, lCM, lBB, lAL}, 5, 7},
	},
}

// --- code-points, histories and penalties -----------------------------------------------------

// lineContexts are classes in front of and following a code-point.
var lineContexts = [][2]rune{{'a', 'a'}, {' ', '一'}, {'1', '1'}, {'(', '%'}, {'一', '\U0001F3FB'}, {'\u1100', '\u11a8'}, {'\u05d0', '\u05d0'}, {'\u200b', '\u3005'}, {'\U0001F1E6', '\u2014'}, {'$', '!'}}

func lineCodePoint(r rune) string {
	for _, c := range lineContexts {
		if fail := lineRules.one([]rune{c[0], r, c[1]}, true); fail != "" {
			return fail
		}
	}
	return ""
}

// lineSegments are the segments of a text and their penalties.
func lineSegments(seg *segment.Segmenter, max int) (pos []int, pen []int, fail string) {
	n := 0
	for (max < 0 || len(pos) < max) && seg.Next() {
		n += len(seg.Runes())
		pos = append(pos, n)
		p, _ := seg.Penalties()
		pen = append(pen, p)
	}
	if seg.Err() != nil {
		return nil, nil, "error " + seg.Err().Error()
	}
	return pos, pen, ""
}

const mandatory = -5000 // limit of penalties

// judgeLines checks the segments including penalties: those of mandatory breaks are lower than all the others.
func judgeLines(seg *segment.Segmenter, rs []rune, slice bool) string {
	if slice {
		seg.InitFromSlice(rs)
	} else {
		seg.Init(strings.NewReader(string(rs)))
	}
	pos, pen, fail := lineSegments(seg, -1)
	if fail != "" {
		return fail
	}
	cs := make([]int, len(rs))
	for i, r := range rs {
		cs[i] = lineClass(r)
	}
	k := 0
	for i := 1; i <= len(rs); i++ {
		brk, must := true, false
		if i < len(rs) {
			brk, must = refLineBreak(cs, i)
		}
		if !brk {
			continue
		}
		if k >= len(pos) || pos[k] != i {
			return fmt.Sprintf("boundaries are %s, must be %s", showBreaks(rs, pos), showBreaks(rs, refLines(cs)))
		}
		if i < len(rs) && must != (pen[k] <= mandatory) {
			return fmt.Sprintf("%s: break at %d has penalty %d, mandatory: %v", showBreaks(rs, pos), i, pen[k], must)
		}
		k++
	}
	if k < len(pos) {
		return fmt.Sprintf("boundaries are %s, must be %s", showBreaks(rs, pos), showBreaks(rs, refLines(cs)))
	}
	return ""
}

// lineHistory segments a text, or a part of it, and then another one with the same breaker.
func lineHistory(first, second []rune, parts int) string {
	seg := segment.NewSegmenter(uax14.NewLineWrap())
	seg.Init(strings.NewReader(string(first)))
	if _, _, fail := lineSegments(seg, parts); fail != "" {
		return fail
	}
	return judgeLines(seg, second, parts&1 == 0)
}

// lineNul checks a text with U+0000. It is a combining mark for UAX#14, but ends a text for breakers;
// it is okay if the breaker follows UAX#14 or treats the parts as texts of their own (with any breaks next to U+0000).
func lineNul(rs []rune, strict bool) string {
	got, fail := breaksOf(uax14.NewLineWrap(), rs, true)
	if fail != "" {
		return fail
	}
	var cs, split []int
	for _, r := range rs {
		cs = append(cs, lineClass(r))
	}
	start := 0 // of the part
	for i, r := range rs {
		if i > 0 && (r == 0 || rs[i-1] == 0) {
			if slices.Contains(got, i) { // not judged
				split = append(split, i)
			}
			start = i
		} else if i > start {
			if brk, _ := refLineBreak(cs[start:], i-start); brk {
				split = append(split, i)
			}
		}
	}
	if want := refLines(cs); !sameInts(got, want) && (strict || !sameInts(got, split)) {
		return fmt.Sprintf("boundaries are %s, must be %s", showBreaks(rs, got), showBreaks(rs, want))
	}
	return ""
}

func exploreLines(w *mc.Worker) {
	if w.Mine() {
		w.Case("nul!:"+textKey([]rune{'a', 0, 'b'}), func() string { return lineNul([]rune{'a', 0, 'b'}, true) })
	}
	nuls := []rune{0, 'a', ' ', 0x300, '(', '\n', 0x1f1e6}
	for n := 1; n <= w.Pick(4, 6); n++ {
		mc.Product(len(nuls), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			rs := make([]rune, n)
			for i, a := range idx {
				rs[i] = nuls[a]
			}
			w.Case("nul:"+textKey(rs), func() string { return lineNul(rs, false) })
			return !w.Stop()
		})
	}
	for r := rune(1); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff || !w.Mine() {
			continue
		}
		w.NonTrivial()
		w.Steps(3 * len(lineContexts))
		w.Add("code_points", 1)
		w.Case(fmt.Sprintf("cp:%04X", r), func() string { return lineCodePoint(r) })
		if w.Stop() {
			return
		}
	}
	var al []rune
	for _, c := range []int{lAL, lCM, lZWJ, lRI, lHL, lHY, lOP, lNU, lCL, lPR, lSP, lZW, lQU, lCR, lLF, lCB} {
		al = append(al, lineRules.repOf(c))
	}
	// histories: a text or its first segment, then another one
	var texts [][]rune
	for n := 1; n <= 2; n++ {
		mc.Product(len(al), n, func(idx []int) bool {
			var rs []rune
			for _, a := range idx {
				rs = append(rs, al[a])
			}
			texts = append(texts, rs)
			return true
		})
	}
	mid := len(texts)
	for _, t := range []string{"a b", "( ( a", "$(1)%", "a-b", "\U0001F1E6\U0001F1E6\U0001F1E6", "\u05d0-a", "a \u200b b", "\" (", "a\nb"} {
		texts = append(texts, []rune(t))
	}
	for i, a := range texts {
		for j, b := range texts {
			if i < mid && j < mid && len(a)+len(b) > w.Pick(3, 4) {
				continue
			}
			for _, parts := range []int{-1, 1, 2} {
				if !w.Mine() {
					continue
				}
				w.NonTrivial()
				w.Steps(len(a) + len(b))
				w.Add("histories", 1)
				w.Case(fmt.Sprintf("hist:%s|%s|%d", textKey(a), textKey(b), parts), func() string { return lineHistory(a, b, parts) })
				if w.Stop() {
					return
				}
			}
		}
	}
	// penalties
	for n := 1; n <= w.Pick(3, 3); n++ {
		mc.Product(lCount, n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			rs := make([]rune, n)
			for i, a := range idx {
				rs[i] = lineRules.rep[a]
			}
			w.Steps(n)
			w.Add("penalties", 1)
			w.Case("pen:"+textKey(rs), func() string { return judgeLines(segment.NewSegmenter(uax14.NewLineWrap()), rs, n&1 == 0) })
			return !w.Stop()
		})
	}
	rc := lineRules
	for n := 0; n <= w.Pick(3, 4); n++ { // second representatives, via reader
		if !rc.product(w, rc.alt, n, false) {
			return
		}
	}
	for n := 1; n <= w.Pick(4, 4); n++ {
		if !rc.product(w, rc.rep, n, true) {
			return
		}
	}
	for _, f := range rc.focus {
		var al []rune
		for _, c := range f.classes {
			al = append(al, rc.repOf(c))
		}
		for n := 5; n <= w.Pick(f.quick, f.thorough); n++ {
			if !rc.product(w, al, n, true) {
				return
			}
		}
	}
	for i, a := range rc.rep { // long runs, with and without spaces
		for j, b := range rc.rep {
			for _, n := range []int{3, 4, 5, 40, 130}[:w.Pick(4, 5)] {
				if !w.Mine() {
					continue
				}
				rs := []rune{a}
				for range n {
					rs = append(rs, b)
				}
				rs = append(rs, rc.rep[(i+j)%lCount], a, b)
				if !rc.do(w, rs, n&1 == 0) {
					return
				}
			}
		}
	}
	if !rc.periodic(w, 1, []int{300, 1025}) || !rc.periodic(w, 2, []int{41, 258, 1030}[:w.Pick(2, 3)]) {
		return
	}
	if !w.Quick() {
		rc.periodic(w, 3, []int{41, 130})
		var al []rune
		for _, c := range []int{lAL, lB2, lBA, lBK, lCB, lCL, lCM, lCR, lEX, lGL, lHL, lHY, lID, lIN, lIS, lLF, lNS, lNU, lOP, lPO, lPR, lQU, lRI, lSP, lSY, lZW, lZWJ} {
			al = append(al, rc.repOf(c))
		}
		rc.product(w, al, 5, true)
	}
}

func init() {
	mc.Register(&mc.Check{
		ID: "L01", Level: "exploration",
		Rule:        "every text over one representative of each of the 38 line-break classes up to the given length, a second set of representatives through a reader, all texts over reduced alphabets of interacting classes to a greater length, all code-points in 10 contexts, long runs, all pairs of short texts segmented by the same breaker; compared with a transcription of LB1–LB31 of UAX#14 (Unicode 10, numbers per regular expression as for the package's test file), including whether a break is mandatory (non-trivial: a rule suppresses a break)",
		Assumptions: []string{"the class table, which the repository lacks, is made by the package's generator from UCD 15 data"},
		Explore:     exploreLines,
		Replay: func(key string) (string, error) {
			kind, text, _ := strings.Cut(key, ":")
			switch kind {
			case "cp":
				var r rune
				if n, _ := fmt.Sscanf(text, "%X", &r); n != 1 {
					return "", fmt.Errorf("illegal key")
				}
				return lineCodePoint(r), nil
			case "hist":
				f := strings.Split(text, "|")
				if len(f) != 3 {
					return "", fmt.Errorf("illegal key")
				}
				a, err := parseText(f[0])
				if err != nil {
					return "", err
				}
				b, err := parseText(f[1])
				if err != nil {
					return "", err
				}
				var parts int
				fmt.Sscan(f[2], &parts)
				return lineHistory(a, b, parts), nil
			case "nul", "nul!", "pen":
				rs, err := parseText(text)
				if err != nil {
					return "", err
				}
				if kind == "pen" {
					return judgeLines(segment.NewSegmenter(uax14.NewLineWrap()), rs, len(rs)&1 == 0), nil
				}
				return lineNul(rs, kind == "nul!"), nil
			}
			return lineRules.replay(key)
		},
		Bound: func(t string) string {
			return "full product: length ≤ 4 over 38 classes, thorough also length 5 over 27 classes; second representatives length ≤ 3 / 4; reduced alphabets of 5–9 classes to lengths of up to 7 / 9; all code-points × 10 contexts; pairs of texts; texts of length ≤ 4 / 6 with U+0000"
		},
	})
}

func init() {
	newLineBreaker = func() uax.UnicodeBreaker { return uax14.NewLineWrap() }
	lineBoundaries = func(rs []rune) []int {
		cs := make([]int, len(rs))
		for i, r := range rs {
			cs[i] = lineClass(r)
		}
		return refLines(cs)
	}
}
