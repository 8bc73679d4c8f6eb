// Package bref is a direct transcription of the rules of UAX#9 (W1–W7, N0–N2, I1–I2, L2)
// for paragraphs without explicit embeddings and overrides (LRE, RLE, LRO, RLO, PDF).
// It works on single characters and is written with no regard to efficiency.
package bref

import "sort"

// Class is a bidi class.
type Class int

// Bidi classes. WS, S and B (as whitespace) are ON. Brackets are ON, too.
const (
	L Class = iota
	R
	AL
	EN
	ES
	ET
	AN
	CS
	NSM
	BN
	ON
	LRI
	RLI
	PDI
)

// Char is a character of the text.
type Char struct {
	C     Class
	Open  int // ≠ 0: opening bracket of this kind
	Close int // ≠ 0: closing bracket of this kind
}

// Result has an entry for every character.
type Result struct {
	Resolved []Class // L, R, EN, AN
	Level    []int
	// outermost: resolved class of the outermost sequence; characters within an isolate inherit
	// the class of the isolate initiator
	Outer   []Class
	Matched bool // every isolate initiator has a matching PDI
}

func dir(level int) Class {
	if level&1 == 1 {
		return R
	}
	return L
}

// Resolve applies the rules.
func Resolve(text []Char, paraLevel int) Result {
	n := len(text)
	res := Result{Resolved: make([]Class, n), Level: make([]int, n), Outer: make([]Class, n), Matched: true}
	match := make([]int, n) // BD9
	var st []int
	for i, c := range text {
		match[i] = -1
		switch c.C {
		case LRI, RLI:
			st = append(st, i)
		case PDI:
			if len(st) > 0 {
				k := st[len(st)-1]
				st = st[:len(st)-1]
				match[k], match[i] = i, k
			}
		}
	}
	if len(st) > 0 {
		res.Matched = false
	}
	var sequence func(from, to, level int, outermost bool)
	sequence = func(from, to, level int, outermost bool) {
		var pos []int // isolating run sequence
		for i := from; i < to; i++ {
			pos = append(pos, i)
			if c := text[i].C; c == LRI || c == RLI {
				end := match[i]
				if end < 0 {
					end = to
				}
				inner := level + 1
				if (inner&1 == 1) != (c == RLI) {
					inner++
				}
				sequence(i+1, end, inner, false)
				i = end - 1
			}
		}
		types := irs(text, pos, dir(level))
		for k, i := range pos {
			res.Resolved[i] = types[k]
			res.Level[i] = implicit(level, types[k])
			if outermost {
				res.Outer[i] = types[k]
				if end := match[i]; end > i {
					for j := i; j < end; j++ {
						res.Outer[j] = types[k]
					}
				}
			}
		}
	}
	sequence(0, n, paraLevel, true)
	return res
}

func implicit(level int, c Class) int { // I1, I2
	if level&1 == 0 {
		switch c {
		case R:
			return level + 1
		case AN, EN:
			return level + 2
		}
		return level
	}
	if c == L || c == EN || c == AN {
		return level + 1
	}
	return level
}

func irs(text []Char, pos0 []int, e Class) []Class {
	// X9: boundary neutrals are ignored; they get the class of the preceding character.
	var pos []int
	for _, i := range pos0 {
		if text[i].C != BN {
			pos = append(pos, i)
		}
	}
	n := len(pos)
	in := make([]Char, n)
	t := make([]Class, n)
	for k, i := range pos {
		in[k] = text[i]
		t[k] = text[i].C
		if t[k] == LRI || t[k] == RLI || t[k] == PDI {
			t[k] = ON
		}
	}
	// W1
	for k := range t {
		if t[k] == NSM {
			if k == 0 {
				t[k] = e
			} else if c := in[k-1].C; c == LRI || c == RLI || c == PDI {
				t[k] = ON
			} else {
				t[k] = t[k-1]
			}
		}
	}
	// W2
	s := e
	for k := range t {
		switch t[k] {
		case L, R, AL:
			s = t[k]
		case EN:
			if s == AL {
				t[k] = AN
			}
		}
	}
	// W3
	for k := range t {
		if t[k] == AL {
			t[k] = R
		}
	}
	// W4
	for k := 1; k+1 < n; k++ {
		if t[k] == ES && t[k-1] == EN && t[k+1] == EN {
			t[k] = EN
		}
		if t[k] == CS && t[k-1] == t[k+1] && (t[k-1] == EN || t[k-1] == AN) {
			t[k] = t[k-1]
		}
	}
	// W5
	for k := 0; k < n; k++ {
		if t[k] == ET {
			j := k
			for j < n && t[j] == ET {
				j++
			}
			if (k > 0 && t[k-1] == EN) || (j < n && t[j] == EN) {
				for q := k; q < j; q++ {
					t[q] = EN
				}
			}
			k = j - 1
		}
	}
	// W6
	for k := range t {
		if t[k] == ET || t[k] == ES || t[k] == CS {
			t[k] = ON
		}
	}
	// W7
	s = e
	for k := range t {
		switch t[k] {
		case L, R:
			s = t[k]
		case EN:
			if s == L {
				t[k] = L
			}
		}
	}
	// N0
	type pr struct{ a, b int }
	var stack []int
	var prs []pr
	for k := range in {
		if in[k].Open != 0 {
			if len(stack) >= 63 {
				break
			}
			stack = append(stack, k)
		} else if in[k].Close != 0 {
			for q := len(stack) - 1; q >= 0; q-- {
				if in[stack[q]].Open == in[k].Close {
					prs = append(prs, pr{stack[q], k})
					stack = stack[:q]
					break
				}
			}
		}
	}
	sort.Slice(prs, func(i, j int) bool { return prs[i].a < prs[j].a })
	strong := func(c Class) Class {
		switch c {
		case L:
			return L
		case R, EN, AN:
			return R
		}
		return ON
	}
	o := L + R - e
	for _, p := range prs {
		fe, fo := false, false
		for k := p.a + 1; k < p.b; k++ {
			switch strong(t[k]) {
			case e:
				fe = true
			case o:
				fo = true
			}
		}
		d := ON
		if fe {
			d = e
		} else if fo {
			d = e
			for k := p.a - 1; k >= 0; k-- {
				if x := strong(t[k]); x != ON {
					d = x
					break
				}
			}
		}
		if d != ON {
			t[p.a], t[p.b] = d, d
			for _, q := range []int{p.a, p.b} {
				for k := q + 1; k < n && in[k].C == NSM; k++ {
					t[k] = d
				}
			}
		}
	}
	// N1, N2
	for k := 0; k < n; k++ {
		if t[k] == ON {
			j := k
			for j < n && t[j] == ON {
				j++
			}
			a, b := e, e
			if k > 0 {
				a = strong(t[k-1])
			}
			if j < n {
				b = strong(t[j])
			}
			d := e
			if a == b {
				d = a
			}
			for q := k; q < j; q++ {
				t[q] = d
			}
			k = j - 1
		}
	}
	// re-insert boundary neutrals
	out := make([]Class, len(pos0))
	q := 0
	for k, i := range pos0 {
		if text[i].C == BN {
			out[k] = BN // do not care
			continue
		}
		out[k] = t[q]
		q++
	}
	return out
}

// Visual returns the visual order, from left to right, of the characters (L2).
func Visual(level []int) []int {
	n := len(level)
	order := make([]int, n)
	max := 0
	for i := range order {
		order[i] = i
		if level[i] > max {
			max = level[i]
		}
	}
	for l := max; l > 0; l-- {
		for i := 0; i < n; i++ {
			if level[order[i]] >= l {
				j := i
				for j < n && level[order[j]] >= l {
					j++
				}
				for a, b := i, j-1; a < b; a, b = a+1, b-1 {
					order[a], order[b] = order[b], order[a]
				}
				i = j - 1
			}
		}
	}
	return order
}
