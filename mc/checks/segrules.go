package checks

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// ruleCheck compares boundaries with those of a reference for all the texts over an alphabet with
// a representative of every character class.
type ruleCheck struct {
	breaker  func() uax.UnicodeBreaker
	rep, alt []rune
	class    func(rune) int
	ref      func([]int) []int
	focus    []focusSet
	contexts func(rune) []rune // texts which tell the class of a code-point, separated by line ends
}

// focusSet is a reduced alphabet which is explored to a greater depth.
type focusSet struct {
	classes         []int
	quick, thorough int // maximum lengths
}

var wordRules = &ruleCheck{
	breaker: func() uax.UnicodeBreaker { return uax29.NewWordBreaker(1) },
	rep:     wordRep, alt: wordAlt, class: wordClass, ref: refWords, contexts: wordContexts,
	focus: []focusSet{
		{[]int{wHL, wDQ, wSQ, wEX, wML, wAL}, 7, 9},
		{[]int{wNU, wMN, wMNL, wFO, wAL, wENL}, 7, 9},
		{[]int{wRI, wEX, wZWJ, wOT}, 9, 11},
		{[]int{wZWJ, wALPI, wPI, wEX, wWS}, 8, 10},
		{[]int{wCR, wLF, wNL, wEX, wWS, wAL}, 7, 8},
		{[]int{wKA, wENL, wNU, wZWJ, wFO}, 8, 9},
	},
}

var graphRules = &ruleCheck{
	breaker: func() uax.UnicodeBreaker { grapheme.SetupGraphemeClasses(); return grapheme.NewBreaker(1) },
	rep:     graphRep, alt: graphAlt, class: graphClass, ref: refGraphemes, contexts: graphContexts,
	focus: []focusSet{
		{[]int{gPI, gEX, gZWJ, gOT}, 9, 12},
		{[]int{gRI, gEX, gPP, gCN}, 9, 11},
		{[]int{gL, gV, gT, gLV, gLVT, gSM}, 7, 9},
		{[]int{gCR, gLF, gCN, gPP, gEX}, 8, 9},
		{[]int{gPI, gRI, gZWJ, gPP, gSM}, 8, 9},
	},
}

func (rc *ruleCheck) one(rs []rune, slice bool) string {
	return rc.compare(rs, rc.ref(rc.classes(rs)), slice)
}

func (rc *ruleCheck) classes(rs []rune) []int {
	cs := make([]int, len(rs))
	for i, r := range rs {
		cs[i] = rc.class(r)
	}
	return cs
}

func (rc *ruleCheck) compare(rs []rune, want []int, slice bool) string {
	got, fail := breaksOf(rc.breaker(), rs, slice)
	if fail != "" {
		return fail
	}
	if !sameInts(got, want) {
		if len(rs) > 200 { // a part around the first difference
			k := 0
			for k < len(got) && k < len(want) && got[k] == want[k] {
				k++
			}
			at := len(rs)
			for _, b := range [][]int{got, want} {
				if k < len(b) {
					at = min(at, b[k])
				}
			}
			return fmt.Sprintf("boundaries differ at %d of %d code-points, in %s", at, len(rs), showBreaks(rs[max(0, at-10):min(len(rs), at+10)], nil))
		}
		return fmt.Sprintf("boundaries are %s, must be %s", showBreaks(rs, got), showBreaks(rs, want))
	}
	return ""
}

func (rc *ruleCheck) replay(key string) (string, error) {
	mode, text, _ := strings.Cut(key, ":")
	if mode == "cp" {
		r, err := strconv.ParseInt(text, 16, 32)
		if err != nil {
			return "", err
		}
		return rc.one(rc.contexts(rune(r)), r&1 == 0), nil
	}
	rs, err := parseText(text)
	if err != nil {
		return "", err
	}
	return rc.one(rs, mode == "slice"), nil
}

func (rc *ruleCheck) do(w *mc.Worker, rs []rune, slice bool) bool {
	return rc.doKey(w, textKey(rs), rs, slice)
}

func (rc *ruleCheck) doKey(w *mc.Worker, key string, rs []rune, slice bool) bool {
	pre := "reader:"
	if slice {
		pre = "slice:"
	}
	want := rc.ref(rc.classes(rs))
	if len(rs) > 1 && len(want) < len(rs)-1 {
		w.NonTrivial()
	}
	w.Steps(len(rs))
	w.Case(pre+key, func() string { return rc.compare(rs, want, slice) })
	if len(rs) < 400 {
		w.Sample(func() string { return pre + showBreaks(rs, want) })
	}
	if w.Quick() && len(rs) < 40 || len(rs) < 5 {
		w.Outcome(fmt.Sprint(want))
	}
	return !w.Stop()
}

// representative of a class
func (rc *ruleCheck) repOf(class int) rune {
	for _, r := range rc.rep {
		if rc.class(r) == class {
			return r
		}
	}
	panic(fmt.Sprintf("no representative for class %d", class))
}

func (rc *ruleCheck) product(w *mc.Worker, al []rune, n int, slice bool) bool {
	return mc.Product(len(al), n, func(idx []int) bool {
		if !w.Mine() {
			return true
		}
		rs := make([]rune, n)
		for i, a := range idx {
			rs[i] = al[a]
		}
		return rc.do(w, rs, slice)
	})
}

// runs explores texts a^i b^j c^k
func (rc *ruleCheck) runs(w *mc.Worker, counts []int) bool {
	k := len(rc.rep)
	m := len(counts)
	return mc.Product(k, 3, func(idx []int) bool {
		return mc.Product(m, 3, func(cnt []int) bool {
			if !w.Mine() {
				return true
			}
			var rs []rune
			for p, a := range idx {
				for j := 0; j < counts[cnt[p]]; j++ {
					rs = append(rs, rc.rep[a])
				}
			}
			return rc.do(w, rs, cnt[0]&1 == 0)
		})
	})
}

// long explores texts a b^n c for long runs
func (rc *ruleCheck) long(w *mc.Worker, counts []int) bool {
	return mc.Product(len(rc.rep), 3, func(idx []int) bool {
		if idx[0] > idx[2] && w.Quick() {
			return true
		}
		for _, n := range counts {
			if !w.Mine() {
				continue
			}
			rs := []rune{rc.rep[idx[0]]}
			for i := 0; i < n; i++ {
				rs = append(rs, rc.rep[idx[1]])
			}
			rs = append(rs, rc.rep[idx[2]])
			if !rc.do(w, rs, true) {
				return false
			}
		}
		return true
	})
}

// codePoints explores all code-points which are assigned in Unicode 11
func (rc *ruleCheck) codePoints(w *mc.Worker) bool {
	for r := rune(1); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff || !w.Mine() || ucd.Age(r) > 11 {
			continue
		}
		rs := rc.contexts(r)
		w.Steps(len(rs))
		w.Add("code_points", 1)
		w.Case("cp:"+strconv.FormatInt(int64(r), 16), func() string { return rc.one(rs, r&1 == 0) })
		if w.Stop() {
			return false
		}
	}
	return true
}

// periodic explores texts which repeat a unit of k characters up to the given lengths (the last repetition may be cut)
func (rc *ruleCheck) periodic(w *mc.Worker, k int, lens []int) bool {
	return mc.Product(len(rc.rep), k, func(idx []int) bool {
		if !w.Mine() {
			return true
		}
		var unit []rune
		same := k > 1
		for _, x := range idx {
			unit = append(unit, rc.rep[x])
			same = same && x == idx[0]
		}
		if same { // is a smaller unit
			return true
		}
		for i, n := range lens {
			if n > 10000 && len(rc.ref(rc.classes(slices.Repeat(unit, 100)))) < 20 {
				continue // long segments take quadratic time
			}
			key := fmt.Sprintf("%s*%d", textKey(unit), n)
			rs, err := parseText(key)
			if err != nil {
				panic(err)
			}
			w.Add("long_texts", 1)
			if !rc.doKey(w, key, rs, i&1 == 0) {
				return false
			}
		}
		return true
	})
}

func (rc *ruleCheck) explore(quickN, thoroughN int) func(w *mc.Worker) {
	return func(w *mc.Worker) {
		for n := 0; n <= w.Pick(4, 5); n++ { // second representatives, via reader
			if !rc.product(w, rc.alt, n, false) {
				return
			}
		}
		if !rc.runs(w, []int{1, 2, 3, 4, 5}[:w.Pick(3, 5)]) {
			return
		}
		for _, f := range rc.focus {
			var al []rune
			for _, c := range f.classes {
				al = append(al, rc.repOf(c))
			}
			full := w.Pick(quickN, thoroughN)
			for n := full + 1; n <= w.Pick(f.quick, f.thorough); n++ {
				if !rc.product(w, al, n, true) {
					return
				}
			}
		}
		if !rc.long(w, []int{63, 130, 300, 1000}[:w.Pick(2, 4)]) {
			return
		}
		if !rc.periodic(w, 1, []int{4099, 70001}) || !rc.periodic(w, 2, []int{41, 258, 70001}) ||
			!rc.periodic(w, 3, []int{41, 259, 1030}[:w.Pick(2, 3)]) {
			return
		}
		if !rc.codePoints(w) {
			return
		}
		for n := 1; n <= w.Pick(quickN, thoroughN); n++ {
			if !rc.product(w, rc.rep, n, true) {
				return
			}
		}
	}
}

func init() {
	mc.Register(&mc.Check{
		ID: "C01", Level: "exploration",
		Rule:    "every text over one representative of each of the 21 word-break classes up to the given length, plus a second set of representatives through a reader, plus all texts over reduced alphabets of interacting classes to a greater length, plus all run-length shapes a^i b^j c^k, long runs and long periodic texts, plus every code-point assigned in Unicode 11 in contexts of all classes; each is segmented by the real word breaker and compared with the reference transcription of WB1–WB999 (non-trivial: a text in which a rule suppresses a break)",
		Explore: wordRules.explore(5, 6), Replay: wordRules.replay,
		Bound: func(t string) string {
			return "full product: length ≤ 5 (quick) / 6 (thorough) over 21 classes; second representatives length ≤ 4 / 5; runs of up to 3 / 5 for class triples, long runs of up to 130 / 1000, periods of up to 3 characters repeated to lengths of up to 258 / 1030, of 1 character to 70001 (of 2 characters, if segments are short); reduced alphabets of 4–6 classes to lengths of up to 9 / 12"
		},
	})
	mc.Register(&mc.Check{
		ID: "C02", Level: "exploration",
		Rule:    "every text over one representative of each of the 15 grapheme-break classes up to the given length, plus a second set of representatives through a reader, plus all texts over reduced alphabets of interacting classes to a greater length, plus all run-length shapes a^i b^j c^k, long runs and long periodic texts, plus every code-point assigned in Unicode 11 in contexts of all classes; each is segmented by the real grapheme breaker and compared with the reference transcription of GB1–GB999 (non-trivial: a text in which a rule suppresses a break)",
		Explore: graphRules.explore(5, 6), Replay: graphRules.replay,
		Bound: func(t string) string {
			return "full product: length ≤ 5 (quick) / 6 (thorough) over 15 classes; second representatives length ≤ 4 / 5; runs of up to 3 / 5 for class triples, long runs of up to 130 / 1000, periods of up to 3 characters repeated to lengths of up to 258 / 1030, of 1 character to 70001 (of 2 characters, if segments are short); reduced alphabets of 4–6 classes to lengths of up to 9 / 12"
		},
	})
}
