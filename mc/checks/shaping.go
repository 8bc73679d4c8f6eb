package checks

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// --- S01: tables for shaping -----------------------------------------------------------------

// The tables are those of Unicode 13. Package ucd has Unicode 15, some characters changed in between.
var shapingDelta = map[string]map[rune]string{
	"UISC": {
		0x0afa: "Cantillation_Mark", 0x0afb: "Cantillation_Mark", 0x0afc: "Cantillation_Mark",
		0x1b03: "Consonant_Succeeding_Repha", 0x1b81: "Consonant_Succeeding_Repha", 0xa982: "Consonant_Succeeding_Repha",
	},
	"UIPC": {
		0x0953: "Top", 0x0954: "Top", 0x1734: "Bottom",
		0xa926: "", 0xa927: "", 0xa928: "", 0xa929: "", 0xa92a: "",
	},
}

// characters which ArabicShaping.txt lists as transparent or non-joining; ucd has derived joining types
var arabicTransparent = [][2]rune{{0x70f, 0x70f}, {0x1885, 0x1886}, {0x1e94b, 0x1e94b}}
var arabicNonJoining = [][2]rune{
	{0x600, 0x605}, {0x608, 0x608}, {0x60b, 0x60b}, {0x621, 0x621}, {0x674, 0x674}, {0x6dd, 0x6dd},
	{0x861, 0x861}, {0x866, 0x866}, {0x8ad, 0x8ad}, {0x8e2, 0x8e2}, {0x1806, 0x1806}, {0x180e, 0x180e},
	{0x1880, 0x1884}, {0x200c, 0x200c}, {0x202f, 0x202f}, {0x2066, 0x2069}, {0xa873, 0xa873}, {0x10ac6, 0x10ac6},
	{0x10ac8, 0x10ac8}, {0x10acb, 0x10acc}, {0x10ae2, 0x10ae3}, {0x10baf, 0x10baf}, {0x10f45, 0x10f45}, {0x10fb1, 0x10fb1},
	{0x10fb7, 0x10fb7}, {0x10fc0, 0x10fc0}, {0x10fc5, 0x10fc8}, {0x110bd, 0x110bd}, {0x110cd, 0x110cd},
}

func inRanges(rs [][2]rune, r rune) bool {
	for _, x := range rs {
		if x[0] <= r && r <= x[1] {
			return true
		}
	}
	return false
}

// refShaping is the value of a property in Unicode 13.
func refShaping(prop string, r rune) string {
	if ucd.Age(r) > 13 {
		return ""
	}
	if v, is := shapingDelta[prop][r]; is {
		return v
	}
	switch prop {
	case "UISC":
		return ucd.Load("insc").Of(r)
	case "UIPC":
		return ucd.Load("inpc").Of(r)
	}
	switch t := ucd.Load("joining_type").Of(r); {
	case inRanges(arabicTransparent, r):
		return "T"
	case inRanges(arabicNonJoining, r):
		return "U"
	case t != "T":
		return t
	}
	return ""
}

// checkTable tells what is wrong with the structure of a range table.
func checkTable(t *unicode.RangeTable) string {
	if t == nil {
		return "is nil"
	}
	last, latin := int64(-1), 0
	next := func(lo, hi, stride, min, max int64) string {
		if lo <= last || lo > hi || stride < 1 || lo < min || hi > max {
			return fmt.Sprintf("has a misplaced range %#x–%#x", lo, hi)
		}
		last = hi
		if hi <= unicode.MaxLatin1 {
			latin++
		}
		return ""
	}
	for _, r := range t.R16 {
		if e := next(int64(r.Lo), int64(r.Hi), int64(r.Stride), 0, 0xffff); e != "" {
			return e
		}
	}
	n := latin
	for _, r := range t.R32 {
		if e := next(int64(r.Lo), int64(r.Hi), int64(r.Stride), 0x10000, 0x10ffff); e != "" {
			return e
		}
	}
	if t.LatinOffset != n {
		return fmt.Sprintf("has LatinOffset %d, but %d ranges of Latin-1", t.LatinOffset, n)
	}
	return ""
}

func shapingRune(r rune) string {
	for _, t := range shapingTables {
		prop, val, _ := strings.Cut(t.name, "_")
		if got, want := unicode.Is(t.table, r), refShaping(prop, r) == val; got != want {
			return fmt.Sprintf("unicode.Is(shaping.%s, %U) = %t", t.name, r, got)
		}
		if got, want := unicode.Is(t.table, r), unicode.In(r, t.table); got != want {
			return fmt.Sprintf("unicode.In(%U, shaping.%s) = %t", r, t.name, want)
		}
	}
	return ""
}

func shapingTable(name string) string {
	for _, t := range shapingTables {
		if t.name == name {
			if e := checkTable(t.table); e != "" {
				return "shaping." + name + " " + e
			}
		}
	}
	return ""
}

func init() {
	mc.Register(&mc.Check{ID: "S01", Level: "exploration",
		Rule:        "every pair of a code-point and an exported table is a state; a case judges a code-point with all the tables, or the structure of a table; distinct outcomes are sets of tables holding a code-point",
		Assumptions: []string{"property values are those of the UCD (version 15, as shipped with perl), restricted to characters of Unicode 13, except for 14 characters changed by Unicode 14, and for the characters ArabicShaping.txt (version 13) lists explicitly as transparent or non-joining"},
		Explore: func(w *mc.Worker) {
			for _, t := range shapingTables {
				if w.Mine() && !w.Case("table "+t.name, func() string { return shapingTable(t.name) }) {
					return
				}
			}
			for r := rune(0); r <= 0x10ffff; r++ {
				if r&0xff == 0 && w.Stop() {
					return
				}
				if !w.Mine() {
					continue
				}
				if !w.Case(fmt.Sprintf("rune %x", r), func() string { return shapingRune(r) }) {
					return
				}
				w.States(len(shapingTables))
				w.Steps(len(shapingTables))
				set := ""
				for _, p := range []string{"ARAB", "UIPC", "UISC"} {
					if v := refShaping(p, r); v != "" {
						set += " " + p + "_" + v
					}
				}
				if set != "" {
					w.Sample(func() string { return fmt.Sprintf("%U:%s", r, set) })
					w.NonTrivial()
				}
				w.Outcome(set)
			}
		},
		Replay: func(key string) (string, error) {
			if s, is := strings.CutPrefix(key, "table "); is {
				return shapingTable(s), nil
			}
			n, err := strconv.ParseInt(strings.TrimPrefix(key, "rune "), 16, 32)
			return shapingRune(rune(n)), err
		},
		Serial: true,
		Bound: func(string) string {
			return fmt.Sprintf("all %d code-points in all %d tables", 0x110000, len(shapingTables))
		},
	})
}
