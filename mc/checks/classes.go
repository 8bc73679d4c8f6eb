package checks

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// every code-point is put into contexts which tell the classes apart

func wordContexts(x rune) []rune {
	h, ka, ri := '\u05d0', '\u30ab', '\U0001F1E6'
	return []rune{'a', x, 'a', '\n', '1', x, '1', '\n', h, x, h, '\n', ' ', x, ' ', '\n', ka, x, ka, '\n', '_', x, '_', '\n',
		ri, x, ri, ri, '\n', '!', x, x, '!', '\n', '!', 0x200d, x, '\n', 'a', x, '1', '\n', '\r', x, '\n', x}
}

func graphContexts(x rune) []rune {
	l, v, t, ri, pi := '\u1100', '\u1160', '\u11a8', '\U0001F1E6', '\U0001F600'
	return []rune{'a', x, 'a', '\n', l, x, l, '\n', v, x, v, '\n', t, x, t, '\n', ri, x, ri, ri, '\n', pi, x, pi, '\n', pi, 0x200d, x, '\n',
		pi, x, 0x200d, pi, '\n', x, x, '\n', '\r', x, '\r', x, '\n', '\u0600', x, 'a', '\n', x}
}

var wordClassNames = map[int]uax29.UAX29Class{wAL: uax29.ALetterClass, wALPI: uax29.ALetterClass, wCR: uax29.CRClass, wDQ: uax29.Double_QuoteClass,
	wEX: uax29.ExtendClass, wENL: uax29.ExtendNumLetClass, wFO: uax29.FormatClass, wHL: uax29.Hebrew_LetterClass,
	wKA: uax29.KatakanaClass, wLF: uax29.LFClass, wML: uax29.MidLetterClass, wMN: uax29.MidNumClass, wMNL: uax29.MidNumLetClass,
	wNL: uax29.NewlineClass, wNU: uax29.NumericClass, wRI: uax29.Regional_IndicatorClass, wSQ: uax29.Single_QuoteClass,
	wWS: uax29.WSegSpaceClass, wZWJ: uax29.ZWJClass, wOT: uax29.Other, wPI: uax29.Other}

var graphClassNames = map[int]grapheme.GraphemeClass{gCR: grapheme.CRClass, gLF: grapheme.LFClass, gPP: grapheme.PrependClass,
	gCN: grapheme.ControlClass, gEX: grapheme.ExtendClass, gRI: grapheme.Regional_IndicatorClass, gSM: grapheme.SpacingMarkClass,
	gL: grapheme.LClass, gV: grapheme.VClass, gT: grapheme.TClass, gLV: grapheme.LVClass, gLVT: grapheme.LVTClass,
	gZWJ: grapheme.ZWJClass, gOT: grapheme.Any, gPI: grapheme.Any}

var emojiTables = []struct {
	name  string
	table func() *unicode.RangeTable
}{
	{"emoji", func() *unicode.RangeTable { return emoji.Emoji }},
	{"emoji_presentation", func() *unicode.RangeTable { return emoji.Emoji_Presentation }},
	{"emoji_modifier", func() *unicode.RangeTable { return emoji.Emoji_Modifier }},
	{"emoji_modifier_base", func() *unicode.RangeTable { return emoji.Emoji_Modifier_Base }},
	{"emoji_component", func() *unicode.RangeTable { return emoji.Emoji_Component }},
	{"extpict", func() *unicode.RangeTable { return emoji.Extended_Pictographic }},
}

// exported range tables ("clients can check with unicode.Is")
type classTable struct {
	name  string
	class int
	table func() *unicode.RangeTable
}

func tbl(p **unicode.RangeTable) func() *unicode.RangeTable {
	return func() *unicode.RangeTable { return *p }
}

var wordTables = []classTable{{"ALetter", int(uax29.ALetterClass), tbl(&uax29.ALetter)}, {"CR", int(uax29.CRClass), tbl(&uax29.CR)},
	{"Double_Quote", int(uax29.Double_QuoteClass), tbl(&uax29.Double_Quote)}, {"Extend", int(uax29.ExtendClass), tbl(&uax29.Extend)},
	{"ExtendNumLet", int(uax29.ExtendNumLetClass), tbl(&uax29.ExtendNumLet)}, {"Format", int(uax29.FormatClass), tbl(&uax29.Format)},
	{"Hebrew_Letter", int(uax29.Hebrew_LetterClass), tbl(&uax29.Hebrew_Letter)}, {"Katakana", int(uax29.KatakanaClass), tbl(&uax29.Katakana)},
	{"LF", int(uax29.LFClass), tbl(&uax29.LF)}, {"MidLetter", int(uax29.MidLetterClass), tbl(&uax29.MidLetter)},
	{"MidNum", int(uax29.MidNumClass), tbl(&uax29.MidNum)}, {"MidNumLet", int(uax29.MidNumLetClass), tbl(&uax29.MidNumLet)},
	{"Newline", int(uax29.NewlineClass), tbl(&uax29.Newline)}, {"Numeric", int(uax29.NumericClass), tbl(&uax29.Numeric)},
	{"Regional_Indicator", int(uax29.Regional_IndicatorClass), tbl(&uax29.Regional_Indicator)},
	{"Single_Quote", int(uax29.Single_QuoteClass), tbl(&uax29.Single_Quote)}, {"WSegSpace", int(uax29.WSegSpaceClass), tbl(&uax29.WSegSpace)},
	{"ZWJ", int(uax29.ZWJClass), tbl(&uax29.ZWJ)}}

var graphTables = []classTable{{"CR", int(grapheme.CRClass), tbl(&grapheme.CR)}, {"LF", int(grapheme.LFClass), tbl(&grapheme.LF)},
	{"Prepend", int(grapheme.PrependClass), tbl(&grapheme.Prepend)}, {"Control", int(grapheme.ControlClass), tbl(&grapheme.Control)},
	{"Extend", int(grapheme.ExtendClass), tbl(&grapheme.Extend)},
	{"Regional_Indicator", int(grapheme.Regional_IndicatorClass), tbl(&grapheme.Regional_Indicator)},
	{"SpacingMark", int(grapheme.SpacingMarkClass), tbl(&grapheme.SpacingMark)}, {"L", int(grapheme.LClass), tbl(&grapheme.L)},
	{"V", int(grapheme.VClass), tbl(&grapheme.V)}, {"T", int(grapheme.TClass), tbl(&grapheme.T)}, {"LV", int(grapheme.LVClass), tbl(&grapheme.LV)},
	{"LVT", int(grapheme.LVTClass), tbl(&grapheme.LVT)}, {"ZWJ", int(grapheme.ZWJClass), tbl(&grapheme.ZWJ)}}

var emojiClassTables = []classTable{{"Emoji", int(emoji.EmojiClass), tbl(&emoji.Emoji)},
	{"Emoji_Presentation", int(emoji.Emoji_PresentationClass), tbl(&emoji.Emoji_Presentation)},
	{"Emoji_Modifier", int(emoji.Emoji_ModifierClass), tbl(&emoji.Emoji_Modifier)},
	{"Emoji_Modifier_Base", int(emoji.Emoji_Modifier_BaseClass), tbl(&emoji.Emoji_Modifier_Base)},
	{"Emoji_Component", int(emoji.Emoji_ComponentClass), tbl(&emoji.Emoji_Component)},
	{"Extended_Pictographic", int(emoji.Extended_PictographicClass), tbl(&emoji.Extended_Pictographic)}}

// inTables compares the class of a code-point with the exported tables.
func inTables(r rune, class int, tables []classTable) string {
	for _, t := range tables {
		if is := unicode.Is(t.table(), r); is != (class == t.class) {
			return fmt.Sprintf("%04X is member of table %s: %v, but its class is %d", r, t.name, is, class)
		}
	}
	return ""
}

// code-points without properties of their own have default classes: unassigned ones (in the version
// of the tables), and integers which are no code-points
func defaultClass(r rune) (string, error) {
	if c := uax29.ClassForRune(r); c != uax29.Other {
		return fmt.Sprintf("word class of unassigned %04X is %v", r, c), nil
	}
	g := grapheme.Any
	switch {
	case r == 0x2065, r >= 0xfff0 && r <= 0xfff8, r >= 0xe0000 && r <= 0xe0fff:
		g = grapheme.ControlClass // default ignorable
	}
	if c := grapheme.ClassForRune(r); c != g {
		return fmt.Sprintf("grapheme class of unassigned %04X is %v, must be %v", r, c, g), nil
	}
	for _, t := range emojiClassTables[:5] {
		if unicode.Is(t.table(), r) {
			return fmt.Sprintf("unassigned %04X is member of %s", r, t.name), nil
		}
	}
	want := emoji.EmojisClass(-1)
	if r >= 0 && r <= unicode.MaxRune && ucd.Load("extpict").Is(r, "Y") || r >= 0x1fb00 && r <= 0x1fbff {
		want = emoji.Extended_PictographicClass // reserved for future emojis; Unicode 13 took 1FB00–1FBFF for other symbols
	}
	if c := emoji.EmojisClassForRune(r); c != want {
		return fmt.Sprintf("emoji class of unassigned %04X is %d, must be %d", r, c, want), nil
	}
	return "", nil
}

func className(key string) (string, error) {
	for _, t := range wordTables {
		if n := uax29.UAX29Class(t.class).String(); n != t.name+"Class" {
			return fmt.Sprintf("name of word class %s is %s", t.name, n), nil
		}
	}
	for _, t := range graphTables {
		if n := grapheme.GraphemeClass(t.class).String(); n != t.name+"Class" {
			return fmt.Sprintf("name of grapheme class %s is %s", t.name, n), nil
		}
	}
	for _, t := range emojiClassTables {
		if n := emoji.EmojisClass(t.class).String(); n != t.name+"Class" {
			return fmt.Sprintf("name of emoji class %s is %s", t.name, n), nil
		}
	}
	if uax29.Other.String() != "Other" || grapheme.Any.String() != "Any" {
		return "name of the default classes", nil
	}
	return "", nil
}

func classCase(key string) (string, error) {
	if key == "names" {
		return className(key)
	}
	kind, hex, _ := strings.Cut(key, ":")
	n, err := strconv.ParseInt(hex, 16, 32)
	if err != nil {
		return "", err
	}
	r := rune(n)
	switch kind {
	case "words":
		if r != 0 {
			if got, want := uax29.ClassForRune(r), wordClassNames[wordClass(r)]; got != want {
				return fmt.Sprintf("word class of %04X is %v, must be %v", r, got, want), nil
			}
			if f := inTables(r, int(uax29.ClassForRune(r)), wordTables); f != "" {
				return f, nil
			}
		}
		return wordRules.one(wordContexts(r), true), nil
	case "graphemes":
		if r != 0 {
			if got, want := grapheme.ClassForRune(r), graphClassNames[graphClass(r)]; got != want {
				return fmt.Sprintf("grapheme class of %04X is %v, must be %v", r, got, want), nil
			}
			if f := inTables(r, int(grapheme.ClassForRune(r)), graphTables); f != "" {
				return f, nil
			}
		}
		return graphRules.one(graphContexts(r), true), nil
	case "emoji":
		any := false
		for _, e := range emojiTables {
			p := ucd.Load(e.name).Is(r, "Y")
			is := unicode.Is(e.table(), r)
			if is != p && !emojiDelta[e.name][r] {
				return fmt.Sprintf("member of %s: %v, must be %v", e.name, is, p), nil
			}
			any = any || is
		}
		c := emoji.EmojisClassForRune(r)
		if c >= 0 != any {
			return fmt.Sprintf("has emoji class: %v, must be %v", c >= 0, any), nil
		}
		if any && (int(c) >= len(emojiClassTables) || !unicode.Is(emojiClassTables[c].table(), r)) {
			return fmt.Sprintf("emoji class is %v, but is not in its table", c), nil
		}
		return "", nil
	case "default":
		return defaultClass(r)
	}
	return "", fmt.Errorf("unknown kind")
}

// changes of emoji properties for characters which had been there already in Unicode 11
var emojiDelta = map[string]map[rune]bool{
	"emoji": {0x26a7: true},
	"emoji_modifier_base": {0x1f46a: true, 0x1f46b: true, 0x1f46c: true, 0x1f46d: true, 0x1f46f: true, 0x1f48f: true,
		0x1f491: true, 0x1f91d: true, 0x1f93c: true},
}

func exploreClasses(w *mc.Worker) {
	uax29.SetupUAX29Classes()
	grapheme.SetupGraphemeClasses()
	if w.Shard == 0 {
		w.Case("names", func() string { s, _ := className(""); return s })
	}
	for r := rune(-3); r <= unicode.MaxRune+3; r++ {
		if !w.Mine() {
			continue
		}
		if r >= 0xd800 && r <= 0xdfff {
			continue // no characters
		}
		if r < 0 || r > unicode.MaxRune || ucd.Age(r) > 11 {
			w.Add("code_points_unassigned_in_unicode_11", 1)
			key := "default:" + strconv.FormatInt(int64(r), 16)
			w.Case(key, func() string { s, _ := classCase(key); return s })
			w.Steps(1)
			continue
		}
		for _, kind := range []string{"words", "graphemes", "emoji"} {
			key := kind + ":" + strconv.FormatInt(int64(r), 16)
			w.Case(key, func() string { s, _ := classCase(key); return s })
			w.Steps(len(wordContexts(r)))
		}
		c, g := wordClass(r), graphClass(r)
		if c != wOT || g != gOT {
			w.NonTrivial()
		}
		w.Outcome(fmt.Sprint(c, g))
		w.Sample(func() string { return fmt.Sprintf("U+%04X word class %d grapheme class %d", r, c, g) })
		if w.Stop() {
			return
		}
	}
}

func init() {
	mc.Register(&mc.Check{
		ID: "C03", Level: "exploration",
		Rule:    "every code-point assigned in Unicode 11 is put into texts which tell the character classes apart; boundaries, class, membership in all exported tables and emoji properties are compared with the Unicode character database; all others (unassigned, out of range) have the default classes (non-trivial: code-points with a class other than Other/Any)",
		Explore: exploreClasses, Replay: classCase,
		Assumptions: []string{"the oracle is the UCD 15 data of perl 5.38, restricted to code-points of age ≤ 11 and corrected for the listed changes of properties between Unicode 11 and 15"},
		Bound:       func(t string) string { return "all code-points, except surrogates; in contexts: those of age ≤ 11" },
	})
}
