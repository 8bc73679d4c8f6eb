package checks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
	"golang.org/x/text/language"
)

// --- C13: widths -----------------------------------------------------------------------------

// East Asian width in golang.org/x/text/width, which differs from that of Unicode 15
var eaDelta = map[rune]string{0x1f93b: "W", 0x1f946: "W", 0x2fffe: "W", 0x2ffff: "W", 0x3fffe: "W", 0x3ffff: "W"}

func refEastAsian(r rune) string {
	if s, is := eaDelta[r]; is {
		return s
	}
	s := ucd.Load("ea").Of(r)
	if s == "" {
		return "N"
	}
	return s
}

func refEmoji(r rune) bool { // has any of the emoji properties
	if r < 0x80 {
		return false
	}
	for _, e := range emojiTables {
		if is := ucd.Load(e.name).Is(r, "Y"); is != emojiDelta[e.name][r] {
			return true
		}
	}
	return false
}

// refWidth is the width of a grapheme.
func refWidth(g string, wide bool) int {
	if g == "" || refLegal(g) != 0 {
		return 0
	}
	r, n := utf8.DecodeRuneInString(g)
	switch {
	case n == len(g) && (r >= 0x200b && r <= 0x200d || r == 0x2060 || r == 0xfeff):
		return 0
	case refEmoji(r):
		return 2
	}
	switch refEastAsian(r) {
	case "W", "F":
		return 2
	case "N", "A":
		if wide {
			return 2
		}
	}
	return 1
}

type wcontext struct {
	name string
	ctx  func() *uax11.Context
	wide bool
}

func scr(s string) language.Script { return language.MustParseScript(s) }

var wcontexts = []wcontext{
	{"latin", func() *uax11.Context { return uax11.LatinContext }, false},
	{"east asian", func() *uax11.Context { return uax11.EastAsianContext }, true},
	{"nil", func() *uax11.Context { return nil }, false},
	{"empty", func() *uax11.Context { return &uax11.Context{} }, false},
	{"force", func() *uax11.Context { return &uax11.Context{ForceEastAsian: true} }, true},
	{"force en", func() *uax11.Context { return &uax11.Context{ForceEastAsian: true, Locale: "en-US"} }, true},
	{"force Latn", func() *uax11.Context { return &uax11.Context{ForceEastAsian: true, Script: scr("Latn"), Locale: "de"} }, true},
	{"Hani", func() *uax11.Context { return &uax11.Context{Script: scr("Hani")} }, true},
	{"Hira", func() *uax11.Context { return &uax11.Context{Script: scr("Hira")} }, true},
	{"Kana", func() *uax11.Context { return &uax11.Context{Script: scr("Kana")} }, true},
	{"Hang", func() *uax11.Context { return &uax11.Context{Script: scr("Hang")} }, true},
	{"Bopo", func() *uax11.Context { return &uax11.Context{Script: scr("Bopo")} }, true},
	{"Latn", func() *uax11.Context { return &uax11.Context{Script: scr("Latn")} }, false},
	{"Cyrl", func() *uax11.Context { return &uax11.Context{Script: scr("Cyrl")} }, false},
	{"en Hant", func() *uax11.Context { return &uax11.Context{Script: scr("Hant"), Locale: "en"} }, true},
}

func init() {
	for _, l := range []string{"zh", "zh-CN", "zh-TW", "zh-Hant", "zh-Hans", "zh-HK", "ja", "ja-JP", "ko", "ko-KR", "vi", "th", "th-TH", "mn", "my", "km"} {
		wcontexts = append(wcontexts, wcontext{"locale " + l, func() *uax11.Context { return &uax11.Context{Locale: l} }, true})
	}
	for _, l := range []string{"en", "en-US", "de", "de-DE", "fr", "ru", "el", "ar", "he", "es-MX", "pt-BR", "it", "tr", "pl"} {
		wcontexts = append(wcontexts, wcontext{"locale " + l, func() *uax11.Context { return &uax11.Context{Locale: l} }, false})
	}
}

func widthCase(g string, c int) string {
	wc := wcontexts[c]
	ctx := wc.ctx()
	want := refWidth(g, wc.wide)
	for i := range 2 { // contexts may be re-used
		if got := uax11.Width([]byte(g), ctx); got != want {
			return fmt.Sprintf("context %s: width of %q is %d, must be %d (use %d)", wc.name, g, got, want, i+1)
		}
	}
	return ""
}

func stringWidthCase(s string, c int) string {
	wc := wcontexts[c]
	gs := grapheme.StringFromString(s)
	want := 0
	ctx := wc.ctx()
	for i := range gs.Len() {
		w := refWidth(gs.Nth(i), wc.wide)
		if got := uax11.Width([]byte(gs.Nth(i)), ctx); got != w {
			return fmt.Sprintf("context %s: width of grapheme %q is %d, must be %d", wc.name, gs.Nth(i), got, w)
		}
		want += w
	}
	if got := uax11.StringWidth(gs, wc.ctx()); got != want {
		return fmt.Sprintf("context %s: width of the string is %d, must be %d", wc.name, got, want)
	}
	return ""
}

// a context which has been used, or a copy of it, is changed to another one
func changedCase(i, j int) string {
	from, to := wcontexts[i].ctx(), wcontexts[j].ctx()
	if from == nil || to == nil {
		return ""
	}
	ctx := *from
	for _, g := range []string{"", "a", "\u00a1", "世"} { // uses of the first one
		for way := range 3 {
			c := &ctx
			if way == 1 {
				c = new(uax11.Context)
				*c = ctx
			}
			if way == 2 {
				uax11.StringWidth(grapheme.StringFromString(g), c)
			} else {
				uax11.Width([]byte(g), c)
			}
			used := *c
			c.ForceEastAsian, c.Script, c.Locale = to.ForceEastAsian, to.Script, to.Locale
			for _, h := range []string{"\u05d0", "a", "\u00a1", "世"} {
				want := refWidth(h, wcontexts[j].wide)
				if got := uax11.StringWidth(grapheme.StringFromString(h), c); way == 2 && got != want {
					return fmt.Sprintf("context %s changed to %s: width of string %q is %d, must be %d", wcontexts[i].name, wcontexts[j].name, h, got, want)
				}
				if got := uax11.Width([]byte(h), c); got != want {
					return fmt.Sprintf("context %s changed to %s: width of %q is %d, must be %d", wcontexts[i].name, wcontexts[j].name, h, got, want)
				}
			}
			c.ForceEastAsian, c.Script, c.Locale = used.ForceEastAsian, used.Script, used.Locale
			if got, want := uax11.Width([]byte("\u00a1"), c), refWidth("\u00a1", wcontexts[i].wide); got != want {
				return fmt.Sprintf("context %s changed to %s and back: width is %d, must be %d", wcontexts[i].name, wcontexts[j].name, got, want)
			}
		}
	}
	return ""
}

// contexts derived from locales

var locales = []struct {
	locale, script string
	wide           bool
}{{"zh", "Hans", true}, {"zh-TW", "Hant", true}, {"zh-CN", "Hans", true}, {"ja", "Jpan", true}, {"ko", "Kore", true}, {"th", "Thai", true},
	{"en", "Latn", false}, {"de-AT", "Latn", false}, {"ru", "Cyrl", false}, {"vi", "Latn", true}, {"my", "Mymr", true}, {"km", "Khmr", true}}

func localeCase(i, op int) string {
	l := locales[i]
	ctx := &uax11.Context{Locale: l.locale}
	if op == 0 {
		uax11.Width([]byte("a"), ctx)
	} else {
		uax11.StringWidth(grapheme.StringFromString("a"), ctx)
	}
	if s := ctx.Script.String(); s != l.script {
		return fmt.Sprintf("script for locale %s is %s, must be %s", l.locale, s, l.script)
	}
	if ctx.Locale != l.locale || ctx.ForceEastAsian {
		return fmt.Sprintf("locale %s: context has changed to %v", l.locale, ctx)
	}
	return ""
}

var envs = []struct {
	value string
	wide  bool
}{{"", false}, {"en_US.UTF-8", false}, {"de_DE", false}, {"fr_FR.ISO-8859-1", false}, {"C", false}, {"POSIX", false}, {"C.UTF-8", false},
	{"zh_CN.UTF-8", true}, {"zh_TW.Big5", true}, {"ja_JP.eucJP", true}, {"ko_KR.UTF-8", true}, {"th_TH.UTF-8", true}, {"ja", true}, {"ru_RU.UTF-8", false}}

func envCase(all, lang int) string {
	for i, name := range []string{"LC_ALL", "LANG"} {
		v := envs[[]int{all, lang}[i]].value
		old, is := os.LookupEnv(name)
		if is {
			defer os.Setenv(name, old)
		} else {
			defer os.Unsetenv(name)
		}
		if v == "" {
			os.Unsetenv(name)
		} else {
			os.Setenv(name, v)
		}
	}
	wide := envs[lang].wide
	if envs[all].value != "" {
		wide = envs[all].wide
	}
	ctx := uax11.ContextFromEnvironment()
	if ctx == nil {
		return "no context"
	}
	for _, g := range []string{"a", "世", "\u00a1", "\u05d0"} {
		if got, want := uax11.Width([]byte(g), ctx), refWidth(g, wide); got != want {
			return fmt.Sprintf("LC_ALL=%q LANG=%q: width of %q is %d, must be %d", envs[all].value, envs[lang].value, g, got, want)
		}
	}
	return ""
}

var wletters = []string{"a", "1", "#", "世", "カ", "ｶ", "Ａ", "가", "\u1100", "\u1161", "\u00a1", "\u05d0", "\u0301", "e\u0301", "\u200b", "\u200d", "\ufe0f",
	"👦", "\U0001F3FD", "\U0001F1E6", "\u20e3", "\xff", "\xe2\x81", "\n", "\x00", "\ufeff", "©", "☎"}

func exploreWidths(w *mc.Worker) {
	grapheme.SetupGraphemeClasses()
	emoji.SetupEmojisClasses()
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if !w.Mine() || r >= 0xd800 && r <= 0xdfff {
			continue
		}
		if ucd.Age(r) > 10 {
			w.Add("code_points_skipped_newer_than_unicode_10_or_unassigned", 1)
			continue
		}
		if w.Stop() {
			return
		}
		for _, suffix := range []string{"", "\u0301", "\u200d", "\x00", "\xff"} {
			g := string(r) + suffix
			n := 2
			if suffix == "" && !w.Quick() {
				n = len(wcontexts)
			}
			for c := range n {
				w.Case(fmt.Sprintf("w/%d/%x", c, g), func() string { return widthCase(g, c) })
				w.Steps(1)
				if refWidth(g, c == 1) != 1 {
					w.NonTrivial()
				}
			}
		}
		w.Outcome(fmt.Sprint(refEastAsian(r), refEmoji(r)))
	}
	for n := 0; n <= w.Pick(4, 5); n++ {
		mc.Product(len(wletters), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			if w.Stop() {
				return false
			}
			s := ""
			for _, k := range idx {
				s += wletters[k]
			}
			for c := range wcontexts {
				if c > 2 && n > 2 {
					break
				}
				w.Case(fmt.Sprintf("s/%d/%x", c, s), func() string { return stringWidthCase(s, c) })
				w.Case(fmt.Sprintf("w/%d/%x", c, s), func() string { return widthCase(s, c) })
				w.Steps(n)
			}
			w.Sample(func() string { return fmt.Sprintf("%q", s) })
			return true
		})
	}
	for _, n := range []int{100, 253, 254, 255, 256, 257, 300, 1000, 20000} {
		for k, l := range wletters {
			if w.Mine() {
				s := strings.Repeat(l+"a", n/len(l+"a"))
				w.Case(fmt.Sprintf("L/%d/%d", n, k), func() string { return stringWidthCase(s, 0) })
				w.Steps(n)
			}
		}
	}
	for i := range locales {
		for op := range 2 {
			if w.Mine() {
				w.Case(fmt.Sprintf("o/%d/%d", i, op), func() string { return localeCase(i, op) })
				w.Steps(1)
			}
		}
	}
	for i := range wcontexts {
		for j := range wcontexts {
			if w.Mine() {
				w.Case(fmt.Sprintf("c/%d/%d", i, j), func() string { return changedCase(i, j) })
				w.Steps(1)
			}
		}
	}
	for a := range envs {
		for l := range envs {
			if w.Mine() {
				w.Case(fmt.Sprintf("e/%d/%d", a, l), func() string { return envCase(a, l) })
				w.Steps(1)
			}
		}
	}
}

func replayWidths(key string) (string, error) {
	grapheme.SetupGraphemeClasses()
	p := strings.Split(key, "/")
	if len(p) != 3 {
		return "", errors.New("illegal key")
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		return "", err
	}
	switch p[0] {
	case "w", "s":
		b, err := hex.DecodeString(p[2])
		if err != nil || n >= len(wcontexts) {
			return "", errors.New("illegal key")
		}
		if p[0] == "s" {
			return stringWidthCase(string(b), n), nil
		}
		return widthCase(string(b), n), nil
	}
	k, err := strconv.Atoi(p[2])
	if err != nil {
		return "", err
	}
	switch p[0] {
	case "L":
		l := wletters[k]
		return stringWidthCase(strings.Repeat(l+"a", n/len(l+"a")), 0), nil
	case "o":
		return localeCase(n, k), nil
	case "c":
		return changedCase(n, k), nil
	case "e":
		return envCase(n, k), nil
	}
	return "", errors.New("illegal key")
}

func init() {
	mc.Register(&mc.Check{ID: "C13", Level: "exploration",
		Rule:        "all code-points of age ≤ 10, alone and followed by a mark, a joiner, NUL or an illegal byte, in both predefined contexts; all strings over an alphabet of graphemes; all contexts of a list, and each one changed to each other one after it has been used; all pairs of environment settings",
		Assumptions: []string{"East Asian Width and emoji properties are those of the UCD 15 of perl 5.38 for characters of age ≤ 10"},
		Explore:     exploreWidths, Replay: replayWidths,
		Bound: func(tier string) string {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			return fmt.Sprintf("all code-points; strings of %d of %d letters; %d contexts", n, len(wletters), len(wcontexts))
		}})
}
