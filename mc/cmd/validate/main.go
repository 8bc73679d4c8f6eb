//go:build verifvalidate

// validate compares the reference implementations with sources the checks do not use: UAX#9 with the
// core of golang.org/x/text/unicode/bidi (exported by an overlay, see tools/validate.sh), UAX#29 with
// the conformance files.
package main

import (
	"bufio"
	"fmt"
	"os"
	"slices"
	"strconv"
	"strings"

	"github.com/npillmayer/uax/verifmc/bref"
	"github.com/npillmayer/uax/verifmc/checks"
	"github.com/npillmayer/uax/verifmc/mc"
	bidi "github.com/npillmayer/uax/verifmc/xbidi"
)

var classes = map[bref.Class]bidi.Class{bref.L: bidi.L, bref.R: bidi.R, bref.AL: bidi.AL, bref.EN: bidi.EN, bref.ES: bidi.ES, bref.ET: bidi.ET,
	bref.AN: bidi.AN, bref.CS: bidi.CS, bref.NSM: bidi.NSM, bref.BN: bidi.BN, bref.ON: bidi.ON, bref.LRI: bidi.LRI, bref.RLI: bidi.RLI, bref.PDI: bidi.PDI}

func main() {
	letters := []bref.Char{{C: bref.L}, {C: bref.R}, {C: bref.AL}, {C: bref.EN}, {C: bref.ES}, {C: bref.ET}, {C: bref.AN}, {C: bref.CS},
		{C: bref.NSM}, {C: bref.BN}, {C: bref.ON}, {C: bref.LRI}, {C: bref.RLI}, {C: bref.PDI},
		{C: bref.ON, Open: 1}, {C: bref.ON, Close: 1}, {C: bref.ON, Open: 2}, {C: bref.ON, Close: 2}}
	small := []bref.Char{letters[0], letters[1], letters[3], letters[8], letters[12], letters[13], letters[14], letters[15]}
	n, bad := 0, 0
	compare := func(text []bref.Char) {
		for para := 0; para < 2; para++ {
			want := bref.Resolve(text, para)
			var t []bidi.Class
			var op, cl []int
			for _, c := range text {
				t = append(t, classes[c.C])
				op, cl = append(op, c.Open), append(cl, c.Close)
			}
			got := bidi.VerifLevels(t, op, cl, para)
			n++
			for i, c := range text {
				if c.C != bref.BN && got[i] != want.Level[i] {
					if bad++; bad < 20 {
						fmt.Println("DIFFERENT", text, para, got, want.Level)
					}
					break
				}
			}
		}
	}
	for l := 0; l <= 5; l++ {
		mc.Product(len(letters), l, func(ix []int) bool {
			var text []bref.Char
			for _, i := range ix {
				text = append(text, letters[i])
			}
			compare(text)
			return true
		})
	}
	for l := 6; l <= 7; l++ {
		mc.Product(len(small), l, func(ix []int) bool {
			var text []bref.Char
			for _, i := range ix {
				text = append(text, small[i])
			}
			compare(text)
			return true
		})
	}
	fmt.Println("UAX#9:", n, "texts,", bad, "differ")
	for k, file := range os.Args[1:] {
		f, err := os.Open(file)
		if err != nil {
			panic(err)
		}
		n, bad := 0, 0
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			line, _, _ := strings.Cut(sc.Text(), "#")
			var rs []rune
			var want []int
			for _, x := range strings.Fields(line) {
				switch x {
				case "÷":
					want = append(want, len(rs))
				case "×":
				default:
					c, _ := strconv.ParseInt(x, 16, 32)
					rs = append(rs, rune(c))
				}
			}
			if len(rs) == 0 || slices.ContainsFunc(rs, func(r rune) bool { return r>>11 == 0x1b }) { // surrogates are no characters
				continue
			}
			n++
			want = want[1 : len(want)-1]
			got := checks.Reference(k, rs)
			if !slices.Equal(got, want) && len(got)+len(want) > 0 {
				bad++
				fmt.Println("DIFFERENT", line, got)
			}
		}
		fmt.Println(file, n, "texts,", bad, "differ")
	}
}
