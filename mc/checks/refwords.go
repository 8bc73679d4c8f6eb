package checks

import "github.com/npillmayer/uax/verifmc/ucd"

// Reference for UAX#29 word boundaries: a direct transcription of rules WB1–WB999.

const (
	wAL = iota
	wCR
	wDQ
	wEX
	wENL
	wFO
	wHL
	wKA
	wLF
	wML
	wMN
	wMNL
	wNL
	wNU
	wRI
	wSQ
	wWS
	wZWJ
	wOT
	wPI   // Extended_Pictographic
	wALPI // ALetter and Extended_Pictographic
	wCount
)

var wordRep = []rune{'a', '\r', '"', '\u0300', '_', '\u00ad', '\u05d0', '\u30ab', '\n', ':', ',', '.', '\u0085', '1', '\U0001F1E6', '\'', ' ', '\u200d', '!', '\U0001F600', '\u24c2'}
var wordAlt = []rune{'é', '\r', '"', '\U0001F3FB', '\u202f', '\u200e', '\u05ea', '\u3031', '\v', '\u00b7', '\u066c', '\u2024', '\u2028', '\u0660', '\U0001F1FF', '\'', '\u3000', '\u200d', '\u4e00', '\u2764', '\U0001F170'}

func wIgn(c int) bool  { return c == wEX || c == wFO || c == wZWJ }
func wNewl(c int) bool { return c == wCR || c == wLF || c == wNL }
func wAH(c int) bool   { return c == wAL || c == wHL || c == wALPI }

func refWords(cs []int) (breaks []int) {
	for i := 1; i < len(cs); i++ {
		if refWordBreak(cs, i) {
			breaks = append(breaks, i)
		}
	}
	return
}

func refWordBreak(cs []int, i int) bool {
	n := len(cs)
	a, b := cs[i-1], cs[i]
	switch {
	case a == wCR && b == wLF: // WB3
		return false
	case wNewl(a) || wNewl(b): // WB3a, WB3b
		return true
	case a == wZWJ && (b == wPI || b == wALPI): // WB3c
		return false
	case a == wWS && b == wWS: // WB3d
		return false
	case wIgn(b): // WB4
		return false
	}
	prev := func(k int) int { // effective character at or in front of k
		for k >= 0 && wIgn(cs[k]) {
			if k == 0 || wNewl(cs[k-1]) {
				return k
			}
			k--
		}
		return k
	}
	p := prev(i - 1)
	pp := -1
	if p > 0 {
		pp = prev(p - 1)
	}
	nn := i + 1
	for nn < n && wIgn(cs[nn]) {
		nn++
	}
	P, PP, N := cs[p], -1, -1
	if pp >= 0 {
		PP = cs[pp]
	}
	if nn < n {
		N = cs[nn]
	}
	mlq := func(c int) bool { return c == wML || c == wMNL || c == wSQ }
	mnq := func(c int) bool { return c == wMN || c == wMNL || c == wSQ }
	switch {
	case wAH(P) && wAH(b), // WB5
		wAH(P) && mlq(b) && wAH(N),                                 // WB6
		wAH(PP) && mlq(P) && wAH(b),                                // WB7
		P == wHL && b == wSQ,                                       // WB7a
		P == wHL && b == wDQ && N == wHL,                           // WB7b
		PP == wHL && P == wDQ && b == wHL,                          // WB7c
		P == wNU && b == wNU,                                       // WB8
		wAH(P) && b == wNU,                                         // WB9
		P == wNU && wAH(b),                                         // WB10
		PP == wNU && mnq(P) && b == wNU,                            // WB11
		P == wNU && mnq(b) && N == wNU,                             // WB12
		P == wKA && b == wKA,                                       // WB13
		(wAH(P) || P == wNU || P == wKA || P == wENL) && b == wENL, // WB13a
		P == wENL && (wAH(b) || b == wNU || b == wKA):              // WB13b
		return false
	}
	if P == wRI && b == wRI { // WB15, WB16
		cnt := 0
		for k := p; k >= 0 && cs[k] == wRI; {
			cnt++
			if k == 0 {
				break
			}
			k = prev(k - 1)
		}
		return cnt%2 == 0
	}
	return true
}

// wordClass is the class of a code-point as of Unicode 11, derived from the UCD of version 15
// and the list of changes between these versions.
func wordClass(r rune) int {
	switch {
	case r == 0x1cf2, r == 0x1cf3:
		return wEX
	case r >= 0x2e5 && r <= 0x2eb, r == 0x55a, r == 0x55f, r == 0x58a, r >= 0xff10 && r <= 0xff19, r >= 0xa708 && r <= 0xa716:
		return wOT
	case r == 9, r == 0xa0, r == 0x2007:
		return wOT
	}
	switch ucd.Load("wb").Of(r) {
	case "ALetter":
		return wAL
	case "CR":
		return wCR
	case "Double_Quote":
		return wDQ
	case "Extend":
		return wEX
	case "ExtendNumLet":
		return wENL
	case "Format":
		return wFO
	case "Hebrew_Letter":
		return wHL
	case "Katakana":
		return wKA
	case "LF":
		return wLF
	case "MidLetter":
		return wML
	case "MidNum":
		return wMN
	case "MidNumLet":
		return wMNL
	case "Newline":
		return wNL
	case "Numeric":
		return wNU
	case "Regional_Indicator":
		return wRI
	case "Single_Quote":
		return wSQ
	case "Perl_Tailored_HSpace":
		return wWS
	case "ZWJ":
		return wZWJ
	case "ExtPict_XX":
		return wPI
	case "ExtPict_LE":
		return wALPI
	}
	return wOT
}
