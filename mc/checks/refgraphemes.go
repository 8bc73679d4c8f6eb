package checks

import "github.com/npillmayer/uax/verifmc/ucd"

// Reference for extended grapheme clusters: a direct transcription of rules GB1–GB999.

const (
	gCR = iota
	gLF
	gPP
	gCN
	gEX
	gRI
	gSM
	gL
	gV
	gT
	gLV
	gLVT
	gZWJ
	gOT
	gPI
	gCount
)

var graphRep = []rune{'\r', '\n', '\u0600', '\u200b', '\u0300', '\U0001F1E6', '\u0903', '\u1100', '\u1160', '\u11a8', '\uac00', '\uac01', '\u200d', 'a', '\U0001F600'}
var graphAlt = []rune{'\r', '\n', '\U000110BD', 0, '\U0001F3FB', '\U0001F1FF', '\u0e33', '\u115f', '\u11a2', '\u11ff', '\ud788', '\ud7a3', '\u200d', '\u4e00', '\u00a9'}

func refGraphemes(cs []int) (breaks []int) {
	for i := 1; i < len(cs); i++ {
		if refGraphemeBreak(cs, i) {
			breaks = append(breaks, i)
		}
	}
	return
}

func refGraphemeBreak(cs []int, i int) bool {
	a, b := cs[i-1], cs[i]
	ctl := func(c int) bool { return c == gCR || c == gLF || c == gCN }
	switch {
	case a == gCR && b == gLF: // GB3
		return false
	case ctl(a) || ctl(b): // GB4, GB5
		return true
	case a == gL && (b == gL || b == gV || b == gLV || b == gLVT): // GB6
		return false
	case (a == gLV || a == gV) && (b == gV || b == gT): // GB7
		return false
	case (a == gLVT || a == gT) && b == gT: // GB8
		return false
	case b == gEX || b == gZWJ || b == gSM || a == gPP: // GB9, 9a, 9b
		return false
	}
	if a == gZWJ && b == gPI { // GB11
		k := i - 2
		for k >= 0 && cs[k] == gEX {
			k--
		}
		if k >= 0 && cs[k] == gPI {
			return false
		}
	}
	if a == gRI && b == gRI { // GB12, GB13
		k := i - 1
		for k >= 0 && cs[k] == gRI {
			k--
		}
		return (i-1-k)%2 == 0
	}
	return true
}

// graphClass is the class of a code-point as of Unicode 11 (see wordClass).
func graphClass(r rune) int {
	switch r {
	case 0x1734:
		return gEX
	case 0x1cf2, 0x1cf3, 0x11720, 0x11721, 0x1b35, 0xa9bd:
		return gSM
	}
	switch ucd.Load("gcb").Of(r) {
	case "CR":
		return gCR
	case "LF":
		return gLF
	case "Prepend":
		return gPP
	case "Control":
		return gCN
	case "Extend":
		return gEX
	case "Regional_Indicator":
		return gRI
	case "SpacingMark":
		return gSM
	case "L":
		return gL
	case "V":
		return gV
	case "T":
		return gT
	case "LV":
		return gLV
	case "LVT":
		return gLVT
	case "ZWJ":
		return gZWJ
	case "ExtPict_XX", "ExtPict_LE":
		return gPI
	}
	return gOT
}
