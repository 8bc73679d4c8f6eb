#!/bin/bash
# validates the reference implementations, see mc/cmd/validate
cd "$(dirname "$0")/../mc" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
D=$(go list -m -f '{{.Dir}}' golang.org/x/text)
cat > $T/x.go <<'X'
package bidi

// VerifLevels is the reference implementation in core.go.
func VerifLevels(types []Class, opening, closing []int, para int) []int {
	pt := make([]bracketType, len(types))
	pv := make([]rune, len(types))
	for i := range types {
		if opening[i] > 0 {
			pt[i], pv[i] = bpOpen, rune(opening[i])
		} else if closing[i] > 0 {
			pt[i], pv[i] = bpClose, rune(closing[i])
		}
	}
	if len(types) == 0 {
		return nil
	}
	p := newParagraph(append([]Class{}, types...), pt, pv, level(para))
	var res []int
	for _, l := range p.resultLevels {
		res = append(res, int(l))
	}
	return res
}
X
{
	echo "{\"Replace\":{\"$PWD/xbidi/verif.go\":\"$T/x.go\""
	for f in bidi bracket core prop trieval tables12.0.0; do echo ",\"$PWD/xbidi/$f.go\":\"$D/unicode/bidi/$f.go\""; done
	echo "}}"
} > $T/o.json
go run -tags verifvalidate -overlay $T/o.json ./cmd/validate "${REPO:-/repo}/uax29/WordBreakTest.txt" "${REPO:-/repo}/grapheme/testfile/GraphemeBreakTest.txt"
