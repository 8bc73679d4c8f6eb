#!/bin/bash
# check.sh run|replay <property> [file]: build the checks from /repo's current tree and run one of them
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
R="${REPO:-/repo}"
mkdir -p "$VERIF_DIR/evidence"
T=$(mktemp -d "${TMPDIR:-/tmp}/vx.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
BUILT=
# the class table of uax14 is not part of the repository, its generator makes it from Unicode data
linetable() {
	(cd mc && go build -o "$T/ucdfile" ./cmd/ucdfile && go build -o "$T/gen14" github.com/npillmayer/uax/uax14/internal/generator) &&
		mkdir -p "$T/u14/etc" && "$T/ucdfile" line_break >"$T/u14/etc/LineBreak.txt" &&
		(cd "$T/u14" && GOPATH="$T/u14" "$T/gen14" >/dev/null)
}
case "${2:-}" in
B10 | C14) # every statement is a scheduling point
	(cd mc && go build -o "$T/instr" ./cmd/instr)
	instrument() { # tags, further arguments
		tags=$1
		ov="$T/ov.$1"
		shift
		mkdir "$ov" && (cd mc && "$T/instr" "$R" "$ov" bidi bidi/trie . emoji grapheme segment uax11 uax29 "$@" &&
			go build -tags "$tags" -overlay "$ov/overlay.json" -o "$T/vx" ./cmd/vx) && BUILT=1
	}
	if [ "$2" = C14 ]; then
		linetable && instrument verifgate,lines uax14 "uax14/uax14classes.go=$T/u14/uax14classes.go" || echo "note: cannot build the line breaker, checking without it"
	fi
	[ -n "$BUILT" ] || instrument verifgate || echo "note: cannot instrument the packages, checking with less scheduling points"
	;;
L01 | C04 | C06 | C07 | C08 | C15 | C16)
	linetable && printf '{"Replace":{"%s/uax14/uax14classes.go":"%s/u14/uax14classes.go"}}' "$R" "$T" >"$T/u14/overlay.json" &&
		(cd mc && go build -tags lines -overlay "$T/u14/overlay.json" -o "$T/vx" ./cmd/vx) && BUILT=1
	if [ -z "$BUILT" ]; then
		[ "$2" != L01 ] || { echo "cannot build the line breaker"; exit 2; }
		echo "note: cannot build the line breaker, checking without it"
	fi
	;;
G01)
	for p in grapheme uax29 emoji uax14; do
		(cd mc && go build -o "$T/gen/$p" github.com/npillmayer/uax/$p/internal/generator) || { echo "cannot build the generator of $p"; exit 2; }
	done
	(cd mc && go build -o "$T/gen/bidi" github.com/npillmayer/uax/bidi/internal/gen) || { echo "cannot build the generator of bidi"; exit 2; }
	export VERIF_GEN="$T/gen"
	;;
P02)
	(cd mc && go build -o "$T/tablegen" github.com/npillmayer/uax/internal/tablegen) || { echo "cannot build the table generator"; exit 2; }
	export VERIF_TABLEGEN="$T/tablegen"
	;;
esac
[ -n "$BUILT" ] || (cd mc && go build -o "$T/vx" ./cmd/vx) || { echo "cannot build the checks"; exit 2; }
"$T/vx" "$@"
