//go:build verifgate

package checks

import (
	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/internal/verifsync"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/sched"
)

const instrumented = true // by cmd/instr

// setLineFine sets the gates of package uax14, if it has been built.
var setLineFine = func(func()) {}

func setFine(fine bool) {
	verifsync.Gate, verifsync.Block = sched.Gate, sched.Block
	f := func() {}
	if fine {
		f = sched.Gate
	}
	bidi.VerifGate, trie.VerifGate = f, f
}

func setSegFine(fine bool) {
	verifsync.Gate, verifsync.Block = sched.Gate, sched.Block
	f := func() {}
	if fine {
		f = sched.Gate
	}
	uax.VerifGate, emoji.VerifGate, grapheme.VerifGate = f, f, f
	segment.VerifGate, uax11.VerifGate, uax29.VerifGate = f, f, f
	setLineFine(f)
}
