//go:build verifgate && lines

package checks

import "github.com/npillmayer/uax/uax14"

func init() { setLineFine = func(f func()) { uax14.VerifGate = f } }
