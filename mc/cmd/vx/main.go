// Command vx runs the checks.
package main

import (
	"github.com/npillmayer/uax/verifmc/checks"
	"github.com/npillmayer/uax/verifmc/mc"
)

func main() {
	checks.Fresh()
	mc.Main()
}
