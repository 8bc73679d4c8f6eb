// Command ucdfile prints a property as a file in the format of the Unicode Character Database.
package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/npillmayer/uax/verifmc/ucd"
)

func main() {
	if len(os.Args) != 2 {
		os.Exit(2)
	}
	p := ucd.Load(os.Args[1])
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for from := rune(0); from <= 0x10ffff; {
		to := from
		v := p.Of(from)
		for to < 0x10ffff && p.Of(to+1) == v {
			to++
		}
		if v != "" && from == to {
			fmt.Fprintf(w, "%04X          ; %s # x\n", from, v)
		} else if v != "" {
			fmt.Fprintf(w, "%04X..%04X    ; %s # [%d] x\n", from, to, v, to-from+1)
		}
		from = to + 1
	}
}
