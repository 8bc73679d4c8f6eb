// Package ucd holds properties of the Unicode character database (version 15, as shipped with
// perl 5.38; see tools/gen_ucd.pl). It serves as an oracle which is independent of the tables in /repo.
package ucd

import (
	"bufio"
	"bytes"
	"embed"
	"fmt"
	"strconv"
	"strings"
	"sync"
)

//go:embed *.txt
var files embed.FS

// Prop is a property of all the code-points.
type Prop struct {
	Names []string // Names[0] is the default
	val   []uint8
}

// Of returns the value for a code-point.
func (p *Prop) Of(r rune) string {
	if r < 0 || r > 0x10ffff {
		return ""
	}
	return p.Names[p.val[r]]
}

// Is tells if a code-point has a value.
func (p *Prop) Is(r rune, v string) bool { return p.Of(r) == v }

var cache sync.Map

// Load loads a property.
func Load(name string) *Prop {
	if p, ok := cache.Load(name); ok {
		return p.(*Prop)
	}
	b, err := files.ReadFile(name + ".txt")
	if err != nil {
		panic(err)
	}
	p := &Prop{Names: []string{""}, val: make([]uint8, 0x110000)}
	idx := map[string]int{"": 0}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		var a, z int
		var v string
		if n, _ := fmt.Sscanf(sc.Text(), "%X %X %s", &a, &z, &v); n != 3 {
			panic("ucd: " + name + ": " + sc.Text())
		}
		k, ok := idx[v]
		if !ok {
			k = len(p.Names)
			if k > 255 {
				panic("ucd: too many values for " + name)
			}
			idx[v] = k
			p.Names = append(p.Names, v)
		}
		for c := a; c <= z; c++ {
			p.val[c] = uint8(k)
		}
	}
	cache.Store(name, p)
	return p
}

var ages []float64
var ageOnce sync.Once

// Age returns the Unicode version which introduced a code-point, 99 for unassigned ones.
func Age(r rune) float64 {
	ageOnce.Do(func() {
		p := Load("age")
		ages = make([]float64, len(p.Names))
		for i, n := range p.Names {
			if f, err := strconv.ParseFloat(n, 64); err == nil {
				ages[i] = f
			} else {
				ages[i] = 99
			}
		}
	})
	return ages[Load("age").val[r]]
}

// Brackets returns pairs of brackets: opening → closing.
func Brackets() map[rune]rune {
	m := map[rune]rune{}
	typ := Load("bidi_paired_bracket_type")
	b, _ := files.ReadFile("bidi_paired_bracket.txt")
	for _, l := range strings.Split(string(b), "\n") {
		var a, z, v int
		if n, _ := fmt.Sscanf(l, "%X %X %d", &a, &z, &v); n == 3 && typ.Is(rune(a), "O") {
			if a != z {
				panic("ucd: bracket range")
			}
			m[rune(a)] = rune(v)
		}
	}
	return m
}
