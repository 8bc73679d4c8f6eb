// instr makes scheduling points of all the statements of some packages. It writes a build overlay,
// the sources are left as they are:
//
//	instr <root of module uax> <output folder> <package>... [<package>/<name>.go=<file>]...
//
// Every statement gets preceded by a call of VerifGate(), a function variable of the package.
// Package sync is replaced by a package doing the same, but without blocking goroutines in a way
// a scheduler does not know of. Test files are left out. Files given are added to packages.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
)

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	usesSync := false
	var pkgs []string
	extra := map[string]string{}
	for _, arg := range os.Args[3:] {
		if to, file, ok := strings.Cut(arg, "="); ok {
			extra[filepath.Join(root, to)] = file
		} else {
			pkgs = append(pkgs, arg)
		}
	}
	for _, pkg := range pkgs {
		dir := filepath.Join(root, pkg)
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil || len(files) == 0 {
			fatal(fmt.Errorf("no files in %s", dir))
		}
		for f := range extra {
			if filepath.Dir(f) == dir && !slices.Contains(files, f) {
				files = append(files, f)
			}
		}
		name := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			from := f
			if extra[f] != "" {
				from = extra[f]
			}
			src, err := os.ReadFile(from)
			if err != nil {
				fatal(err)
			}
			fset := token.NewFileSet()
			a, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			if ignored(a) || a.Name.Name == "main" {
				continue
			}
			name = a.Name.Name
			ins := map[int]string{}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			list := func(l []ast.Stmt) {
				for _, s := range l {
					ins[off(s.Pos())] = "VerifGate();"
				}
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				case *ast.SwitchStmt: // its block has no statements but clauses
					for _, c := range x.Body.List {
						ast.Inspect(c, func(ast.Node) bool { return false })
					}
				}
				return true
			})
			ast.Inspect(a, func(n ast.Node) bool { // no statements before clauses
				var b *ast.BlockStmt
				switch x := n.(type) {
				case *ast.SwitchStmt:
					b = x.Body
				case *ast.TypeSwitchStmt:
					b = x.Body
				case *ast.SelectStmt:
					b = x.Body
				}
				if b != nil {
					for _, c := range b.List {
						delete(ins, off(c.Pos()))
					}
				}
				return true
			})
			for _, i := range a.Imports {
				if p, _ := strconv.Unquote(i.Path.Value); p == "sync" && i.Name == nil {
					ins[off(i.Pos())] = "sync \"github.com/npillmayer/uax/internal/verifsync\"//"
					usesSync = true
				}
			}
			var pos []int
			for p := range ins {
				pos = append(pos, p)
			}
			sort.Ints(pos)
			var b strings.Builder
			last := 0
			for _, p := range pos {
				b.Write(src[last:p])
				b.WriteString(ins[p])
				last = p
			}
			b.Write(src[last:])
			to := filepath.Join(out, prefix(pkg)+"_"+filepath.Base(f))
			if err := os.WriteFile(to, []byte(b.String()), 0666); err != nil {
				fatal(err)
			}
			replace[f] = to
		}
		to := filepath.Join(out, prefix(pkg)+"_zz_verifgate.go")
		os.WriteFile(to, []byte("package "+name+"\n\n// VerifGate is called before every statement.\nvar VerifGate = func() {}\n"), 0666)
		replace[filepath.Join(dir, "zz_verifgate.go")] = to
	}
	_ = usesSync
	to := filepath.Join(out, "verifsync.go")
	os.WriteFile(to, []byte(verifsync), 0666)
	replace[filepath.Join(root, "internal/verifsync/verifsync.go")] = to
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0666); err != nil {
		fatal(err)
	}
}

func prefix(pkg string) string {
	return "p" + strings.NewReplacer("/", "_", ".", "").Replace(pkg)
}

func ignored(a *ast.File) bool {
	for _, g := range a.Comments {
		if g.Pos() > a.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				return true
			}
		}
	}
	return false
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

const verifsync = `// Package verifsync replaces package sync.
package verifsync

import (
	"runtime"
	"sync"
)

// Block is called if a lock cannot be taken.
var Block = func() { runtime.Gosched() }

// Gate is called before a lock is taken.
var Gate = func() {}

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	Gate()
	for !m.m.TryLock() {
		Block()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	Gate()
	for !m.m.TryLock() {
		Block()
	}
}
func (m *RWMutex) RLock() {
	Gate()
	for !m.m.TryRLock() {
		Block()
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return m.m.RLocker() }

var (
	mu     sync.Mutex
	onces  []*Once
)

// Reset makes all the functions which have been executed once be executed again.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	for _, o := range onces {
		o.m.Lock()
		o.done = false
		o.m.Unlock()
	}
	onces = nil
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	mu.Lock()
	onces = append(onces, o)
	mu.Unlock()
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}
`
