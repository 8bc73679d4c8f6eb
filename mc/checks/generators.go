package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/ucd"
)

// The generators of class tables and bracket pairs are run with all kinds of documents. The
// code they write is compiled into a copy of the package it belongs to, and asked for the classes
// of code-points.

type genKind struct {
	name    string   // package
	input   string   // name of the document
	output  string   // name of the file which is generated
	setup   string   // function to set up the tables
	lookup  string   // function to look up a class
	classes []string // class names
	ucdProp string
}

var genKinds = []genKind{
	{"grapheme", "GraphemeBreakProperty.txt", "graphemeclasses.go", "SetupGraphemeClasses", "ClassForRune",
		strings.Fields("CR LF Prepend Control Extend Regional_Indicator SpacingMark L V T LV LVT ZWJ"), "gcb"},
	{"uax29", "WordBreakProperty.txt", "uax29classes.go", "SetupUAX29Classes", "ClassForRune",
		strings.Fields("ALetter CR Double_Quote Extend ExtendNumLet Format Hebrew_Letter Katakana LF MidLetter MidNum MidNumLet Newline Numeric Regional_Indicator Single_Quote WSegSpace ZWJ"), "wb"},
	{"emoji", "emoji-data.txt", "emojiclasses.go", "SetupEmojisClasses", "EmojisClassForRune",
		strings.Fields("Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component Extended_Pictographic"), ""},
	{"uax14", "LineBreak.txt", "uax14classes.go", "SetupClasses", "ClassForRune",
		strings.Fields("AI AL B2 BA BB BK CB CJ CL CM CP CR EB EM EX GL H2 H3 HL HY ID IN IS JL JT JV LF NL NS NU OP PO PR QU RI SA SG SP SY WJ XX ZW ZWJ"), "line_break"},
	{name: "bidi", input: "BidiBrackets.txt", output: "_bracketpairs.go"},
}

// genRange is a line of a document: a range of code-points of a class (or a pair of brackets).
type genRange struct {
	from, to rune
	class    int
}

// genBlock are ranges of code-points within a block; all subsets are given to classes.
var genBlock = [][2]rune{{0, 0}, {1, 1}, {2, 3}, {4, 6}, {8, 15}, {16, 24}, {26, 35}, {40, 56}, {60, 127}, {0x10000, 0x10000}, {0x10020, 0x10021}}

// genSpecial are ranges which are unusual.
var genSpecial = [][2]rune{{0, 0}, {0, 1}, {0x7f, 0x80}, {0xff, 0x100}, {0xd7ff, 0xd7ff}, {0xd800, 0xd800}, {0xdfff, 0xdfff}, {0xd800, 0xdfff}, {0xd7f0, 0xe010},
	{0xfffd, 0xfffd}, {0xfff0, 0xffff}, {0xffff, 0x10000}, {0xfffe, 0x10001}, {0x10ffff, 0x10ffff}, {0x10fffe, 0x10ffff}, {0x1fffe, 0x20001}, {0xac00, 0xac00}, {0xac01, 0xac1b}}

// genSubsets are all the sets of up to n of k elements.
func genSubsets(k, n int) (sets []uint) {
	for s := uint(0); s < 1<<k; s++ {
		if bits.OnesCount(s) <= n {
			sets = append(sets, s)
		}
	}
	return
}

const docStyles = 6

// genStyle writes a line of a document.
func genStyle(r genRange, class string, style int) string {
	rng := fmt.Sprintf("%04X..%04X", r.from, r.to)
	if r.from == r.to {
		rng = fmt.Sprintf("%04X", r.from)
	}
	switch style {
	case 1:
		return rng + ";" + class + "\n"
	case 2:
		return rng + " ; " + class + "\r\n"
	case 3:
		return rng + "\t;\t" + class + "# Xx ; " + class + " " + rng + "\n"
	case 4: // one line per code-point
		s := ""
		for c := r.from; c <= r.to; c++ {
			s += fmt.Sprintf("%04X;%s # x\n", c, class)
		}
		return s
	}
	return fmt.Sprintf("%-14s; %s # Lo   [%d] NAME\n", rng, class, r.to-r.from+1)
}

// genDoc is a document: kind of generator, order and style of lines and what is in them.
// key: kind, family, index, style, order
type genDoc struct {
	kind, family, index, style, order int
}

func (d genDoc) key() string {
	return fmt.Sprintf("doc %d %d %d %d %d", d.kind, d.family, d.index, d.style, d.order)
}

// sizes of families: subsets of blocks, special ranges, classes missing, complete data
func genFamily(kind, family int, quick bool) int {
	n := len(genKinds[kind].classes)
	if kind == 4 {
		switch family {
		case 0:
			return len(genSubsets(len(genBrackets), 3))
		case 1:
			return len(genBrackets)
		}
		return 0
	}
	switch family {
	case 0:
		k := 3
		if !quick {
			k = 6
		}
		return (len(genSubsets(len(genBlock), k)) + n - 1) / n
	case 1:
		return max(n, len(genSpecial))
	case 2:
		return n * (n + 1) / 2 // classes without or with a single code-point
	case 3:
		return 1
	}
	return 0
}

// genPair is a numbering of pairs a ≥ b.
func genPair(i int) (a, b int) {
	for i > a {
		i -= a + 1
		a++
	}
	return a, i
}

// ranges are the lines of a document.
func (d genDoc) ranges() (list []genRange) {
	k := genKinds[d.kind]
	n := len(k.classes)
	block := func(class int, set uint) {
		base := rune(0x1000 + 0x80*class)
		for i, b := range genBlock {
			if set&(1<<i) != 0 {
				list = append(list, genRange{base + b[0], base + b[1], class})
			}
		}
	}
	switch d.family {
	case 0: // class c has subset number index*n+c
		most := 3
		if d.order >= 100 { // thorough
			most = 6
		}
		sets := genSubsets(len(genBlock), most)
		for c := range n {
			block(c, sets[(d.index*n+c)%len(sets)])
		}
	case 1: // one special range, each class has something else
		c := d.index % n
		s := genSpecial[d.index%len(genSpecial)]
		list = append(list, genRange{s[0], s[1], c})
		for c := range n {
			block(c, 1<<(uint(c+d.index)%9))
		}
	case 2: // two classes are missing
		a, i := genPair(d.index)
		for c := range n {
			if c != a && c != i {
				block(c, 1<<(uint(c)%9))
			}
		}
	case 3: // Unicode
		if k.ucdProp == "" {
			for c, name := range k.classes {
				list = append(list, ucdRanges(ucd.Load(map[string]string{"Extended_Pictographic": "extpict"}[name]+strings.ToLower(strings.TrimPrefix(name, "Extended_Pictographic"))), func(v string) bool { return v == "Y" || v == "Yes" || v == "True" }, c)...)
			}
			return
		}
		p := ucd.Load(k.ucdProp)
		for c, name := range k.classes {
			list = append(list, ucdRanges(p, func(v string) bool { return v == name }, c)...)
		}
	}
	return
}

func ucdRanges(p *ucd.Prop, is func(string) bool, class int) (list []genRange) {
	for from := rune(0); from <= 0x10ffff; from++ {
		if !is(p.Of(from)) {
			continue
		}
		to := from
		for to < 0x10ffff && is(p.Of(to+1)) {
			to++
		}
		list = append(list, genRange{from, to, class})
		from = to
	}
	return
}

// text is the document.
func (d genDoc) text() (string, []genRange) {
	k := genKinds[d.kind]
	if d.kind == 4 {
		return d.brackets()
	}
	list := d.ranges()
	switch d.order % 100 {
	case 1: // backwards
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	case 2: // by code-point
		sort.SliceStable(list, func(i, j int) bool { return list[i].from < list[j].from })
	case 3: // classes take turns
		sort.SliceStable(list, func(i, j int) bool { return list[i].from%0x80 < list[j].from%0x80 })
	}
	var b strings.Builder
	if d.style != 1 {
		b.WriteString("# Doc-1.0.txt\n#\n# @missing: 0000..10FFFF; Other ; 0041\n\n")
	}
	last := -1
	for i, r := range list {
		if d.style == 5 {
			if r.class != last {
				fmt.Fprintf(&b, "\n# ====\n\n# Class ; %s\n\n", k.classes[r.class])
			} else if i%2 == 0 {
				b.WriteString("\n")
			}
		}
		last = r.class
		b.WriteString(genStyle(r, k.classes[r.class], d.style))
	}
	s := b.String()
	if d.style == 1 || d.style == 3 {
		s = strings.TrimRight(s, "\r\n") // last line is not terminated
	} else {
		s += "\n# EOF\n"
	}
	return s, list
}

var genBrackets = [][2]rune{{'(', ')'}, {'[', ']'}, {'\'', '"'}, {'\\', '/'}, {0x2329, 0x232a}, {0x27e6, 0x27e7}, {0x298d, 0x2990}, {0xff5f, 0xff60},
	{0x1f600, 0x1f601}, {1, 2}, {0xad, 0x301}, {0xfffd, 0x10ffff}, {0xe000, 0xfeff}, {0x7f, 0x85}}

func (d genDoc) brackets() (string, []genRange) {
	var list []genRange
	switch d.family {
	case 0:
		set := genSubsets(len(genBrackets), 3)[d.index]
		for i, p := range genBrackets {
			if set&(1<<i) != 0 {
				list = append(list, genRange{p[0], p[1], 0})
			}
		}
	case 1: // all of them
		for i := range genBrackets {
			p := genBrackets[(i+d.index)%len(genBrackets)]
			list = append(list, genRange{p[0], p[1], 0})
		}
	}
	if d.order%100 == 1 {
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	var b strings.Builder
	if d.style != 1 {
		b.WriteString("# BidiBrackets-1.0.txt\n#\n# Type o, c, n ; 0041 ; o\n\n")
	}
	f, eol := "%04X; %04X; %s # NAME", "\n"
	switch d.style {
	case 1:
		f = "%04X;%04X;%s"
	case 2:
		f, eol = "%X ; %04X ; %s", "\r\n"
	case 3:
		f = "%06X\t;\t%06X\t;%s# o"
	case 4:
		f = "%04x; %04x; %s # ; o"
	}
	for _, r := range list {
		fmt.Fprintf(&b, f+eol, r.from, r.to, "o")
		fmt.Fprintf(&b, f+eol, r.to, r.from, "c")
		if d.style == 5 {
			fmt.Fprintf(&b, "\n# none\n"+f+eol, 'x', 'y', "n")
		}
	}
	s := b.String()
	if d.style == 1 || d.style == 3 {
		s = strings.TrimRight(s, "\r\n")
	} else {
		s += "\n# EOF\n"
	}
	return s, list
}

// --- running a generator ------------------------------------------------------------------

// genInput is where a generator looks for its document.
func genInput(kind int) string {
	if kind == 4 {
		return genKinds[kind].input
	}
	return "etc/" + genKinds[kind].input
}

// genRun runs a generator in a new directory. shell, if not empty, is a command line which is executed
// there, with the generator as $1.
func genRun(kind int, in, text, shell string, args ...string) (out string, ok bool, dir string, err error) {
	k := genKinds[kind]
	bin := filepath.Join(os.Getenv("VERIF_GEN"), k.name)
	if _, err = os.Stat(bin); err != nil {
		return
	}
	if dir, err = os.MkdirTemp("", "gen"); err != nil {
		return
	}
	in = filepath.Join(dir, in)
	os.Mkdir(filepath.Join(dir, "etc"), 0o755)
	if err = os.WriteFile(in, []byte(text), 0o644); err != nil {
		return
	}
	cmd := exec.Command(bin, args...)
	if shell != "" {
		cmd = exec.Command("bash", "-c", shell, "bash", bin)
	}
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, io.Discard, io.Discard
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOPATH=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "GOPATH="+dir)
	var ee *exec.ExitError
	if err = cmd.Run(); err == nil || errors.As(err, &ee) {
		ok, err = err == nil, nil
	}
	var b []byte
	if info, e := os.Lstat(filepath.Join(dir, k.output)); e == nil && info.Mode().IsRegular() {
		b, _ = os.ReadFile(filepath.Join(dir, k.output))
	}
	return string(b), ok, dir, err
}

// genModule makes a module with copies of a package, one for each generated file, compiles and runs it.
// The result are lines "<number of copy> <from> <to> <class> <tables>".
func genModule(kind int, codes []string, full bool) (lines []map[string]string, fail string) {
	k := genKinds[kind]
	dir, err := os.MkdirTemp("", "genmod")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	write := func(name, text string) {
		name = filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(name), 0o755)
		os.WriteFile(name, []byte(text), 0o644)
	}
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	mod, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "mc", "go.mod"))
	sum, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "mc", "go.sum"))
	write("go.mod", strings.Replace(strings.Replace(string(mod), "uax/verifmc", "uax/gencheck", 1), "=> /repo", "=> "+repo, 1))
	write("go.sum", string(sum))
	var src [][2]string
	shim := "package " + k.name + "\n\n"
	if kind == 4 {
		shim += "func Pairs() (list [][2]rune) {\n\tfor _, p := range UAX9BracketPairs {\n\t\tlist = append(list, [2]rune{p.o, p.c})\n\t}\n\treturn\n}\n"
	} else {
		files, _ := filepath.Glob(filepath.Join(repo, k.name, "*.go"))
		for _, f := range files {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") || base == k.output {
				continue
			}
			b, _ := os.ReadFile(f)
			src = append(src, [2]string{base, string(b)})
		}
		shim += "import (\n\t\"unicode\"\n)\n\nvar zzNames = []string{"
		for _, c := range k.classes {
			shim += strconv.Quote(c) + ", "
		}
		shim += "}\n\nfunc ZZ(r rune) string {\n\ts := " + k.lookup + "(r).String()\n\tfor i, t := range []*unicode.RangeTable{" + strings.Join(k.classes, ", ") + "} {\n" +
			"\t\tif t != nil && unicode.Is(t, r) {\n\t\t\ts += \" \" + zzNames[i]\n\t\t}\n\t}\n\treturn s\n}\n"
	}
	imports, list := "", ""
	for i, code := range codes {
		p := fmt.Sprintf("p%d", i)
		for _, s := range src {
			write(p+"/"+s[0], s[1])
		}
		write(p+"/generated.go", code)
		write(p+"/zz_shim.go", shim)
		imports += fmt.Sprintf("\t%s \"github.com/npillmayer/uax/gencheck/%s\"\n", p, p)
		if kind == 4 {
			list += p + ".Pairs, "
		} else {
			list += fmt.Sprintf("{%s.%s, %s.ZZ}, ", p, k.setup, p)
		}
	}
	main := "package main\n\nimport (\n\t\"bufio\"\n\t\"fmt\"\n\t\"os\"\n" + imports + ")\n\nfunc main() {\n\tw := bufio.NewWriter(os.Stdout)\n\tdefer w.Flush()\n"
	if kind == 4 {
		main += "\tfor i, p := range []func() [][2]rune{" + list + "} {\n\t\tfor j, x := range p() {\n\t\t\tfmt.Fprintf(w, \"%d %d %x-%x\\n\", i, j, x[0], x[1])\n\t\t}\n\t}\n}\n"
	} else {
		all := "r < 0x3000 || r >= 0x10000 && r < 0x13000 || r&0xff < 3 || r&0xff > 0xed || (r+2)&0xff < 5"
		if full {
			all = "true"
		}
		main += "\tfor i, p := range []struct{setup func(); class func(rune) string}{" + list + "} {\n\t\tp.setup()\n\t\tp.setup()\n" +
			"\t\tlast := \"\"\n\t\tfor r := rune(0); r <= 0x10ffff; r++ {\n\t\t\tif c := last; " + all + " {\n\t\t\t\tif c = p.class(r); c != last {\n\t\t\t\t\tfmt.Fprintf(w, \"%d %x %s\\n\", i, r, c)\n\t\t\t\t\tlast = c\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n"
	}
	write("main.go", main)
	cmd := exec.Command("go", "build", "-o", "prog", ".")
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, "generated code does not compile: " + firstWords(string(out))
	}
	var so, se bytes.Buffer
	cmd = exec.Command("./prog")
	cmd.Dir, cmd.Stdout, cmd.Stderr = dir, &so, &se
	if err := cmd.Run(); err != nil {
		return nil, "generated code fails: " + firstWords(se.String())
	}
	lines = make([]map[string]string, len(codes))
	for i := range lines {
		lines[i] = map[string]string{}
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if f := strings.SplitN(l, " ", 3); len(f) == 3 {
			i, _ := strconv.Atoi(f[0])
			lines[i][f[1]] = f[2]
		}
	}
	return lines, ""
}

func firstWords(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// genVisited tells if a code-point is looked up for documents other than that of Unicode.
func genVisited(r rune) bool {
	return r < 0x3000 || r >= 0x10000 && r < 0x13000 || r&0xff < 3 || r&0xff > 0xed || (r+2)&0xff < 5
}

// genCompare compares what the generated code says with a document.
func genCompare(d genDoc, list []genRange, got map[string]string) string {
	if d.kind == 4 {
		for i, r := range list {
			if want := fmt.Sprintf("%x-%x", r.from, r.to); got[strconv.Itoa(i)] != want {
				return fmt.Sprintf("pair %d is %q, document has %s", i, got[strconv.Itoa(i)], want)
			}
		}
		if len(got) != len(list) {
			return fmt.Sprintf("%d pairs of brackets, %d in the document", len(got), len(list))
		}
		return ""
	}
	k := genKinds[d.kind]
	classes := make([]uint64, 0x110000)
	for _, r := range list {
		for c := r.from; c <= r.to; c++ {
			classes[c] |= 1 << r.class
		}
	}
	blank := "?" // what is known of code-points without a class
	g := ""      // changes from time to time only
	for r := rune(0); r <= 0x10ffff; r++ {
		if s, ok := got[strconv.FormatInt(int64(r), 16)]; ok {
			g = s
		}
		if g == "" {
			return "nothing is known about code-points"
		}
		if d.family != 3 && !genVisited(r) {
			continue
		}
		bit := classes[r]
		if bit != 0 && r != 0 { // the usual case
			if c := bits.TrailingZeros64(bit); bit == 1<<c && g == k.classes[c]+"Class "+k.classes[c] {
				continue
			}
		} else if g == blank {
			continue
		}
		var cs []int
		want := ""
		for c := range k.classes {
			if bit&(1<<c) != 0 {
				cs = append(cs, c)
				want += " " + k.classes[c]
			}
		}
		f := strings.Fields(g)
		if tables := strings.Join(f[1:], " "); tables != strings.TrimSpace(want) {
			return fmt.Sprintf("code-point %04X is in the tables [%s], document has [%s]", r, tables, strings.TrimSpace(want))
		}
		if r == 0 && d.kind != 2 {
			continue // is used for the end of the text
		}
		if len(cs) > 0 {
			if w := k.classes[cs[0]] + "Class"; f[0] != w {
				return fmt.Sprintf("code-point %04X is of class %s, document has %s", r, f[0], w)
			}
			continue
		}
		for _, c := range k.classes {
			if f[0] == c+"Class" && !(d.kind == 3 && c == "XX") {
				return fmt.Sprintf("code-point %04X is of class %s, document does not have it", r, f[0])
			}
		}
		blank = g
	}
	return ""
}

// judgeGenDocs returns failures of documents of the same kind.
func judgeGenDocs(docs []genDoc) map[genDoc]string {
	res := map[genDoc]string{}
	var codes []string
	var ok []genDoc
	lists := map[genDoc][]genRange{}
	full := false
	for _, d := range docs {
		text, list := d.text()
		var args []string
		if d.kind == 4 {
			args = []string{"-pkg", "bidi"}
		} else if d.index%2 == 1 {
			args = []string{"-v"}
		}
		out, success, dir, err := genRun(d.kind, genInput(d.kind), text, "", args...)
		if dir != "" {
			os.RemoveAll(dir)
		}
		switch {
		case err != nil:
			res[d] = "cannot run the generator: " + err.Error()
		case d.kind == 4 && len(list) == 0: // has to have a pair
			if success {
				res[d] = "succeeds without any pair"
			}
		case !success:
			res[d] = "generator fails for document " + firstWords(text)
		default:
			codes, ok, lists[d] = append(codes, out), append(ok, d), list
			full = full || d.family == 3
		}
	}
	if len(ok) == 0 {
		return res
	}
	got, fail := genModule(ok[0].kind, codes, full)
	if fail != "" {
		if len(ok) == 1 {
			res[ok[0]] = fail
			return res
		}
		for _, d := range ok { // find out which one it is
			for d, f := range judgeGenDocs([]genDoc{d}) {
				res[d] = f
				return res
			}
		}
		return res
	}
	for i, d := range ok {
		if f := genCompare(d, lists[d], got[i]); f != "" {
			res[d] = f
		}
	}
	return res
}

// --- faults -----------------------------------------------------------------------------------

// genFault: kinds of faults. A generator has to fail, or to have written everything.
var genFaults = []string{
	"missing",   // there is no document
	"directory", // the document is a directory
	"long",      // a line is too long to be read (n: which one)
	"outdir",    // output is a directory
	"full",      // no space left on the device
	"limit",     // output is limited to n KB
}

func judgeGenFault(kind int, fault string, n int) string {
	k := genKinds[kind]
	d := genDoc{kind: kind, family: 0, index: 1, style: 0}
	if kind == 4 {
		d.family = 1
	}
	if fault == "limit" && kind != 4 {
		d.family = 3 // long output
	}
	text, list := d.text()
	in := genInput(kind)
	pkg := ""
	if kind == 4 {
		pkg = " -pkg bidi"
	}
	shell := ""
	switch fault {
	case "missing":
		in, shell = "other.txt", "exec $1"+pkg
	case "directory":
		in, shell = "other.txt", "mkdir -p "+in+"; exec $1"+pkg
	case "long":
		lines := strings.SplitAfter(text, "\n")
		if n > len(lines) {
			return ""
		}
		text = strings.Join(lines[:n], "") + "# " + strings.Repeat("x", 1<<16) + "\n" + strings.Join(lines[n:], "")
		shell = "exec $1" + pkg
	case "outdir":
		shell = "mkdir " + k.output + "; exec $1" + pkg
	case "full":
		shell = "ln -s /dev/full " + k.output + "; exec $1" + pkg
	case "limit":
		shell = fmt.Sprintf("ulimit -f %d; exec $1%s", n, pkg)
	}
	out, success, dir, err := genRun(kind, in, text, shell)
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	if err != nil {
		return "cannot run the generator: " + err.Error()
	}
	if !success {
		return ""
	}
	// it claims to have succeeded
	if fault == "long" || fault == "limit" {
		got, fail := genModule(kind, []string{out}, fault == "limit")
		if fail == "" {
			fail = genCompare(d, list, got[0])
		}
		if fail != "" {
			return fmt.Sprintf("generator for %s succeeds in spite of fault %q %d: %s", k.name, fault, n, fail)
		}
		return ""
	}
	return fmt.Sprintf("generator for %s succeeds in spite of fault %q", k.name, fault)
}

// --- exploration ------------------------------------------------------------------------------

func exploreGenerators(w *mc.Worker) {
	syscall.Umask(0o022)
	for kind := range genKinds {
		for _, fault := range genFaults {
			most := 1
			switch fault {
			case "long":
				most = w.Pick(20, 120)
			case "limit":
				most = w.Pick(24, 400)
				if kind == 4 {
					most = 2
				}
			}
			for n := range max(most, 1) {
				if !w.Mine() {
					continue
				}
				if w.Stop() || !w.Case(fmt.Sprintf("fault %d %s %d", kind, fault, n), func() string { return judgeGenFault(kind, fault, n) }) {
					return
				}
				w.Add("faults", 1)
				w.NonTrivial()
			}
		}
	}
	const batch = 40
	for kind := range genKinds {
		var docs []genDoc
		for family := range 4 {
			size := genFamily(kind, family, w.Quick())
			for i := range size {
				for style := range docStyles {
					for order := range 4 {
						if kind == 4 && order > 1 {
							continue
						}
						if w.Quick() && family < 3 && i != 1 && (style != i%docStyles || order != (i/docStyles+family)%4) {
							continue // in turns
						}
						if w.Quick() && family == 2 && kind == 3 {
							if a, b := genPair(i); a != b && a != b+1 && b != 0 {
								continue
							}
						}
						if family == 3 && (style == 4 || order != style%4) {
							continue
						}
						d := genDoc{kind, family, i, style, order}
						if !w.Quick() && kind != 4 {
							d.order += 100
						}
						docs = append(docs, d)
					}
				}
			}
		}
		for len(docs) > 0 {
			n := min(batch, len(docs))
			part := docs[:n]
			if docs[0].family == 3 {
				n, part = 1, docs[:1]
			} else {
				for i, d := range part {
					if d.family == 3 {
						n, part = i, docs[:i]
						break
					}
				}
			}
			docs = docs[n:]
			if !w.Mine() {
				continue
			}
			var res map[genDoc]string
			for i, d := range part {
				if w.Stop() || !w.Case(d.key(), func() string {
					if i == 0 && res == nil {
						res = judgeGenDocs(part)
					}
					return res[d]
				}) {
					return
				}
				w.NonTrivial()
				w.Sample(func() string { s, _ := d.text(); return s[:min(len(s), 200)] })
			}
			w.Add("documents", int64(len(part)))
		}
	}
}

func replayGenerators(key string) (string, error) {
	f := strings.Fields(key)
	switch {
	case len(f) == 6 && f[0] == "doc":
		var n [5]int
		for i := range n {
			n[i], _ = strconv.Atoi(f[i+1])
		}
		d := genDoc{n[0], n[1], n[2], n[3], n[4]}
		return judgeGenDocs([]genDoc{d})[d], nil
	case len(f) == 4 && f[0] == "fault":
		kind, _ := strconv.Atoi(f[1])
		n, _ := strconv.Atoi(f[3])
		return judgeGenFault(kind, f[2], n), nil
	}
	return "", errors.New("unknown case")
}

func init() {
	mc.Register(&mc.Check{
		ID: "G01", Level: "exploration",
		Rule: "generators are run for documents made of all subsets of ranges (and special ranges) for each class × order of lines × style × missing classes, and for Unicode's data; " +
			"their output is compiled into a copy of the package, which is asked for classes and tables; faults at each line of the document and at each KB of output",
		Assumptions: []string{"a document gives each code-point a single class (except for emoji), and uses class names the generator knows"},
		Explore:     exploreGenerators, Replay: replayGenerators,
		Bound: func(tier string) string {
			return "documents with up to " + map[bool]string{true: "3", false: "6"}[tier == "quick"] + " ranges per class out of 11, 18 special ranges, 6 styles, 4 orders; all pairs of missing classes; 7 kinds of faults"
		},
	})
}
