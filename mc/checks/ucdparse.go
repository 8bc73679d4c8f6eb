package checks

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/verifmc/mc"
)

// --- P01: parser for UCD files ---------------------------------------------------------------

// ucdLine is a line of a document, and the data item it holds (if fields is not nil).
type ucdLine struct {
	text     string
	from, to rune
	fields   []string
	comment  string
}

var ucdLines = []ucdLine{
	{"0041;A", 0x41, 0x41, []string{"A"}, ""},
	{"0041..005A ; Lu # a\tcomment", 0x41, 0x5a, []string{"Lu"}, "a\tcomment"},
	{"# 0042;X", 0, 0, nil, ""},
	{"", 0, 0, nil, ""},
	{"10FFFF\t; x; ;é;", 0x10ffff, 0x10ffff, []string{"x", "", "é", ""}, ""},
	{" \t", 0, 0, nil, ""},
	{"00AD..00af;;Q R;D#", 0xad, 0xaf, []string{"", "Q R", "D"}, ""},
	{"  # 0;0", 0, 0, nil, ""},
	{"0958", 0x958, 0x958, []string{""}, ""},
	{"F900..FAFF", 0xf900, 0xfaff, []string{""}, ""},
	{"0  # ; Ü", 0, 0, []string{""}, "; Ü"},
}

var ucdEnds = []string{"\n", "\r\n", "\r"}

// ucdItem is a data item delivered by the parser.
func ucdItem(t *ucdparse.Token, n int) string {
	from, to := t.Range()
	var b strings.Builder
	fmt.Fprintf(&b, "%04X..%04X", from, to)
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&b, ";%q", strings.TrimSpace(t.Field(i)))
	}
	fmt.Fprintf(&b, " #%q", t.Comment)
	return b.String()
}

func (l ucdLine) item(n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%04X..%04X", l.from, l.to)
	for i := range n {
		f := ""
		if i < len(l.fields) {
			f = l.fields[i]
		}
		fmt.Fprintf(&b, ";%q", f)
	}
	fmt.Fprintf(&b, " #%q", l.comment)
	return b.String()
}

const ucdFields = 24

var quiet struct {
	once sync.Once
	null *os.File
}

// silently calls f while the standard output is redirected to the null device, the parser prints lots of messages.
func silently(f func()) {
	quiet.once.Do(func() { quiet.null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0) })
	out := os.Stdout
	os.Stdout = quiet.null
	defer func() { os.Stdout = out }()
	f()
}

type pieceReader struct {
	text  string
	chunk int   // size of chunks
	err   error // at the end
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if r.text == "" {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := min(len(p), r.chunk, len(r.text))
	copy(p, r.text[:n])
	r.text = r.text[n:]
	return n, nil
}

var errUcd = errors.New("reader failed")

// ucdDoc is a document.
//
//	lines.ends.chunk.cut: indexes of lines and line ends, size of chunks, bytes read before a fault (or -1)
//
// Documents with less line ends than lines have a last line which is not terminated.
type ucdDoc struct {
	lines, ends []int
	chunk, cut  int
}

func (d ucdDoc) key() string {
	return fmt.Sprintf("doc %s %s %d %d", ints(d.lines), ints(d.ends), d.chunk, d.cut)
}

func ints(l []int) string {
	var b strings.Builder
	for i, n := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(n))
	}
	return b.String()
}

func parseInts(s string) (l []int) {
	for _, f := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(f); err == nil {
			l = append(l, n)
		}
	}
	return l
}

func (d ucdDoc) text() string {
	var b strings.Builder
	for i, l := range d.lines {
		b.WriteString(ucdLines[l].text)
		if i < len(d.ends) {
			b.WriteString(ucdEnds[d.ends[i]])
		}
	}
	return b.String()
}

// judge parses the document.
func (d ucdDoc) judge() string {
	text := d.text()
	var want []string
	pos, complete := 0, 0 // number of items in front of the fault
	for i, l := range d.lines {
		pos += len(ucdLines[l].text)
		end := pos
		if i < len(d.ends) {
			end += len(ucdEnds[d.ends[i]])
		}
		if ucdLines[l].fields != nil {
			want = append(want, ucdLines[l].item(ucdFields))
			if d.cut < 0 || d.cut >= end {
				complete++
			}
		}
		pos = end
	}
	rd := &pieceReader{text: text, chunk: d.chunk}
	if d.cut >= 0 {
		rd.text, rd.err = text[:d.cut], errUcd
	}
	return judgeUcd(text, rd, want, complete, len(d.lines))
}

func judgeUcd(text string, rd *pieceReader, want []string, complete, max int) string {
	faulty := rd.err != nil
	var got []string
	roots := 0
	var err error
	silently(func() {
		err = ucdparse.Parse(rd, func(t *ucdparse.Token) {
			if t.Field(1) == "" && len(t.Fields) == 0 {
				// one in front of the data; if the last line is cut, there may be one for an illegal code-point
				if roots++; roots > 1 && (!faulty || roots > 2) {
					panic("more than one token without data")
				}
				return
			}
			if len(got) > max {
				panic("parser does not terminate")
			}
			for i := len(t.Fields) + 1; i < len(t.Fields)+3; i++ {
				if t.Field(i) != "" {
					panic(fmt.Sprintf("there are %d fields, but field %d is %q", len(t.Fields), i, t.Field(i)))
				}
			}
			got = append(got, ucdItem(t, ucdFields))
		})
	})
	if !faulty {
		if err != nil {
			return fmt.Sprintf("%q: Parse fails: %v", clipText(text), err)
		}
		if !equalStrings(got, want) {
			return fmt.Sprintf("%q, read in chunks of %d bytes, has items %q, want %q", clipText(text), rd.chunk, got, want)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%q: Parse returns no error for a reader which fails", clipText(text))
	}
	if len(got) < complete || len(got) > complete+1 || !equalStrings(got[:complete], want[:complete]) {
		return fmt.Sprintf("%q, reader fails: items %q, want %q", clipText(text), got, want[:complete])
	}
	return ""
}

func clipText(s string) string {
	if len(s) > 200 {
		return s[:200] + "…"
	}
	return s
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judgeLongDoc parses n copies of a line with one kind of line ends.
func judgeLongDoc(line, end, n, chunk int) string {
	text := strings.Repeat(ucdLines[line].text+ucdEnds[end], n)
	var want []string
	if ucdLines[line].fields != nil {
		for range n {
			want = append(want, ucdLines[line].item(ucdFields))
		}
	}
	return judgeUcd(text, &pieceReader{text: text, chunk: chunk}, want, len(want), n)
}

// judgeCodePoint parses single code-points in upper or lower case, padded with zeros.
func judgeCodePoint(r rune) string {
	var text strings.Builder
	var want []string
	for _, f := range []string{"%X", "%04X", "%06x", "%x"} {
		s := fmt.Sprintf(f, r)
		fmt.Fprintf(&text, "%s;x\n0..%s;y\n", s, s)
		want = append(want, ucdLine{"", r, r, []string{"x"}, ""}.item(ucdFields), ucdLine{"", 0, r, []string{"y"}, ""}.item(ucdFields))
	}
	return judgeUcd(text.String(), &pieceReader{text: text.String(), chunk: 1 << 16}, want, len(want), 8)
}

var ucdFieldLetters = []string{"", "A", " b c ", "\té", "1E900..1E943"}

// judgeFields parses a line with fields, in front of other lines.
func judgeFields(fields []int, comment bool) string {
	l := ucdLine{text: "1E900..1E943", from: 0x1e900, to: 0x1e943}
	for _, f := range fields {
		l.text += ";" + ucdFieldLetters[f]
		l.fields = append(l.fields, strings.TrimSpace(ucdFieldLetters[f]))
	}
	if comment {
		l.text += "# c;d"
		l.comment = "c;d"
	}
	text := l.text + "\n0041;A\n" + l.text
	want := []string{l.item(ucdFields), ucdLines[0].item(ucdFields), l.item(ucdFields)}
	return judgeUcd(text, &pieceReader{text: text, chunk: 1 << 16}, want, 3, 3)
}

func exploreUcdparse(w *mc.Worker) {
	try := func(d ucdDoc) bool {
		if w.Stop() {
			return false
		}
		ok := w.Case(d.key(), func() string { return d.judge() })
		w.Steps(len(d.lines))
		return ok
	}
	// all documents of up to n lines
	n := w.Pick(3, 5)
	for l := 0; l <= n; l++ {
		if !mc.Product(len(ucdLines)*len(ucdEnds), l, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			d := ucdDoc{lines: make([]int, l), ends: make([]int, l), cut: -1}
			for i, x := range idx {
				d.lines[i], d.ends[i] = x/len(ucdEnds), x%len(ucdEnds)
			}
			w.States(1)
			if l > 1 {
				w.NonTrivial()
			}
			w.Sample(func() string { return fmt.Sprintf("%q", d.text()) })
			chunks := []int{1, 1 << 16}
			if l < n {
				chunks = []int{1, 2, 3, 5, 7, 1 << 16}
			}
			for _, d.chunk = range chunks {
				if !try(d) {
					return false
				}
				if l > 0 && idx[l-1]%len(ucdEnds) == 0 && len(ucdLines[d.lines[l-1]].text) > 0 {
					e := d // last line is not terminated
					e.ends = d.ends[:l-1]
					if !try(e) {
						return false
					}
				}
			}
			if l < n { // all positions of a fault
				for d.cut = range len(d.text()) + 1 {
					for _, d.chunk = range []int{1, 1 << 16} {
						if !try(d) {
							return false
						}
					}
				}
			}
			return true
		}) {
			return
		}
	}
	// all lines with few fields, periodic lines with many
	for l := 1; l <= 20; l++ {
		free := l
		if l > w.Pick(6, 8) {
			free = 2
		}
		fields := make([]int, l)
		if !mc.Product(len(ucdFieldLetters), free, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			for i := range fields {
				fields[i] = idx[i%free]
			}
			for _, c := range []bool{false, true} {
				if w.Stop() || !w.Case(fmt.Sprintf("fields %s %t", ints(fields), c), func() string { return judgeFields(fields, c) }) {
					return false
				}
				w.States(1)
				w.Steps(3)
				w.NonTrivial()
			}
			return true
		}) {
			return
		}
	}
	// long documents
	for line := range ucdLines {
		for end := range ucdEnds {
			for _, k := range []int{100, 4096 / (len(ucdLines[line].text) + 1), 10000} {
				for _, chunk := range []int{1, 511, 4096, 1 << 20} {
					if chunk == 1 && k == 10000 && line > 1 || !w.Mine() {
						continue
					}
					if w.Stop() || !w.Case(fmt.Sprintf("long %d,%d,%d,%d", line, end, k, chunk), func() string { return judgeLongDoc(line, end, k, chunk) }) {
						return
					}
					w.Steps(k)
				}
			}
		}
	}
	// all code-points
	step := rune(w.Pick(17, 1))
	for r := rune(0); r <= 0x10ffff; r++ {
		if r%step != 0 && r > 0x300 && r&0xff != 0 && r&0xff != 0xff || !w.Mine() {
			continue
		}
		if w.Stop() || !w.Case(fmt.Sprintf("rune %x", r), func() string { return judgeCodePoint(r) }) {
			return
		}
		w.Steps(8)
	}
}

func replayUcdparse(key string) (string, error) {
	f := strings.Split(key, " ")
	switch {
	case f[0] == "doc" && len(f) == 5:
		d := ucdDoc{lines: parseInts(f[1]), ends: parseInts(f[2])}
		d.chunk, _ = strconv.Atoi(f[3])
		d.cut, _ = strconv.Atoi(f[4])
		return d.judge(), nil
	case f[0] == "fields" && len(f) == 3:
		return judgeFields(parseInts(f[1]), f[2] == "true"), nil
	case f[0] == "long" && len(f) == 2:
		if n := parseInts(f[1]); len(n) == 4 {
			return judgeLongDoc(n[0], n[1], n[2], n[3]), nil
		}
	case f[0] == "rune" && len(f) == 2:
		r, err := strconv.ParseInt(f[1], 16, 32)
		return judgeCodePoint(rune(r)), err
	}
	return "", errors.New("unknown case")
}

// --- P02: generator for range tables ---------------------------------------------------------

// parseTables gets the range tables of generated source code, by variable.
func parseTables(src []byte) (pkg string, tables map[string]*unicode.RangeTable, alias map[string]string, err error) {
	file, err := parser.ParseFile(token.NewFileSet(), "tables.go", src, 0)
	if err != nil {
		return "", nil, nil, err
	}
	tables, alias = map[string]*unicode.RangeTable{}, map[string]string{}
	for _, decl := range file.Decls {
		g, is := decl.(*ast.GenDecl)
		if !is || g.Tok != token.VAR {
			continue
		}
		for _, spec := range g.Specs {
			v := spec.(*ast.ValueSpec)
			for i, name := range v.Names {
				if i >= len(v.Values) {
					return "", nil, nil, fmt.Errorf("variable %s has no value", name.Name)
				}
				if _, is := tables[name.Name]; is || alias[name.Name] != "" {
					return "", nil, nil, fmt.Errorf("variable %s is declared twice", name.Name)
				}
				if id, is := v.Values[i].(*ast.Ident); is {
					alias[name.Name] = id.Name
					continue
				}
				if tables[name.Name], err = parseTable(v.Values[i]); err != nil {
					return "", nil, nil, fmt.Errorf("variable %s: %w", name.Name, err)
				}
			}
		}
	}
	return file.Name.Name, tables, alias, nil
}

func parseTable(x ast.Expr) (*unicode.RangeTable, error) {
	bad := errors.New("not a range table")
	if u, is := x.(*ast.UnaryExpr); is && u.Op == token.AND {
		x = u.X
	}
	c, is := x.(*ast.CompositeLit)
	if !is {
		return nil, bad
	}
	num := func(x ast.Expr) (int64, error) {
		l, is := x.(*ast.BasicLit)
		if !is {
			return 0, bad
		}
		return strconv.ParseInt(l.Value, 0, 64)
	}
	t := &unicode.RangeTable{}
	for _, e := range c.Elts {
		kv, is := e.(*ast.KeyValueExpr)
		if !is {
			return nil, bad
		}
		field := kv.Key.(*ast.Ident).Name
		if field == "LatinOffset" {
			n, err := num(kv.Value)
			if err != nil {
				return nil, err
			}
			t.LatinOffset = int(n)
			continue
		}
		list, is := kv.Value.(*ast.CompositeLit)
		if !is || field != "R16" && field != "R32" {
			return nil, bad
		}
		for _, e := range list.Elts {
			r, is := e.(*ast.CompositeLit)
			if !is || len(r.Elts) != 3 {
				return nil, bad
			}
			var v [3]int64
			for i := range v {
				x := r.Elts[i]
				if kv, is := x.(*ast.KeyValueExpr); is {
					x = kv.Value
				}
				var err error
				if v[i], err = num(x); err != nil {
					return nil, err
				}
			}
			if field == "R16" {
				if v[0] > 0xffff || v[1] > 0xffff {
					return nil, fmt.Errorf("%#x–%#x in R16 does not compile", v[0], v[1])
				}
				t.R16 = append(t.R16, unicode.Range16{Lo: uint16(v[0]), Hi: uint16(v[1]), Stride: uint16(v[2])})
			} else {
				t.R32 = append(t.R32, unicode.Range32{Lo: uint32(v[0]), Hi: uint32(v[1]), Stride: uint32(v[2])})
			}
		}
	}
	return t, nil
}

// bounds of elementary ranges, sets are made of
var tableBounds = []rune{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0xffff, 0x10000, 0x10001, 0x10ffff, 0x110000}

// judgeTable compares a table with the set of code-points.
func judgeTable(t *unicode.RangeTable, set func(r rune) bool) string {
	if e := checkTable(t); e != "" {
		return "table " + e
	}
	for _, b := range tableBounds {
		for r := b - 1; r <= b+1; r++ {
			if r < 0 || r > 0x10ffff {
				continue
			}
			if unicode.Is(t, r) != set(r) {
				return fmt.Sprintf("unicode.Is(table, %U) = %t", r, unicode.Is(t, r))
			}
		}
	}
	return ""
}

// judgeCollector collects ranges: 0: not in the set, 1: appended separately, 2: part of the range before.
func judgeCollector(mode []int) string {
	rt := &ucdparse.RangeTableCollector{Cat: "X_Y"}
	desc := ""
	add := func(l, r rune) {
		rt.Append(l, r)
		desc += fmt.Sprintf(" %X–%X", l, r)
	}
	l, r := rune(-1), rune(-1)
	for i, m := range mode {
		switch m {
		case 2:
			r = tableBounds[i+1] - 1
		case 0, 1:
			if l >= 0 {
				add(l, r)
			}
			l = -1
			if m == 1 {
				l, r = tableBounds[i], tableBounds[i+1]-1
			}
		}
	}
	if l >= 0 {
		add(l, r)
	}
	set := func(r rune) bool {
		for i, m := range mode {
			if m > 0 && tableBounds[i] <= r && r < tableBounds[i+1] {
				return true
			}
		}
		return false
	}
	for range 2 { // the second output is that of a collector in use
		var buf bytes.Buffer
		buf.WriteString("package p\n\nimport \"unicode\"\n\n")
		rt.Output(&buf)
		_, tables, _, err := parseTables(buf.Bytes())
		if err != nil {
			return fmt.Sprintf("ranges%s: %v in\n%s", desc, err, buf.String())
		}
		if len(tables) != 1 || tables["_X_Y"] == nil {
			return fmt.Sprintf("ranges%s: no variable _X_Y in\n%s", desc, buf.String())
		}
		if e := judgeTable(tables["_X_Y"], set); e != "" {
			return fmt.Sprintf("ranges%s: %s in\n%s", desc, e, buf.String())
		}
	}
	return ""
}

// lines of documents for the generator
var genLines = []string{
	"0000;Aa;Bb;x;Cc# first", "0001..007F;Bb;Aa;;Cc", "0080..00FF;Aa;Bb;x;", "# 0100;Aa;Aa;x;Aa", "0100;Cc;Aa;;Bb",
	"0101..FFFF;Aa;Cc;;Aa", "10000;Aa;Aa;;Aa", "10001..10FFFF;Bb;Bb;x;x# last", "",
}

// blank space around fields
var genStyles = [][2]string{{"", ""}, {" ", ""}, {"\t", " "}, {"  ", "\t"}}

const (
	genFault = 1 << 10 // status 404
	genCut   = 1 << 11 // connection is closed early
)

// judgeTablegen runs the generator for lines selected by a bit set.
func judgeTablegen(bits, field, style int, prefix string) string {
	bin := os.Getenv("VERIF_TABLEGEN")
	if bin == "" {
		return "generator cannot be built"
	}
	var text strings.Builder
	want := map[string][][2]rune{}
	for i, l := range genLines {
		if bits&(1<<i) == 0 {
			continue
		}
		data, comment, commented := strings.Cut(l, "#")
		f := strings.Split(data, ";")
		if len(f) != 5 {
			text.WriteString(l + "\n")
			continue
		}
		text.WriteString(strings.Join(f, genStyles[style][1]+";"+genStyles[style][0]))
		if commented {
			text.WriteString(genStyles[style][1] + "#" + comment)
		}
		text.WriteString("\n")
		lo, hi, isRange := strings.Cut(strings.TrimSpace(f[0]), "..")
		if !isRange {
			hi = lo
		}
		a, _ := strconv.ParseInt(lo, 16, 32)
		z, _ := strconv.ParseInt(hi, 16, 32)
		cat := strings.TrimSpace(f[field-1])
		if cat == "" {
			continue
		}
		if prefix != "" {
			cat = prefix + "_" + cat
		}
		want[cat] = append(want[cat], [2]rune{rune(a), rune(z)})
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, _ *http.Request) {
		if bits&genFault != 0 {
			rw.WriteHeader(http.StatusNotFound)
		}
		if bits&genCut != 0 {
			rw.Header().Set("Content-Length", strconv.Itoa(text.Len()+10))
		}
		io.WriteString(rw, text.String())
	})}
	go srv.Serve(l)
	defer srv.Close()
	dir, err := os.MkdirTemp("", "tablegen")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.go")
	args := []string{"-p", "pkg", "-f", strconv.Itoa(field), "-o", out, "-u", "http://" + l.Addr().String() + "/Test.txt"}
	if prefix != "" {
		args = append(args, "-x", prefix)
	}
	cmd := exec.Command(bin, args...)
	var msg strings.Builder
	cmd.Stderr = &msg
	err = cmd.Run()
	src, rerr := os.ReadFile(out)
	what := fmt.Sprintf("tablegen %s of %q: ", strings.Join(args[:4], " "), text.String())
	if bits&(genFault|genCut) != 0 {
		if err == nil || rerr == nil {
			return what + "succeeds, but the file cannot be read completely"
		}
		return ""
	}
	if err != nil || rerr != nil {
		return what + fmt.Sprint(err, rerr, clipText(msg.String()))
	}
	pkg, tables, alias, err := parseTables(src)
	if err != nil {
		return what + err.Error()
	}
	if pkg != "pkg" {
		return what + "package " + pkg
	}
	for v, t := range alias {
		if _, is := want[v]; !is || tables[t] == nil {
			return what + "unexpected variable " + v
		}
	}
	for v := range tables {
		if want[v] == nil && want[strings.TrimPrefix(v, "_")] == nil {
			return what + "unexpected table " + v
		}
	}
	for cat, rs := range want {
		t := tables[cat]
		if alias[cat] != "" {
			t = tables[alias[cat]]
		}
		if t == nil {
			return what + "no variable " + cat
		}
		if e := judgeTable(t, func(r rune) bool { return inRanges(rs, r) }); e != "" {
			return what + cat + ": " + e
		}
	}
	return ""
}

func exploreTablegen(w *mc.Worker) {
	n := len(tableBounds) - 1
	if !mc.Product(3, n, func(mode []int) bool {
		for i, m := range mode {
			if m == 2 && (i == 0 || mode[i-1] == 0) {
				return true
			}
		}
		if !w.Mine() {
			return true
		}
		if w.Stop() || !w.Case("ranges "+ints(mode), func() string { return judgeCollector(mode) }) {
			return false
		}
		w.States(1)
		w.Steps(n)
		w.NonTrivial()
		return true
	}) {
		return
	}
	step := w.Pick(3, 1)
	for bits := 0; bits < 1<<len(genLines); bits++ {
		for _, f := range []int{0, genFault, genCut} {
			for _, field := range []int{2, 3, 5} {
				for p, prefix := range []string{"", "PRE"} {
					for style := range genStyles {
						if !w.Mine() || (bits+field+p+style)%step != 0 || f != 0 && bits%16 != 5 {
							continue
						}
						k := bits | f
						if w.Stop() || !w.Case(fmt.Sprintf("tablegen %d %d %d %s", k, field, style, prefix), func() string { return judgeTablegen(k, field, style, prefix) }) {
							return
						}
						w.States(1)
						w.Steps(len(genLines))
						w.Add("runs_of_tablegen", 1)
					}
				}
			}
		}
	}
}

func replayTablegen(key string) (string, error) {
	f := strings.Split(key, " ")
	switch {
	case f[0] == "ranges" && len(f) == 2:
		return judgeCollector(parseInts(f[1])), nil
	case f[0] == "tablegen" && len(f) == 5:
		bits, _ := strconv.Atoi(f[1])
		field, _ := strconv.Atoi(f[2])
		style, _ := strconv.Atoi(f[3])
		return judgeTablegen(bits, field, style, f[4]), nil
	}
	return "", errors.New("unknown case")
}

func init() {
	mc.Register(&mc.Check{ID: "P01", Level: "fault_enumeration",
		Rule:    "all documents of up to 3 (thorough: 5) lines of 11 kinds with 3 kinds of line ends, read in chunks; readers fail at every position; long documents; code-points",
		Explore: exploreUcdparse, Replay: replayUcdparse,
		Bound: func(tier string) string {
			n := 3
			if tier == "thorough" {
				n = 5
			}
			return fmt.Sprintf("documents of up to %d of %d lines with %d ends; all faults of documents with a line less", n, len(ucdLines), len(ucdEnds))
		}})
	mc.Register(&mc.Check{ID: "P02", Level: "exploration",
		Rule:        "all sets made of elementary ranges around sizes which matter (Latin-1, 16 bit), appended to a collector separately or joined; runs of the generator for subsets of lines",
		Assumptions: []string{"a category's ranges are ascending in the UCD file", "the loopback network works"},
		Explore:     exploreTablegen, Replay: replayTablegen,
		Bound: func(string) string {
			return fmt.Sprintf("sets made of %d elementary ranges; documents made of %d lines", len(tableBounds)-1, len(genLines))
		}})
}
