package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/npillmayer/uax/internal/ucdparse"
	"github.com/npillmayer/uax/verifmc/mc"
)

// P03: reading of Unicode's conformance test files

type testLine struct{ raw, text, comment string }

// the text of a line is what precedes the comment, white space around it does not matter
var testLines = []testLine{
	{raw: ""}, {raw: "# comment"}, {raw: "#"}, {raw: "# ÷ 0061 ÷ # no data"},
	{"÷ 0061 ÷ 0300 ÷\t# ÷ [0.2] A ÷ [0.3]", "÷ 0061 ÷ 0300 ÷", "÷ [0.2] A ÷ [0.3]"},
	{"÷ 0061 × 0301 ÷", "÷ 0061 × 0301 ÷", ""},
	{"  0028;1 # x  ", "0028;1", "x"},
	{"a#", "a", ""},
	{"0041 \t", "0041", ""},
}

var testEnds = []string{"\n", "\r\n"}

func testFile(idx []int, end int, last bool) string {
	var sb strings.Builder
	for i, x := range idx {
		l := testLines[x]
		sb.WriteString(l.raw)
		if i < len(idx)-1 || last {
			sb.WriteString(testEnds[end])
		}
	}
	return sb.String()
}

func judgeTestFile(content string, want []testLine, fault bool) string {
	dir, err := os.MkdirTemp("", "vtest")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "Test.txt")
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		panic(err)
	}
	tf := ucdparse.OpenTestFile(name, nil)
	if tf == nil {
		return "cannot open the file"
	}
	defer tf.Close()
	n := 0
	for tf.Scan() {
		if n >= len(want) {
			return fmt.Sprintf("line %q is delivered, which is not in the file", tf.Text())
		}
		if got := strings.TrimSpace(tf.Text()); got != want[n].text {
			return fmt.Sprintf("line %d is %q, must be %q", n, got, want[n].text)
		}
		if got := strings.TrimSpace(tf.Comment()); got != want[n].comment {
			return fmt.Sprintf("comment of line %d is %q, must be %q", n, got, want[n].comment)
		}
		n++
	}
	switch {
	case n < len(want) && !fault:
		return fmt.Sprintf("%d lines are delivered, the file has %d", n, len(want))
	case fault && tf.Err() == nil:
		return "the file cannot be read completely, but there is no error"
	case !fault && tf.Err() != nil:
		return "error: " + tf.Err().Error()
	case !fault && tf.Scan():
		return "there is a line behind the end of the file"
	}
	return ""
}

// a data line with n marks
func longTestLine(n int) string {
	return strings.Repeat("÷ 0061 ", n) + "÷"
}

func testFileCase(key string) (string, error) {
	f := strings.Split(key, ":")
	num := func(i int) int {
		n, _ := strconv.Atoi(f[i])
		return n
	}
	switch {
	case f[0] == "file" && len(f) == 4:
		idx := parseInts(f[1])
		var want []testLine
		for _, x := range idx {
			if l := testLines[x]; l.text != "" {
				want = append(want, l)
			}
		}
		return judgeTestFile(testFile(idx, num(2), f[3] == "1"), want, false), nil
	case f[0] == "lines" && len(f) == 3: // n lines with a comment of k characters each
		var sb strings.Builder
		var want []testLine
		for i := range num(1) {
			l := testLine{text: fmt.Sprintf("÷ %04X ÷", i+1), comment: strings.Repeat("c", num(2))}
			fmt.Fprintf(&sb, "%s\t# %s\n", l.text, l.comment)
			want = append(want, l)
		}
		return judgeTestFile(sb.String(), want, false), nil
	case f[0] == "long" && len(f) == 2: // a long line, between others
		long := longTestLine(num(1))
		content := "÷ 0061 ÷ # a\n" + long + "\n÷ 0062 ÷ # b\n"
		want := []testLine{{text: "÷ 0061 ÷", comment: "a"}, {text: long}, {text: "÷ 0062 ÷", comment: "b"}}
		if len(long) >= 65535 { // may be refused, but not silently
			if judgeTestFile(content, want, false) == "" {
				return "", nil
			}
			return judgeTestFile(content, want[:1], true), nil
		}
		return judgeTestFile(content, want, false), nil
	case f[0] == "missing":
		old := os.Stderr // complaints are expected
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		defer func() { os.Stderr.Close(); os.Stderr = old }()
		if tf := ucdparse.OpenTestFile("/nonexistent/Test.txt", nil); tf != nil {
			return "a missing file is opened", nil
		}
		return "", nil
	case f[0] == "dir":
		dir, err := os.MkdirTemp("", "vtest")
		if err != nil {
			return "", err
		}
		defer os.RemoveAll(dir)
		tf := ucdparse.OpenTestFile(dir, nil)
		if tf == nil {
			return "", nil
		}
		defer tf.Close()
		if tf.Scan() {
			return "a line has been read from a directory", nil
		}
		if tf.Err() == nil {
			return "a directory is read without an error", nil
		}
		return "", nil
	case f[0] == "break" && len(f) == 2:
		return breakInputCase(parseInts(f[1])), nil
	case f[0] == "cp" && len(f) == 2:
		n, err := strconv.ParseInt(f[1], 16, 32)
		if err != nil {
			return "", err
		}
		r := rune(n)
		in, out := ucdparse.BreakTestInput(fmt.Sprintf("÷ 0061 × %04X ÷ %04x ÷", r, r))
		if in != "a"+string(r)+string(r) || len(out) != 2 || out[0] != "a"+string(r) || out[1] != string(r) {
			return fmt.Sprintf("input %q, segments %q", in, out), nil
		}
		return "", nil
	}
	return "", errors.New("unknown case")
}

var breakTokens = []string{"÷", "×", "0061", "0000", "1F600", "0300", "10FFFF"}
var breakRunes = []string{"", "", "a", "\x00", "\U0001F600", "\u0300", "\U0010FFFF"}

// marks and code-points alternate in the test files, but code-points may lack a mark
func breakInputCase(idx []int) string {
	line, input, run := "÷", "", ""
	var want []string
	for _, x := range idx {
		line += " " + breakTokens[x]
		input += breakRunes[x]
		run += breakRunes[x]
		if x == 0 && run != "" {
			want = append(want, run)
			run = ""
		}
	}
	if run != "" {
		want = append(want, run)
	}
	in, out := ucdparse.BreakTestInput(line)
	if in != input {
		return fmt.Sprintf("input of %q is %q", line, in)
	}
	if strings.Join(out, "|") != strings.Join(want, "|") || len(out) != len(want) {
		return fmt.Sprintf("segments of %q are %q, must be %q", line, out, want)
	}
	return ""
}

func exploreTestFiles(w *mc.Worker) {
	do := func(key string, steps int) bool {
		if !w.Mine() {
			return true
		}
		w.Steps(steps)
		w.Case(key, func() string { s, _ := testFileCase(key); return s })
		w.Sample(func() string { return key })
		return !w.Stop()
	}
	for n := 0; n <= w.Pick(4, 5); n++ {
		if !mc.Product(len(testLines), n, func(idx []int) bool {
			for end := range testEnds {
				for last := range 2 {
					if n == 0 && end+last > 0 {
						continue
					}
					if !do(fmt.Sprintf("file:%s:%d:%d", joinInts(idx), end, last), n) {
						return false
					}
					w.NonTrivial()
				}
			}
			return true
		}) {
			return
		}
	}
	for _, n := range []int{1, 100, 1000, 5000} {
		for _, k := range []int{0, 1, 50, 100, 4000} {
			if n*k < 1e7 && !do(fmt.Sprintf("lines:%d:%d", n, k), n) {
				return
			}
		}
	}
	for n := 500; n < 9000; n += w.Pick(97, 7) {
		do(fmt.Sprintf("long:%d", n), n)
	}
	do("missing", 1)
	do("dir", 1)
	for n := 0; n <= w.Pick(6, 7); n++ {
		if !mc.Product(len(breakTokens), n, func(idx []int) bool { return do("break:"+joinInts(idx), n) }) {
			return
		}
	}
	for r := rune(1); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		if !do("cp:"+strconv.FormatInt(int64(r), 16), 3) {
			return
		}
	}
}

func joinInts(idx []int) string {
	var f []string
	for _, i := range idx {
		f = append(f, strconv.Itoa(i))
	}
	return strings.Join(f, ",")
}

func init() {
	mc.Register(&mc.Check{ID: "P03", Level: "exploration",
		Rule:    "all files of up to 4 (thorough: 5) lines of 9 kinds with two kinds of line ends, long files and lines, missing files; all sequences of tokens of a line with break marks; all code-points",
		Explore: exploreTestFiles, Replay: testFileCase,
		Bound: func(tier string) string {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			return fmt.Sprintf("files of up to %d of %d lines with %d line ends; lines of %d of %d tokens; lines of up to 9000 segments; files of up to 5000 lines", n, len(testLines), len(testEnds), n+2, len(breakTokens))
		}})
}
