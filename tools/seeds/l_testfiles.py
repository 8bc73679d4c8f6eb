TESTFILE=lambda content,want: gomain(["fmt","os","path/filepath","strings",U+"/internal/ucdparse"],'''
func main() {
	dir, err := os.MkdirTemp("", "tf")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "T.txt")
	content := %s
	if err := os.WriteFile(name, []byte(content), 0o600); err != nil {
		panic(err)
	}
	_ = strings.Repeat
	got := ""
	tf := ucdparse.OpenTestFile(name, nil)
	for tf.Scan() {
		got += fmt.Sprintf("%%.20s|%%s\\n", strings.TrimSpace(tf.Text()), strings.TrimSpace(tf.Comment()))
	}
	if tf.Err() != nil {
		got += "error\\n"
	}
	tf.Close()
	if want := %s; got != want {
		fmt.Printf("got %%q, must be %%q\\n", got, want)
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
'''%(content,want))
BREAKIN=lambda line,inp,out: gomain(["fmt","os",U+"/internal/ucdparse"],'''
func main() {
	in, out := ucdparse.BreakTestInput(%s)
	if got := fmt.Sprintf("%%q", out); in != %s || got != %s {
		fmt.Printf("input %%q, segments %%s\\n", in, got)
		os.Exit(1)
	}
}
'''%(line,inp,out))
seed("p03-silent-long","P03","a line of 64 KiB or more",
 "reading a test file stops at an overlong line without an error",
 [("internal/ucdparse/testfiles.go",'''	return tf.scanner.Err()''','''	if err := tf.scanner.Err(); err != bufio.ErrTooLong {
		return err
	}
	return nil''')],
 TESTFILE('"0061 # a\\n" + strings.Repeat("0061 ", 20000) + "\\n0062 # b\\n"','"0061|a\\nerror\\n"'))
seed("p03-plane16","P03","a code-point of plane 16 in a test line",
 "the code-point is replaced by another one",
 [("internal/ucdparse/testfiles.go","strconv.ParseUint(token, 16, 64)","strconv.ParseUint(token, 16, 20)")],
 BREAKIN('"÷ 0061 × 10FFFD ÷ 0062 ÷"','"a\\U0010FFFD" + "b"','fmt.Sprintf("%q", []string{"a\\U0010FFFD", "b"})'))
seed("p03-crlf","P03","a file with CR LF as line ends, with empty lines",
 "CR is part of the text of a line without a comment",
 [("internal/ucdparse/testfiles.go",'''			text = strings.TrimSpace(text)
			parts := strings.Split(text, "#")''','''			text = strings.Trim(text, " \\t")
			parts := strings.SplitN(text, "#", 3)'''),
  ("internal/ucdparse/testfiles.go",'''	tf.scanner = bufio.NewScanner(f)''','''	tf.scanner = bufio.NewScanner(f)
	tf.scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
		if i := bytes.IndexByte(data, '\\n'); i >= 0 {
			return i + 1, data[:i], nil
		}
		if atEOF && len(data) > 0 {
			return len(data), data, nil
		}
		return 0, nil, nil
	})''')],
 TESTFILE('"0061 # a\\r\\n\\r\\n0062 # b\\r\\n"','"0061|a\\n0062|b\\n"'))
