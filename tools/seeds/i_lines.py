LINESH='''#!/bin/bash
# generates a class table for some characters, then runs a small program against package uax14
D="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R="$PWD"
go build -o "$T/gen" ./uax14/internal/generator || exit 2
mkdir "$T/etc"
cat >"$T/etc/LineBreak.txt" <<'EOF'
0009;BA
000A;LF
000B..000C;BK
000D;CR
0020;SP
0021;EX
0022;QU
0024;PR
0025;PO
0028;OP
0029;CP
002C;IS
002E;IS
002D;HY
002F;SY
0030..0039;NU
003A..003B;IS
0041..005A;AL
0061..007A;AL
007D;CL
0085;NL
00A0;GL
00AA;AI
00B4;BB
0300..036F;CM
05D0..05EA;HL
0E01..0E30;SA
102B..102C;SA
1100..115F;JL
1160..11A7;JV
11A8..11FF;JT
200B;ZW
200D;ZWJ
2014;B2
2024..2026;IN
2060;WJ
3005;NS
3041;CJ
4E00..9FFF;ID
AC00;H2
AC01;H3
D800..DFFF;SG
E000;XX
FFFC;CB
1F1E6..1F1FF;RI
1F3FB..1F3FF;EM
1F466;EB
EOF
(cd "$T" && GOPATH="$T" ./gen >/dev/null) || exit 2
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go","%s/uax14/uax14classes.go":"%s/uax14classes.go"}}' "$R" "$D" "$R" "$T" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 2
timeout 120 "$T/demo"
'''
LINEDEMO=lambda *tw: gomain(["fmt","os","strings",U+"/segment",U+"/uax14"],'''
func main() {
	s := segment.NewSegmenter(uax14.NewLineWrap())
	bad := false
	for _, x := range [][2]string{%s} {
		s.Init(strings.NewReader(x[0]))
		var parts []string
		for s.Next() {
			parts = append(parts, s.Text())
		}
		if got := strings.Join(parts, "|"); got != x[1] {
			fmt.Printf("%%+q: lines %%+q, expected %%+q\\n", x[0], got, x[1])
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
'''%", ".join('{"%s", "%s"}'%x for x in tw))
def lseed(id,needs,breaks,edits,*tw): seed(id,"L01",needs,breaks,edits,LINEDEMO(*tw),LINESH)
lseed("l01-sa-mc","a spacing mark (general category Mc) of class SA after a space or another base: U+102B",
 "South-East Asian spacing marks are taken for letters, lines break between a base which is not a letter and its mark",
 [("uax14/uax14.go","		if unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Mc, r) {","		if unicode.Is(unicode.Mn, r) {")],
 ("一\\u102b b","一\\u102b |b"),("! \\u102b","! |\\u102b"),("$\\u102b\\u0301%","$\\u102b\\u0301|%"))
lseed("l01-sot-reset","a second text on the same line breaker which starts with a combining mark, after a text ending with something which does not join letters",
 "the class of the last character of a text goes on influencing the next text: its first combining mark is taken as belonging to it",
 [("uax14/uax14.go","	if c == eot { // start all over again\n		c = sot\n	}\n	uax14.lastClass = c","	if c == eot { // start all over again\n		return\n	}\n	uax14.lastClass = c")],
 ("a一","a|一"),("\\u0301一","\\u0301|一"),("\\u0301a","\\u0301a"))
lseed("l01-gl-hyphen","a no-break space directly after a hyphen-minus",
 "a line is not broken between a hyphen and a no-break space, contrary to LB12a",
 [("uax14/rules.go","	if last == SPClass || last == BAClass || last == HYClass {\n		return uax.DoAccept(rec, p(12))","	if last == SPClass || last == BAClass {\n		return uax.DoAccept(rec, p(12))")],
 ("a-\\u00a0b","a-|\\u00a0b"),("a\\u00a0b","a\\u00a0b"))
lseed("l01-cb-marks","an inline object (U+FFFC) which is followed by two combining marks",
 "a line may be broken between the combining marks of an object",
 [("uax14/rules.go","	if uax14.lastClass == CBClass && uax14.substituted {\n		return uax.DoAccept(rec, -p(20), p(20))\n	}\n","	if uax14.lastClass == CBClass && uax14.substituted && uax14.shadow == ZWJClass {\n		return uax.DoAccept(rec, -p(20), p(20))\n	}\n")],
 ("a\\ufffc\\u0301\\u0302b","a|\\ufffc\\u0301\\u0302|b"))
lseed("l01-number-close","a number with a separator within parentheses, followed by a percent sign or currency",
 "a line may be broken between a number in parentheses and its unit, if the number ends with a separator",
 [("uax14/rules.go","		rec.MatchLen++\n		return step4_LB25\n	} else if c == CLClass || c == CPClass {\n		rec.MatchLen++\n		return step5_LB25","		rec.MatchLen++\n		if c != NUClass {\n			return step3_LB25\n		}\n		return step4_LB25\n	} else if c == CLClass || c == CPClass {\n		rec.MatchLen++\n		return step5_LB25")],
 ("(12.)%","(12.)%"),("(12.)%b","(12.)%b"),("(12)%","(12)%"))
lseed("l01-quote-open","an opening parenthesis after two spaces after a quotation mark",
 "LB15 forgets about the quotation mark after one space",
 [("uax14/rules.go","	if c == SPClass {\n		return finish_LB15\n	}","	if c == SPClass && rec.MatchLen < 2 {\n		rec.MatchLen++\n		return finish_LB15\n	}")],
 ("\\\" (a","\\\" (a"),("\\\"  (a","\\\"  (a"))
GENSH=lambda pkg,inp,out: '''#!/bin/bash
# runs the generator of %s and looks at what it has written
D="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/gen" ./%s || exit 2
printf '{"Replace":{"%%s/zz_demo/main.go":"%%s/main.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 2
mkdir "$T/etc"
cd "$T" && ./demo doc >"%s" && GOPATH="$T" ./gen >/dev/null 2>&1 || exit 1
timeout 120 ./demo "%s"
'''%(pkg.split("/")[0],pkg,inp,out)
# the demo parses the generated source: values of all the literals of the statement which has a certain identifier on the left
TABLEDEMO=lambda doc,ident,want: gomain(["fmt","go/ast","go/parser","go/token","os","strconv"],'''
func main() {
	if os.Args[1] == "doc" {
		fmt.Print(%s)
		return
	}
	f, err := parser.ParseFile(token.NewFileSet(), os.Args[1], nil, 0)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	got := map[rune]bool{}
	literals := func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok {
			if l.Kind == token.CHAR {
				r, _, _, _ := strconv.UnquoteChar(l.Value[1:], '\\'')
				got[r] = true
			} else if l.Kind == token.INT {
				r, _ := strconv.ParseInt(l.Value, 0, 32)
				got[rune(r)] = true
			}
		}
		return true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "%s" {
				ast.Inspect(x.Rhs[0], literals)
			}
		case *ast.ValueSpec:
			if x.Names[0].Name == "%s" && len(x.Values) > 0 {
				ast.Inspect(x.Values[0], literals)
			}
		}
		return true
	})
	for _, r := range []rune{%s} {
		if !got[r] {
			fmt.Printf("code-point %%U has got lost\\n", r)
			os.Exit(1)
		}
	}
}
'''%(doc,ident,ident,want))
seed("g01-contiguous","G01","lines of a class of the document which are not next to each other",
 "the generator for grapheme classes forgets about the code-points of a class as soon as the class appears again after another one",
 [("grapheme/internal/generator/generator.go","		list := gcls[clstr]\n		if list == nil {\n			list = arraylist.New()\n		}\n","		list := gcls[clstr]\n		if list == nil || clstr != current { // first line of a class\n			list = arraylist.New()\n			current = clstr\n		}\n"),
  ("grapheme/internal/generator/generator.go","	gcls := make(map[string]*arraylist.List, len(graphemeClassnames))\n","	gcls := make(map[string]*arraylist.List, len(graphemeClassnames))\n	current := \"\"\n")],
 TABLEDEMO('"0300;Extend\\n0903;SpacingMark\\n0304;Extend\\n"',"Extend","0x300, 0x304"),
 GENSH("grapheme/internal/generator","etc/GraphemeBreakProperty.txt","graphemeclasses.go"))
seed("g01-high-bracket","G01","a bracket beyond the Basic Multilingual Plane as the second of a pair",
 "the generator of bracket pairs writes U+0000 for closing brackets which need more than 16 bits",
 [("bidi/internal/gen/brackgen.go","	n, _ := strconv.ParseUint(inp, 16, 64)","	n, _ := strconv.ParseUint(inp, 16, 16)")],
 TABLEDEMO('"0028; 0029; o # x\\n0029; 0028; c\\n1F600; 1F601; o\\n1F601; 1F600; c\\n"',"UAX9BracketPairs","0x28, 0x29, 0x1f600, 0x1f601"),
 GENSH("bidi/internal/gen","BidiBrackets.txt","_bracketpairs.go"))
