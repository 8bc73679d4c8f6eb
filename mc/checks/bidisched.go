package checks

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"

	"github.com/npillmayer/schuko/tracing"
	"github.com/npillmayer/uax/bidi"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/sched"
)

// --- B10: schedules and readers ------------------------------------------------------------

// gateTracer makes a scheduling point of every trace statement.
type gateTracer struct{}

func (gateTracer) Errorf(string, ...interface{})         { sched.Gate() }
func (gateTracer) Infof(string, ...interface{})          { sched.Gate() }
func (gateTracer) Debugf(string, ...interface{})         { sched.Gate() }
func (t gateTracer) P(string, interface{}) tracing.Trace { return t }
func (gateTracer) SetTraceLevel(tracing.TraceLevel)      {}
func (gateTracer) GetTraceLevel() tracing.TraceLevel     { return tracing.LevelDebug }
func (gateTracer) SetOutput(io.Writer)                   {}
func (t gateTracer) Select(string) tracing.Trace         { return t }

// gateReader delivers a text in chunks, every read is a scheduling point.
type gateReader struct {
	s     string
	chunk int
}

func (r *gateReader) Read(p []byte) (int, error) {
	sched.Gate()
	if r.s == "" {
		return 0, io.EOF
	}
	n := min(len(p), r.chunk, len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

// job is what a client does concurrently. Result is written to res.
type job struct {
	text string // operations on shared levels: "!<op>"
	dir  int
}

func jobMarkup(text string) bidi.OutOfLineBidiMarkup {
	return func(p uint64) int { // every 'm' starts an isolate, every 'e' ends one
		sched.Gate()
		if p < uint64(len(text)) {
			switch text[p] {
			case 'm':
				return bidi.MarkupRLI
			case 'e':
				return bidi.MarkupPDI
			}
		}
		return 0
	}
}

func (j job) run(shared *bidi.ResolvedLevels, n int) string {
	return mc.Guard(func() string {
		switch j.text {
		case "!reorder":
			return snapshot(shared)
		case "!split":
			p, q := shared.Split(uint64(n/2), true)
			return snapshot(p) + snapshot(q)
		case "!dirs":
			s := ""
			for i := 0; i < n; i++ {
				s += shared.DirectionAt(uint64(i)).String()[:1]
				sched.Gate()
			}
			return s
		}
		var mk bidi.OutOfLineBidiMarkup
		if strings.ContainsAny(j.text, "me") {
			mk = jobMarkup(j.text)
		}
		rl := bidi.ResolveParagraph(&gateReader{j.text, 3}, mk, bidi.DefaultDirection(bidiDir(j.dir)))
		return snapshot(rl)
	})
}

// scenario is a set of jobs done concurrently, for shared levels (of text shared), if any.
type scenario struct {
	name   string
	shared string
	jobs   []job
	quick  int // bounds for switches
	deep   int
	fine   [2]int // bounds for switches with each statement being a scheduling point
}

func one(name, text string, dir, q, d, fq, fd int) scenario {
	return scenario{name, "", []job{{text, dir}}, q, d, [2]int{fq, fd}}
}

var scenarios = []scenario{
	one("empty", "", 0, 6, 7, 3, 4),
	one("letter", "a", 0, 5, 6, 2, 3),
	one("two runs", "aא", 0, 5, 6, 2, 3),
	one("number", "א1 2", 0, 4, 5, 2, 2),
	one("brackets", "a(א)b", 1, 4, 5, 1, 2),
	one("isolate", "a\u2067אb\u2069c", 0, 3, 4, 1, 2),
	one("nested", "\u2067א(\u2066b)\u2069)\u2069", 0, 2, 3, 1, 2),
	one("brackets in isolates", "(\u2067(א\u2069)א)", 1, 2, 3, 1, 2),
	one("unmatched", "\u2069א\u2067a\u2067", 0, 3, 4, 1, 2),
	one("AL", "ا1,2 +", 0, 3, 4, 1, 2),
	one("markup", "ambאe1", 0, 2, 3, 1, 2),
	one("separator", "אa\nb(", 1, 5, 6, 2, 3),
	one("illegal", "\xffא\xc3", 0, 4, 5, 2, 2),
	{"two", "", []job{{"aא", 0}, {"1אb", 1}}, 2, 3, [2]int{1, 2}},
	{"two brackets", "", []job{{"(א)", 0}, {"[a]", 1}}, 2, 3, [2]int{1, 2}},
	{"two isolates", "", []job{{"\u2067א(a", 0}, {"\u2066(א)", 1}}, 2, 3, [2]int{1, 1}},
	{"three", "", []job{{"a", 0}, {"א", 0}, {"1", 1}}, 2, 3, [2]int{1, 2}},
	{"shared: reorder, reorder", "\u2067א(\u2066b)\u2069)\u2069", []job{{"!reorder", 0}, {"!reorder", 0}}, 4, 5, [2]int{1, 2}},
	{"shared: reorder, split", "\u2067א(\u2066b)\u2069)\u2069", []job{{"!reorder", 0}, {"!split", 0}}, 3, 4, [2]int{1, 2}},
	{"shared: split, split", "a\u2067א1\u2069", []job{{"!split", 0}, {"!split", 0}}, 3, 4, [2]int{1, 2}},
	{"shared: dirs, split", "a\u2067א1\u2069", []job{{"!dirs", 0}, {"!split", 0}}, 4, 5, [2]int{1, 2}},
	{"shared: reorder, split, dirs", "\u2067אa\u2069", []job{{"!reorder", 0}, {"!split", 0}, {"!dirs", 0}}, 3, 4, [2]int{1, 2}},
}

func (sc scenario) execute(schedule []sched.Switch, fine bool) (sched.Trace, string) {
	var shared *bidi.ResolvedLevels
	if sc.shared != "" {
		shared = bidi.ResolveParagraph(strings.NewReader(sc.shared), nil)
	}
	n := len(sc.shared)
	want := make([]string, len(sc.jobs))
	for i, j := range sc.jobs {
		want[i] = j.run(shared, n)
	}
	if sc.shared != "" {
		shared = bidi.ResolveParagraph(strings.NewReader(sc.shared), nil)
	}
	got := make([]string, len(sc.jobs))
	var clients []func()
	for i, j := range sc.jobs {
		clients = append(clients, func() { got[i] = j.run(shared, n) })
	}
	setFine(fine)
	defer setFine(false)
	tr := sched.Run(clients, schedule)
	if tr.Infeasible {
		return tr, ""
	}
	for i := range got {
		if got[i] != want[i] {
			return tr, fmt.Sprintf("%s: client %d has %s, executed alone %s", sc.name, i, got[i], want[i])
		}
	}
	if tr.Late > 0 {
		return tr, sc.name + ": internal goroutine is still running after all the calls have returned"
	}
	return tr, ""
}

func gates() {
	bidi.ResolveParagraph(strings.NewReader("a"), nil).Reorder() // one-time set-up
	tracing.SetTraceSelector(gateTracer{})
}

// --- readers ---

var errReader = errors.New("reader has failed")

// chunkReader delivers a string in given chunks. The last one may come with the final error.
type chunkReader struct {
	s      string
	chunks []int
	err    error
	with   bool // final error together with the last chunk
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.chunks) == 0 {
		return 0, r.err
	}
	n := min(r.chunks[0], len(p))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.chunks[0] -= n; r.chunks[0] == 0 {
		r.chunks = r.chunks[1:]
		if len(r.chunks) == 0 && r.with {
			return n, r.err
		}
	}
	return n, nil
}

var chunkTexts = []string{"", "a", "אa", "a(א)", "⁧א⁩a", "\xffא\xc3a", "1٠,2", "\xe2\x81", "aא\nb", "a⁧א", "é(é)", "a\u0300א1b"}

// key: text number / bits of cuts / position of an empty read / with / length of prefix (fault) or -1
func chunkCase(no int, cuts uint, empty int, with bool, fault int) string {
	text := chunkTexts[no]
	var err error = io.EOF
	if fault >= 0 {
		text, err = text[:fault], errReader
	}
	var chunks []int
	n := 0
	for i := range len(text) {
		n++
		if i == len(text)-1 || cuts>>i&1 == 1 {
			chunks = append(chunks, n)
			n = 0
		}
	}
	for d := 0; d < 2; d++ {
		var rd io.Reader = &chunkReader{s: text, chunks: append([]int{}, chunks...), err: err, with: with}
		if empty >= 0 && empty <= len(chunks) {
			c := append(append(append([]int{}, chunks[:empty]...), 0), chunks[empty:]...)
			rd = &emptyReader{chunkReader{s: text, chunks: c, err: err, with: with}}
		}
		want := snapshot(bidi.ResolveParagraph(strings.NewReader(text), nil, bidi.DefaultDirection(bidiDir(d))))
		if got := snapshot(bidi.ResolveParagraph(rd, nil, bidi.DefaultDirection(bidiDir(d)))); got != want {
			return fmt.Sprintf("text %q in chunks %v: %s, in one piece %s", text, chunks, got, want)
		}
	}
	return ""
}

// emptyReader delivers no bytes for chunks of zero length.
type emptyReader struct{ chunkReader }

func (r *emptyReader) Read(p []byte) (int, error) {
	if len(r.chunks) > 0 && r.chunks[0] == 0 {
		r.chunks = r.chunks[1:]
		return 0, nil
	}
	return r.chunkReader.Read(p)
}

func exploreSchedules(w *mc.Worker) {
	runtime.GOMAXPROCS(1)
	for no, text := range chunkTexts {
		for cuts := uint(0); cuts < 1<<max(0, len(text)-1); cuts++ {
			if !w.Mine() {
				continue
			}
			for fault := -1; fault <= len(text); fault++ {
				for empty := -1; empty <= len(text); empty++ {
					if w.Stop() {
						return
					}
					if fault >= 0 && (empty > 0 || cuts >= 1<<max(0, fault-1)) {
						continue
					}
					for with := 0; with < 2; with++ {
						key := fmt.Sprintf("c/%d/%d/%d/%d/%d", no, cuts, empty, with, fault)
						w.Case(key, func() string { return chunkCase(no, cuts, empty, with == 1, fault) })
						w.Steps(len(text))
						if cuts != 0 || fault >= 0 {
							w.NonTrivial()
						}
					}
				}
			}
		}
	}
	gates()
	for no, sc := range scenarios {
		for _, fine := range []bool{false, true} {
			bound := w.Pick(sc.quick, sc.deep)
			if fine {
				bound = sc.fine[w.Pick(0, 1)]
				if !instrumented {
					w.Add("not instrumented", 1)
					continue
				}
			}
			mine := func(subtree int) bool { return (subtree+no)%w.Of == w.Shard }
			sched.Explore(bound, mine, func(schedule []sched.Switch) (tr sched.Trace, ok bool) {
				if w.Stop() {
					return tr, false
				}
				w.Case(scheduleKey(no, schedule, fine), func() string {
					var fail string
					tr, fail = sc.execute(schedule, fine)
					return fail
				})
				w.Steps(tr.Steps)
				switch {
				case tr.Infeasible:
					w.Add("infeasible schedules", 1)
				case fine:
					w.Add("schedules of statements", 1)
					w.NonTrivial()
				default:
					w.Add("schedules", 1)
					w.NonTrivial()
				}
				w.Sample(func() string { return fmt.Sprintf("%s: schedule %v", sc.name, schedule) })
				return tr, true
			})
		}
	}
}

func scheduleKey(no int, schedule []sched.Switch, fine bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "s/%d/", no)
	if fine {
		b.WriteString("f")
	}
	b.WriteString("/")
	for i, s := range schedule {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "%d:%d", s.Pos, s.Thread)
	}
	return b.String()
}

func replaySchedule(key string) (string, error) {
	p := strings.Split(key, "/")
	var n []int
	for _, x := range p[1:] {
		k, _ := strconv.Atoi(x)
		n = append(n, k)
	}
	if p[0] == "c" && len(n) == 5 {
		return chunkCase(n[0], uint(n[1]), n[2], n[3] == 1, n[4]), nil
	}
	if p[0] != "s" || len(p) != 4 || n[0] >= len(scenarios) {
		return "", errors.New("illegal key")
	}
	var schedule []sched.Switch
	if p[3] != "" {
		for _, x := range strings.Split(p[3], ",") {
			var s sched.Switch
			if _, err := fmt.Sscanf(x, "%d:%d", &s.Pos, &s.Thread); err != nil {
				return "", err
			}
			schedule = append(schedule, s)
		}
	}
	gates()
	if p[2] == "f" && !instrumented {
		return "", errors.New("cannot replay without instrumentation")
	}
	_, fail := scenarios[n[0]].execute(schedule, p[2] == "f")
	return fail, nil
}

func init() {
	mc.Register(&mc.Check{ID: "B10", Level: "model_checking",
		Rule:        "all interleavings with a bounded number of context switches of the goroutines of one or more concurrent calls, scheduling points being every read, every call of the markup function and every trace statement, or (by instrumentation) every statement of package bidi; all ways to cut short texts into chunks, with an empty read at each position, and a fault of the reader at each position",
		Assumptions: []string{"statements are atomic", "golang.org/x/text, bufio and testing/synctest work as documented"},
		Explore:     exploreSchedules, Replay: replaySchedule,
		Bound: func(tier string) string {
			b := "context switches in addition to those from blocking: "
			for _, sc := range scenarios {
				n, f := sc.quick, sc.fine[0]
				if tier == "thorough" {
					n, f = sc.deep, sc.fine[1]
				}
				b += fmt.Sprintf("%s: %d clients, %d switches (%d with statements as scheduling points); ", sc.name, len(sc.jobs), n, f)
			}
			return b
		}})
}
