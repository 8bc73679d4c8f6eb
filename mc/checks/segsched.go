package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"slices"
	"strconv"
	"strings"

	"github.com/npillmayer/schuko/tracing"
	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/uax11"
	"github.com/npillmayer/uax/uax29"
	"github.com/npillmayer/uax/verifmc/mc"
	"github.com/npillmayer/uax/verifmc/sched"
)

// --- C14: concurrent segmenting --------------------------------------------------------------

// runeGates delivers runes, every read is a scheduling point.
type runeGates struct{ oneByOne }

func (r *runeGates) ReadRune() (rune, int, error) {
	sched.Gate()
	return r.oneByOne.ReadRune()
}

// segJob is what a client does concurrently.
//
//	word, grapheme, simple, …   segment text, delivered by a reader
//	slice word, …               segment text, given as a slice of runes
//	bound word, …               segment text with BoundedNext
//	string, width, ea           grapheme string of text, and its width in a Latin/East Asian context
//	classes                     call set-up functions, then ask for classes of the characters
//	!string, !width             operations on a grapheme string shared by all the clients
type segJob struct{ kind, text string }

func (j segJob) run(shared grapheme.String) string {
	return mc.Guard(func() string {
		var b strings.Builder
		str := func(s grapheme.String) {
			for i := range s.Len() {
				fmt.Fprintf(&b, "%q ", s.Nth(i))
				sched.Gate()
			}
			b.WriteString(s.String())
		}
		kind, br, ok := strings.Cut(j.kind, " ")
		if !ok {
			br = kind
		}
		switch kind {
		case "string":
			str(grapheme.StringFromString(j.text))
		case "!string":
			str(shared)
		case "width":
			fmt.Fprint(&b, uax11.StringWidth(grapheme.StringFromString(j.text), uax11.LatinContext))
			for _, r := range j.text {
				fmt.Fprint(&b, uax11.Width([]byte(string(r)), uax11.LatinContext))
			}
		case "ea":
			fmt.Fprint(&b, uax11.StringWidth(grapheme.StringFromString(j.text), uax11.EastAsianContext))
			for _, r := range j.text {
				fmt.Fprint(&b, uax11.Width([]byte(string(r)), uax11.EastAsianContext))
			}
		case "!width":
			fmt.Fprint(&b, uax11.StringWidth(shared, uax11.LatinContext), uax11.StringWidth(shared, nil))
		case "classes":
			grapheme.SetupGraphemeClasses()
			uax29.SetupUAX29Classes()
			emoji.SetupEmojisClasses()
			for _, r := range j.text {
				fmt.Fprint(&b, grapheme.ClassForRune(r), uax29.ClassForRune(r), emoji.EmojisClassForRune(r), " ")
			}
		case "emoji":
			emoji.SetupEmojisClasses()
			for _, r := range j.text {
				fmt.Fprint(&b, emoji.EmojisClassForRune(r), " ")
			}
		default:
			s := segment.NewSegmenter(breakersFor(br)...)
			if kind == "slice" {
				s.InitFromSlice([]rune(j.text))
			} else {
				s.Init(&runeGates{oneByOne{rs: []rune(j.text)}})
			}
			for i := 0; i <= len(j.text)+1; i++ {
				more := false
				if kind == "bound" {
					more = s.BoundedNext(2 + i)
				} else {
					more = s.Next()
				}
				if !more {
					fmt.Fprint(&b, s.Err())
					break
				}
				g, fail := observe(s)
				fmt.Fprint(&b, g, fail, " ")
				sched.Gate()
			}
		}
		return b.String()
	})
}

type segScenario struct {
	name   string
	shared string
	jobs   []segJob
	bound  [2]int // of switches: quick, thorough
	fine   [2]int // with each statement being a scheduling point
	first  bool   // execute in new processes, i.e. nothing has been set up
}

func pair(a, ta, b, tb string, bounds ...int) segScenario {
	sc := segScenario{name: fmt.Sprintf("%s %+q ∥ %s %+q", a, ta, b, tb), jobs: []segJob{{a, ta}, {b, tb}}, bound: [2]int{2, 3}, fine: [2]int{1, 1}}
	copy(sc.fine[:], bounds)
	return sc
}

func firstUse(jobs ...segJob) segScenario {
	sc := segScenario{name: "first use", jobs: jobs, bound: [2]int{1, 2}, fine: [2]int{1, 1}, first: true}
	for _, j := range jobs {
		sc.name += fmt.Sprintf(", %s %+q", j.kind, j.text)
	}
	return sc
}

// all the pairs of these are executed
var pairedJobs = []segJob{
	{"word", "a'b"}, {"word", "1,2"}, {"word", "🇦🇧🇨"}, {"word", "a\u0301b"}, {"word", "\r\n a"}, {"word", "א\"א"},
	{"grapheme", "e\u0301a"}, {"grapheme", "\r\na"}, {"grapheme", "🇦🇧🇨"}, {"grapheme", "👩\u200d👩"}, {"grapheme", "각\u11a8"}, {"grapheme", "\u0600a"},
	{"simple", "a  b"}, {"string", "a世"}, {"width", "a世é"}, {"ea", "世aé"}, {"classes", "a1😀"},
	{"bound word", "a'b"}, {"slice grapheme", "🇦🇧🇨"}, {"word+grapheme", "1e\u0301"},
}

func init() {
	for i, a := range pairedJobs {
		for _, b := range pairedJobs[i:] {
			segScenarios = append(segScenarios, pair(a.kind, a.text, b.kind, b.text))
		}
	}
	segScenarios = append(segScenarios, lineScenarios...)
}

// with line breakers, which cannot be built without a class table
var lineScenarios = []segScenario{
	pair("line", "a-b", "line", "1,2"),
	pair("line", "a\u0301 b", "line", "🇦🇧🇨"),
	pair("line", "\r\na", "line", "(1)"),
	pair("line", "🇦🇧🇨", "line", "🇦🇧"),
	pair("line", "각\u11a8", "line", "\"a\""),
	pair("line", "a b", "word", "a'b"),
	pair("line+word", "🇦🇧", "grapheme", "e\u0301"),
	pair("bound line", "א-a", "slice line", "a\u200da"),
	firstUse(segJob{"line", "a-b"}, segJob{"line", "1 "}),
}

func (sc segScenario) feasible() bool {
	for _, j := range sc.jobs {
		if strings.Contains(j.kind, "line") && newLineBreaker == nil {
			return false
		}
	}
	return true
}

var segScenarios = []segScenario{
	pair("word", "a", "word", "1", 2, 2),
	pair("word", "a b", "slice word", "a\n1"),
	pair("word", "🇦🇧🇨", "word", "🇦b🇨"),
	pair("grapheme", "a", "grapheme", "\u0301", 2, 2),
	pair("slice grapheme", "각", "grapheme", "\u0600a"),
	pair("simple", "a b", "simple", "  a", 2, 2),
	pair("simple+word", "a b", "word+grapheme", "1 e\u0301"),
	pair("bound word", "a'b c", "bound grapheme", "e\u0301a"),
	pair("string", "e\u0301a", "string", "🇦🇧"),
	pair("string", "a世", "word", "世 b"),
	pair("width", "世", "ea", "é", 1, 2),
	pair("classes", "a1", "word", "a1"),
	{"shared string", "e\u0301世👩\u200d👩", []segJob{{"!string", ""}, {"!width", ""}}, [2]int{3, 4}, [2]int{1, 2}, false},
	{"shared string, both read", "e\u0301a", []segJob{{"!string", ""}, {"!string", ""}}, [2]int{3, 4}, [2]int{1, 2}, false},
	{"three", "", []segJob{{"word", "a"}, {"grapheme", "e\u0301"}, {"simple", "a b"}}, [2]int{2, 3}, [2]int{1, 1}, false},
	{"three of a kind", "", []segJob{{"word", "a"}, {"word", "1"}, {"word", "\n"}}, [2]int{2, 3}, [2]int{1, 1}, false},
	firstUse(segJob{"classes", "a1😀"}, segJob{"classes", "e\u0301😀"}),
	firstUse(segJob{"grapheme", "e\u0301😀"}, segJob{"grapheme", "👩\u200d👩"}),
	firstUse(segJob{"word", "a'b😀"}, segJob{"word", "a1"}),
	firstUse(segJob{"string", "e\u0301"}, segJob{"width", "a😀"}),
	firstUse(segJob{"emoji", "a😀"}, segJob{"width", "😀世"}),
	firstUse(segJob{"emoji", "a😀"}, segJob{"grapheme", "👩\u200d👩"}),
	firstUse(segJob{"word", "a"}, segJob{"string", "e\u0301"}),
}

var aloneOf = map[string][]string{} // results of jobs executed alone

func (sc segScenario) want() []string {
	var shared grapheme.String
	if sc.shared != "" {
		shared = grapheme.StringFromString(sc.shared)
	}
	want := make([]string, len(sc.jobs))
	for i, j := range sc.jobs {
		want[i] = j.run(shared)
	}
	return want
}

func (sc segScenario) execute(schedule []sched.Switch, fine bool) (sched.Trace, []string) {
	var shared grapheme.String
	if sc.shared != "" {
		shared = grapheme.StringFromString(sc.shared)
	}
	got := make([]string, len(sc.jobs))
	var clients []func()
	for i, j := range sc.jobs {
		clients = append(clients, func() { got[i] = j.run(shared) })
	}
	setSegFine(fine)
	defer setSegFine(false)
	tr := sched.Run(clients, schedule)
	return tr, got
}

func (sc segScenario) judge(tr sched.Trace, got []string) string {
	if tr.Infeasible {
		return ""
	}
	if aloneOf[sc.name] == nil {
		aloneOf[sc.name] = sc.want()
	}
	for i, want := range aloneOf[sc.name] {
		if got[i] != want {
			return fmt.Sprintf("%s: client %d has %s, executed alone %s", sc.name, i, got[i], want)
		}
	}
	return ""
}

// --- executions in new processes ---

type freshExec struct {
	Trace sched.Trace
	Got   []string
	Panic string
}

// Fresh executes a schedule, if this process has been started to do so.
func Fresh() {
	key := os.Getenv("VERIF_FRESH")
	if key == "" {
		return
	}
	runtime.GOMAXPROCS(1)
	tracing.SetTraceSelector(gateTracer{})
	no, schedule, fine, err := parseScheduleKey(key)
	if err != nil || no >= len(segScenarios) {
		os.Exit(2)
	}
	var x freshExec
	x.Panic = mc.Guard(func() string {
		x.Trace, x.Got = segScenarios[no].execute(schedule, fine)
		return ""
	})
	b, _ := json.Marshal(x)
	os.Stdout.Write(b)
	os.Exit(0)
}

func executeFresh(key string) (x freshExec) {
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_FRESH="+key)
	var msg strings.Builder
	cmd.Stderr = &msg
	out, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(out, &x)
	}
	if err != nil {
		x.Panic = fmt.Sprintf("process ended with %v: %.300s", err, msg.String())
	}
	return
}

func segExecute(no int, schedule []sched.Switch, fine bool) (sched.Trace, string) {
	sc := segScenarios[no]
	if !sc.first {
		tr, got := sc.execute(schedule, fine)
		return tr, sc.judge(tr, got)
	}
	x := executeFresh(scheduleKey(no, schedule, fine))
	if x.Panic != "" {
		return x.Trace, x.Panic
	}
	return x.Trace, sc.judge(x.Trace, x.Got)
}

func parseScheduleKey(key string) (no int, schedule []sched.Switch, fine bool, err error) {
	p := strings.Split(key, "/")
	if len(p) != 4 || p[0] != "s" {
		return 0, nil, false, errors.New("illegal key")
	}
	if no, err = strconv.Atoi(p[1]); err != nil {
		return
	}
	if p[3] != "" {
		for _, x := range strings.Split(p[3], ",") {
			var s sched.Switch
			if _, err = fmt.Sscanf(x, "%d:%d", &s.Pos, &s.Thread); err != nil {
				return
			}
			schedule = append(schedule, s)
		}
	}
	return no, schedule, p[2] == "f", nil
}

func segGates() {
	segScenario{jobs: []segJob{{"classes", "a"}, {"width", "a"}}}.want() // one-time set-up
	tracing.SetTraceSelector(gateTracer{})
}

func exploreSegSchedules(w *mc.Worker) {
	runtime.GOMAXPROCS(1)
	segGates()
	for no, sc := range segScenarios {
		if !sc.feasible() {
			w.Add("scenarios without line breaker", 1)
			continue
		}
		for _, fine := range []bool{false, true} {
			bound := sc.bound[w.Pick(0, 1)]
			if fine {
				bound = sc.fine[w.Pick(0, 1)]
				if !instrumented {
					w.Add("not instrumented", 1)
					continue
				}
			}
			mine := func(subtree int) bool { return (subtree+no)%w.Of == w.Shard }
			sched.Explore(bound, mine, func(schedule []sched.Switch) (tr sched.Trace, ok bool) {
				if w.Stop() {
					return tr, false
				}
				w.Case(scheduleKey(no, schedule, fine), func() string {
					var fail string
					tr, fail = segExecute(no, schedule, fine)
					return fail
				})
				w.Steps(tr.Steps)
				switch {
				case tr.Infeasible:
					w.Add("infeasible schedules", 1)
				case sc.first:
					w.Add("schedules of first use", 1)
					w.NonTrivial()
				case fine:
					w.Add("schedules of statements", 1)
					w.NonTrivial()
				default:
					w.Add("schedules", 1)
					w.NonTrivial()
				}
				w.Sample(func() string { return fmt.Sprintf("%s: schedule %v", sc.name, schedule) })
				return tr, true
			})
		}
	}
}

func replaySegSchedule(key string) (string, error) {
	no, schedule, fine, err := parseScheduleKey(key)
	if err != nil {
		return "", err
	}
	if no >= len(segScenarios) {
		return "", errors.New("illegal key")
	}
	if fine && !instrumented || !segScenarios[no].feasible() {
		return "", errors.New("cannot replay without instrumentation")
	}
	runtime.GOMAXPROCS(1)
	segGates()
	_, fail := segExecute(no, schedule, fine)
	return fail, nil
}

func init() {
	mc.Register(&mc.Check{ID: "C14", Level: "model_checking",
		Rule:        "all interleavings with a bounded number of context switches of two or three clients which segment texts, create grapheme strings, calculate widths, or look up character classes, scheduling points being every read, every trace statement and every segment delivered, or (by instrumentation) every statement of the packages; first use of the packages in a new process for each schedule",
		Assumptions: []string{"statements are atomic", "go-commons-pool and testing/synctest work as documented"},
		Explore:     exploreSegSchedules, Replay: replaySegSchedule,
		Bound: func(tier string) string {
			t := 0
			if tier == "thorough" {
				t = 1
			}
			b := fmt.Sprintf("context switches in addition to those from blocking: all %d pairs out of %d clients: %d switches (1 with statements as scheduling points); ", len(pairedJobs)*(len(pairedJobs)+1)/2, len(pairedJobs), 2+t)
			for _, sc := range slices.Concat(segScenarios[:len(segScenarios)-len(lineScenarios)-len(pairedJobs)*(len(pairedJobs)+1)/2], lineScenarios) {
				b += fmt.Sprintf("%s: %d clients, %d switches (%d with statements as scheduling points); ", sc.name, len(sc.jobs), sc.bound[t], sc.fine[t])
			}
			return b
		}})
}
