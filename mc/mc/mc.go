// Package mc is a small engine for bounded exhaustive exploration (explicit, stateless
// model checking) of the real code in /repo.
//
// A check enumerates a finite space of cases completely and in a fixed order. The space is
// split between worker processes. A worker announces every case before executing it (in a
// memory-mapped file), so a case which crashes the process or does not terminate is known
// to the coordinating process. Failing cases are identified by a key (text), which suffices
// to replay the case.
package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check describes the check for a property.
type Check struct {
	ID          string
	Level       string                           // evidence level: model_checking | fault_enumeration | exploration
	Rule        string                           // how cases are made
	Assumptions []string                         // for evidence
	Explore     func(w *Worker)                  // enumerate all the cases
	Replay      func(key string) (string, error) // re-execute a single case, returns failure text or ""
	Serial      bool                             // run in a single worker
	Bound       func(tier string) string         // description of the bounds
}

// Failure is a failing case.
type Failure struct {
	Key  string `json:"key"`
	What string `json:"what"`
}

// Result is what a worker reports.
type Result struct {
	Cases       int64            `json:"cases"`       // executions of the implementation
	States      int64            `json:"states"`      // distinct states of the model
	Transitions int64            `json:"transitions"` // steps (runes fed, operations)
	NonTrivial  int64            `json:"nontrivial"`  // cases which exercise the property
	Outcomes    map[string]int64 `json:"outcomes"`    // distinct outcomes (hashed)
	Samples     []string         `json:"samples"`
	Failures    []Failure        `json:"failures"`
	Extra       map[string]int64 `json:"extra"`
	Complete    bool             `json:"complete"`
}

// Worker executes cases.
type Worker struct {
	Check  *Check
	Tier   string
	Shard  int
	Of     int
	Seed   int64
	res    Result
	count  int64
	cur    []byte // mmapped
	stamp  atomic.Int64
	seq    atomic.Int64
	out    map[uint64]struct{}
	start  time.Time
	limit  time.Duration
	cut    bool
	maxF   int
	known  map[string]bool
	lastTS int64
}

const curSize = 4096

// Quick is true for the quick tier.
func (w *Worker) Quick() bool { return w.Tier != "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func (w *Worker) Pick(q, t int) int {
	if w.Quick() {
		return q
	}
	return t
}

// Mine tells if the next case in the enumeration belongs to this worker.
func (w *Worker) Mine() bool {
	w.count++
	return int((w.count-1)%int64(w.Of)) == w.Shard
}

// Stop tells if the internal deadline has been reached or there are enough failures.
func (w *Worker) Stop() bool {
	if w.cut {
		return true
	}
	if len(w.res.Failures) >= w.maxF {
		w.cut = true
	} else if w.res.Cases&63 == 0 && time.Since(w.start) > w.limit {
		w.cut = true
	}
	return w.cut
}

func (w *Worker) announce(key []byte) {
	if w.cur != nil {
		n := len(key)
		if n > curSize-8 {
			n = curSize - 8
		}
		w.cur[0], w.cur[1] = byte(n), byte(n>>8)
		copy(w.cur[8:], key[:n])
	}
	w.seq.Add(1)
}

// Case executes a case. f returns "" if the case is okay, a description of the failure
// otherwise. Panics are failures. A failing case has to fail each time it is repeated.
func (w *Worker) Case(key string, f func() string) bool {
	w.announce([]byte(key))
	w.res.Cases++
	fail := Guard(f)
	if fail == "" {
		return true
	}
	for i := 0; i < 3; i++ { // re-run
		if again := Guard(f); again == "" {
			w.Add("unstable", 1)
			fail = fail + " (NOT on every execution of this case)"
			break
		}
	}
	w.Fail(key, fail)
	return false
}

// Fail records a failure.
func (w *Worker) Fail(key, what string) {
	if w.known[key] {
		// do not count against the maximum
		w.res.Failures = append(w.res.Failures, Failure{key, what})
		w.maxF++
		return
	}
	w.res.Failures = append(w.res.Failures, Failure{key, what})
}

// Steps counts transitions.
func (w *Worker) Steps(n int) { w.res.Transitions += int64(n) }

// States counts distinct states of the model.
func (w *Worker) States(n int) { w.res.States += int64(n) }

// NonTrivial counts cases which really exercise the property.
func (w *Worker) NonTrivial() { w.res.NonTrivial++ }

// Add adds to a named counter.
func (w *Worker) Add(name string, n int64) {
	if w.res.Extra == nil {
		w.res.Extra = map[string]int64{}
	}
	w.res.Extra[name] += n
}

// Outcome records an observed outcome (to measure the number of distinct outcomes).
func (w *Worker) Outcome(s string) {
	if len(w.out) > 200000 {
		return
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.out[h] = struct{}{}
}

// Sample keeps a few cases for evidence.
func (w *Worker) Sample(f func() string) {
	n := w.res.Cases
	if len(w.res.Samples) < 6 && (n == 7 || n == 100 || n == 1000 || n == 10000 || n == 100000 || n == 3) {
		w.res.Samples = append(w.res.Samples, f())
	}
}

// Guard calls f and converts panics.
func Guard(f func() string) (fail string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			fail = fmt.Sprintf("panic: %v at %s", r, panicSite(st))
		}
	}()
	return f()
}

func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") || strings.Contains(lines[i], "runtime.goPanic") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(lines[i], "github.com/npillmayer/uax") && !strings.Contains(lines[i], "/verifmc") {
			return strings.TrimSpace(strings.Split(strings.TrimSpace(lines[i+1]), " +")[0])
		}
	}
	return "?"
}

// --- process handling -------------------------------------------------------------------

var registry = map[string]*Check{}

// Register enters a check.
func Register(c *Check) { registry[c.ID] = c }

// Main is the entry point for check binaries.
//
//	run <id>            coordinate the exploration and write evidence
//	worker <id> i n f   a worker
//	replay <id> <file>  re-execute a case
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: run|worker|replay <property> ...")
		os.Exit(2)
	}
	c := registry[os.Args[2]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(c))
	case "worker":
		work(c)
	case "replay":
		os.Exit(replay(c, os.Args[3]))
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func envInt(name string, dflt int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil && n > 0 {
		return n
	}
	return dflt
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// known findings: lines   known: property=<id> key=<key> | <what>
func knownFindings(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		pre := "known: property=" + id + " key="
		if strings.HasPrefix(l, pre) {
			kv := strings.SplitN(l[len(pre):], " | ", 2)
			what := ""
			if len(kv) > 1 {
				what = kv[1]
			}
			m[kv[0]] = what
		}
	}
	return m
}

func work(c *Check) {
	shard, _ := strconv.Atoi(os.Args[3])
	of, _ := strconv.Atoi(os.Args[4])
	w := &Worker{Check: c, Tier: tier(), Shard: shard, Of: of, Seed: seed(), out: map[uint64]struct{}{}, start: time.Now(), maxF: 20}
	w.known = map[string]bool{}
	for k := range knownFindings(c.ID) {
		w.known[k] = true
	}
	w.limit = time.Duration(envInt("VERIF_LIMIT", 600)) * time.Second
	if w.Tier == "thorough" {
		w.limit = time.Duration(envInt("VERIF_LIMIT", 5*3600)) * time.Second
	}
	if f, err := os.OpenFile(os.Args[5], os.O_RDWR|os.O_CREATE, 0600); err == nil {
		f.Truncate(curSize)
		if b, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			w.cur = b
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30) // soft: collect garbage more often beyond it
	stdout := os.Stdout
	os.Stdout = os.Stderr // the code under test must not disturb the protocol
	var mu sync.Mutex
	finished := false
	report := func() {
		w.res.Outcomes = map[string]int64{"distinct": int64(len(w.out))}
		b, _ := json.Marshal(w.res)
		stdout.Write(b)
		stdout.Write([]byte("\n"))
	}
	go func() { // watch for cases which do not terminate or eat up all the memory
		last, ticks := int64(-1), 0
		var cpu0 float64
		for {
			time.Sleep(500 * time.Millisecond)
			s := w.seq.Load()
			if s != last {
				last, ticks = s, 0
				cpu0 = cpuTime()
				continue
			}
			ticks++
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			// a case lasts for some microseconds usually; blocked processes do not consume CPU time
			hang := (ticks >= 160 && cpuTime()-cpu0 > 45) || ticks >= 500
			if ms.HeapAlloc > 2<<30 && ticks > 2 { // garbage does not count
				runtime.GC()
				runtime.ReadMemStats(&ms)
				hang = hang || w.seq.Load() == last && ms.HeapAlloc > 2<<30
			}
			if hang {
				mu.Lock()
				if finished {
					return
				}
				os.Exit(97)
			}
		}
	}()
	c.Explore(w)
	mu.Lock()
	finished = true
	w.res.Complete = !w.cut
	report()
	os.Exit(0)
}

func cpuTime() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6
}

func run(c *Check) int {
	t0 := time.Now()
	n := envInt("VERIF_JOBS", runtime.NumCPU())
	if c.Serial {
		n = 1
	}
	tmp, err := os.MkdirTemp("", "vx")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	results := make([]Result, n)
	crashes := make([]*Failure, n)
	ok := make([]bool, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cf := filepath.Join(tmp, "cur"+strconv.Itoa(i))
			cmd := exec.Command(os.Args[0], "worker", c.ID, strconv.Itoa(i), strconv.Itoa(n), cf)
			cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
			if !c.Serial {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			var so bytes.Buffer
			se := &tail{}
			cmd.Stdout, cmd.Stderr = &so, se
			err := cmd.Run()
			if err == nil && json.Unmarshal(so.Bytes(), &results[i]) == nil {
				ok[i] = true
				return
			}
			key := currentCase(cf)
			what := "process died: " + firstLine(se.String())
			if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 97 {
				what = "does not terminate (or consumes unbounded memory)"
			}
			crashes[i] = &Failure{Key: key, What: what}
		}(i)
	}
	wg.Wait()
	total := Result{Outcomes: map[string]int64{}, Extra: map[string]int64{}, Complete: true}
	var fails []Failure
	for i, r := range results {
		if !ok[i] {
			if crashes[i] != nil {
				fails = append(fails, *crashes[i])
			}
			total.Complete = false
			continue
		}
		total.Cases += r.Cases
		total.States += r.States
		total.Transitions += r.Transitions
		total.NonTrivial += r.NonTrivial
		if r.Outcomes["distinct"] > total.Outcomes["distinct"] {
			total.Outcomes["distinct"] = r.Outcomes["distinct"]
		}
		for k, v := range r.Extra {
			total.Extra[k] += v
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		fails = append(fails, r.Failures...)
		total.Complete = total.Complete && r.Complete
	}
	sort.Slice(fails, func(i, j int) bool {
		if len(fails[i].Key) != len(fails[j].Key) {
			return len(fails[i].Key) < len(fails[j].Key)
		}
		return fails[i].Key < fails[j].Key
	})
	known := knownFindings(c.ID)
	var viol []Failure
	nknown := 0
	seen := map[string]bool{}
	for _, f := range fails {
		if seen[f.Key] {
			continue
		}
		seen[f.Key] = true
		if what, is := known[f.Key]; is {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, f.Key, what)
			nknown++
			continue
		}
		viol = append(viol, f)
	}
	rdir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	for i, f := range viol {
		if i >= 10 {
			fmt.Printf("... %d more failing cases\n", len(viol)-i)
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(map[string]string{"property": c.ID, "key": f.Key, "what": f.What,
			"how": "./check.sh replay " + c.ID + " " + path}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		fmt.Printf("  case %s\n  %s\n", f.Key, clip(f.What))
	}
	if total.Samples == nil {
		total.Samples = []string{"(none)"}
	}
	cov := map[string]interface{}{
		"rule": c.Rule, "samples": total.Samples, "exhaustive": total.Complete,
		"distinct_outcomes_max_per_worker": total.Outcomes["distinct"], "known_findings": nknown,
	}
	if c.Level == "model_checking" {
		cov["states"] = total.States
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Cases
		cov["nontrivial_traces"] = total.NonTrivial
	} else {
		cov["evaluations"] = total.Cases
		cov["distinct_nontrivial"] = total.NonTrivial
		cov["steps_fed_to_the_implementation"] = total.Transitions
	}
	if c.Bound != nil {
		cov["bound"] = c.Bound(tier())
	}
	for k, v := range total.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier(), "seed": seed(), "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d cases, %d transitions, exhaustive=%v, %d known findings, %d violations, %.1fs\n", c.ID,
		total.Cases, total.Transitions, total.Complete, nknown, len(viol), time.Since(t0).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func replay(c *Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var m map[string]string
	json.Unmarshal(b, &m)
	if c.Replay == nil {
		fmt.Fprintln(os.Stderr, "no replay for", c.ID)
		return 2
	}
	fmt.Println("case", m["key"])
	fail := Guard(func() string {
		s, err := c.Replay(m["key"])
		if err != nil {
			return "cannot replay: " + err.Error()
		}
		return s
	})
	if fail != "" {
		fmt.Println("fails:", fail)
		return 1
	}
	fmt.Println("passes")
	return 0
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "…"
	}
	return s
}

func firstLine(s string) string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "WARNING: DATA RACE") ||
			strings.Contains(l, "/repo/") {
			out = append(out, l)
			if len(out) > 8 {
				break
			}
		}
	}
	if len(out) == 0 {
		return clip(s)
	}
	return strings.Join(out, " / ")
}

func currentCase(file string) string {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 8 {
		return "?"
	}
	n := int(b[0]) | int(b[1])<<8
	if n > curSize-8 {
		n = curSize - 8
	}
	return string(b[8 : 8+n])
}

type tail struct {
	mu   sync.Mutex
	head []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 64<<10 - len(t.head); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		t.head = append(t.head, p[:room]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.head) }

// Product enumerates all the words of length n over an alphabet of k letters.
func Product(k, n int, f func(idx []int) bool) bool {
	idx := make([]int, n)
	for {
		if !f(idx) {
			return false
		}
		i := n - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < k {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}
