// Package sched executes goroutines of the real code under the control of a scheduler and
// explores their interleavings (stateless model checking with a bound on context switches).
//
// Goroutines pass gates: calls of Gate, made by the environment the code under test runs in
// (readers, callbacks, tracers), or by the code itself if it is instrumented. One thread is
// running at any time; it runs until it blocks or ends, or until the schedule makes another
// thread run at a gate. All other threads are stopped at their next gate. Blocked goroutines are
// detected with the help of a synctest bubble.
package sched

import (
	"os"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
)

// Switch makes a thread run at a position, i.e. after that many gates and decisions.
type Switch struct{ Pos, Thread int }

// exec is a single execution.
type exec struct {
	mu      sync.Mutex
	waiting map[int]*waiter // threads at a gate
	index   map[int64]int   // goroutine → thread number
	client  []int           // thread number → client it belongs to
	running int             // thread which is running
	owner   int             // client running
	runGid  atomic.Int64    // goroutine of the thread running
	pos     int             // position in the schedule
	next    int             // position of the next switch
	runs    []int           // thread running, or chosen by default
	done    int             // clients done
	spins   int             // consecutive attempts to take locks
	free    atomic.Bool     // no control any more
}

type waiter struct {
	c    chan struct{}
	spin bool // waits for a lock
}

var current atomic.Pointer[exec]

// Gate is where threads may be stopped.
func Gate() { gate(false) }

// Block is a gate for a thread which is not able to continue, but has to retry later.
func Block() { gate(true) }

func gate(spin bool) {
	x := current.Load()
	if x == nil || x.free.Load() {
		if spin {
			runtime.Gosched()
		}
		return
	}
	gid := goid()
	if gid == x.runGid.Load() && !spin {
		x.spins = 0
		x.step()
		if x.pos != x.next {
			return
		}
	}
	x.mu.Lock()
	if x.free.Load() {
		x.mu.Unlock()
		return
	}
	th, is := x.index[gid]
	if !is {
		th = len(x.client)
		x.index[gid] = th
		x.client = append(x.client, x.owner)
	}
	w := &waiter{make(chan struct{}), spin}
	x.waiting[th] = w
	x.mu.Unlock()
	<-w.c
}

func (x *exec) step() {
	x.pos++
	x.runs = append(x.runs, x.running)
}

func slowGoid() int64 {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Trace is what happened.
type Trace struct {
	Steps      int // positions
	Runs       []int
	Late       int  // gates reached by internal goroutines after all the clients have ended
	Infeasible bool // a thread to switch to was not able to run
}

// Run executes clients under a schedule. Except for the switches of the schedule, a thread runs
// until it blocks, then other threads of the same client do, then those of the first client
// which is able to run.
func Run(clients []func(), schedule []Switch) (tr Trace) {
	Bubble(func() {
		x := &exec{waiting: map[int]*waiter{}, index: map[int64]int{}, next: -1}
		x.runGid.Store(-1)
		current.Store(x)
		defer current.Store(nil)
		var finished sync.WaitGroup
		for i, c := range clients {
			x.owner = i
			finished.Add(1)
			go func() {
				defer finished.Done()
				Gate()
				c()
				x.mu.Lock()
				x.done++
				x.mu.Unlock()
			}()
			synctest.Wait() // numbers of threads are deterministic
		}
		release := func() { // let everything run
			x.free.Store(true)
			for _, w := range x.waiting {
				close(w.c)
			}
			x.waiting = map[int]*waiter{}
		}
		plan := schedule
		x.owner = 0
		if len(plan) > 0 {
			x.next = plan[0].Pos
		}
		stuck := false
		for {
			synctest.Wait()
			x.mu.Lock()
			if len(x.waiting) == 0 {
				stuck = x.done < len(clients)
				x.mu.Unlock()
				break
			}
			if x.done == len(clients) {
				tr.Late++
			}
			_, atGate := x.waiting[x.running] // stopped by the schedule?
			if !atGate || x.waiting[x.running].spin || x.pos == 0 {
				x.running = x.dflt()
				x.step()
			}
			if len(plan) > 0 && plan[0].Pos == x.pos {
				th := plan[0].Thread
				plan = plan[1:]
				x.next = -1
				if len(plan) > 0 {
					x.next = plan[0].Pos
				}
				if _, enabled := x.waiting[th]; !enabled || th == x.running {
					tr.Infeasible = true
					release()
					x.mu.Unlock()
					break
				}
				x.running = th
			}
			if x.waiting[x.running].spin {
				if x.spins++; x.spins > 1000 {
					stuck = true
					x.mu.Unlock()
					break
				}
			}
			x.owner = x.client[x.running]
			for g, th := range x.index {
				if th == x.running {
					x.runGid.Store(g)
				}
			}
			w := x.waiting[x.running]
			delete(x.waiting, x.running)
			x.mu.Unlock()
			close(w.c)
		}
		if stuck {
			panic("goroutines are blocked forever")
		}
		tr.Steps, tr.Runs = x.pos, x.runs
		finished.Wait()
	})
	return tr
}

func (x *exec) dflt() int {
	best, rank := -1, 9
	for th, w := range x.waiting {
		r := 2
		switch {
		case w.spin:
			r = 4
			if th == x.running {
				r = 5
			}
		case th == x.running:
			r = 0
		case x.client[th] == x.owner:
			r = 1
		}
		if best < 0 || r < rank || r == rank && th < best {
			best, rank = th, r
		}
	}
	return best
}

// Explore visits all schedules with at most bound switches. visit executes the schedule it is
// given; exploration ends if it returns false. Subtrees of the schedule without any switch
// are explored only if mine is true for them.
func Explore(bound int, mine func(subtree int) bool, visit func(schedule []Switch) (Trace, bool)) {
	var explore func(s []Switch) bool
	explore = func(s []Switch) bool {
		tr, ok := visit(s)
		if !ok {
			return false
		}
		if len(s) >= bound || tr.Infeasible {
			return true
		}
		last := make([]int, slices.Max(append(tr.Runs, 0))+1) // a thread which won't run any more is not at a gate
		for i, th := range tr.Runs {
			last[th] = i + 1
		}
		from := 1
		if len(s) > 0 {
			from = s[len(s)-1].Pos + 1
		}
		for p := from; p <= tr.Steps; p++ {
			for th, until := range last {
				if th == tr.Runs[p-1] || until < p || len(s) == 0 && !mine(p) {
					continue
				}
				if !explore(append(slices.Clone(s), Switch{p, th})) {
					return false
				}
			}
		}
		return true
	}
	explore(nil)
}

var once sync.Once
var requests = make(chan func(*testing.T))
var served = make(chan bool)

// Bubble calls f in a synctest bubble. Bubbles are available in tests only, thus there is a
// test which never ends.
func Bubble(f func()) {
	once.Do(func() {
		os.Args = os.Args[:1]
		go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bubbles", F: func(t *testing.T) {
			for f := range requests {
				f(t)
				served <- true
			}
		}}}, nil, nil)
	})
	panicked := any(nil)
	requests <- func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			defer func() { panicked = recover() }()
			f()
		})
	}
	<-served
	if panicked != nil {
		panic(panicked)
	}
}
