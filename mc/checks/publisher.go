package checks

import (
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/verifmc/mc"
)

// --- C11: publishers, subscribers, recognizers -----------------------------------------------

// step is what a subscriber does with an event.
type pstep struct {
	length int
	done   bool
	pens   []int
}

type pkind struct {
	name  string
	done  bool    // done from the start
	steps []pstep // the last one is repeated
	spawn int     // kind of subscriber subscribed on the first event, or -1
	heir  int     // kind of subscriber subscribed when unsubscribed, or -1
}

var pkinds = []pkind{
	{"accepts at once", false, []pstep{{1, true, []int{10, 20}}}, -1, -1},
	{"accepts at 2nd", false, []pstep{{1, false, nil}, {2, true, []int{1, 2, 3}}}, -1, -1},
	{"aborts", false, []pstep{{0, true, nil}}, -1, -1},
	{"aborts at 3rd", false, []pstep{{1, false, nil}, {2, false, nil}, {0, true, nil}}, -1, -1},
	{"stays", false, []pstep{{1, false, []int{100}}, {5, false, nil}, {2, false, []int{0, -3}}}, -1, -1},
	{"done", true, []pstep{{0, true, nil}}, -1, -1},
	{"subscribes", false, []pstep{{3, false, nil}, {4, true, []int{7}}}, 1, -1},
	{"has heir", false, []pstep{{1, true, []int{1000}}}, -1, 4},
	// the following ones just in separate explorations
	{"reports much", false, []pstep{{1, false, manyPenalties(3000)}, {2, true, manyPenalties(1025)}}, -1, -1},
	{"reports a lot", false, []pstep{{70000, false, manyPenalties(1024)}, {1 << 33, false, []int{1 << 40}}, {3, true, manyPenalties(40)}}, -1, -1},
}

const usualKinds = 8

func manyPenalties(n int) (pens []int) {
	for i := 0; i < n; i++ {
		pens = append(pens, (i*i*7919)%20011-10000)
	}
	return
}

type psub struct {
	h      *phist
	no     int
	kind   int
	events int
	last   int // publish the last event has been from
	length int
	done   bool
	in     bool // subscribed
	unsub  int
	born   int // publish amid which it has been subscribed
}

func (s *psub) RuneEvent(r rune, class int) []int {
	h := s.h
	if !h.publishing {
		h.fail("event outside of publishing")
	}
	if r != h.r || class != h.class {
		h.fail(fmt.Sprintf("subscriber %d has event %q/%d, published is %q/%d", s.no, r, class, h.r, h.class))
	}
	if s.last == h.publishes {
		h.fail(fmt.Sprintf("subscriber %d has two events from a single publish", s.no))
	}
	s.last = h.publishes
	if h.unsubs > 0 {
		h.fail("event after subscribers have been unsubscribed")
	}
	k := pkinds[s.kind]
	st := k.steps[min(s.events, len(k.steps)-1)]
	s.events++
	s.length, s.done = st.length, s.done || st.done
	for i, p := range st.pens {
		if i == len(h.sums) {
			h.sums = append(h.sums, 0)
		}
		h.sums[i] += p
	}
	if k.spawn >= 0 && s.events == 1 {
		h.subscribe(k.spawn, true)
	}
	return slices.Clone(st.pens)
}
func (s *psub) MatchLength() int { return s.length }
func (s *psub) Done() bool       { return s.done }
func (s *psub) Unsubscribed() {
	s.unsub++
	s.h.unsubs++
	if !s.done {
		s.h.fail(fmt.Sprintf("subscriber %d is unsubscribed, but not done", s.no))
	}
	if k := pkinds[s.kind]; k.heir >= 0 && s.unsub == 1 {
		s.h.subscribe(k.heir, true)
	}
}
func (s *psub) String() string { return fmt.Sprint("subscriber ", s.no) }

// phist is a history together with the model.
type phist struct {
	pub        uax.RunePublisher
	q          *uax.DefaultRunePublisher
	subs       []*psub
	publishing bool
	publishes  int
	unsubs     int
	r          rune
	class      int
	sums       []int
	failure    string
}

func (h *phist) fail(s string) {
	if h.failure == "" {
		h.failure = s
	}
}

func (h *phist) subscribe(kind int, viaInterface bool) {
	s := &psub{h: h, no: len(h.subs), kind: kind, done: pkinds[kind].done, in: true}
	if h.publishing {
		s.born = h.publishes
	}
	h.subs = append(h.subs, s)
	if viaInterface {
		h.pub.SubscribeMe(s)
	} else {
		h.q.Push(s)
	}
}

func (h *phist) members(done bool) (n int) {
	for _, s := range h.subs {
		if s.in && (s.done || !done) {
			n++
		}
	}
	return n
}

func (h *phist) check() {
	if n := h.members(false); h.q.Len() != n {
		h.fail(fmt.Sprintf("length of queue is %d, must be %d", h.q.Len(), n))
	}
	top := h.q.Top()
	if top == nil {
		if h.members(false) > 0 {
			h.fail("no subscriber on top")
		}
		return
	}
	t, is := top.(*psub)
	switch {
	case !is || !t.in:
		h.fail("subscriber on top is none of the subscribed ones")
	case !t.done && h.members(true) > 0:
		h.fail("subscriber on top is not done, but there are others done")
	}
}

const (
	opPublish = iota + 20
	opPop
	opPopDone
	opToggle // Done of the subscriber on top changes
	opFix    // fix without changes, all positions
	opDrain
)

func (h *phist) do(op int) {
	if len(h.subs) > 400 { // forget about those gone
		h.subs = slices.DeleteFunc(h.subs, func(s *psub) bool { return !s.in })
	}
	switch op {
	case opPublish:
		h.publishes++
		h.publishing, h.r, h.class, h.unsubs, h.sums = true, rune('a'+h.publishes), h.publishes+7, 0, nil
		strict := h.members(true) == 0 // pre-condition of publishing
		var expect []*psub
		for _, s := range h.subs {
			if s.in && !s.done {
				expect = append(expect, s)
			}
		}
		longest, pens := h.pub.PublishRuneEvent(h.r, h.class)
		h.publishing = false
		for _, s := range expect {
			if s.last != h.publishes {
				h.fail(fmt.Sprintf("subscriber %d has missed an event", s.no))
			}
		}
		want := 0
		for _, s := range h.subs {
			if s.in && !s.done && s.last == h.publishes {
				want = max(want, s.length)
			}
			if s.in && s.last == h.publishes && s.born == h.publishes && strict {
				h.fail(fmt.Sprintf("subscriber %d has an event published before it has subscribed", s.no))
			}
			if s.in && s.done {
				if s.unsub != 1 {
					h.fail(fmt.Sprintf("subscriber %d is done and has been unsubscribed %d times", s.no, s.unsub))
				}
				s.in = false
			} else if s.in && s.unsub != 0 {
				h.fail(fmt.Sprintf("subscriber %d has been unsubscribed, but is not done", s.no))
			}
		}
		if longest != want {
			h.fail(fmt.Sprintf("longest active match is %d, must be %d", longest, want))
		}
		if !slices.Equal(pens, h.sums) {
			h.fail(fmt.Sprintf("penalties are %v, must be %v", pens, h.sums))
		}
	case opPop, opPopDone, opDrain:
		var s uax.RuneSubscriber
		top := h.q.Top()
		n := h.members(op == opPopDone)
		if op == opPopDone {
			s = h.q.PopDone()
		} else {
			s = h.q.Pop()
		}
		if (s == nil) != (n == 0) {
			h.fail(fmt.Sprintf("pop returns %v, there are %d subscribers", s, n))
		}
		if s == nil {
			break
		}
		p, is := s.(*psub)
		if !is || !p.in || s != top {
			h.fail("pop returns a subscriber which is not on top")
			break
		}
		if op == opPopDone && !p.done {
			h.fail("PopDone returns a subscriber not done")
		}
		p.in = false
		if p.unsub > 0 {
			h.fail("pop has unsubscribed")
		}
	case opToggle:
		if t, is := h.q.Top().(*psub); is {
			t.done = !t.done
			h.q.Fix(h.q.Len() - 1)
		}
	case opFix:
		for i := 0; i <= h.q.Len(); i++ {
			h.q.Fix(i)
		}
	default:
		h.subscribe(op, op&1 == 0)
	}
	h.check()
}

func publisherCase(ops []byte) string { return repeatedCase(ops, 1) }

// repeatedCase executes operations repeatedly (as long as there are not too many subscribers).
func repeatedCase(ops []byte, times int) string {
	h := &phist{q: &uax.DefaultRunePublisher{}}
	if len(ops)&1 == 0 {
		h.q = uax.NewRunePublisher()
	}
	h.pub = h.q
	for n := 0; n < times; n++ {
		for i, op := range ops {
			h.do(int(op - 'A'))
			if h.failure != "" {
				return fmt.Sprintf("operation %d: %s", n*len(ops)+i+1, h.failure)
			}
		}
		if n > 0 && len(h.subs) > 200 && h.members(false) > 200 {
			break
		}
	}
	for h.members(false) > 0 {
		h.do(opDrain)
		if h.failure != "" {
			return "popping all: " + h.failure
		}
	}
	if h.q.Pop() != nil || h.q.PopDone() != nil || h.q.Top() != nil {
		return "queue is not empty"
	}
	return ""
}

// --- recognizers ---

// A program of a recognizer: class → action.
const (
	rWalk   = iota // matches, continues
	rSilent        // continues with another state function without matching
	rAccept        // accepts with penalties
	rPlain         // accepts without penalties
	rAbort
	rEnd // ends without DoAccept or DoAbort
)

type rmodel struct {
	rec    *uax.Recognizer
	length int
	done   bool
	calls  int
	state  int
}

type rhist struct {
	pubs    [2]*uax.DefaultRunePublisher
	recs    [2][]*rmodel
	failure string
	event   int
	class   int
}

func (h *rhist) subscribe(p int) {
	m := &rmodel{}
	number := 100 + h.event
	m.rec = uax.NewPooledRecognizer(number, h.stateFn(m, 0))
	switch rec := m.rec; {
	case rec.Expect != number:
		h.failure = "new recognizer does not expect what it should"
	case rec.MatchLen != 0 || rec.MatchLength() != 0:
		h.failure = "new recognizer has a match"
	case rec.UserData != nil:
		h.failure = fmt.Sprintf("new recognizer has user data %v", rec.UserData)
	case rec.Done():
		h.failure = "new recognizer is done"
	}
	m.rec.UserData = m
	h.recs[p] = append(h.recs[p], m)
	h.pubs[p].SubscribeMe(m.rec)
}

func (h *rhist) stateFn(m *rmodel, state int) uax.NfaStateFn {
	return func(rec *uax.Recognizer, r rune, class int) uax.NfaStateFn {
		m.calls++
		if rec != m.rec || rec.UserData != m {
			h.failure = "state function called with a different recognizer"
		}
		if m.state != state {
			h.failure = "wrong state function called"
		}
		if class != h.class || r != rune('a'+h.event) {
			h.failure = fmt.Sprintf("state function called with %q/%d", r, class)
		}
		switch class {
		case rWalk:
			rec.MatchLen++
			m.length++
			return h.stateFn(m, state)
		case rSilent:
			m.state++
			return h.stateFn(m, m.state)
		case rAccept:
			m.done = true
			m.length++
			return uax.DoAccept(rec, m.length, 1000)
		case rPlain:
			m.done = true
			m.length++
			return uax.DoAccept(rec)
		case rEnd:
			m.done = true
			return nil
		}
		m.done = true
		return uax.DoAbort(rec)
	}
}

func (h *rhist) publish(p, class int) {
	h.event++
	h.class = class
	var want []int
	longest := 0
	for _, m := range h.recs[p] {
		switch class {
		case rAccept:
			if want == nil {
				want = []int{0, 0}
			}
			want[0] += m.length + 1
			want[1] += 1000
		case rWalk:
			longest = max(longest, m.length+1)
		case rSilent:
			longest = max(longest, m.length)
		}
		m.calls = 0
	}
	l, pens := h.pubs[p].PublishRuneEvent(rune('a'+h.event), class)
	if l != longest || !slices.Equal(pens, want) {
		h.failure = fmt.Sprintf("publisher returns %d, %v, must be %d, %v", l, pens, longest, want)
	}
	var left []*rmodel
	for _, m := range h.recs[p] {
		if m.calls != 1 {
			h.failure = fmt.Sprintf("state function has been called %d times", m.calls)
		}
		if !m.done {
			left = append(left, m)
		}
	}
	for _, m := range h.recs[1-p] {
		if m.rec.UserData != m || m.rec.MatchLen != m.length || m.rec.Done() {
			h.failure = "recognizer of another publisher has changed"
		}
	}
	h.recs[p] = left
	if h.pubs[p].Len() != len(left) {
		h.failure = fmt.Sprintf("publisher has %d recognizers, must be %d", h.pubs[p].Len(), len(left))
	}
}

// soloCase drives recognizers without a publisher, from the pool and without: what they report has
// to be according to the contract of RuneSubscriber, after every event.
func soloCase(ops []byte) string {
	for pooled := 0; pooled < 2; pooled++ {
		h := &rhist{}
		m := &rmodel{}
		if pooled == 1 {
			m.rec = uax.NewPooledRecognizer(77, h.stateFn(m, 0))
		} else {
			m.rec = uax.NewRecognizer(77, h.stateFn(m, 0))
		}
		m.rec.UserData = m
		if m.rec.Expect != 77 || m.rec.Done() || m.rec.MatchLength() != 0 {
			return "new recognizer is not as it should be"
		}
		accepted := false
		for i, op := range ops {
			h.event++
			h.class = int(op - 'a')
			var want []int
			m.calls = 0
			was := m.done
			got := m.rec.RuneEvent(rune('a'+h.event), h.class)
			length := m.length
			if !was {
				switch h.class {
				case rAccept:
					want = []int{m.length, 1000}
					accepted = true
				case rPlain:
					accepted = true
				case rAbort:
					length = 0
				}
			} else if accepted {
				want = got // not specified
			}
			if was && m.calls != 0 {
				return fmt.Sprintf("event %d: state function is called after the end", i+1)
			}
			if h.failure != "" {
				return h.failure
			}
			if !slices.Equal(got, want) {
				return fmt.Sprintf("event %d: penalties are %v, must be %v", i+1, got, want)
			}
			if m.rec.Done() != m.done || m.rec.Done() && h.class != rEnd && !was && (m.rec.MatchLength() > 0) != accepted || !was && m.rec.MatchLength() != length {
				return fmt.Sprintf("event %d: done: %v, match length: %d, must be %v, %d", i+1, m.rec.Done(), m.rec.MatchLength(), m.done, length)
			}
		}
		if pooled == 1 {
			m.rec.Unsubscribed()
		}
	}
	return ""
}

// ops: 'S', 'T' subscribe to the first or second publisher; 'a'.. and 'k'.. publish a class
func recognizerCase(ops []byte) string {
	h := &rhist{pubs: [2]*uax.DefaultRunePublisher{uax.NewRunePublisher(), uax.NewRunePublisher()}}
	for i, op := range ops {
		switch {
		case op == 'S' || op == 'T':
			h.subscribe(int(op - 'S'))
		case op < 'k':
			h.publish(0, int(op-'a'))
		default:
			h.publish(1, int(op-'k'))
		}
		if h.failure != "" {
			return fmt.Sprintf("operation %d: %s", i+1, h.failure)
		}
	}
	for p := range h.recs { // leave the pool tidy
		h.publish(p, rAbort)
	}
	return h.failure
}

// usePool leaves used recognizers in the pool.
func usePool() {
	h := &rhist{pubs: [2]*uax.DefaultRunePublisher{uax.NewRunePublisher(), uax.NewRunePublisher()}}
	for i := 0; i < 20; i++ {
		h.subscribe(0)
	}
	h.publish(0, rWalk)
	h.publish(0, rAccept)
}

func explorePublisher(w *mc.Worker) {
	usePool()
	words := func(kind string, letters string, n int, f func([]byte) string) {
		word := make([]byte, n)
		mc.Product(len(letters), n, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			if w.Stop() {
				return false
			}
			for i, k := range idx {
				word[i] = letters[k]
			}
			w.Case(kind+string(word), func() string { return f(word) })
			w.Steps(n)
			w.NonTrivial()
			w.Sample(func() string { return kind + string(word) })
			return true
		})
	}
	op := func(n int) string { return string(rune('A' + n)) }
	all := ""
	for k := 0; k < usualKinds; k++ {
		all += op(k)
	}
	all += op(opPublish) + op(opPop) + op(opPopDone) + op(opToggle) + op(opFix)
	for n := 1; n <= 5; n++ {
		words("s/", "abcdef", n, soloCase)
	}
	for n := 1; n <= 4; n++ {
		words("r/", "STabcdefklmnop", n, recognizerCase)
	}
	for n := 1; n <= w.Pick(6, 7); n++ {
		words("p/", all, n, publisherCase)
	}
	few := op(1) + op(3) + op(4) + op(opPublish)
	for n := 7; n <= w.Pick(10, 12); n++ {
		words("p/", few, n, publisherCase)
	}
	few = op(0) + op(5) + op(6) + op(opPublish) + op(opPopDone) + op(opToggle)
	for n := 7; n <= w.Pick(7, 9); n++ {
		words("p/", few, n, publisherCase)
	}
	for n := 5; n <= w.Pick(6, 7); n++ {
		words("r/", "STabcdefklmnop", n, recognizerCase)
	}
	for n := 7; n <= w.Pick(7, 9); n++ {
		words("r/", "Sabcdef", n, recognizerCase)
	}
	few = op(8) + op(9) + op(0) + op(4) + op(opPublish)
	for n := 2; n <= w.Pick(5, 7); n++ {
		words("p/", few, n, publisherCase)
	}
	// long histories
	for n := 1; n <= 3; n++ {
		words("p*90/", all, n, func(ops []byte) string { return repeatedCase(ops, 90) })
	}
	words("p*700/", all, 2, func(ops []byte) string { return repeatedCase(ops, 700) })
	for n := 2; n <= 3; n++ {
		for _, k := range []int{0, 1, 2, 3, 6} {
			words("p*66000/", op(k)+op(opPublish), n, func(ops []byte) string { return repeatedCase(ops, 66000) })
		}
	}
	// many subscribers
	for n := 0; n <= w.Pick(70, 300); n++ {
		for mask := 0; mask < 16; mask++ {
			if !w.Mine() {
				continue
			}
			var word []byte
			for i := 0; i < n; i++ {
				word = append(word, "BDEAC"[(i*(mask+1)+mask)%5])
			}
			word = append(word, strings.Repeat(op(opPublish), 1+mask%4)...)
			w.Case("p/"+string(word), func() string { return publisherCase(word) })
			w.Steps(len(word))
		}
	}
}

func init() {
	mc.Register(&mc.Check{ID: "C11", Level: "model_checking",
		Rule:        "all sequences of operations (subscribe one of 8 kinds of scripted subscribers, publish, pop, change and fix) on a publisher, of (subscribe, publish a class) on two publishers with pooled recognizers, and of events for a single recognizer (pooled or not), compared with a model holding a set of subscribers",
		Assumptions: []string{"clients call Fix for each change of Done outside of publishing"},
		Explore:     explorePublisher,
		Replay: func(key string) (string, error) {
			switch {
			case strings.HasPrefix(key, "p*"):
				times, ops, _ := strings.Cut(key[2:], "/")
				n, err := strconv.Atoi(times)
				return repeatedCase([]byte(ops), n), err
			case strings.HasPrefix(key, "p/"):
				return publisherCase([]byte(key[2:])), nil
			case strings.HasPrefix(key, "r/"):
				usePool()
				return recognizerCase([]byte(key[2:])), nil
			case strings.HasPrefix(key, "s/"):
				return soloCase([]byte(key[2:])), nil
			}
			return "", errors.New("illegal key")
		},
		Bound: func(tier string) string {
			if tier == "thorough" {
				return "sequences of 7 of 13 operations, 12 of 4, 9 of 6; recognizers: 7 of 14, 9 of 7; up to 300 subscribers; sequences of up to 3 of 13 operations repeated 90 times, of 2 700 times, selected ones 66000 times; up to 3000 penalties of a single event"
			}
			return "sequences of 6 of 13 operations, 10 of 4, 7 of 6; recognizers: 6 of 14, 7 of 7; up to 70 subscribers; sequences of up to 3 of 13 operations repeated 90 times, of 2 700 times, selected ones 66000 times; up to 3000 penalties of a single event"
		}})
}
