package checks

import (
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"

	"github.com/npillmayer/uax/segment"
	"github.com/npillmayer/uax/verifmc/mc"
)

// --- C15: the protocol of a segmenter's API --------------------------------------------------
//
// All sequences of calls up to a depth are executed with a real segmenter; a model with the state
// {not initialized, ready, in use} × text × position × error × buffer tells the outcome of every
// call, and all accessors are compared after every call.
//
// Operations:
//
//	i<k>      Init with a reader of text k      (i0: nil reader)
//	s<k>      InitFromSlice with text k         (s0: nil slice)
//	f<k>.<m>  Init with a reader of text k which fails after m code-points
//	n         Next
//	b<k>      BoundedNext(k)
//	r<c>.<m>  RuneBuffer with capacity c, max m
//	B         Buffer
var lifeTexts = []string{"", "a bcd", "ab", " \u0300a.b ", "xyz\u0301w"}

type lifeModel struct {
	breaker string
	init    bool
	inUse   bool
	text    []rune
	slice   []rune // input is this slice
	fault   int    // reader fails after this many code-points, -1: never
	pos     int
	err     error
	dead    bool // ended by an error
	limit   int
	buf     []rune // buffer of the client, to be used without allocation
	ref     []seg
	ends    map[int]seg
	must    int // segments up to this position have to be delivered in spite of the fault
	cur     string
}

type lifeRef struct {
	ref   []seg
	reads []int
	fail  string
}

var lifeRefs = map[string]lifeRef{} // cases of a worker are executed one by one

func lifeReference(br string, t []rune) (l lifeRef) {
	key := br + ":" + string(t)
	if l, ok := lifeRefs[key]; ok {
		return l
	}
	defer func() { lifeRefs[key] = l }()
	s := segment.NewSegmenter(breakersFor(br)...)
	r := &faultReader{rs: t, n: -1}
	s.Init(r)
	for s.Next() {
		g, f := observe(s)
		if l.ref = append(l.ref, g); f != "" || len(l.ref) > len(t) {
			l.fail = "reference run: too many segments " + f
			return
		}
		l.reads = append(l.reads, r.reads)
	}
	if joined(l.ref) != string(t) {
		l.fail = "reference run is lossy"
	}
	return
}

func (m *lifeModel) start(t []rune, slice []rune, fault int) string {
	m.init, m.inUse, m.err, m.dead, m.pos, m.cur = true, false, nil, false, 0, ""
	m.text, m.slice, m.fault = t, slice, fault
	l := lifeReference(m.breaker, t)
	if l.fail != "" {
		return l.fail
	}
	m.ref, m.ends, m.must = l.ref, map[int]seg{}, 0
	pos := 0
	for i, g := range l.ref {
		pos += len([]rune(g.text))
		m.ends[pos] = g
		if fault >= 0 && (l.reads[i] < fault || l.reads[i] == fault && fault < len(t)) {
			m.must = pos
		}
	}
	return ""
}

// step compares a call of Next or BoundedNext.
func (m *lifeModel) step(s *segment.Segmenter, bound int, call func() bool) string {
	ok := call()
	if !m.init {
		if ok || s.Err() != segment.ErrNotInitialized {
			return fmt.Sprintf("without initialization the result is %v, error %v", ok, s.Err())
		}
		m.err = segment.ErrNotInitialized
		return ""
	}
	m.inUse = true
	m.cur = ""
	if m.dead {
		if ok || s.Err() != m.err {
			return fmt.Sprintf("after error %v: result is %v, error %v", m.err, ok, s.Err())
		}
		return ""
	}
	end := m.pos
	if m.pos < bound && m.pos < len(m.text) {
		for end = m.pos + 1; end < bound; end++ {
			if _, is := m.ends[end]; is {
				break
			}
		}
	}
	if m.fault >= 0 && !ok && s.Err() == errInjected {
		if end > m.pos && end <= m.must {
			return fmt.Sprintf("the segment %q does not need the failing read, but is not delivered", string(m.text[m.pos:end]))
		}
		m.dead, m.err = true, errInjected
		return ""
	}
	if m.fault >= 0 && end > m.fault {
		return fmt.Sprintf("result %v, error %v, in spite of a reader's error", ok, s.Err())
	}
	if end > m.pos && m.slice == nil && end-m.pos > m.limit {
		if ok || s.Err() != segment.ErrTooLong {
			return fmt.Sprintf("segment of length %d, limit is %d: result is %v, error %v", end-m.pos, m.limit, ok, s.Err())
		}
		m.dead, m.err = true, segment.ErrTooLong
		return ""
	}
	if ok != (end > m.pos) {
		return fmt.Sprintf("at position %d result is %v, error %v", m.pos, ok, s.Err())
	}
	if !ok {
		m.err = nil
		switch e := s.Err(); {
		case m.pos < len(m.text):
			m.err = segment.ErrBoundReached
		case bound <= len(m.text) && e == segment.ErrBoundReached:
			m.err = e // bound and end of text coincide
		case m.fault >= 0 && bound > len(m.text):
			return fmt.Sprintf("end of text is reached, error is %v in spite of a reader's error", e)
		}
		return ""
	}
	m.err = nil
	m.cur = string(m.text[m.pos:end])
	p0, p1 := s.Penalties()
	if g, is := m.ends[end]; is && (g.p0 != p0 || g.p1 != p1) {
		return fmt.Sprintf("penalties of %q are %d|%d, must be %d|%d", m.cur, p0, p1, g.p0, g.p1)
	}
	if rs := s.Runes(); len(rs) > 0 {
		if m.slice != nil && &rs[0] != &m.slice[m.pos] {
			return "Runes() is not a slice of the input"
		}
		if m.slice == nil && m.buf != nil && &rs[0] != &m.buf[0] {
			return "the buffer provided is not used"
		}
	}
	m.pos = end
	return ""
}

// key: breaker:op,op,... or breaker*n:op,op,... for n repetitions
func lifeCase(key string) (string, error) {
	br, ops, ok := strings.Cut(key, ":")
	if !ok {
		return "", errors.New("illegal key")
	}
	br, times, repeat := strings.Cut(br, "*")
	list := strings.Split(ops, ",")
	if repeat {
		n, err := strconv.Atoi(times)
		if err != nil {
			return "", err
		}
		list = slices.Repeat(list, n)
	}
	m := &lifeModel{breaker: br, limit: segment.MaxSegmentSize}
	s := segment.NewSegmenter(breakersFor(br)...)
	for n, op := range list {
		bad := func(f string) (string, error) {
			return fmt.Sprintf("call %d (%s): %s", n, op, f), nil
		}
		a, b, _ := strings.Cut(op[1:], ".")
		x, _ := strconv.Atoi(a)
		y, _ := strconv.Atoi(b)
		f := ""
		switch op[0] {
		case 'i':
			f = m.start([]rune(lifeTexts[x]), nil, -1)
			if x == 0 {
				s.Init(nil)
			} else {
				s.Init(strings.NewReader(lifeTexts[x]))
			}
		case 's':
			t := []rune(lifeTexts[x])
			f = m.start(t, t, -1)
			if x == 0 {
				m.slice = []rune{}
				s.InitFromSlice(nil)
			} else {
				s.InitFromSlice(t)
			}
		case 'f':
			t := []rune(lifeTexts[x])
			f = m.start(t, nil, y)
			s.Init(&faultReader{rs: t, n: y, err: errInjected})
		case 'n':
			f = m.step(s, len(m.text)+10, s.Next)
		case 'b':
			f = m.step(s, x, func() bool { return s.BoundedNext(x) })
		case 'r', 'B':
			var buf []rune
			if op[0] == 'r' && x > 0 {
				buf = []rune(strings.Repeat("#", x))[:x:x]
			}
			refused := func() (p bool) {
				defer func() { p = recover() != nil }()
				if op[0] == 'r' {
					s.RuneBuffer(buf, y)
				} else {
					s.Buffer(make([]byte, 5), 5)
				}
				return
			}()
			if refused != m.inUse {
				return bad(fmt.Sprintf("refused: %v, in use: %v", refused, m.inUse))
			}
			if !refused && (x > 0 || y > 0) {
				m.limit, m.buf = y, nil
				if x >= y {
					m.limit, m.buf = x, buf
				}
			}
			if !refused && m.cur != s.Text() {
				m.cur = s.Text() // setting a buffer is no statement about the segment
			}
		}
		if f != "" {
			return bad(f)
		}
		g, fail := observe(s)
		if fail != "" {
			return bad(fail)
		}
		if g.text != m.cur {
			return bad(fmt.Sprintf("the segment is %q, must be %q", g.text, m.cur))
		}
		if s.Err() != m.err {
			return bad(fmt.Sprintf("error is %v, must be %v", s.Err(), m.err))
		}
	}
	return "", nil
}

func exploreLife(w *mc.Worker) {
	do := func(br string, menu []string, depth int, first []string) bool {
		return mc.Product(len(menu), depth, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			ops := append([]string{}, first...)
			for _, i := range idx {
				ops = append(ops, menu[i])
			}
			key := br + ":" + strings.Join(ops, ",")
			w.Case(key, func() string { s, _ := lifeCase(key); return s })
			w.Steps(len(ops))
			w.NonTrivial()
			w.Sample(func() string { return key })
			return !w.Stop()
		})
	}
	menu := []string{"n", "b1", "b3", "i1", "s1", "f1.3", "r1.2", "r3.1", "B", "i0", "s0", "i4", "r0.2", "f2.0", "b0", "s4", "r2.2"}
	for d := 1; d <= w.Pick(5, 6); d++ {
		if !do("simple", menu, d, nil) {
			return
		}
	}
	// long lives
	for _, r := range []struct{ depth, times int }{{1, 100}, {2, 70}, {3, 20}, {3, w.Pick(40, 400)}, {2, w.Pick(300, 3000)}, {1, 70000}} {
		if !mc.Product(len(menu), r.depth, func(idx []int) bool {
			if !w.Mine() {
				return true
			}
			var ops []string
			for _, i := range idx {
				ops = append(ops, menu[i])
			}
			key := fmt.Sprintf("%s*%d:%s", []string{"simple", "word", "grapheme"}[(idx[0]+r.times)%3], r.times, strings.Join(ops, ","))
			w.Case(key, func() string { s, _ := lifeCase(key); return s })
			w.Steps(len(ops) * r.times)
			w.Add("repeated_sequences", 1)
			return !w.Stop()
		}) {
			return
		}
	}
	small := []string{"n", "b2", "i1", "s3", "f3.4", "r2.2", "i0", "r1.4"}
	for _, br := range usualBreakers() {
		for d := 6; d <= w.Pick(6, 7); d++ {
			if !do(br, small, d, nil) {
				return
			}
		}
		// sequences of steps for every way to start
		for _, start := range []string{"i1", "i2", "i3", "i4", "s1", "s2", "s3", "s4", "f1.2", "f1.5", "f3.3", "f4.4", "f4.2"} {
			for _, buf := range []string{"", "r1.1", "r2.1", "r1.3", "r4.4"} {
				for _, order := range []int{0, 1} {
					first := []string{start}
					if buf != "" && order == 0 {
						first = []string{start, buf}
					} else if buf != "" {
						first = []string{buf, start}
					} else if order == 1 {
						continue
					}
					if !do(br, []string{"n", "b2", "b4", "b6"}, w.Pick(5, 6), first) {
						return
					}
				}
			}
		}
	}
}

func init() {
	mc.Register(&mc.Check{ID: "C15", Level: "model_checking", Explore: exploreLife, Replay: lifeCase,
		Rule: "all sequences of API calls (initializations with readers, slices, nil and failing readers; buffer settings; bounded and unbounded steps) up to a depth, executed with a real segmenter and compared call by call with a model of the segmenter's states",
		Assumptions: []string{
			"the model takes the breaks and penalties of a text from an undisturbed run with a new segmenter (C01, C02, C10 decide whether these are right)",
		},
		Bound: func(tier string) string {
			if tier == "quick" {
				return "17 kinds of calls: all sequences up to 5 calls; 8 kinds of calls: all sequences of 6 calls, with 4 combinations of breakers; 13 initializations x 9 buffer settings x all sequences of 5 of 4 steps; all sequences of up to 3 calls repeated 20 to 300 times, of one call 70000 times"
			}
			return "17 kinds of calls: all sequences up to 6 calls; 8 kinds of calls: all sequences of 6 and 7 calls, with 4 combinations of breakers; 13 initializations x 9 buffer settings x all sequences of 6 of 4 steps; all sequences of up to 3 calls repeated 20 to 3000 times, of one call 70000 times"
		}})
}
