// Package mcrt is the controlled scheduler the instrumented code runs on: one
// goroutine runs at a time, every synchronisation operation is a scheduling
// point, and which goroutine goes on is decided by the explorer. All functions
// are invisible to the race detector; the happens-before edges of the modelled
// primitives are reported to it explicitly, so that the order imposed by the
// scheduler itself orders nothing.
package mcrt

import (
	"fmt"
	"runtime"
	"strings"
)

// Instrumented is set when the code under test was rewritten to use this package.
var Instrumented bool

const (
	maxThreads = 4096
	maxTrace   = 1 << 20
)

// Waitable decides whether an operation can go on.
type Waitable interface{ Ready(op int) bool }

type thread struct {
	id   int
	wake chan struct{}
	done bool
	on   Waitable // nil: can go on
	op   int
	what string
}

// Choice is one recorded decision.
type Choice struct{ N, V int }

// Outcome of a controlled execution.
type Outcome struct {
	Deadlock string // description of what everyone waits for while the main function is stuck
	Leaked   string // goroutines left blocked after the main function returned
	Crash    string // panic in a goroutine (which ends a real process)
	Steps    int
	Switches int
	Threads  int
	Trace    []Choice
	TooLong  bool
	Diverged bool
}

type sched struct {
	active   bool
	abort    bool
	threads  [maxThreads]*thread
	n        int
	cur      *thread
	prefix   []Choice
	trace    []Choice
	pos      int
	steps    int
	switches int
	maxSteps int
	mainDone bool
	crash    string
	deadlock string
	toolong  bool
	diverged bool
	finished chan struct{}
	poolFIFO bool
	policy   int
}

var s sched

// gen counts the executions: primitives that outlive one start afresh.
var gen int

//go:norace
func Gen() int { return gen }

type abortSignal struct{}

// Active reports whether a controlled execution is running.
//
//go:norace
func Active() bool { return s.active }

var traceBuf = make([]Choice, maxTrace)

// Run executes f as the first goroutine of a controlled execution, following
// the decisions of prefix and default decisions after it.
//
//go:norace
func Run(prefix []Choice, maxSteps int, f func()) (o Outcome) {
	if s.active {
		panic("nested controlled execution")
	}
	raceOff()
	gen++
	fifo, pol := s.poolFIFO, s.policy
	s = sched{policy: pol, active: true, prefix: prefix, trace: traceBuf[:0], maxSteps: maxSteps, finished: make(chan struct{}, 1), poolFIFO: fifo}
	t := newThread()
	s.cur = t
	raceBack()
	runThread(t, f, true)
	raceOff()
	<-s.finished
	// Everything a goroutine did is over now; what it did without telling
	// anyone must not look ordered, so there is no acquire here.
	o = Outcome{Crash: s.crash, Deadlock: s.deadlock, Steps: s.steps, Switches: s.switches, Threads: s.n, TooLong: s.toolong, Diverged: s.diverged}
	o.Trace = make([]Choice, len(s.trace))
	for i := 0; i < len(s.trace); i++ {
		o.Trace[i] = s.trace[i]
	}
	if s.mainDone && s.deadlock == "" && s.crash == "" {
		o.Leaked = stuck
	}
	s.active = false
	raceBack()
	return o
}

var stuck string

//go:norace
func newThread() *thread {
	if s.n >= maxThreads {
		panic("mcrt: too many goroutines")
	}
	t := &thread{id: s.n, wake: make(chan struct{}, 1)}
	s.threads[s.n] = t
	s.n++
	return t
}

//go:norace
func runThread(t *thread, f func(), main bool) {
	defer threadEnd(t, main)
	f()
}

//go:norace
func threadEnd(t *thread, main bool) {
	r := recover()
	raceOff()
	if _, ok := r.(abortSignal); ok || s.abort {
		t.done = true
		if main {
			s.mainDone = false
		}
		// chain the shutdown
		shutdown()
		raceBack()
		return
	}
	if r != nil {
		buf := make([]byte, 4096)
		n := runtime.Stack(buf, false)
		s.crash = fmt.Sprintf("%v [%s]", r, repoFrames(string(buf[:n])))
		t.done = true
		s.abort = true
		shutdown()
		raceBack()
		return
	}
	t.done = true
	if main {
		s.mainDone = true
	}
	next := choose(nil)
	if next != nil {
		s.cur = next
		s.switches++
		next.wake <- struct{}{}
	} else {
		end()
	}
	raceBack()
}

// repoFrames keeps the frames of the code under test.
func repoFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/mcrt/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// end: nobody can go on.
//
//go:norace
func end() {
	stuck = ""
	left := 0
	for i := 0; i < s.n; i++ {
		if !s.threads[i].done {
			left++
			if left <= 4 {
				stuck += fmt.Sprintf("goroutine %d waits in %s; ", i, s.threads[i].what)
			}
		}
	}
	if left == 0 {
		s.finished <- struct{}{}
		return
	}
	if !s.mainDone {
		s.deadlock = stuck
	}
	s.abort = true
	shutdown()
}

// shutdown wakes the remaining goroutines one after the other; they unwind.
//
//go:norace
func shutdown() {
	for i := 0; i < s.n; i++ {
		if t := s.threads[i]; !t.done {
			s.cur = t
			t.wake <- struct{}{}
			return
		}
	}
	s.finished <- struct{}{}
}

//go:norace
func ready(t *thread) bool { return !t.done && (t.on == nil || t.on.Ready(t.op)) }

// choose picks the next goroutine; from is the running one (nil: it ended).
//
//go:norace
func choose(from *thread) *thread {
	var cand [maxThreads]*thread
	n := 0
	start := 0
	self := from != nil && ready(from)
	if self && s.policy != RoundRobin && !(s.policy == NewestFirst && from.op == opGo) {
		cand[n] = from
		n++
	}
	if from != nil {
		start = from.id
	} else if s.cur != nil {
		start = s.cur.id
	}
	for k := 1; k <= s.n; k++ {
		i := (start + k) % s.n
		if s.policy == NewestFirst {
			i = s.n - k
		}
		t := s.threads[i]
		if t == from || !ready(t) {
			continue
		}
		cand[n] = t
		n++
	}
	if self && (n == 0 || cand[0] != from) {
		cand[n] = from
		n++
	}
	if n == 0 {
		return nil
	}
	return cand[decide(n)]
}

// decide takes an n-way decision.
//
//go:norace
func decide(n int) int {
	if n == 1 {
		return 0
	}
	v := 0
	p := len(s.trace)
	if p < len(s.prefix) {
		v = s.prefix[p].V
		if s.prefix[p].N != n || v >= n {
			s.diverged = true
			if v >= n {
				v = 0
			}
		}
	}
	if p < maxTrace {
		s.trace = s.trace[:p+1]
		s.trace[p] = Choice{n, v}
	}
	return v
}

// Point is a scheduling point of the running goroutine before operation op on w.
// It returns when the operation can be carried out.
//
//go:norace
func Point(w Waitable, op int, what string) {
	if !s.active {
		if w != nil && !w.Ready(op) {
			panic("mcrt: blocking operation outside a controlled execution: " + what)
		}
		return
	}
	raceOff()
	t := s.cur
	if s.abort {
		raceBack()
		panic(abortSignal{})
	}
	s.steps++
	if s.steps > s.maxSteps {
		s.toolong = true
		s.abort = true
		raceBack()
		panic(abortSignal{})
	}
	t.on, t.op, t.what = w, op, what
	next := choose(t)
	if next == nil {
		end() // wakes somebody, possibly this goroutine
		<-t.wake
		raceBack()
		panic(abortSignal{})
	}
	if next != t {
		s.cur = next
		s.switches++
		next.wake <- struct{}{}
		<-t.wake
	}
	t.on = nil
	ab := s.abort
	raceBack()
	if ab {
		panic(abortSignal{})
	}
}

// Aborting reports that the execution is being torn down: operations do nothing.
//
//go:norace
func Aborting() bool { return s.active && s.abort }

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	if !s.active {
		panic("mcrt: go statement outside a controlled execution")
	}
	if s.abort {
		return
	}
	raceOff()
	t := newThread()
	raceBack()
	go startThread(t, f) // orders what came before, as in the language
	Point(nil, opGo, "go")
}

//go:norace
func startThread(t *thread, f func()) {
	raceOff()
	<-t.wake
	raceBack()
	if s.abort {
		f = nothing
	}
	runThread(t, f, false)
}

//go:norace
func nothing() {}

// Yield is a scheduling point without an operation.
//
//go:norace
func Yield() { Point(nil, 0, "yield") }

// Decide is a data choice of the environment (n alternatives).
//
//go:norace
func Decide(n int) int {
	if !s.active || s.abort || n <= 1 {
		return 0
	}
	return decide(n)
}

// SetPoolFIFO selects which pooled item is handed out by default.
func SetPoolFIFO(v bool) { s.poolFIFO = v }

//go:norace
func PoolFIFO() bool { return s.poolFIFO }

// Default order in which goroutines go on.
const (
	RunOn       = iota // until it blocks, then the next one
	NewestFirst        // a new goroutine at once, the newest one when one blocks
	RoundRobin         // somebody else at every point
	Policies
)

const opGo = -1

// SetPolicy selects the default order.
func SetPolicy(p int) { s.policy = p }
