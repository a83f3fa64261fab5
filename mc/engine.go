// Package mc is a small stateless model checker: a harness body describes its
// bounded behaviour space by making choices (Choose / Dev) and the engine
// enumerates every path of the resulting choice tree, depth first, without
// sampling. Leaves are sharded over worker processes so that a crash of the
// implementation under test is observed (and attributed to its leaf) instead
// of taking the checker down.
package mc

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"syscall"
)

// Check is one registered property check.
type Check struct {
	ID        string
	Level     string // evidence level
	Technique string
	Bounds    func(tier string) string
	Rule      string
	Assume    []string
	// Spaces returns the choice spaces explored, in order.
	Spaces []Space
	// HangS: a leaf running longer than this many seconds is treated as hung.
	HangS int
	// Workers limits parallelism (0 = number of CPUs).
	Workers int
	// DeadlineS overrides internal deadline per tier.
	QuickDeadlineS int
	// MemMB is the address-space limit hint passed as GOMEMLIMIT.
	MemMB int
	// LimitMB limits the address space of a worker: more is a crash.
	LimitMB int
}

func (c *Check) limit() {
	if c.LimitMB > 0 {
		n := uint64(c.LimitMB) << 20
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
	}
}

type Space struct {
	Name string
	// Quick: included in the quick tier.
	Quick bool
	Body  func(x *X)
}

type choice struct {
	n, v int
	name string
	dev  bool
}

type stopPath struct{}

// Failure is one property violation.
type Failure struct {
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Input  []byte `json:"input,omitempty"`
	Space  string `json:"space"`
	Path   []int  `json:"path"`
	Labels string `json:"labels"`
	Crash  bool   `json:"crash,omitempty"`
	Hang   bool   `json:"hang,omitempty"`
}

// X is the execution of one path.
type X struct {
	Tier   string
	e      *explorer
	path   []choice
	pos    int
	devs   int
	Bound  int // deviation bound for Dev choices
	ran    bool
	failed *Failure
	input  []byte
	label  string
	// Wrap, when set, wraps the leaf function.
	Wrap func(f func(t *T)) func(t *T)
}

type Stats struct {
	Leaves      uint64         `json:"leaves"`
	States      uint64         `json:"states"`
	Trans       uint64         `json:"trans"`
	Runs        uint64         `json:"runs"` // implementation executions
	Extra       uint64         `json:"extra"`
	ExStates    uint64         `json:"ex_states"`
	ExTrans     uint64         `json:"ex_trans"`
	Distinct    uint64         `json:"distinct"`
	Outcomes    map[string]int `json:"outcomes"`
	Samples     []string       `json:"samples"`
	Capped      bool           `json:"capped"`
	CapNote     string         `json:"cap_note,omitempty"`
	MaxDepth    int            `json:"max_depth"`
	SpaceLeaves map[string]uint64
}

type explorer struct {
	stats    *Stats
	distinct map[uint64]struct{}
}

// Thorough reports whether the thorough tier runs.
func (x *X) Thorough() bool { return x.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (x *X) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

func (x *X) choose(name string, n int, dev bool) int {
	if n <= 0 {
		panic(stopPath{})
	}
	if x.ran {
		panic("mc: choice after Do: " + name)
	}
	if n == 1 {
		return 0
	}
	if x.pos < len(x.path) {
		c := &x.path[x.pos]
		if c.n != n || c.name != name {
			panic(fmt.Sprintf("mc: replay diverged at %d: had %s/%d, got %s/%d", x.pos, c.name, c.n, name, n))
		}
		x.pos++
		return c.v
	}
	x.path = append(x.path, choice{n: n, name: name, dev: dev})
	x.pos++
	return 0
}

// Choose makes an n-way nondeterministic choice (all branches explored).
func (x *X) Choose(name string, n int) int { return x.choose(name, n, false) }

// Dev makes a choice whose default is 0; any other branch costs one deviation
// out of x.Bound. When no deviations remain the default is taken.
func (x *X) Dev(name string, n int) int {
	if x.devs >= x.Bound || n <= 1 {
		return 0
	}
	v := x.choose(name, n, true)
	if v != 0 {
		x.devs++
	}
	return v
}

// Of picks one of the listed ints.
func (x *X) Of(name string, vals ...int) int { return vals[x.Choose(name, len(vals))] }

// DevOf picks vals[0] by default, others at the cost of a deviation.
func (x *X) DevOf(name string, vals ...int) int { return vals[x.Dev(name, len(vals))] }

// Prune abandons the current path (outside the modelled space).
func (x *X) Prune() { panic(stopPath{}) }

// Label attaches a human readable description of the path.
func (x *X) Label(f string, a ...any) { x.label = fmt.Sprintf(f, a...) }

func (x *X) describe() string {
	var sb strings.Builder
	for i, c := range x.path {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d/%d", c.name, c.v, c.n)
	}
	if x.label != "" {
		sb.WriteString(" :: ")
		sb.WriteString(x.label)
	}
	return sb.String()
}

func (x *X) ints() []int {
	r := make([]int, len(x.path))
	for i, c := range x.path {
		r[i] = c.v
	}
	return r
}

// T is the context of a leaf's implementation run(s).
type T struct {
	x *X
}

// Input records the input bytes of this leaf (replay artefact, distinctness).
func (t *T) Input(b []byte) {
	t.x.input = b
	h := sha256.Sum256(b)
	t.Distinct(binary.LittleEndian.Uint64(h[:8]))
}

// Distinct records a hash of the state / input explored.
func (t *T) Distinct(h uint64) {
	if len(t.x.e.distinct) < 3_000_000 {
		if _, ok := t.x.e.distinct[h]; !ok {
			t.x.e.distinct[h] = struct{}{}
			t.x.e.stats.Distinct++
		}
	}
}

// Run counts one execution of the implementation compared with the oracle.
func (t *T) Run() { t.x.e.stats.Runs++ }

// Runs counts n executions.
func (t *T) Runs(n int) { t.x.e.stats.Runs += uint64(n) }

// States/Trans add explicit model states / transitions explored within a leaf.
func (t *T) States(n int) { t.x.e.stats.ExStates += uint64(n) }
func (t *T) Trans(n int)  { t.x.e.stats.ExTrans += uint64(n) }

// Outcome counts a class of observed outcome.
func (t *T) Outcome(s string) {
	m := t.x.e.stats.Outcomes
	if _, ok := m[s]; ok || len(m) < 200 {
		m[s]++
	} else {
		m["(other)"]++
	}
}

// Cap notes that this leaf hit a bound and was not complete.
func (t *T) Cap(f string, a ...any) {
	t.x.e.stats.Capped = true
	t.x.e.stats.CapNote = fmt.Sprintf(f, a...)
}

// Fail records a violation (first one of the leaf wins).
func (t *T) Fail(f string, a ...any) {
	if t.x.failed == nil {
		t.x.failed = &Failure{Msg: fmt.Sprintf(f, a...)}
	}
}

// FailCase records a violation under a fixed case name: one that is recognised
// as the listed known finding of that name.
func (t *T) FailCase(name, f string, a ...any) {
	if t.x.failed == nil {
		t.x.failed = &Failure{Case: name, Msg: fmt.Sprintf(f, a...)}
	}
}

func (t *T) Failed() bool { return t.x.failed != nil }

type leafRunner func(x *X, f func(t *T))

// Do runs the leaf body (the implementation run and the comparison).
func (x *X) Do(f func(t *T)) {
	x.ran = true
	if x.Wrap != nil {
		f = x.Wrap(f)
	}
	panic(leafCall{f})
}

type leafCall struct{ f func(t *T) }

// runPath replays the choices and returns the leaf function (nil if pruned).
func runPath(body func(x *X), x *X) (leaf func(t *T)) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case leafCall:
				leaf = v.f
			case stopPath:
				leaf = nil
			default:
				buf := make([]byte, 4096)
				n := runtime.Stack(buf, false)
				panic(fmt.Sprintf("harness panic: %v\n%s\npath: %s", r, buf[:n], x.describe()))
			}
		}
	}()
	body(x)
	return nil
}

func runLeaf(x *X, leaf func(t *T)) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 6000)
			n := runtime.Stack(buf, false)
			t := &T{x}
			t.Fail("panic: %v\n%s", r, trimStack(string(buf[:n])))
		}
	}()
	leaf(&T{x})
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// explore enumerates the tree; visit is called for every leaf with its index.
func explore(tier string, sp Space, st *explorer, visit func(x *X, leaf func(t *T)) bool) {
	var path []choice
	first := true
	common := 0
	for {
		x := &X{Tier: tier, e: st, path: path, Bound: 2}
		leaf := runPath(sp.Body, x)
		path = x.path
		if x.pos < len(path) {
			path = path[:x.pos]
			x.path = path
		}
		if len(path) > st.stats.MaxDepth {
			st.stats.MaxDepth = len(path)
		}
		if first {
			st.stats.States += uint64(len(path)) + 1
			st.stats.Trans += uint64(len(path))
			first = false
		} else {
			st.stats.States += uint64(len(path) - common)
			st.stats.Trans += uint64(len(path) - common)
		}
		if leaf != nil {
			if !visit(x, leaf) {
				return
			}
		}
		// advance
		i := len(path) - 1
		for i >= 0 && path[i].v+1 >= path[i].n {
			i--
		}
		if i < 0 {
			return
		}
		np := make([]choice, i+1, i+9)
		copy(np, path[:i+1])
		np[i].v++
		path = np
		common = i
	}
}
