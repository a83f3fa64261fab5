package checks

import (
	"fmt"
	"os"
	"sync"
	"unsafe"

	"github.com/kpfaulkner/jxl-go/util"

	"verif/mc"
	"verif/mcrt"
	"verif/mcrt/msync"
)

// poolProg is a program over the pooled matrices: one script per user, whose
// letters are a, b (get a matrix of the first or second shape), o, n (return
// the oldest or newest matrix held), f (return a matrix that was made without
// the pool, first shape).
type poolProg struct {
	Kind    int // 0,1: 2D float32, int32; 2,3: 3D float32, int32; 4: all four, by turns
	Fresh   bool
	Scripts []string
}

var poolKinds = []string{"float32 2D", "int32 2D", "float32 3D", "int32 3D", "mixed"}
var poolMetrics = []string{"float32_2d", "int32_2d", "float32_3d", "int32_3d"}

func (p poolProg) String() string {
	return fmt.Sprintf("%s fresh %v scripts %q", poolKinds[p.Kind], p.Fresh, p.Scripts)
}

// held is a matrix seen as the flat list of its rows.
type held struct {
	kind    int
	want    [3]int
	shape   string // what is wrong with it
	f       [][]float32
	i       [][]int32
	back    func()
	tag     int
	own     bool // not made by the pool
	storage map[unsafe.Pointer]bool
}

func (h *held) flat() {
	h.storage = map[unsafe.Pointer]bool{}
	for _, r := range h.f {
		if len(r) > 0 {
			h.storage[unsafe.Pointer(&r[0])] = true
			h.storage[unsafe.Pointer(&r[len(r)-1])] = true
		}
	}
	for _, r := range h.i {
		if len(r) > 0 {
			h.storage[unsafe.Pointer(&r[0])] = true
			h.storage[unsafe.Pointer(&r[len(r)-1])] = true
		}
	}
}

func rows3[T any](m [][][]T, want [3]int) (rs [][]T, bad string) {
	if len(m) != want[0] {
		return nil, fmt.Sprintf("depth %d", len(m))
	}
	for _, p := range m {
		if len(p) != want[1] {
			return nil, fmt.Sprintf("height %d", len(p))
		}
		rs = append(rs, p...)
	}
	for _, r := range rs {
		if len(r) != want[2] {
			return nil, fmt.Sprintf("width %d", len(r))
		}
	}
	return
}

func get2[T any](want [3]int, pooled bool) (rs [][]T, bad string, back func()) {
	var m [][]T
	if pooled {
		m = util.MakeMatrix2DPooled[T](want[1], want[2])
	} else {
		m = make([][]T, want[1])
		for y := range m {
			m[y] = make([]T, want[2])
		}
	}
	rs, bad = rows3([][][]T{m}, [3]int{1, want[1], want[2]})
	return rs, bad, func() { util.ReturnMatrix2DToPool(m) }
}

func get3[T any](want [3]int, pooled bool) (rs [][]T, bad string, back func()) {
	var m [][][]T
	if pooled {
		m = util.MakeMatrix3DPooled[T](want[0], want[1], want[2])
	} else {
		m = make([][][]T, want[0])
		for z := range m {
			m[z] = make([][]T, want[1])
			for y := range m[z] {
				m[z][y] = make([]T, want[2])
			}
		}
	}
	rs, bad = rows3(m, want)
	return rs, bad, func() { util.ReturnMatrix3DToPool(m) }
}

func getHeld(kind int, want [3]int, pooled bool) *held {
	h := &held{kind: kind, want: want}
	switch kind {
	case 0:
		h.f, h.shape, h.back = get2[float32](want, pooled)
	case 1:
		h.i, h.shape, h.back = get2[int32](want, pooled)
	case 2:
		h.f, h.shape, h.back = get3[float32](want, pooled)
	default:
		h.i, h.shape, h.back = get3[int32](want, pooled)
	}
	h.flat()
	return h
}

func (h *held) fill(tag int) {
	h.tag = tag
	for _, r := range h.f {
		for k := range r {
			r[k] = float32(tag)
		}
	}
	for _, r := range h.i {
		for k := range r {
			r[k] = int32(tag)
		}
	}
}

// all reports whether every element is v.
func (h *held) all(v int) bool {
	for _, r := range h.f {
		for _, e := range r {
			if e != float32(v) {
				return false
			}
		}
	}
	for _, r := range h.i {
		for _, e := range r {
			if e != int32(v) {
				return false
			}
		}
	}
	return true
}

var freshShapes struct {
	next [5]int // by kind; the last one goes on where nobody was
	all  [][2]int
}

// shapes are the two shapes of the program. Fresh ones were not used before in
// this process (there are as many as anybody needs).
func (p poolProg) shapes() (o [2][3]int) {
	if !p.Fresh {
		return [2][3]int{{2, 2, 3}, {2, 3, 2}}
	}
	f := &freshShapes
	if f.all == nil {
		for a := 7; a < 20000; a++ {
			for h := 1; h <= a; h++ {
				if a%h == 0 {
					f.all = append(f.all, [2]int{h, a / h})
				}
			}
		}
	}
	k := f.next[p.Kind]
	if p.Kind == 4 {
		for _, n := range f.next {
			k = max(k, n)
		}
		f.next = [5]int{k + 2, k + 2, k + 2, k + 2, k + 2}
	} else {
		f.next[p.Kind] = k + 2
	}
	for i := range o {
		s := f.all[(k+i)%len(f.all)]
		o[i] = [3]int{1, s[0], s[1]}
	}
	return
}

// users runs f for every user, on the controlled scheduler when active.
func users(n int, f func(i int)) {
	if mcrt.Active() {
		var wg msync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			mcrt.Go(func() {
				defer wg.Done()
				f(i)
			})
		}
		wg.Wait()
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i)
		}()
	}
	wg.Wait()
}

// run executes the program; the result lists what went wrong.
func (p poolProg) run() []string {
	sh := p.shapes()
	metrics := func() (hits, misses int64) {
		m := util.GetPoolMetrics()
		for _, n := range poolMetrics {
			hits += m[n]["hits"]
			misses += m[n]["misses"]
		}
		return
	}
	out := make([]string, len(p.Scripts)+1)
	kept := make([][]*held, len(p.Scripts))
	past := make([][]*held, len(p.Scripts)) // all, so that they stay allocated
	h0, m0 := metrics()
	users(len(p.Scripts), func(u int) {
		bad := func(f string, a ...any) {
			if out[u] == "" {
				out[u] = fmt.Sprintf("user %d: ", u) + fmt.Sprintf(f, a...)
			}
		}
		var live []*held
		intact := func() {
			for _, h := range live {
				if h.shape == "" && !h.all(h.tag) {
					bad("a %v matrix in use was changed by someone else", h.want)
				}
			}
		}
		for k, op := range p.Scripts[u] {
			kind := p.Kind
			if kind == 4 {
				kind = (u + k) % 4
			}
			switch op {
			case 'a', 'b':
				want := sh[op-'a']
				h := getHeld(kind, want, true)
				past[u] = append(past[u], h)
				if h.shape != "" {
					bad("a matrix of %v was asked for and has %s", want, h.shape)
				} else if !h.all(0) {
					bad("a %v matrix handed out is not zero", want)
				}
				h.fill(1 + u*100 + k)
				live = append(live, h)
			case 'f':
				h := getHeld(kind, sh[0], false)
				h.fill(7)
				h.own = true
				past[u] = append(past[u], h)
				h.back()
			case 'o', 'n':
				i := 0
				if op == 'n' {
					i = len(live) - 1
				}
				intact()
				h := live[i]
				live = append(live[:i:i], live[i+1:]...)
				h.back()
			}
			intact()
		}
		kept[u] = live
	})
	// nothing in use is shared
	seen := map[unsafe.Pointer]bool{}
	for u := range kept {
		for _, h := range kept[u] {
			if h.shape == "" && !h.all(h.tag) && out[u] == "" {
				out[u] = fmt.Sprintf("user %d: a %v matrix in use was changed by someone else", u, h.want)
			}
			for q := range h.storage {
				if seen[q] && out[u] == "" {
					out[u] = fmt.Sprintf("user %d: a %v matrix shares storage with another one in use", u, h.want)
				}
				seen[q] = true
			}
		}
	}
	h1, m1 := metrics()
	var total, again int64
	known := map[unsafe.Pointer]bool{}
	first := func(h *held) bool {
		n := len(known)
		for q := range h.storage {
			known[q] = true
		}
		return len(known) > n
	}
	for _, hs := range past {
		for _, h := range hs {
			if h.own {
				first(h)
			}
		}
	}
	for _, hs := range past {
		for _, h := range hs {
			if !h.own {
				total++
				if !first(h) {
					again++
				}
			}
		}
	}
	if mcrt.Active() && h1-h0 != again {
		// (without the controlled pool earlier executions leave matrices behind)
		out[len(p.Scripts)] = fmt.Sprintf("%d of %d matrices handed out had been returned before, the metrics count %d hits", again, total, h1-h0)
	}
	if h1+m1-h0-m0 != total {
		out[len(p.Scripts)] = fmt.Sprintf("%d matrices were handed out, the metrics count %d hits and %d misses", total, h1-h0, m1-m0)
	}
	return out
}

func poolJudge(r schedRun) string {
	if m := healthy(r); m != "" {
		return m
	}
	for _, s := range r.Out {
		if s != "" {
			return s
		}
	}
	if len(r.Out) == 0 {
		return "no result"
	}
	return ""
}

// poolScripts lists all scripts of up to n operations.
func poolScripts(n int, foreign bool) (o []string) {
	var add func(s string, live int)
	add = func(s string, live int) {
		if s != "" {
			o = append(o, s)
		}
		if len(s) == n {
			return
		}
		add(s+"a", live+1)
		add(s+"b", live+1)
		if foreign {
			add(s+"f", live)
		}
		if live > 0 {
			add(s+"o", live-1)
		}
		if live > 1 {
			add(s+"n", live-1)
		}
	}
	add("", 0)
	return
}

func init() {
	space := func(name string, quick bool, nusers int, length, dev [2]int, parts int, fifo bool) mc.Space {
		return mc.Space{Name: name, Quick: quick, Body: func(x *mc.X) {
			pp := &poolProg{}
			pp.Kind = x.Choose("kind", len(poolKinds))
			pp.Fresh = x.Choose("shapes not used before", 2) == 1
			n := x.Pick(length[0], length[1])
			if pp.Fresh {
				n = min(n, 2)
			}
			scripts := poolScripts(n, nusers == 1)
			p := program{Pool: pp, Parts: 1, Bound: x.Pick(dev[0], dev[1])}
			if fifo {
				p.FIFO = x.Choose("pool order", 2) == 1
			}
			from := 0
			for u := 0; u < nusers; u++ {
				// users are alike: only ordered tuples
				k := from + x.Choose("script", len(scripts)-from)
				from = k
				pp.Scripts = append(pp.Scripts, scripts[k])
			}
			if nusers > 1 {
				p.Policy = x.Choose("default order", mcrt.Policies)
			}
			if parts > 1 {
				p.Parts = parts
				p.Shard = x.Choose("part", parts)
			}
			x.Do(func(t *mc.T) { p.check(t, poolJudge) })
		}}
	}
	register(func() *mc.Check {
		return &mc.Check{ID: "C34", Level: "exploration", Technique: "stateless exploration of all short histories of gets and returns by several users, under a controlled scheduler and a pool that may hand out any returned matrix, on the real code; race detection on a race build",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "one user: all histories of up to 7 operations, every item the pool may hand out up to 3 deviations; two users: up to 4 operations each with up to 2 deviations, up to 3 with 3; three users: up to 3 operations each with 1 deviation; 4 kinds of matrices and mixtures, shapes used before or (up to 2 operations each) new"
				}
				return "one user: all histories of up to 5 operations, 1 deviation of the pool; two users: up to 3 operations each with 1 deviation, up to 2 with 2, 3 default orders; three users: up to 2 operations, 1 deviation; 4 kinds of matrices and mixtures, shapes used before or (up to 2 operations each) new"
			},
			Rule:   "every matrix handed out has the shape asked for, is zero, shares no storage with one in use, and keeps what its user wrote; every one is counted, as a hit if it had been returned before",
			Assume: []string{"a matrix is returned at most once, with its rows, and not used afterwards", "sync.Pool hands out any item that was put or none"}, HangS: 120,
			Spaces: []mc.Space{
				space("histories", true, 1, [2]int{5, 7}, [2]int{1, 3}, 1, true),
				space("two users", true, 2, [2]int{3, 4}, [2]int{1, 2}, 1, false),
				space("two users, 2 deviations", true, 2, [2]int{2, 3}, [2]int{2, 3}, 1, false),
				space("three users", true, 3, [2]int{2, 3}, [2]int{1, 1}, 1, false),
				{Name: "races", Quick: true, Body: func(x *mc.X) {
					pp := &poolProg{Kind: x.Choose("kind", 4), Fresh: true}
					pp.Scripts = [][]string{{"a", "a"}, {"ao", "ao"}, {"ao", "bo"}, {"aoa", "boa"}, {"abo", "ao"}, {"ao", "bo", "ab"}}[x.Choose("scripts", 6)]
					p := program{Pool: pp, Parts: 1, Bound: x.Pick(1, 2), Policy: x.Choose("default order", mcrt.Policies)}
					x.Do(func(t *mc.T) {
						exe := os.Getenv("JXLMC_RACE")
						if exe == "" {
							t.Outcome("no race detector build")
							return
						}
						p.checkChild(t, exe)
					})
				}},
				{Name: "other element types and empty matrices", Quick: true, Body: func(x *mc.X) {
					d, h, w := x.Choose("depth", 3), x.Choose("height", 3), x.Choose("width", 3)
					typ := x.Choose("type", 5)
					x.Do(func(t *mc.T) {
						for i := 0; i < 3; i++ {
							var m string
							err := guard(func() error {
								switch typ {
								case 0:
									m = otherPool[float32](d, h, w)
								case 1:
									m = otherPool[int32](d, h, w)
								case 2:
									m = otherPool[uint8](d, h, w)
								case 3:
									m = otherPool[int64](d, h, w)
								default:
									m = otherPool[float64](d, h, w)
								}
								return nil
							})
							if err != nil {
								m = err.Error()
							}
							if m != "" {
								t.Fail("%dx%dx%d, type %d, use %d: %s", d, h, w, typ, i, m)
								return
							}
						}
						t.Outcome("as expected")
					})
				}},
			}}
	})
}

func otherPool[T float32 | int32 | uint8 | int64 | float64](d, h, w int) string {
	m := util.MakeMatrix3DPooled[T](d, h, w)
	rs, bad := rows3(m, [3]int{d, h, w})
	n := util.MakeMatrix2DPooled[T](h, w)
	if bad == "" {
		var r2 [][]T
		r2, bad = rows3([][][]T{n}, [3]int{1, h, w})
		rs = append(rs, r2...)
	}
	if bad != "" {
		return "shape: " + bad
	}
	for _, r := range rs {
		for k := range r {
			if r[k] != 0 {
				return "not zero"
			}
			r[k] = 1
		}
	}
	util.ReturnMatrix3DToPool(m)
	util.ReturnMatrix2DToPool(n)
	return ""
}
