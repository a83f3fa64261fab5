package checks

import (
	"fmt"
	"os"
	"sync"

	"verif/mc"
	"verif/mcrt"
)

var refResults sync.Map

// refResult is the result of decoding a file alone under the default order.
func refResult(name string) string {
	if v, ok := refResults.Load(name); ok {
		return v.(string)
	}
	p := program{Files: []string{name}, Par: 2}
	e := p.explore(func(schedRun) string { return "" })
	r := "stuck"
	if len(e.Outs) > 0 {
		r = e.Outs[0]
	}
	if !mcrt.Instrumented {
		r = decodeResult(corpusFile(name), 2)
	}
	refResults.Store(name, r)
	return r
}

// sameResult judges an execution by what the decodes delivered.
func (p program) sameResult() func(r schedRun) string {
	var want []string
	for _, n := range p.Files {
		want = append(want, refResult(n))
	}
	return func(r schedRun) string {
		if r.O.Deadlock != "" || r.O.TooLong || r.O.Crash != "" || len(r.Out) != len(want) {
			return fmt.Sprintf("no result (%s)", healthy(r))
		}
		for i := range want {
			if r.Out[i] != want[i] {
				return fmt.Sprintf("%s gives %q, under the default order alone %q", p.Files[i], r.Out[i], want[i])
			}
		}
		return ""
	}
}

func (p program) check(t *mc.T, judge func(r schedRun) string) {
	t.Input([]byte(fmt.Sprint(p)))
	e := p.explore(judge)
	e.count(t)
	if e.Bad != "" {
		t.Fail("%s", e.Bad)
		return
	}
	t.Outcome(fmt.Sprintf("as expected (%d goroutines)", e.Threads))
}

// checkChild does the same in a fresh process.
func (p program) checkChild(t *mc.T, exe string) {
	t.Input([]byte(fmt.Sprint(p)))
	e, err := p.child(exe)
	e.count(t)
	switch {
	case err != nil:
		t.Fail("%s: the process ended: %v", p, err)
	case e.Bad != "":
		t.Fail("%s", e.Bad)
	default:
		t.Outcome("as expected")
	}
}

func corpusNames(pred func(f CFile) bool) (o []string) {
	for _, f := range corpus() {
		if pred(f) {
			o = append(o, f.Name)
		}
	}
	return
}

func isFast(f CFile) bool { return !f.VD && f.Name != "m-lfgroups" && f.Name != "m-groups" }
func isSlow(f CFile) bool { return !isFast(f) }

// schedSpace enumerates programs of single decodes.
func schedSpace(name string, quick bool, names func() []string, pars []int, policies int, bq, bt, parts int, judge func(p program) func(r schedRun) string) mc.Space {
	return mc.Space{Name: name, Quick: quick, Body: func(x *mc.X) {
		ns := names()
		p := program{Parts: parts}
		p.Files = []string{ns[x.Choose("file", len(ns))]}
		p.Par = pars[x.Choose("workers", len(pars))]
		p.Policy = x.Choose("default order", policies)
		p.Bound = x.Pick(bq, bt)
		if p.Bound > 0 {
			p.Shard = x.Choose("part", parts)
		} else {
			p.Parts = 1
		}
		x.Do(func(t *mc.T) { p.check(t, judge(p)) })
	}}
}

func init() {
	same := func(p program) func(r schedRun) string { return p.sameResult() }
	live := func(p program) func(r schedRun) string { return healthy }
	fast := func() []string { return corpusNames(isFast) }
	slow := func() []string { return corpusNames(isSlow) }
	slowNotHuge := func() []string {
		return corpusNames(func(f CFile) bool { return isSlow(f) && f.Name != "v-lfgroups" })
	}
	concurrent := func() []string {
		return []string{"v-filter", "v-2pass", "v-groups", "b-vgroups2", "b-vlf2", "m-groups", "b-mgroups", "m-lfgroups"}
	}
	racy := func() string { return os.Getenv("JXLMC_RACE") }
	assume := []string{"interleavings within code without synchronisation operations are immaterial because it is race-free (C21)", "pooled buffers may be handed out in any order; the oldest, the newest and a new one are considered"}
	register(func() *mc.Check {
		return &mc.Check{ID: "C20", Level: "exploration", Technique: "stateless exploration of thread interleavings: the synchronisation of the real code is rewritten onto a controlled scheduler, all schedules within a deviation bound are executed",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "modular files: 2,3,4,8 workers, 3 default orders, up to 3 deviations with 2 workers and 2 with more; VarDCT files: 2 workers up to 2 deviations, 4 and 8 workers 1"
				}
				return "modular files: 2,3,4 workers, 3 default orders, up to 2 deviations; VarDCT and large files: 2 and 4 workers, 3 default orders, up to 1 deviation with 2 workers (newest-first order)"
			},
			Rule:   "an execution is determined by its decisions (which ready goroutine goes on at a synchronisation operation, which case of a select, which pooled item); every deviation from a default order is executed up to the bound, and the image (or the fact of failure) compared with that of the default order",
			Assume: assume, HangS: 300,
			Spaces: []mc.Space{
				schedSpace("modular", true, fast, []int{2, 3, 4}, mcrt.Policies, 2, 2, 1, same),
				schedSpace("modular, 3 deviations", false, fast, []int{2}, mcrt.Policies, 3, 3, 4, same),
				schedSpace("modular, 8 workers", false, fast, []int{8}, mcrt.Policies, 1, 1, 2, same),
				schedSpace("large, default orders", true, slow, []int{2, 4}, mcrt.Policies, 0, 0, 1, same),
				schedSpace("workers by default", true, func() []string { return corpusNames(func(CFile) bool { return true }) }, []int{1}, mcrt.Policies, 0, 0, 1, same),
				schedSpace("large, 1 deviation", true, slowNotHuge, []int{2}, 1, 1, 1, 2, same),
				schedSpace("large, 1 deviation, other orders", false, slow, []int{3, 4, 8}, mcrt.Policies, 1, 1, 4, same),
				schedSpace("large, 2 deviations", false, slowNotHuge, []int{2}, 1, 2, 2, 16, same),
			}}
	})
	register(func() *mc.Check {
		race := mc.Space{Name: "races", Quick: true, Body: func(x *mc.X) {
			ns := corpusNames(func(CFile) bool { return true })
			p := program{Parts: 1}
			p.Files = []string{ns[x.Choose("file", len(ns))]}
			if x.Choose("second decode at the same time", 2) == 1 {
				p.Files = append(p.Files, p.Files[0])
			}
			f := corpusFile(p.Files[0])
			np := 2
			if isSlow(f) && len(p.Files) > 1 {
				np = x.Pick(1, 2)
				if !x.Thorough() && (f.Bad || f.Name == "v-lfgroups" || f.Name == "v-mats" || f.Name == "v-32" || f.Name == "v-420" || f.Name == "v-alpha") {
					x.Prune()
				}
			}
			p.Par = []int{2, 4}[x.Choose("workers", np)]
			if isFast(f) {
				p.Policy = x.Choose("default order", mcrt.Policies)
				p.Bound = x.Pick(1, 1)
			} else if x.Thorough() {
				p.Policy = x.Choose("default order", mcrt.Policies)
				if len(p.Files) == 1 {
					p.Bound, p.Parts = 1, 16
					p.Shard = x.Choose("part", 16)
				}
			} else {
				p.Cold = true
				p.Policy = mcrt.RoundRobin
				if p.Par == 2 && len(p.Files) == 1 {
					p.Policy = mcrt.RunOn
				}
			}
			x.Do(func(t *mc.T) {
				if racy() == "" {
					t.Outcome("no race detector build")
					return
				}
				p.checkChild(t, racy())
			})
		}}
		first := mc.Space{Name: "first use", Quick: true, Body: func(x *mc.X) {
			// two decodes in a fresh process: lazily created state
			ns := [][]string{{"x-filter1", "x-filter1"}, {"x-filter1", "x-filter2"}, {"m-filter", "m-filter"}}
			if x.Thorough() {
				ns = append(ns, []string{"m-gray", "m-gray"}, []string{"m-blend", "m-blend"}, []string{"v-8", "v-8"}, []string{"v-filter", "v-filter"})
			}
			p := program{Cold: true, Par: 2}
			fi := x.Choose("files", len(ns))
			p.Files = ns[fi]
			parts := 24
			p.Policy = x.Choose("default order", mcrt.Policies)
			part := x.Choose("part", parts)
			x.Do(func(t *mc.T) {
				exe, err := os.Executable()
				if err != nil || !mcrt.Instrumented {
					t.Outcome("not instrumented")
					return
				}
				if racy() != "" && fi < 2 {
					exe = racy()
				}
				e, err := p.child(exe)
				if err != nil {
					t.Fail("%s: the process ended: %v", p, err)
					return
				}
				t.Input([]byte(fmt.Sprint(p)))
				e.count(t)
				if e.Bad != "" {
					t.Fail("%s", e.Bad)
					return
				}
				deviations(e.Trace, 0, func(k int, next []mcrt.Choice) bool {
					if k%parts != part {
						return true
					}
					q := p
					q.Prefix = next
					r, err := q.child(exe)
					r.count(t)
					if err != nil {
						t.Fail("%s: the process ended: %v", q, err)
						return false
					}
					if r.Bad != "" {
						t.Fail("%s", r.Bad)
						return false
					}
					return true
				})
				t.Outcome("as expected")
			})
		}}
		return &mc.Check{ID: "C21", Level: "exploration", Technique: "stateless exploration of thread interleavings under a controlled scheduler that knows what every goroutine waits for; happens-before race detection on executions of an instrumented race build",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "as C20 for deadlocks and leaks; races: every corpus file alone and twice at the same time, 2 and 4 workers, 3 default orders, 1 deviation for the single decode; first use of shared state with 1 deviation in fresh processes"
				}
				return "modular files: 2,3,4 workers, 3 default orders, up to 2 deviations (3 orders); large files up to 1; races: every corpus file alone and twice at the same time with 2 and 4 workers, modular ones with 1 deviation; first use of shared state with 1 deviation"
			},
			Rule:   "in every execution all goroutines end (none is blocked when nothing else can go on) and none panics; the race detector sees only the happens-before edges of the program, not those of the scheduler",
			Assume: []string{"the memory model of the Go race detector"}, HangS: 300,
			Spaces: []mc.Space{
				schedSpace("modular", true, fast, []int{2, 3, 4}, mcrt.Policies, 1, 2, 1, live),
				schedSpace("modular, 3 deviations", false, fast, []int{2}, mcrt.Policies, 3, 3, 4, live),
				schedSpace("large", true, concurrent, []int{2}, 1, 1, 1, 2, live),
				schedSpace("large, other orders", false, slow, []int{3, 4, 8}, mcrt.Policies, 1, 1, 4, live),
				race, first,
			}}
	})
	register(func() *mc.Check {
		pair := func(name string, quick bool, from func(x *mc.X) ([]string, []string), bq, bt, parts int) mc.Space {
			return mc.Space{Name: name, Quick: quick, Body: func(x *mc.X) {
				as, bs := from(x)
				p := program{Parts: parts}
				a := x.Choose("first file", len(as))
				b := x.Choose("second file", len(bs))
				p.Files = []string{as[a], bs[b]}
				p.Par = []int{2, 3}[x.Choose("workers", x.Pick(1, 2))]
				p.Policy = x.Choose("default order", mcrt.Policies)
				p.FIFO = x.Choose("pool order", 2) == 1
				p.Bound = x.Pick(bq, bt)
				if p.Bound > 0 {
					p.Shard = x.Choose("part", parts)
				} else {
					p.Parts = 1
				}
				x.Do(func(t *mc.T) { p.check(t, p.sameResult()) })
			}}
		}
		return &mc.Check{ID: "C23", Level: "exploration", Technique: "stateless exploration of the interleavings of concurrent decodes under a controlled scheduler, on the real code",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all ordered pairs of modular files and of 6 VarDCT files, 3 default orders, both pool orders, up to 1 deviation (modular pairs of the same file: 2); triples of 5 files"
				}
				return "all ordered pairs of modular files (1 deviation from 3 default orders, both pool orders); pairs of 5 VarDCT and damaged files under the default orders; triples"
			},
			Rule:   "each of the decodes must deliver what it delivers alone, under every schedule within the bound",
			Assume: assume, HangS: 300,
			Spaces: []mc.Space{
				pair("modular pairs", true, func(x *mc.X) ([]string, []string) {
					if x.Thorough() {
						return fast(), fast()
					}
					s := []string{"m-gray", "m-blend", "m-upsample", "m-filter", "b-cut"}
					return s, s
				}, 1, 1, 1),
				pair("modular pairs, 2 deviations", false, func(x *mc.X) ([]string, []string) {
					s := []string{"m-gray", "m-upsample", "m-blend"}
					return s, s
				}, 2, 2, 8),
				pair("large pairs", true, func(x *mc.X) ([]string, []string) {
					if x.Thorough() {
						return slow(), slow()
					}
					return []string{"v-8", "v-filter", "v-luma-sub", "b-vcut"}, []string{"v-8", "v-filter", "v-luma-sub", "v-lfgroups", "m-groups"}
				}, 0, 0, 1),
				pair("large pairs, 1 deviation", false, func(x *mc.X) ([]string, []string) {
					return []string{"v-8", "v-filter", "v-luma-sub"}, []string{"v-8", "v-groups", "b-vcut"}
				}, 1, 1, 8),
				{Name: "triples", Quick: true, Body: func(x *mc.X) {
					ns := []string{"m-gray", "m-filter", "m-blend", "m-upsample", "b-cut"}
					p := program{Parts: 1, Par: 2}
					for i := 0; i < 3; i++ {
						p.Files = append(p.Files, ns[x.Choose("file", len(ns))])
					}
					p.Policy = x.Choose("default order", mcrt.Policies)
					p.Bound = x.Pick(0, 1)
					x.Do(func(t *mc.T) { p.check(t, p.sameResult()) })
				}},
			}}
	})
}
