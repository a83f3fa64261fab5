package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"verif/mc"
	"verif/mcrt"
	"verif/mcrt/msync"
)

// program is what runs under the controlled scheduler: a decode of one file, or
// decodes of several files at the same time.
type program struct {
	Files  []string
	Par    int // workers per decode
	Policy int // default order of goroutines
	FIFO   bool
	Bound  int // deviations from the default order
	Shard  int // of the first deviation
	Parts  int
	Prefix []mcrt.Choice // of the only execution (cold)
	Cold   bool          // nothing was decoded before in the process
	Pool   *poolProg     // instead of decodes
}

func (p program) String() string {
	if p.Pool != nil {
		return fmt.Sprintf("%v order %d fifo %v", p.Pool, p.Policy, p.FIFO)
	}
	return fmt.Sprintf("%v workers %d order %d fifo %v", p.Files, p.Par, p.Policy, p.FIFO)
}

func decodeResult(f CFile, par int) string {
	im, err := decode(f.B, par)
	switch {
	case isPanic(err):
		return "panic"
	case err != nil:
		return "error"
	case im == nil:
		return "nothing"
	}
	return im.hash()
}

// body is the program as a function.
func (p program) body() func() []string {
	if p.Pool != nil {
		return p.Pool.run
	}
	var fs []CFile
	for _, n := range p.Files {
		fs = append(fs, corpusFile(n))
	}
	if len(fs) == 1 {
		return func() []string { return []string{decodeResult(fs[0], p.Par)} }
	}
	return func() []string {
		res := make([]string, len(fs))
		var wg msync.WaitGroup
		for i := range fs {
			wg.Add(1)
			start := func() {
				defer wg.Done()
				res[i] = decodeResult(fs[i], p.Par)
			}
			mcrt.Go(start)
		}
		wg.Wait()
		return res
	}
}

// plainBody is used when the code under test could not be instrumented.
func (p program) plainBody() func() []string {
	if p.Pool != nil {
		return p.Pool.run
	}
	return func() []string {
		res := make([]string, len(p.Files))
		done := make(chan bool)
		for i, n := range p.Files {
			f := corpusFile(n)
			go func() {
				defer func() { done <- true }()
				res[i] = decodeResult(f, p.Par)
			}()
		}
		for range p.Files {
			<-done
		}
		return res
	}
}

// schedRun is one execution.
type schedRun struct {
	Out []string
	O   mcrt.Outcome
	// number of race reports
	Race int
}

func (p program) execute(f func() []string, prefix []mcrt.Choice) (r schedRun) {
	before := mcrt.RaceErrors()
	if mcrt.Instrumented {
		mcrt.SetPolicy(p.Policy)
		mcrt.SetPoolFIFO(p.FIFO)
		r.O = mcrt.Run(prefix, 1<<20, func() { r.Out = f() })
	} else {
		r.Out = f()
	}
	r.Race = mcrt.RaceErrors() - before
	return
}

// schedule lists the decisions that differ from the default.
func schedule(tr []mcrt.Choice) string {
	s := ""
	for i, c := range tr {
		if c.V != 0 {
			s += fmt.Sprintf("%d:%d ", i, c.V)
		}
	}
	return fmt.Sprintf("deviations %sof %d decisions", s, len(tr))
}

// deviations calls g with every prefix that extends an execution by one more
// deviation, up to the bound.
func deviations(tr []mcrt.Choice, from int, g func(k int, prefix []mcrt.Choice) bool) {
	k := 0
	for i := from; i < len(tr); i++ {
		for v := 1; v < tr[i].N; v++ {
			if !g(k, append(append([]mcrt.Choice(nil), tr[:i]...), mcrt.Choice{N: tr[i].N, V: v})) {
				return
			}
			k++
		}
	}
}

// explored summarises the executions of a program.
type explored struct {
	Runs, Steps, Switches, Diverged, Threads int
	Bad                                      string
	Trace                                    []mcrt.Choice // of the default execution
	Outs                                     []string      // of the default execution
}

// explore executes the program under every schedule of its shard; judge
// returns what is wrong with an execution.
func (p program) explore(judge func(r schedRun) string) (e explored) {
	f := p.body()
	if !mcrt.Instrumented {
		f = p.plainBody()
		for i := 0; i < 4 && e.Bad == ""; i++ {
			r := p.execute(f, nil)
			e.Runs++
			e.Bad = judge(r)
		}
		return
	}
	one := func(prefix []mcrt.Choice) (r schedRun) {
		r = p.execute(f, prefix)
		e.Runs++
		e.Steps += r.O.Steps
		e.Switches += r.O.Switches
		e.Threads = max(e.Threads, r.O.Threads)
		if r.O.Diverged {
			e.Diverged++
		}
		if m := judge(r); m != "" && e.Bad == "" {
			e.Bad = fmt.Sprintf("%s [%s; %s]", m, p, schedule(r.O.Trace))
		}
		return
	}
	if p.Cold {
		r := one(p.Prefix)
		e.Trace, e.Outs = r.O.Trace, r.Out
		return
	}
	// lazily created state exists after the first execution
	one(nil)
	var walk func(prefix []mcrt.Choice, left int)
	walk = func(prefix []mcrt.Choice, left int) {
		r := one(prefix)
		if len(prefix) == 0 {
			e.Trace, e.Outs = r.O.Trace, r.Out
		}
		if left == 0 || e.Bad != "" || r.O.Diverged {
			return
		}
		deviations(r.O.Trace, len(prefix), func(k int, next []mcrt.Choice) bool {
			if len(prefix) == 0 && p.Parts > 1 && k%p.Parts != p.Shard {
				return true
			}
			walk(next, left-1)
			return e.Bad == ""
		})
	}
	walk(nil, p.Bound)
	return
}

func (e explored) count(t *mc.T) {
	t.Runs(e.Runs)
	t.Trans(e.Steps)
	t.States(e.Steps + e.Runs)
	if e.Diverged > 0 {
		t.Outcome("schedules that did not replay")
	}
	if !mcrt.Instrumented {
		t.Outcome("not instrumented: free-running executions only")
	}
}

// healthy is the judgement on liveness: nothing blocks for ever.
func healthy(r schedRun) string {
	o := r.O
	switch {
	case o.Deadlock != "":
		return "deadlock: " + o.Deadlock
	case o.Leaked != "":
		return "the call returned, but left goroutines blocked for ever: " + o.Leaked
	case o.TooLong:
		return "no end after 1048576 scheduling steps"
	case o.Crash != "":
		return "panic in a goroutine ends the process: " + o.Crash
	case r.Race > 0:
		return "data race"
	}
	return ""
}

// SchedMain executes a program given as JSON and prints the result as JSON
// (used for executions in fresh processes and with the race detector).
func SchedMain(arg string) int {
	runtime.GOMAXPROCS(2)
	var p program
	if err := json.Unmarshal([]byte(arg), &p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, n := range p.Files {
		corpusFile(n)
	}
	e := p.explore(healthy)
	b, _ := json.Marshal(e)
	fmt.Printf("\nRESULT %s\n", b)
	return 0
}

// child explores a program in a fresh process.
func (p program) child(exe string) (e explored, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	arg, _ := json.Marshal(p)
	cmd := exec.CommandContext(ctx, exe, "sched", string(arg))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if i := strings.Index(string(out), "\nRESULT "); i >= 0 {
		err = json.Unmarshal(out[i+8:], &e)
		if e.Bad != "" {
			e.Bad += raceText(errb.String())
		}
		return
	}
	s := errb.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	return e, fmt.Errorf("%v: %.600s", err, s)
}

// raceText is the essence of the first race report.
func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=========="); j > 0 {
		s = s[:j]
	}
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "/repo/") || strings.Contains(l, "by main") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	return " | " + strings.Join(keep[:min(len(keep), 12)], " | ")
}
