package mc

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Finding is one entry of known_findings.jsonl.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "finding" or "fixed"
	Case     string `json:"case,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

var registry = map[string]*Check{}
var order []string

func Register(c *Check) {
	if _, dup := registry[c.ID]; dup {
		panic("dup check " + c.ID)
	}
	registry[c.ID] = c
	order = append(order, c.ID)
}

func IDs() []string {
	o := append([]string{}, order...)
	sort.Strings(o)
	return o
}

func Get(id string) *Check { return registry[id] }

func loadFindings(root string) []Finding {
	var fs []Finding
	f, err := os.Open(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		var k Finding
		if json.Unmarshal([]byte(l), &k) == nil {
			fs = append(fs, k)
		}
	}
	return fs
}

type record struct {
	Type  string   `json:"type"` // fail, stats
	Fail  *Failure `json:"fail,omitempty"`
	Index int64    `json:"index,omitempty"`
	Stats *Stats   `json:"stats,omitempty"`
	Done  bool     `json:"done,omitempty"`
	Next  int64    `json:"next,omitempty"`
}

func caseName(space string, x *X) string {
	if x.label != "" {
		return space + ": " + x.label
	}
	return space + ": " + x.describe()
}

// Worker runs one shard. argv: id tier shard nshards start deadlineUnix progressFile maxFails
func Worker(args []string) {
	id, tier := args[0], args[1]
	shard, _ := strconv.ParseInt(args[2], 10, 64)
	n, _ := strconv.ParseInt(args[3], 10, 64)
	start, _ := strconv.ParseInt(args[4], 10, 64)
	deadline, _ := strconv.ParseInt(args[5], 10, 64)
	prog, err := os.OpenFile(args[6], os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	prog.Truncate(16)
	mem, err := syscall.Mmap(int(prog.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := os.NewFile(3, "out")
	enc := json.NewEncoder(out)
	c := registry[id]
	c.limit()
	st := &Stats{Outcomes: map[string]int{}, SpaceLeaves: map[string]uint64{}}
	ex := &explorer{stats: st, distinct: map[uint64]struct{}{}}
	idx := int64(-1)
	fails := 0
	named := map[string]int{}
	stopped := false
	end := time.Unix(deadline, 0)
	setp := func(i int64) {
		binary.LittleEndian.PutUint64(mem[8:], uint64(time.Now().Unix()))
		binary.LittleEndian.PutUint64(mem[0:], uint64(i+1))
	}
	for _, sp := range c.Spaces {
		if tier == "quick" && !sp.Quick {
			continue
		}
		if stopped {
			break
		}
		explore(tier, sp, ex, func(x *X, leaf func(t *T)) bool {
			idx++
			st.Leaves++
			st.SpaceLeaves[sp.Name]++
			if idx%n != shard || idx < start {
				return true
			}
			if time.Now().After(end) {
				st.Capped = true
				st.CapNote = fmt.Sprintf("deadline reached in space %s at leaf %d", sp.Name, idx)
				stopped = true
				return false
			}
			setp(idx)
			runLeaf(x, leaf)
			if len(st.Samples) < 3 && (idx/n)%37 == 0 {
				s := caseName(sp.Name, x)
				if len(x.input) > 0 {
					h := x.input
					if len(h) > 48 {
						h = h[:48]
					}
					s += fmt.Sprintf(" input[%d]=%x", len(x.input), h)
				}
				st.Samples = append(st.Samples, s)
			}
			if x.failed != nil {
				f := x.failed
				if f.Case == "" {
					f.Case = caseName(sp.Name, x)
				} else if named[f.Case]++; named[f.Case] > 2 {
					return true // one case, already reported
				}
				f.Space = sp.Name
				f.Path = x.ints()
				f.Labels = x.describe()
				f.Input = x.input
				enc.Encode(record{Type: "fail", Fail: f, Index: idx})
				fails++
				if fails >= 40 {
					st.Capped = true
					st.CapNote = "stopped after 40 failures in one shard"
					stopped = true
					return false
				}
			}
			return true
		})
	}
	setp(-1)
	enc.Encode(record{Type: "stats", Stats: st, Done: true})
	os.Exit(0)
}

// runOne replays a single path in-process; returns the failure if any.
func runOne(c *Check, tier, space string, pathv []int) (*Failure, error) {
	for _, sp := range c.Spaces {
		if sp.Name != space {
			continue
		}
		st := &Stats{Outcomes: map[string]int{}, SpaceLeaves: map[string]uint64{}}
		ex := &explorer{stats: st, distinct: map[uint64]struct{}{}}
		// rebuild the path by running with forced values
		var path []choice
		for {
			x := &X{Tier: tier, e: ex, path: append([]choice{}, path...), Bound: 2}
			leaf := runPath(sp.Body, x)
			np := x.path
			if len(np) == len(path) || len(path) == len(pathv) {
				if leaf == nil {
					return nil, fmt.Errorf("path pruned")
				}
				runLeaf(x, leaf)
				if x.failed != nil {
					if x.failed.Case == "" {
						x.failed.Case = caseName(sp.Name, x)
					}
					x.failed.Labels = x.describe()
					x.failed.Input = x.input
				}
				return x.failed, nil
			}
			k := len(path)
			np[k].v = pathv[k]
			path = np[:k+1]
		}
	}
	return nil, fmt.Errorf("no such space %q", space)
}

// ReplayMain: replay a violation file; exit 1 if it reproduces.
func ReplayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Tier string
		Failure        Failure
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	c := registry[r.Property]
	if c == nil {
		fmt.Println("unknown property", r.Property)
		return 2
	}
	c.limit()
	f, err := runOne(c, r.Tier, r.Failure.Space, r.Failure.Path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if f == nil {
		fmt.Println("not reproduced: property holds on this path")
		return 0
	}
	fmt.Printf("reproduced: %s\n%s\n", f.Case, f.Msg)
	return 1
}

type shardState struct {
	mu     sync.Mutex
	fails  []*Failure
	stats  []*Stats
	errors []string
}

// Main runs a check. Returns the exit code.
func Main(id, tier, root string, seed int) int {
	c := registry[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown check %s\n", id)
		return 2
	}
	t0 := time.Now()
	work, err := os.MkdirTemp("", "jxlmc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	dl := 240
	if c.QuickDeadlineS > 0 {
		dl = c.QuickDeadlineS
	}
	if tier == "thorough" {
		dl = 840
		if v := os.Getenv("JXLMC_DEADLINE_S"); v != "" {
			dl, _ = strconv.Atoi(v)
		}
	}
	if v := os.Getenv("JXLMC_DEADLINE_S"); v != "" {
		dl, _ = strconv.Atoi(v)
	}
	deadline := t0.Add(time.Duration(dl) * time.Second)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if c.Workers > 0 {
		nw = c.Workers
	}
	hang := 120
	if c.HangS > 0 {
		hang = c.HangS
	}
	ss := &shardState{}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			start := int64(0)
			crashes := 0
			for {
				next, done := runShard(c, tier, i, nw, start, deadline, work, hang, ss)
				if done {
					return
				}
				crashes++
				if crashes > 12 {
					ss.mu.Lock()
					ss.stats = append(ss.stats, &Stats{Capped: true, CapNote: "stopped after 12 crashes in one shard"})
					ss.mu.Unlock()
					return
				}
				start = next
			}
		}(i)
	}
	wg.Wait()

	// aggregate
	agg := &Stats{Outcomes: map[string]int{}}
	var samples []any
	full := false
	for _, s := range ss.stats {
		agg.Runs += s.Runs
		agg.ExStates += s.ExStates
		agg.ExTrans += s.ExTrans
		agg.Distinct += s.Distinct
		if s.States > agg.States {
			agg.States = s.States
			agg.Trans = s.Trans
			agg.Leaves = s.Leaves
			agg.SpaceLeaves = s.SpaceLeaves
		}
		if s.MaxDepth > agg.MaxDepth {
			agg.MaxDepth = s.MaxDepth
		}
		for k, v := range s.Outcomes {
			agg.Outcomes[k] += v
		}
		for _, x := range s.Samples {
			if len(samples) < 12 {
				samples = append(samples, x)
			}
		}
		if s.Capped {
			agg.Capped = true
			agg.CapNote = s.CapNote
		}
		full = true
	}
	if !full {
		ss.errors = append(ss.errors, "no worker completed")
	}

	findings := loadFindings(root)
	known := map[string]Finding{}
	for _, f := range findings {
		if f.Status == "finding" && f.Property == id {
			known[f.Case] = f
		}
	}
	sort.SliceStable(ss.fails, func(a, b int) bool { return len(ss.fails[a].Path) < len(ss.fails[b].Path) })
	nviol := 0
	printed := 0
	seenKnown := map[string]bool{}
	code := 0
	for _, f := range ss.fails {
		if k, ok := known[f.Case]; ok {
			if !seenKnown[f.Case] {
				seenKnown[f.Case] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			}
			continue
		}
		nviol++
		code = 1
		if printed < 8 {
			printed++
			rp := filepath.Join(root, "evidence", fmt.Sprintf("%s.violation%d.json", id, printed))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "failure": f,
				"replay_cmd": "bash run.sh replay " + rp}, "", " ")
			os.MkdirAll(filepath.Dir(rp), 0o755)
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			msg := f.Msg
			if len(msg) > 1500 {
				msg = msg[:1500]
			}
			fmt.Printf("  case: %s\n  path: %s\n  %s\n", f.Case, f.Labels, msg)
		}
	}
	wall := time.Since(t0).Seconds()
	states := agg.States + agg.ExStates
	trans := agg.Trans + agg.ExTrans
	cov := map[string]any{
		"samples":             samples,
		"exhaustive":          !agg.Capped,
		"rule":                c.Rule,
		"bounds":              c.Bounds(tier),
		"max_choice_depth":    agg.MaxDepth,
		"leaves_per_space":    agg.SpaceLeaves,
		"observed_outcomes":   agg.Outcomes,
		"paths":               agg.Leaves,
		"known_findings_seen": len(seenKnown),
	}
	if agg.Capped {
		cov["cap_note"] = agg.CapNote
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = agg.Runs
		cov["distinct_inputs"] = agg.Distinct
	default:
		cov["evaluations"] = agg.Runs
		cov["distinct_nontrivial"] = agg.Distinct
		cov["choice_tree_states"] = states
		cov["choice_tree_transitions"] = trans
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d paths=%d impl-runs=%d distinct=%d violations=%d known=%d exhaustive=%v wall=%.1fs\n",
		id, tier, states, trans, agg.Leaves, agg.Runs, agg.Distinct, nviol, len(seenKnown), !agg.Capped, wall)
	if len(ss.errors) > 0 {
		for _, e := range ss.errors {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		if code == 0 {
			return 2
		}
	}
	return code
}

func runShard(c *Check, tier string, shard, n int, start int64, deadline time.Time, work string, hang int, ss *shardState) (next int64, done bool) {
	pf := filepath.Join(work, fmt.Sprintf("p%d", shard))
	os.Remove(pf)
	r, w, err := os.Pipe()
	if err != nil {
		ss.mu.Lock()
		ss.errors = append(ss.errors, err.Error())
		ss.mu.Unlock()
		return 0, true
	}
	cmd := exec.Command(os.Args[0], "worker", c.ID, tier, strconv.Itoa(shard), strconv.Itoa(n),
		strconv.FormatInt(start, 10), strconv.FormatInt(deadline.Unix(), 10), pf)
	cmd.ExtraFiles = []*os.File{w}
	mem := 2500
	if c.MemMB > 0 {
		mem = c.MemMB
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMEMLIMIT=%dMiB", mem), "GOTRACEBACK=single")
	errf, _ := os.Create(filepath.Join(work, fmt.Sprintf("err%d", shard)))
	cmd.Stderr = errf
	cmd.Stdout = nil
	if err := cmd.Start(); err != nil {
		ss.mu.Lock()
		ss.errors = append(ss.errors, err.Error())
		ss.mu.Unlock()
		return 0, true
	}
	w.Close()
	finished := make(chan struct{})
	hung := false
	go func() {
		tk := time.NewTicker(2 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-finished:
				return
			case <-tk.C:
				b, err := os.ReadFile(pf)
				if err != nil || len(b) < 16 {
					continue
				}
				ts := int64(binary.LittleEndian.Uint64(b[8:]))
				cur := int64(binary.LittleEndian.Uint64(b)) - 1
				if ts != 0 && cur >= 0 && time.Now().Unix()-ts > int64(hang) {
					hung = true
					cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(300 * time.Millisecond)
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	gotStats := false
	dec := json.NewDecoder(r)
	for {
		var rec record
		if err := dec.Decode(&rec); err != nil {
			break
		}
		ss.mu.Lock()
		if rec.Type == "fail" {
			ss.fails = append(ss.fails, rec.Fail)
		} else {
			ss.stats = append(ss.stats, rec.Stats)
			gotStats = true
		}
		ss.mu.Unlock()
	}
	werr := cmd.Wait()
	close(finished)
	r.Close()
	errf.Close()
	if gotStats && werr == nil {
		return 0, true
	}
	eb, _ := os.ReadFile(filepath.Join(work, fmt.Sprintf("err%d", shard)))
	es := string(eb)
	cur := int64(-1)
	if b, err := os.ReadFile(pf); err == nil && len(b) >= 8 {
		cur = int64(binary.LittleEndian.Uint64(b)) - 1
	}
	if cur < 0 || strings.Contains(es, "harness panic") {
		if len(es) > 3000 {
			es = es[:3000]
		}
		ss.mu.Lock()
		ss.errors = append(ss.errors, fmt.Sprintf("worker %d failed outside a leaf: %v: %s", shard, werr, es))
		ss.mu.Unlock()
		return 0, true
	}
	// attribute to leaf cur: confirm by re-running it alone in a fresh process
	f := locate(c, tier, cur)
	if f == nil {
		f = &Failure{Case: fmt.Sprintf("leaf %d", cur)}
	}
	sig := ""
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		sig = ws.Signal().String()
	}
	if i := strings.Index(es, "panic:"); i >= 0 {
		es = es[i:]
	} else if i := strings.Index(es, "fatal error:"); i >= 0 {
		es = es[i:]
	}
	if len(es) > 2500 {
		es = es[:2500]
	}
	f.Crash = !hung
	f.Hang = hung
	kind := "crashed the process"
	if hung {
		kind = fmt.Sprintf("did not terminate within %d s", hang)
	}
	f.Msg = fmt.Sprintf("the implementation %s (%v %s): %s", kind, werr, sig, es)
	ambiguous := hung || sig == "killed" || strings.Contains(es, "out of memory")
	if ambiguous {
		// out-of-memory kills and hangs must reproduce in isolation
		if !confirmAlone(c, tier, cur, hang) {
			ss.mu.Lock()
			ss.stats = append(ss.stats, &Stats{Capped: true, CapNote: "unconfirmed worker kill/hang at " + f.Case})
			ss.mu.Unlock()
			return cur + 1, false
		}
	}
	ss.mu.Lock()
	ss.fails = append(ss.fails, f)
	ss.mu.Unlock()
	return cur + 1, false
}

func confirmAlone(c *Check, tier string, idx int64, hang int) bool {
	cmd := exec.Command(os.Args[0], "leaf", c.ID, tier, strconv.FormatInt(idx, 10))
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6000MiB")
	if err := cmd.Start(); err != nil {
		return false
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		return err != nil
	case <-time.After(time.Duration(2*hang) * time.Second):
		cmd.Process.Kill()
		return true
	}
}

// locate finds the path of a leaf index without running it.
func locate(c *Check, tier string, want int64) (f *Failure) {
	st := &Stats{Outcomes: map[string]int{}, SpaceLeaves: map[string]uint64{}}
	ex := &explorer{stats: st, distinct: map[uint64]struct{}{}}
	idx := int64(-1)
	for _, sp := range c.Spaces {
		if tier == "quick" && !sp.Quick {
			continue
		}
		explore(tier, sp, ex, func(x *X, leaf func(t *T)) bool {
			idx++
			if idx == want {
				f = &Failure{Case: caseName(sp.Name, x), Space: sp.Name, Path: x.ints(), Labels: x.describe()}
				return false
			}
			return true
		})
		if f != nil {
			return f
		}
	}
	return nil
}

// LeafMain runs one leaf by index (crash confirmation, debugging).
func LeafMain(id, tier string, want int64) int {
	c := registry[id]
	f := locate(c, tier, want)
	if f == nil {
		return 2
	}
	c.limit()
	r, err := runOne(c, tier, f.Space, f.Path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if r != nil {
		fmt.Println(r.Case, r.Msg)
		return 1
	}
	return 0
}
