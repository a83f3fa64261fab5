package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/mc"
	"verif/mcrt"
)

// hash of all samples of an image.
func (im *Img) hash() string {
	h := fnv.New128a()
	var b [8]byte
	put := func(v uint64) { binary.LittleEndian.PutUint64(b[:], v); h.Write(b[:]) }
	put(uint64(im.W))
	put(uint64(im.H))
	for c := range im.Ch {
		p := &im.Ch[c]
		put(uint64(p.W))
		put(uint64(p.H))
		for y := range p.I {
			for _, v := range p.I[y] {
				put(uint64(uint32(v)))
			}
		}
		for y := range p.F {
			for _, v := range p.F[y] {
				put(uint64(math.Float32bits(v)))
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// HistMain runs a history of decodes in this process: args are the worker
// count and file names, each optionally followed by ? (only parse), + (write
// PNG and PFM, convert to a Go image) or @n (other worker count).
func HistMain(args []string) int {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	par, _ := strconv.Atoi(strings.TrimPrefix(args[0], "F"))
	if mcrt.Instrumented && !mcrt.Active() {
		// pooled buffers are handed out by the controlled pool
		mcrt.SetPoolFIFO(args[0][0] == 'F')
		code := 0
		o := mcrt.Run(nil, 1<<24, func() { code = HistMain(args) })
		if o.Crash != "" || o.Deadlock != "" {
			fmt.Fprintln(os.Stderr, "panic: "+o.Crash+o.Deadlock)
			return 2
		}
		return code
	}
	type kept struct {
		im *Img
		h  string
	}
	var ks []kept
	for _, a := range args[1:] {
		n := par
		name, op, _ := strings.Cut(a, ":")
		f := corpusFile(name)
		if strings.HasPrefix(op, "p") {
			n, _ = strconv.Atoi(op[1:])
		}
		if op == "parse" {
			fmt.Println(parseOnly(f.B))
			continue
		}
		im, err := decode(f.B, n)
		switch {
		case err == nil && im == nil:
			fmt.Println("nil")
		case err == nil:
			h := im.hash()
			ks = append(ks, kept{im, h})
			if strings.Contains(name, "/") {
				// the profile shows in the PNG file only
				sum := fnv.New64a()
				err := guard(func() error { return (&core.PNGWriter{}).WritePNG(im.J, sum) })
				fmt.Println("ok", h, sum.Sum64(), err != nil)
				continue
			}
			fmt.Println("ok", h)
		case isPanic(err):
			fmt.Println("panic")
		default:
			fmt.Println("err")
		}
		if op == "out" && err == nil && im != nil {
			// results of conversions are of no interest here
			_ = guard(func() error { return (&core.PNGWriter{}).WritePNG(im.J, io.Discard) })
			_ = guard(func() error { return core.WritePFM(im.J, io.Discard) })
			_ = guard(func() error { _, err := im.J.ToImage(); return err })
			ks = ks[:len(ks)-1]
		}
	}
	for i, k := range ks {
		if h := k.im.hash(); h != k.h {
			fmt.Printf("changed %d\n", i)
		}
	}
	return 0
}

func parseOnly(b []byte) string {
	err := guard(func() error {
		d := core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{ParseOnly: true, MaxGoroutines: 1})
		_, err := d.GetImageHeader()
		return err
	})
	switch {
	case err == nil:
		return "parsed"
	case isPanic(err):
		return "panic"
	}
	return "err"
}

func runHist(par string, ops []string) ([]string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.CommandContext(ctx, exe, append([]string{"hist", par}, ops...)...)
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if err != nil {
		e := errb.String()
		if i := strings.Index(e, "panic:"); i >= 0 {
			e = e[i:]
		}
		return lines, fmt.Errorf("%v: %.300s", err, e)
	}
	return lines, nil
}

var histAlone sync.Map

// alone is the result of a single operation in a fresh process.
func alone(par string, op string) string {
	k := fmt.Sprint(par, op)
	if v, ok := histAlone.Load(k); ok {
		return v.(string)
	}
	l, err := runHist(par, []string{op})
	r := strings.Join(l, "|")
	if err != nil {
		r = "crash"
	}
	histAlone.Store(k, r)
	return r
}

func checkHist(t *mc.T, par string, ops []string) {
	t.Runs(len(ops))
	t.States(len(ops) + 1)
	t.Trans(len(ops))
	t.Input([]byte(fmt.Sprint(par, ops)))
	got, err := runHist(par, ops)
	for i, op := range ops {
		want := alone(par, op)
		g := "crash"
		if i < len(got) && !(err != nil && i == len(got)-1 && got[i] == "") {
			g = got[i]
		}
		if err != nil && want == "crash" && g == "crash" {
			t.Outcome("crash as alone (see C28)")
			return
		}
		if g != want {
			t.Fail("operation %d (%s) gives %q after the history, %q in a fresh process%s", i, op, g, want, map[bool]string{true: fmt.Sprint(" (", err, ")")}[err != nil])
			return
		}
	}
	for _, l := range got[min(len(got), len(ops)):] {
		t.Fail("an image returned earlier in the history was modified by a later decode: %s", l)
		return
	}
	t.Outcome("independent of the history")
}

func init() {
	register(func() *mc.Check {
		names := func(pred func(f CFile) bool) (o []string) {
			for _, f := range corpus() {
				if pred(f) {
					o = append(o, f.Name)
				}
			}
			return
		}
		all := func() []string { return names(func(CFile) bool { return true }) }
		pick := func(x *mc.X, label string, from []string) string {
			i := x.Choose(label, len(from))
			return from[i]
		}
		// who gets a pooled buffer: the newest or (controlled pool) the oldest one
		order := func(x *mc.X) string { return []string{"F1", "1"}[x.Choose("pool order", x.Pick(1, 2))] }
		core10 := []string{"m-squeeze", "m-groups", "m-blend", "m-filter", "v-8", "v-filter", "v-luma-sub", "v-groups", "b-vcut", "b-vflip"}
		return &mc.Check{ID: "C22", Level: "model_checking", Technique: "stateless model checking of decode histories: every sequence up to the bound is executed by the real decoder in a fresh process and compared with fresh-process results",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return fmt.Sprintf("all sequences of 2 and 3 operations over %d files, sequences of 4 over 10 files, repetitions, output operations in between, 1 and 4 workers; files with parameters of their own and with the defaults in 6 sequences over all pairs of %d parameters", len(corpus()), len(params))
				}
				return fmt.Sprintf("every one of %d files followed by each of 13 (oldest and newest pooled buffer handed out), 4 workers on 6 files, sequences of 3 over 6 files, each file written out or parsed between decodes; files with parameters of their own between files with the defaults, %d parameters", len(corpus()), len(params))
			},
			Rule:   "each history is executed once in a fresh process with collection off and one processor, so that pooled buffers are handed on deterministically; every result and all images returned earlier are compared",
			Assume: []string{"collection and other processors only reduce the reuse of pooled buffers"},
			HangS:  120,
			Spaces: []mc.Space{
				{Name: "pairs", Quick: true, Body: func(x *mc.X) {
					second := all()
					if !x.Thorough() {
						second = []string{"m-gray", "m-filter", "m-blend", "m-xyb", "m-groups", "v-8", "v-filter", "v-32", "v-luma-sub", "v-420", "v-groups", "v-alpha", "b-vcut"}
					}
					a, b := pick(x, "first", all()), pick(x, "second", second)
					o := []string{"F1", "1"}[x.Choose("pool order", 2)]
					x.Do(func(t *mc.T) { checkHist(t, o, []string{a, b}) })
				}},
				{Name: "triples", Quick: true, Body: func(x *mc.X) {
					from := []string{"m-blend", "m-filter", "v-filter", "v-luma-sub", "v-groups", "b-vcut"}
					if x.Thorough() {
						from = all()
					}
					ops := []string{pick(x, "first", from), pick(x, "second", from), pick(x, "third", from)}
					o := order(x)
					x.Do(func(t *mc.T) { checkHist(t, o, ops) })
				}},
				{Name: "quadruples", Body: func(x *mc.X) {
					ops := []string{pick(x, "first", core10), pick(x, "second", core10), pick(x, "third", core10), pick(x, "fourth", core10)}
					o := order(x)
					x.Do(func(t *mc.T) { checkHist(t, o, ops) })
				}},
				{Name: "workers", Quick: true, Body: func(x *mc.X) {
					from := []string{"m-groups", "m-filter", "v-filter", "v-luma-sub", "v-groups", "b-vgroups"}
					if x.Thorough() {
						from = all()
					}
					a, b := pick(x, "first", from), pick(x, "second", from)
					x.Do(func(t *mc.T) { checkHist(t, "4", []string{a, b}) })
				}},
				{Name: "one decoder", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(func(f CFile) bool { return f.Name != "v-lfgroups" })
					f := fs[x.Choose("file", len(fs))]
					n := 2
					if !f.VD || x.Thorough() {
						n += x.Choose("length", x.Pick(2, 3))
					}
					var ops []byte
					for i := 0; i < n; i++ {
						ops = append(ops, "HD"[x.Choose("operation", 2)])
					}
					x.Do(func(t *mc.T) {
						t.Runs(n)
						t.States(n + 1)
						t.Trans(n)
						t.Input(append(ops, f.B...))
						dec := core.NewJXLDecoder(bytes.NewReader(f.B), &options.JXLOptions{MaxGoroutines: 2})
						var kept []*Img
						var hashes []string
						for i, o := range ops {
							d := dry(f.Name, f.B, map[byte]int{'D': 0, 'H': 1}[o])
							var res string
							err := guard(func() error {
								if o == 'H' {
									h, err := dec.GetImageHeader()
									res = headerText(h)
									return err
								}
								im, err := dec.Decode()
								if err == nil && im == nil {
									return errNil
								}
								if err == nil {
									res = neutral(im).hash()
									kept, hashes = append(kept, neutral(im)), append(hashes, res)
								}
								return err
							})
							if (err != nil) != (d.err != nil) || err == nil && res != d.res {
								t.Fail("operation %d of %s on one decoder of %s: %q %v, with a decoder of its own %q %v", i, ops, f.Name, res, err, d.res, d.err)
								return
							}
						}
						for i := range kept {
							if kept[i].hash() != hashes[i] {
								t.Fail("%s on one decoder of %s: image %d was modified by a later operation", ops, f.Name, i)
								return
							}
						}
						t.Outcome("independent of the history")
					})
				}},
				{Name: "parameters", Quick: true, Body: func(x *mc.X) {
					// values kept from a file with parameters of its own, or from one with the defaults
					p := params[x.Choose("parameter", len(params))]
					seqs := [][]int{{1, 0, 1}, {0, 2, 1, 0}}
					if x.Thorough() {
						seqs = [][]int{{1, 0, 1}, {0, 2, 1, 0}, {0, 1, 0}, {2, 0, 2}, {1, 2, 1}, {2, 1, 2}}
					}
					seq := seqs[x.Choose("sequence", len(seqs))]
					q := p
					if x.Thorough() {
						q = params[x.Choose("other parameter", len(params))]
					}
					o := order(x)
					x.Do(func(t *mc.T) {
						var ops []string
						for i, k := range seq {
							n := p
							if i%2 == 1 {
								n = q
							}
							ops = append(ops, fmt.Sprint(n, "/", k))
						}
						checkHist(t, o, ops)
					})
				}},
				{Name: "outputs", Quick: true, Body: func(x *mc.X) {
					op := []string{":out", ":parse"}[x.Choose("operation", 2)]
					a := pick(x, "first", all())
					from := []string{"m-extra", "v-8"}
					if x.Thorough() {
						from = core10
					}
					b := pick(x, "second", from)
					o := order(x)
					x.Do(func(t *mc.T) { checkHist(t, o, []string{b, a + op, b, a}) })
				}},
			}}
	})
}
