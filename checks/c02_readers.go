package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/mc"
)

// scripted is a reader whose behaviour is decided call by call.
type scripted struct {
	b     []byte
	pos   int64
	reads int
	seeks int
	// onRead returns how many bytes to deliver and the error to return with them
	onRead func(call, want, avail int) (int, error)
	onSeek func(call int) error
}

func (r *scripted) Read(p []byte) (int, error) {
	call := r.reads
	r.reads++
	avail := len(r.b) - int(r.pos)
	if avail < 0 {
		avail = 0
	}
	n, err := min(len(p), avail), error(nil)
	if len(p) > 0 && avail == 0 {
		err = io.EOF
	}
	if r.onRead != nil {
		n, err = r.onRead(call, len(p), avail)
	}
	copy(p[:n], r.b[r.pos:])
	r.pos += int64(n)
	return n, err
}

func (r *scripted) Seek(off int64, whence int) (int64, error) {
	call := r.seeks
	r.seeks++
	if r.onSeek != nil {
		if err := r.onSeek(call); err != nil {
			return 0, err
		}
	}
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(len(r.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

// operation applied to a reader; the result is a comparable description.
type readerOp struct {
	name string
	run  func(r io.ReadSeeker) (string, error)
}

var readerOps = []readerOp{
	{"decode", func(r io.ReadSeeker) (string, error) {
		im, err := decodeFrom(r, 2)
		if err != nil {
			return "", err
		}
		return im.hash(), nil
	}},
	{"header", func(r io.ReadSeeker) (s string, err error) {
		err = guard(func() error {
			d := core.NewJXLDecoder(r, &options.JXLOptions{MaxGoroutines: 1})
			h, err := d.GetImageHeader()
			if err != nil {
				return err
			}
			s = headerText(h)
			return nil
		})
		return
	}},
}

func init() {
	readerOps = append(readerOps, readerOp{"parse", func(r io.ReadSeeker) (string, error) {
		return "parsed", guard(func() error {
			im, err := core.NewJXLDecoder(r, &options.JXLOptions{MaxGoroutines: 1, ParseOnly: true}).Decode()
			if err == nil && im != nil {
				return errors.New("an image although only parsed")
			}
			return err
		})
	}})
}

func headerText(h *bundle.ImageHeader) string {
	if h == nil {
		return "nothing"
	}
	s := fmt.Sprintf("%v %v %v %v %v", h.Size, h.Orientation, h.XybEncoded, h.GetColourChannelCount(), len(h.ExtraChannelInfo))
	if h.BitDepth != nil {
		s += fmt.Sprintf(" %v", *h.BitDepth)
	}
	for _, e := range h.ExtraChannelInfo {
		s += fmt.Sprintf(" %v:%v", e.EcType, e.BitDepth)
	}
	if h.ColourEncoding != nil {
		s += fmt.Sprintf(" %v %v %v", h.ColourEncoding.ColourEncoding, h.ColourEncoding.Tf, h.ColourEncoding.RenderingIntent)
	}
	return s
}

type dryRun struct {
	res          string
	err          error
	reads, seeks int
	big          []int // calls that ask for more than one byte
}

var dryRuns sync.Map

func dry(name string, b []byte, op int) dryRun {
	k := fmt.Sprint(name, op)
	if v, ok := dryRuns.Load(k); ok {
		return v.(dryRun)
	}
	var d dryRun
	r := &scripted{b: b}
	r.onRead = func(call, want, avail int) (int, error) {
		if want > 1 {
			d.big = append(d.big, call)
		}
		if avail == 0 && want > 0 {
			return 0, io.EOF
		}
		return min(want, avail), nil
	}
	d.res, d.err = readerOps[op].run(r)
	d.reads, d.seeks = r.reads, r.seeks
	dryRuns.Store(k, d)
	return d
}

// behaviours of a conforming reader at one call.
var chunkings = []struct {
	name string
	f    func(want, avail int) (int, error)
}{
	{"all", func(w, a int) (int, error) { return min(w, a), nil }},
	{"one byte", func(w, a int) (int, error) { return min(w, a, 1), nil }},
	{"nothing yet", func(w, a int) (int, error) { return 0, nil }},
	{"all but one", func(w, a int) (int, error) { return min(max(w-1, 1), a), nil }},
	{"half", func(w, a int) (int, error) { return min((w+1)/2, a), nil }},
	{"end of file with the last bytes", func(w, a int) (int, error) {
		n := min(w, a)
		if n == a {
			return n, io.EOF
		}
		return n, nil
	}},
}

func behave(k, want, avail int) (int, error) {
	if want == 0 {
		return 0, nil
	}
	if avail == 0 {
		return 0, io.EOF
	}
	return chunkings[k].f(want, avail)
}

func checkReader(t *mc.T, f CFile, op int, onRead func(call, want, avail int) (int, error)) {
	t.Runs(1)
	t.Input(f.B)
	d := dry(f.Name, f.B, op)
	res, err := readerOps[op].run(&scripted{b: f.B, onRead: onRead})
	switch {
	case d.err != nil && !f.Bad:
		t.Fail("%s of %s from memory: %v", readerOps[op].name, f.Name, d.err)
	case isPanic(err) && !isPanic(d.err):
		t.Fail("%s of %s: %v", readerOps[op].name, f.Name, err)
	case (err != nil) != (d.err != nil):
		t.Fail("%s of %s: error %v, from memory %v", readerOps[op].name, f.Name, err, d.err)
	case res != d.res:
		t.Fail("%s of %s differs from decoding from memory", readerOps[op].name, f.Name)
	default:
		t.Outcome("as from memory")
	}
}

// wrapped are corpus files in containers.
func wrapped() []CFile {
	m := corpusFile("m-extra").B
	g := corpusFile("m-groups").B
	return []CFile{
		{Name: "c-jxlc", B: container([]boxSpec{{typ: "Exif", data: make([]byte, 20)}, {typ: "jxlc", data: m}, {typ: "xml ", data: make([]byte, 9)}})},
		{Name: "c-jxlp", B: container([]boxSpec{{typ: "jxlp", data: part(0, false, g[:40])}, {typ: "jxlp", data: part(1, true, g[40:])}})},
		{Name: "c-jxlc-end", B: container([]boxSpec{{typ: "jxlc", data: m, form: 2}})},
	}
}

func readerFiles(pred func(f CFile) bool) (o []CFile) {
	for _, f := range append(append([]CFile{}, corpus()...), wrapped()...) {
		if pred(f) {
			o = append(o, f)
		}
	}
	return
}

// sampleFiles are the smallest files of the repository's test data.
func sampleFiles(max int64) (o []CFile) {
	fs, _ := filepath.Glob("/repo/testdata/*.jxl")
	for _, p := range fs {
		st, err := os.Stat(p)
		if err != nil || st.Size() > max {
			continue
		}
		if b, err := os.ReadFile(p); err == nil {
			o = append(o, CFile{Name: filepath.Base(p), B: b, VD: true})
		}
	}
	return
}

func init() {
	small := func(f CFile) bool {
		return !f.VD && f.Name != "m-lfgroups" && f.Name != "m-groups" && f.Name != "b-mgroups" && f.Name != "c-jxlp"
	}
	any := func(f CFile) bool { return f.Name != "v-lfgroups" }
	register(func() *mc.Check {
		return &mc.Check{ID: "C02", Level: "model_checking", Technique: "stateless model checking: a reader that decides at every call how much to deliver; all behaviours with a bounded number of deviations are executed on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all corpus and container files, decode, header and parse only: 6 uniform behaviours, chunk sizes 1..64, a deviation of any of 5 kinds at any read call; pairs of deviations for the small files; sample files uniformly"
				}
				return "all corpus and container files, decode, header and parse only: 6 uniform behaviours, chunk sizes 1..17; a deviation of any of 5 kinds at any read call for modular files, at any bulk read for VarDCT files"
			},
			Rule:   "the reader may deliver any positive number of bytes, nothing without an error (once), or the last bytes together with the end of file; the result must equal that from memory",
			Assume: []string{"a reader that delivers nothing without an error for ever is not conforming"},
			Spaces: []mc.Space{
				{Name: "uniform", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(func(CFile) bool { return true })
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					k := x.Choose("behaviour", len(chunkings))
					alt := x.Choose("every second call only", 2)
					x.Do(func(t *mc.T) {
						empty := false
						checkReader(t, f, op, func(call, want, avail int) (int, error) {
							kk := k
							if alt == 1 && call%2 == 1 {
								kk = 0
							}
							if kk == 2 { // never twice in a row
								empty = !empty
								if !empty {
									kk = 0
								}
							}
							return behave(kk, want, avail)
						})
					})
				}},
				{Name: "chunk sizes", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(any)
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					n := 1 + x.Choose("chunk size", x.Pick(17, 64))
					eof := x.Choose("end of file with the last bytes", 2)
					x.Do(func(t *mc.T) {
						checkReader(t, f, op, func(call, want, avail int) (int, error) {
							if want == 0 {
								return 0, nil
							}
							if avail == 0 {
								return 0, io.EOF
							}
							k := min(want, avail, n)
							if eof == 1 && k == avail {
								return k, io.EOF
							}
							return k, nil
						})
					})
				}},
				{Name: "one deviation", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(any)
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					d := dry(f.Name, f.B, op)
					calls := d.big
					if op == 1 || x.Thorough() || !f.VD {
						calls = nil
						for i := 0; i < d.reads; i++ {
							calls = append(calls, i)
						}
					}
					if len(calls) == 0 {
						x.Prune()
					}
					at := calls[x.Choose("read call", len(calls))]
					k := 1 + x.Choose("behaviour", len(chunkings)-1)
					x.Do(func(t *mc.T) {
						checkReader(t, f, op, func(call, want, avail int) (int, error) {
							kk := 0
							if call == at {
								kk = k
							}
							return behave(kk, want, avail)
						})
					})
				}},
				{Name: "two deviations", Body: func(x *mc.X) {
					fs := readerFiles(small)
					f := fs[x.Choose("file", len(fs))]
					d := dry(f.Name, f.B, 0)
					if d.reads < 2 {
						x.Prune()
					}
					a := x.Choose("first read call", d.reads-1)
					b := a + 1 + x.Choose("second read call", d.reads-1-a)
					ka, kb := 1+x.Choose("first behaviour", 2), 1+x.Choose("second behaviour", 2)
					x.Do(func(t *mc.T) {
						checkReader(t, f, 0, func(call, want, avail int) (int, error) {
							kk := 0
							if call == a {
								kk = ka
							} else if call == b {
								kk = kb
							}
							return behave(kk, want, avail)
						})
					})
				}},
				{Name: "sample files", Body: func(x *mc.X) {
					fs := sampleFiles(60000)
					if len(fs) == 0 {
						x.Prune()
					}
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					k := 1 + x.Choose("behaviour", len(chunkings)-1)
					x.Do(func(t *mc.T) {
						empty := false
						checkReader(t, f, op, func(call, want, avail int) (int, error) {
							kk := k
							if kk == 2 {
								empty = !empty
								if !empty {
									kk = 0
								}
							}
							return behave(kk, want, avail)
						})
					})
				}},
			}}
	})

	errs := []error{errors.New("disk failure"), io.ErrUnexpectedEOF, io.EOF, io.ErrClosedPipe}
	fault := func(t *mc.T, f CFile, op int, r *scripted) {
		t.Runs(1)
		t.Input(f.B)
		d := dry(f.Name, f.B, op)
		res, err := readerOps[op].run(r)
		switch {
		case isPanic(err) && !isPanic(d.err):
			t.Fail("%s of %s: %v", readerOps[op].name, f.Name, err)
		case errors.Is(err, errNil) && !errors.Is(d.err, errNil):
			t.Fail("%s of %s returns neither a result nor an error", readerOps[op].name, f.Name)
		case err == nil && res != d.res:
			t.Fail("%s of %s succeeds with a wrong result", readerOps[op].name, f.Name)
		case err == nil:
			t.Outcome("the operation was not needed")
		default:
			t.Outcome("error")
		}
	}
	register(func() *mc.Check {
		return &mc.Check{ID: "C03", Level: "fault_enumeration", Technique: "exhaustive fault enumeration: every read and every seek of a decode fails, in every way, on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all corpus and container files, decode, header and parse only: each read call fails with 4 errors after 0, 1 or all-but-one bytes, once or for good; each seek call with 2 errors; two faults for the small files"
				}
				return "all corpus and container files, decode, header and parse only: each read call fails (modular files: 2 errors x 3 partial reads x once/for good; VarDCT: 1 error, decodes of most files only the first 40 calls and every fifth later one), each seek call fails"
			},
			Rule:   "after an injected failure the operation must return an error, or exactly the result it gives without the failure",
			Assume: []string{"an io.EOF before the end stands for a shorter file"},
			Spaces: []mc.Space{
				{Name: "reads", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(any)
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					d := dry(f.Name, f.B, op)
					if d.reads == 0 {
						x.Prune()
					}
					at := x.Choose("read call", d.reads)
					ne, np, ns := x.Pick(2, len(errs)), 3, 2
					if f.VD && !x.Thorough() {
						ne, np, ns = 1, 1, 1
						if op == 0 && at >= 40 && at%5 != 0 && f.Name != "v-8" && f.Name != "v-groups" && f.Name != "v-alpha" {
							x.Prune()
						}
					}
					e := errs[x.Choose("error", ne)]
					part := x.Choose("bytes delivered with it", np)
					sticky := x.Choose("works again afterwards", ns) == 0
					x.Do(func(t *mc.T) {
						fault(t, f, op, &scripted{b: f.B, onRead: func(call, want, avail int) (int, error) {
							if call < at || call > at && !sticky {
								return behave(0, want, avail)
							}
							n := 0
							if call == at {
								switch part {
								case 1:
									n = min(1, want-1, avail)
								case 2:
									n = min(want-1, avail)
								}
							}
							return max(n, 0), e
						}})
					})
				}},
				{Name: "seeks", Quick: true, Body: func(x *mc.X) {
					fs := readerFiles(any)
					f := fs[x.Choose("file", len(fs))]
					op := x.Choose("operation", len(readerOps))
					d := dry(f.Name, f.B, op)
					if d.seeks == 0 {
						x.Prune()
					}
					at := x.Choose("seek call", d.seeks)
					e := errs[x.Choose("error", 2)]
					sticky := x.Choose("works again afterwards", 2) == 0
					x.Do(func(t *mc.T) {
						fault(t, f, op, &scripted{b: f.B, onSeek: func(call int) error {
							if call == at || call > at && sticky {
								return e
							}
							return nil
						}})
					})
				}},
				{Name: "read and seek", Body: func(x *mc.X) {
					fs := readerFiles(small)
					f := fs[x.Choose("file", len(fs))]
					d := dry(f.Name, f.B, 0)
					if d.reads == 0 || d.seeks == 0 {
						x.Prune()
					}
					at := x.Choose("read call", d.reads)
					sk := x.Choose("seek call", d.seeks)
					x.Do(func(t *mc.T) {
						fault(t, f, 0, &scripted{b: f.B, onRead: func(call, want, avail int) (int, error) {
							if call == at {
								return 0, errs[0]
							}
							return behave(0, want, avail)
						}, onSeek: func(call int) error {
							if call == sk {
								return errs[0]
							}
							return nil
						}})
					})
				}},
			}}
	})

	register(func() *mc.Check {
		cut := func(name string, quick bool, files func(x *mc.X) []CFile, parts int) mc.Space {
			return mc.Space{Name: name, Quick: quick, Body: func(x *mc.X) {
				fs := files(x)
				if len(fs) == 0 {
					x.Prune()
				}
				f := fs[x.Choose("file", len(fs))]
				op := x.Choose("operation", len(readerOps))
				n := x.Choose("prefix length", len(f.B))
				x.Do(func(t *mc.T) {
					t.Runs(1)
					d := dry(f.Name, f.B, op)
					if d.err != nil {
						t.Outcome("the complete file is not decodable")
						return
					}
					t.Input(f.B[:n])
					res, err := readerOps[op].run(bytes.NewReader(f.B[:n]))
					if readerOps[op].name == "parse" && err == nil {
						if _, err2 := readerOps[0].run(bytes.NewReader(f.B[:n])); err2 != nil {
							t.Fail("the first %d of %d bytes of %s are parsed without an error, decoding them gives: %v", n, len(f.B), f.Name, err2)
						}
					}
					switch {
					case isPanic(err):
						t.Fail("%s of the first %d of %d bytes of %s: %v", readerOps[op].name, n, len(f.B), f.Name, err)
					case errors.Is(err, errNil):
						t.Fail("%s of the first %d of %d bytes of %s returns neither a result nor an error", readerOps[op].name, n, len(f.B), f.Name)
					case err == nil && res != d.res:
						t.Fail("%s of the first %d of %d bytes of %s succeeds with a different result (%s)", readerOps[op].name, n, len(f.B), f.Name, res)
					case err == nil:
						t.Outcome("complete result")
					default:
						t.Outcome("error")
					}
				})
			}}
		}
		return &mc.Check{ID: "C04", Level: "fault_enumeration", Technique: "exhaustive enumeration of all truncation points, on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "every prefix of every corpus and container file (decode, header and parse only), every prefix of the sample files up to 5000 bytes, "
				}
				return "every prefix of every corpus and container file (decode, header and parse only)"
			},
			Rule:   "a prefix gives an error or exactly the result of the complete file",
			Assume: []string{"bytes after the last frame of a bare codestream and metadata boxes after the codestream carry no samples, so that prefixes lacking only those may decode"},
			Spaces: []mc.Space{
				cut("generated files", true, func(x *mc.X) []CFile {
					return readerFiles(func(f CFile) bool { return !f.Bad && f.Name != "v-lfgroups" })
				}, 1),
				cut("sample files", false, func(x *mc.X) []CFile { return sampleFiles(5000) }, 1),
			}}
	})
}
