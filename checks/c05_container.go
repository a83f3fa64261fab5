package checks

import (
	"bytes"
	"fmt"

	"encoding/binary"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/jx"
	"verif/mc"
)

// boxSpec is a box of a container. form: 0 = 32-bit size, 1 = 64-bit size, 2 = to
// the end of the file.
type boxSpec struct {
	typ  string
	data []byte
	form int
}

func container(bs []boxSpec) []byte {
	b := jx.ContainerStart()
	for _, s := range bs {
		b = append(b, jx.Box(s.typ, s.data, s.form)...)
	}
	return b
}

// part is the payload of a partial codestream box.
func part(i int, last bool, b []byte) []byte {
	var h [4]byte
	v := uint32(i)
	if last {
		v |= 1 << 31
	}
	binary.BigEndian.PutUint32(h[:], v)
	return append(h[:], b...)
}

func checkContainer(t *mc.T, f CFile, b []byte) {
	t.Input(b)
	for op := range readerOps {
		d := dry(f.Name, f.B, op)
		t.Runs(1)
		res, err := readerOps[op].run(bytes.NewReader(b))
		if err != nil {
			t.Fail("%s in a container: %v", readerOps[op].name, err)
			return
		}
		if d.err != nil {
			t.Fail("%s of the bare codestream: %v", readerOps[op].name, d.err)
			return
		}
		if res != d.res {
			t.Fail("%s in a container gives %q, bare %q", readerOps[op].name, res, d.res)
			return
		}
	}
	t.Outcome("as the bare codestream")
}

// checkTwice uses one decoder for the header, the image, and both again.
func checkTwice(t *mc.T, f CFile, b []byte) {
	t.Input(b)
	dh, di := dry(f.Name, f.B, 1), dry(f.Name, f.B, 0)
	if dh.err != nil || di.err != nil {
		return
	}
	t.Runs(1)
	err := guard(func() error {
		d := core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{MaxGoroutines: 2})
		for i := 0; i < 2; i++ {
			h, err := d.GetImageHeader()
			if err != nil {
				return fmt.Errorf("header, round %d: %w", i, err)
			}
			if headerText(h) != dh.res {
				return fmt.Errorf("header of round %d differs", i)
			}
			j, err := d.Decode()
			if err != nil {
				return fmt.Errorf("decode, round %d: %w", i, err)
			}
			if neutral(j).hash() != di.res {
				return fmt.Errorf("image of round %d differs", i)
			}
		}
		return nil
	})
	if err != nil {
		t.Fail("one decoder used repeatedly: %v", err)
		return
	}
	t.Outcome("the same again")
}

var extraBoxes = []struct {
	name string
	b    []boxSpec
}{
	{"none", nil},
	{"Exif", []boxSpec{{"Exif", make([]byte, 13), 0}}},
	{"level 5", []boxSpec{{"jxll", []byte{5}, 0}}},
	{"level 10", []boxSpec{{"jxll", []byte{10}, 0}}},
	{"empty", []boxSpec{{"free", nil, 0}}},
	{"64-bit size", []boxSpec{{"xml ", make([]byte, 300), 1}}},
	{"empty with 64-bit size", []boxSpec{{"abcd", nil, 1}}},
	{"several", []boxSpec{{"brob", []byte("Exifxx"), 0}, {"jumb", make([]byte, 70000), 0}, {"jxli", []byte{1, 2, 3, 4, 5}, 1}}},
	{"like a codestream", []boxSpec{{"uuid", append(bytes.Repeat([]byte{0xff, 0x0a}, 9), "jxlc"...), 0}}},
}

func init() {
	register(func() *mc.Check {
		files := func(x *mc.X) CFile {
			ns := []string{"m-gray", "m-blend", "v-8"}
			if x.Thorough() {
				ns = corpusNames(func(f CFile) bool { return !f.Bad && f.Name != "v-lfgroups" })
			}
			return corpusFile(ns[x.Choose("codestream", len(ns))])
		}
		return &mc.Check{ID: "C05", Level: "model_checking", Technique: "stateless model checking: all container layouts within the bounds around codestreams of the corpus, executed on the real decoder and compared with the bare codestream",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all corpus codestreams; complete box: 3 size encodings x 9 sets of boxes before x 9 after; partial boxes: every split into two (all files), every split into three (3 files), 4..8 equal parts, empty parts, boxes between, size encodings; 127..65537 parts"
				}
				return "3 codestreams; complete box: 3 size encodings x 9 sets of boxes before x 9 after; partial boxes: every split into two, splits into three around all header positions, 4..8 equal parts, empty parts, boxes between, size encodings; 127..65537 parts; every corpus file once in either form"
			},
			Rule:   "every layout is the whole file; image and header must equal those of the bare codestream",
			Assume: []string{"the file type box is present, partial boxes are in order"},
			Spaces: []mc.Space{
				{Name: "complete box", Quick: true, Body: func(x *mc.X) {
					f := files(x)
					form := x.Choose("size encoding", 3)
					pre := extraBoxes[x.Choose("boxes before", len(extraBoxes))]
					var post []boxSpec
					if form != 2 {
						post = extraBoxes[x.Choose("boxes after", len(extraBoxes))].b
					}
					x.Do(func(t *mc.T) {
						bs := append(append([]boxSpec{}, pre.b...), boxSpec{"jxlc", f.B, form})
						checkContainer(t, f, container(append(bs, post...)))
					})
				}},
				{Name: "last box to the end", Quick: true, Body: func(x *mc.X) {
					f := files(x)
					parts := 1 + x.Choose("parts", 3)
					x.Do(func(t *mc.T) {
						var bs []boxSpec
						if parts == 1 {
							bs = append(bs, boxSpec{"jxlc", f.B, 0})
						} else {
							bs = split(f.B, parts)
						}
						checkContainer(t, f, container(append(bs, boxSpec{"xml ", []byte("metadata"), 2})))
					})
				}},
				{Name: "every file", Quick: true, Body: func(x *mc.X) {
					ns := corpusNames(func(f CFile) bool { return !f.Bad })
					f := corpusFile(ns[x.Choose("codestream", len(ns))])
					parts := x.Choose("parts", 5)
					x.Do(func(t *mc.T) {
						bs := []boxSpec{{"jxlc", f.B, 0}}
						if parts > 0 {
							bs = split(f.B, parts)
						}
						checkContainer(t, f, container(bs))
						checkTwice(t, f, container(bs))
					})
				}},
				{Name: "two parts", Quick: true, Body: func(x *mc.X) {
					f := files(x)
					k := x.Choose("split at", len(f.B)+1)
					between := x.Choose("boxes between", x.Pick(2, len(extraBoxes)))
					form := x.Choose("size encodings", 3)
					x.Do(func(t *mc.T) {
						bs := []boxSpec{{"jxlp", part(0, false, f.B[:k]), form & 1}}
						bs = append(bs, extraBoxes[between].b...)
						bs = append(bs, boxSpec{"jxlp", part(1, true, f.B[k:]), form})
						checkContainer(t, f, container(bs))
					})
				}},
				{Name: "three parts", Quick: true, Body: func(x *mc.X) {
					f := corpusFile([]string{"m-gray", "m-blend"}[x.Choose("codestream", 2)])
					lim := len(f.B)
					if !x.Thorough() {
						lim = min(lim, 24)
					}
					a := x.Choose("first split", lim+1)
					b := a + x.Choose("second split", lim+1-a)
					x.Do(func(t *mc.T) {
						checkContainer(t, f, container([]boxSpec{{"jxlp", part(0, false, f.B[:a]), 0}, {"jxlp", part(1, false, f.B[a:b]), 0}, {"jxlp", part(2, true, f.B[b:]), 0}}))
					})
				}},
				{Name: "very many parts", Quick: true, Body: func(x *mc.X) {
					f := corpusFile([]string{"m-gray", "m-groups"}[x.Choose("codestream", 2)])
					n := x.Of("parts", 127, 128, 129, 255, 256, 257, 300, 1000, 32769, 65537)
					at := x.Choose("bytes at", 3) // all parts, the first ones, the last ones
					x.Do(func(t *mc.T) {
						var bs []boxSpec
						for i := 0; i < n; i++ {
							lo, hi := i*len(f.B)/n, (i+1)*len(f.B)/n
							switch at {
							case 1:
								lo, hi = min(i, len(f.B)), min(i+1, len(f.B))
							case 2:
								lo, hi = max(0, len(f.B)-n+i), max(0, len(f.B)-n+i+1)
							}
							if at > 0 && n < len(f.B) && i == (at-1)*(n-1) {
								if at == 1 {
									lo, hi = 0, len(f.B)-n+1
									// the rest follows one byte at a time
								} else {
									lo, hi = n-1, len(f.B)
								}
							} else if at == 1 && n < len(f.B) {
								lo, hi = len(f.B)-n+i, len(f.B)-n+i+1
							} else if at == 2 && n < len(f.B) {
								lo, hi = i, i+1
							}
							bs = append(bs, boxSpec{"jxlp", part(i, i == n-1, f.B[lo:hi]), 0})
						}
						checkContainer(t, f, container(bs))
					})
				}},
				{Name: "many parts", Quick: true, Body: func(x *mc.X) {
					f := files(x)
					n := 4 + x.Choose("parts", 5)
					empty := x.Choose("an empty part in between", n+1)
					between := x.Choose("boxes between", len(extraBoxes))
					x.Do(func(t *mc.T) {
						bs := split(f.B, n)
						if empty < n {
							bs = append(bs[:empty:empty], append([]boxSpec{{"jxlp", part(empty, false, nil), 0}}, bs[empty:]...)...)
							for i := range bs {
								last := i == len(bs)-1
								bs[i].data = part(i, last, bs[i].data[4:])
							}
						}
						var all []boxSpec
						for i, b := range bs {
							if i%2 == 1 {
								all = append(all, extraBoxes[between].b...)
							}
							all = append(all, b)
						}
						checkContainer(t, f, container(all))
					})
				}},
			}}
	})
}

// split cuts a codestream into n partial boxes of about the same size.
func split(b []byte, n int) (bs []boxSpec) {
	for i := 0; i < n; i++ {
		lo, hi := i*len(b)/n, (i+1)*len(b)/n
		bs = append(bs, boxSpec{"jxlp", part(i, i == n-1, b[lo:hi]), 0})
	}
	return
}
