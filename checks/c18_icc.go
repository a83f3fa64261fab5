package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/mc"
)

// iccHead is a profile header: kind selects the contents.
func iccHead(kind, n, size int) []byte {
	b := make([]byte, n)
	put := func(at int, s string) {
		for i := range s {
			if at+i < n {
				b[at+i] = s[i]
			}
		}
	}
	switch kind {
	case 0: // a plausible header
		put(0, string(binary.BigEndian.AppendUint32(nil, uint32(size))))
		put(4, "lcms")
		put(8, "\x04\x30\x00\x00mntrRGB XYZ \x07\xe6\x00\x01\x00\x02\x00\x03\x00\x04\x00\x05acspAPPL")
		put(70, "\xf6\xd6\x00\x01\x00\x00\x00\x00\xd3\x2dlcms")
	case 1: // nothing as predicted
		for i := range b {
			b[i] = byte(200 + 37*i)
		}
	case 2:
		put(4, "\xff\x00\x80\x01")
		put(40, "MSFT")
		put(80, "\xff\x00\x80\x01")
	case 3:
		put(40, "SGI ")
	case 4:
		put(40, "SUNW")
	}
	return b
}

// iccBuild encodes a profile with the given header and what f adds to it.
func iccBuild(head int, f func(e *jx.ICCEnc)) *jx.ICCEnc {
	size := 0
	for {
		e := &jx.ICCEnc{Size: size}
		e.Header(iccHead(head, 128, size))
		f(e)
		if len(e.Out) == size {
			return e
		}
		size = len(e.Out)
	}
}

func iccBytes(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch seed % 3 {
		case 0:
			b[i] = byte(i * 7)
		case 1:
			b[i] = byte(255 - i*i*13)
		case 2:
			b[i] = byte(i / 2)
		}
	}
	return b
}

// iccOps are the commands of the main part.
type iccOp struct {
	name string
	do   func(e *jx.ICCEnc)
}

func iccOps(lens []int, strides []int) (ops []iccOp) {
	add := func(do func(e *jx.ICCEnc), f string, a ...any) { ops = append(ops, iccOp{fmt.Sprintf(f, a...), do}) }
	for _, n := range lens {
		add(func(e *jx.ICCEnc) { e.Insert(iccBytes(n, len(e.Out))) }, "insert %d", n)
		for _, w := range []int{2, 4} {
			if jx.ICCShuffleOpen(n, w) {
				continue
			}
			add(func(e *jx.ICCEnc) { e.Shuffle(w, iccBytes(n, len(e.Out))) }, "shuffle%d %d", w, n)
		}
		for _, w := range []int{1, 2, 4} {
			if jx.ICCShuffleOpen(n, w) {
				continue
			}
			for o := 0; o < 3; o++ {
				for _, s := range strides {
					if s == 0 || s >= w {
						add(func(e *jx.ICCEnc) { e.Predict(w, o, s, iccBytes(n, len(e.Out))) }, "predict width %d order %d stride %d: %d", w, o, s, n)
					}
				}
			}
		}
	}
	add(func(e *jx.ICCEnc) { e.XYZ(iccBytes(12, len(e.Out))) }, "XYZ")
	for k := 0; k < 8; k++ {
		add(func(e *jx.ICCEnc) { e.Type(k) }, "type %d", k)
	}
	return
}

// checkICC decodes an encoded stream twice with the same header object.
func checkICC(t *mc.T, enc, want []byte, ok bool) {
	t.Input(enc)
	t.Runs(1)
	h := &bundle.ImageHeader{EncodedICC: bytes.Clone(enc)}
	for i := 0; i < 2; i++ {
		got, err := h.GetDecodedICC()
		switch {
		case ok && err != nil:
			t.Fail("rejected: %v", err)
			return
		case ok && !bytes.Equal(got, want):
			t.Fail("call %d: %s", i+1, diffBytes(got, want))
			return
		case !ok && err == nil:
			t.Fail("call %d: malformed stream accepted, giving %d bytes", i+1, len(got))
			return
		}
	}
	if ok {
		t.Outcome("exact")
	} else {
		t.Outcome("rejected")
	}
}

func diffBytes(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %d, want %d", i, got[i], want[i])
		}
	}
	return "equal"
}

func checkICCProgram(t *mc.T, e *jx.ICCEnc) {
	b := e.Bytes()
	if out, ok, _ := jx.ICCDecode(b); !ok || !bytes.Equal(out, e.Out) {
		panic("reference interpreter and encoder disagree")
	}
	checkICC(t, b, e.Out, true)
}

// checkICCMutant decodes a stream that may be malformed; the reference interpreter decides.
func checkICCMutant(t *mc.T, b []byte) {
	out, ok, open := jx.ICCDecode(b)
	if open {
		t.Outcome("left open by the format")
		t.Input(b)
		t.Runs(1)
		h := &bundle.ImageHeader{EncodedICC: b}
		h.GetDecodedICC()
		return
	}
	checkICC(t, b, out, ok)
}

// iccSamples are streams that use every kind of command.
func iccSamples() (r []*jx.ICCEnc) {
	r = append(r,
		iccBuild(0, func(e *jx.ICCEnc) {
			e.Tags(9)
			e.Tag(4+12, "", -1, 30)
			e.Tag(4, "", -1, -1)
			e.Tag(5, "", -1, -1)
			e.Tag(3, "", -1, -1)
			e.Tag(2, "", 400, 16)
			e.EndTags()
			e.Type(1)
			e.Insert(iccBytes(22, 0))
			e.Shuffle(2, iccBytes(11, 1))
			e.XYZ(iccBytes(12, 0))
			e.Predict(2, 1, 0, iccBytes(9, 2))
			e.Predict(4, 2, 8, iccBytes(15, 1))
			e.Predict(1, 0, 3, iccBytes(5, 0))
			e.Shuffle(4, iccBytes(12, 0))
		}),
		iccBuild(1, func(e *jx.ICCEnc) { e.Tags(-1); e.Insert(iccBytes(300, 0)); e.Type(6) }),
		iccBuild(2, func(e *jx.ICCEnc) {
			e.Tags(1)
			e.Tag(1, "abcd", 1000, 0)
		}),
	)
	e := &jx.ICCEnc{Size: 100}
	e.Header(iccHead(0, 100, 100))
	return append(r, e)
}

// iccImage is a gray or colour image with an ICC profile.
func iccImage(space int, icc []byte, code *jx.Code) []byte {
	h := grayHdr(13, 9, 8)
	n := 1
	if space == 0 {
		h, n = rgbHdr(13, 9, 8), 3
	}
	h.Colour = jx.Colour{ICC: true, Space: space}
	h.ICC = icc
	h.ICCCode = code
	if code != nil && code.LZ != nil {
		h.ICCToks = func(toks []jx.Tok) []jx.Tok { return greedyLZ(0, toks, 0) }
	}
	var chs []*jx.Ch
	for i := 0; i < n; i++ {
		c := jx.NewCh(13, 9)
		fill(c, 3, i, 255)
		chs = append(chs, c)
	}
	return encode(h, lossless(), simpleMod(chs), jx.TOC{})
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{ID: "C18", Level: "model_checking", Technique: "stateless model checking: all command programs within the bounds, and all small corruptions of them, run on the real profile decoder; expected bytes from the profile encoded, rejection decided by a reference interpreter",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "profiles of 0..400 bytes x 5 headers; tag lists of 0..3 entries of the 20 codes x 4 flag sets x 3 offsets/sizes; programs of 1..3 main commands; corruptions: every truncation, every byte set to every value, deleted, inserted, continued to numbers of 33 to 63 bits, all pairs of byte replacements among 7 values in the command part; entropy codes 8 x 4 in whole files"
				}
				return "profiles of 0..400 bytes x 5 headers; tag lists of 0..2 entries of the 20 codes x 4 flag sets x 3 offsets/sizes; programs of 1..2 main commands (lengths 0..9, widths 1, 2, 4, orders 0..2, 5 strides); corruptions: every truncation, every byte set to every value, deleted, inserted, continued to numbers of 33 to 63 bits; entropy codes in whole files"
			},
			Rule:   "the decoded profile is the encoded one byte for byte; malformed streams give an error, also when asked again",
			Assume: []string{"overlong variable length numbers and unused flag bits are not judged", "nor is the order of shuffled bytes in planes of 4 when their number is 1 or 2 more than a multiple of 4, which implementations of the format read differently"},
			Spaces: []mc.Space{
				{Name: "sizes and headers", Quick: true, Body: func(x *mc.X) {
					head := x.Choose("header", 5)
					size := x.Choose("size", 401)
					main := 0
					if size >= 132 {
						main = x.Choose("rest", 3)
					}
					x.Do(func(t *mc.T) {
						e := &jx.ICCEnc{Size: size}
						e.Header(iccHead(head, min(128, size), size))
						if size > 128 {
							if size < 132 || main == 0 {
								e.Tags(-1)
							} else if main == 1 {
								e.Tags(0)
								if size > 132 {
									e.EndTags()
								}
							} else {
								e.Tags(0)
								if size == 132 {
									e.EndTags()
								} else {
									e.EndTags()
									e.Predict(1, 1, 0, iccBytes(size-132, 0))
								}
							}
							if n := size - len(e.Out); n > 0 {
								e.Insert(iccBytes(n, size))
							}
						}
						checkICCProgram(t, e)
					})
				}},
				{Name: "tag list", Quick: true, Body: func(x *mc.X) {
					type tag struct {
						code        int
						start, size int64
						name        string
					}
					n := x.Choose("entries", x.Pick(3, 4))
					var tags []tag
					count := 0
					for i := 0; i < n; i++ {
						g := tag{code: 1 + x.Choose("code", 20), start: -1, size: -1}
						if g.code == 1 {
							g.name = []string{"A2B0", "gXYZ", "\xff\x00zz"}[x.Choose("name", 3)]
						}
						vals := []int64{0, 4711}
						if n < 3 {
							vals = []int64{0, 300, 1<<32 - 1 - 200}
						}
						if x.Choose("offset given", 2) == 1 {
							g.start = vals[x.Choose("offset", len(vals))]
						}
						if x.Choose("size given", 2) == 1 {
							vals = vals[:min(2, len(vals))]
							g.size = vals[x.Choose("size", len(vals))]
						}
						tags = append(tags, g)
						count++
						if g.code == 2 || g.code == 3 {
							count += 2
						}
					}
					end := x.Choose("end marker", 2)
					x.Do(func(t *mc.T) {
						e := iccBuild(0, func(e *jx.ICCEnc) {
							e.Tags(count)
							for _, g := range tags {
								e.Tag(g.code, g.name, g.start, g.size)
							}
							if end == 1 {
								e.EndTags()
								e.Insert(iccBytes(5, 0))
							}
						})
						b := e.Bytes()
						if _, ok, _ := jx.ICCDecode(b); !ok {
							checkICC(t, b, nil, false) // offsets beyond 32 bits
							return
						}
						checkICCProgram(t, e)
					})
				}},
				{Name: "main commands", Quick: true, Body: func(x *mc.X) {
					n := 1 + x.Choose("commands", x.Pick(2, 3))
					lens, strides := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 130}, []int{0, 1, 2, 3, 4, 5, 8, 31}
					if n > 1 {
						lens, strides = []int{0, 1, 3, 4, 6, 9}, []int{0, 2, 5, 31}
					}
					if n > 2 {
						lens, strides = []int{1, 6}, []int{0, 6}
					}
					ops := iccOps(lens, strides)
					var seq []iccOp
					for i := 0; i < n; i++ {
						seq = append(seq, ops[x.Choose("command", len(ops))])
					}
					tags := 1
					if n == 1 {
						tags = x.Choose("tag list", 2)
					}
					x.Do(func(t *mc.T) {
						checkICCProgram(t, iccBuild(0, func(e *jx.ICCEnc) {
							if tags == 1 {
								e.Tags(0)
								e.EndTags()
							} else {
								e.Tags(-1)
								e.Insert(iccBytes(1, 0))
							}
							for _, o := range seq {
								o.do(e)
							}
						}))
					})
				}},
				{Name: "large", Quick: true, Body: func(x *mc.X) {
					kind := x.Choose("command", 8)
					n := []int{255, 256, 1023, 16384, 70003}[x.Choose("bytes", 5)]
					x.Do(func(t *mc.T) {
						checkICCProgram(t, iccBuild(kind%5, func(e *jx.ICCEnc) {
							e.Tags(kind - 1)
							for i := 0; i+1 < kind; i++ {
								e.Tag(4+i, "", int64(n), int64(n))
							}
							if kind > 0 {
								e.EndTags()
							}
							switch kind {
							case 0, 1:
								e.Insert(iccBytes(n, 1))
							case 2, 3:
								e.Shuffle(2*(kind-1), iccBytes(n, 1))
							default:
								w := []int{1, 2, 4, 4}[kind-4]
								e.Predict(w, kind%3, 32, iccBytes(n, 1))
							}
						}))
					})
				}},
				{Name: "malformed", Quick: true, Body: func(x *mc.X) {
					ss := iccSamples()
					s := ss[x.Choose("stream", len(ss))]
					b := s.Bytes()
					kind := []int{0, 1, 2, 3, 5, 4}[x.Choose("corruption", x.Pick(5, 6))]
					switch kind {
					case 0:
						n := x.Choose("cut at", len(b))
						x.Do(func(t *mc.T) { checkICCMutant(t, b[:n]) })
					case 1:
						at := x.Choose("byte", len(b))
						x.Do(func(t *mc.T) {
							for v := 0; v < 256 && !t.Failed(); v++ {
								m := bytes.Clone(b)
								m[at] = byte(v)
								checkICCMutant(t, m)
							}
						})
					case 2:
						at := x.Choose("deleted", len(b))
						n := 1 + x.Choose("bytes", 3)
						x.Do(func(t *mc.T) {
							checkICCMutant(t, append(bytes.Clone(b[:at]), b[min(len(b), at+n):]...))
						})
					case 3:
						at := x.Choose("inserted", len(b)+1)
						x.Do(func(t *mc.T) {
							for v := 0; v < 256 && !t.Failed(); v++ {
								m := append(append(bytes.Clone(b[:at]), byte(v)), b[at:]...)
								checkICCMutant(t, m)
							}
						})
					case 5: // numbers continued beyond 32 bits
						at := x.Choose("continued", len(b))
						x.Do(func(t *mc.T) {
							for n := 2; n <= 7; n++ {
								for _, v := range []byte{1, 0x10, 0x20, 0x7f} {
									m := append(bytes.Clone(b[:at]), b[at]|0x80)
									m = append(m, bytes.Repeat([]byte{0x80}, n)...)
									m = append(append(m, v), b[at+1:]...)
									checkICCMutant(t, m)
									if t.Failed() {
										return
									}
								}
							}
						})
					case 4:
						lim := min(len(b), len(s.Cmd)+4)
						a := x.Choose("first", lim)
						c := a + 1 + x.Choose("second", lim-a)
						x.Do(func(t *mc.T) {
							for _, v := range []byte{0, 1, 4, 0x7f, 0x80, 0xc2, 0xff} {
								for _, w := range []byte{0, 1, 4, 0x7f, 0x80, 0xc2, 0xff} {
									m := bytes.Clone(b)
									m[a] = v
									if c < len(m) {
										m[c] = w
									}
									checkICCMutant(t, m)
									if t.Failed() {
										return
									}
								}
							}
						})
					}
				}},
				{Name: "whole file", Quick: true, Body: func(x *mc.X) {
					ss := iccSamples()
					s := ss[x.Choose("profile", len(ss))]
					space := x.Choose("colour space", 2)
					coder := x.Choose("entropy coder", 4)
					cl := x.Choose("clusters", 4)
					x.Do(func(t *mc.T) {
						c := coderN(coder, 41)
						for i := range c.Map[:41] {
							c.Map[i] = []int{i % 7, 0, i, min(i, 1)}[cl]
						}
						if coder >= 2 {
							c.Map[41] = []int{7, 1, 41, 0}[cl]
						}
						checkICCFile(t, iccImage(space, s.Bytes(), &c), s.Out, true)
					})
				}},
				{Name: "malformed in a file", Quick: true, Body: func(x *mc.X) {
					ss := iccSamples()
					b := ss[x.Choose("profile", len(ss))].Bytes()
					n := x.Choose("cut at", len(b))
					x.Do(func(t *mc.T) {
						checkICCFile(t, iccImage(0, b[:n], nil), nil, false)
					})
				}},
			}}
	})
}

// checkICCFile checks the profile through the header of a file and that the image decodes.
func checkICCFile(t *mc.T, b, want []byte, ok bool) {
	t.Input(b)
	t.Runs(1)
	h, err := bundle.ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(b)), 10)
	if err != nil {
		if ok {
			t.Fail("header rejected: %v", err)
		} else {
			t.Outcome("rejected")
		}
		return
	}
	got, err := h.GetDecodedICC()
	img, ierr := core.NewJXLDecoder(bytes.NewReader(b), nil).Decode()
	switch {
	case !ok:
		if err == nil && len(h.EncodedICC) > 0 {
			t.Fail("malformed profile accepted")
		}
		if ierr == nil && img != nil && img.HasICCProfile() {
			t.Fail("image with a malformed profile claims to have one")
		}
		t.Outcome("rejected")
		return
	case err != nil:
		t.Fail("profile rejected: %v", err)
	case !bytes.Equal(got, want):
		t.Fail("%s", diffBytes(got, want))
	case ierr != nil:
		t.Fail("image: %v", ierr)
	case !img.HasICCProfile():
		t.Fail("the image has no profile")
	}
	t.Outcome("exact")
}
