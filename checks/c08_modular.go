package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

// modRun encodes, decodes with one and (optionally) more goroutines, and
// compares every channel with the expected samples.
func modRun(t *mc.T, h *jx.Hdr, f *jx.FrameHdr, m *jx.Mod, want []*jx.Ch, toc jx.TOC, par int) {
	b := encode(h, f, m, toc)
	t.Input(b)
	t.Run()
	im, err := decode(b, par)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	if im.W != want[0].W || im.H != want[0].H {
		t.Fail("image is %dx%d, want %dx%d", im.W, im.H, want[0].W, want[0].H)
		return
	}
	if d := diffInts(im, want); d != "" {
		t.Fail("%s", d)
		return
	}
	t.Outcome("pixels agree")
}

func grayHdr(w, h, bits int) *jx.Hdr {
	hd := jx.NewHdr(w, h)
	hd.Colour = jx.GrayColour()
	hd.BD = jx.BitDepth{Bits: bits}
	hd.Mod16 = bits <= 12
	return hd
}

func rgbHdr(w, h, bits int) *jx.Hdr {
	hd := grayHdr(w, h, bits)
	hd.Colour = jx.Colour{Default: true}
	return hd
}

// pick a coder by number: prefix, ANS, prefix+LZ77, ANS+LZ77
func coderN(k, leaves int) jx.Code {
	c := jx.Code{Prefix: k%2 == 0, LogAlpha: 8}
	if k >= 2 {
		c.LZ = &jx.LZ{MinSymbol: 224, MinLength: 3, LenHyb: jx.Hyb{Split: 4, Msb: 1, Lsb: 0}}
	}
	c.Map = make([]int, leaves+1)
	for i := 0; i < leaves; i++ {
		c.Map[i] = i % 7
	}
	if c.LZ == nil {
		c.Map = c.Map[:leaves]
	} else {
		c.Map[leaves] = min(leaves, 7)
	}
	return c
}

// greedyLZ replaces runs and vertical repeats with copies.
func greedyLZ(_ int, toks []jx.Tok, mult int) []jx.Tok {
	var out []jx.Tok
	for i := 0; i < len(toks); {
		best, bd := 0, uint32(0)
		for code := uint32(0); code < 124; code++ {
			d := lzDistance(code, mult)
			if d > i {
				continue
			}
			n := 0
			for i+n < len(toks) && toks[i+n].Val == toks[i+n-d].Val && n < 60 {
				n++
			}
			if n > best {
				best, bd = n, code
			}
			if code > 12 && best >= 3 {
				break
			}
		}
		if best >= 3 {
			out = append(out, jx.Tok{Ctx: toks[i].Ctx, Copy: true, Val: uint32(best), Dist: bd})
			i += best
			continue
		}
		out = append(out, toks[i])
		i++
	}
	return out
}

var wpVariants = []jx.WP{
	jx.DefaultWP(),
	{P1: 0, P2: 0, A: 0, B: 0, C: 0, D: 0, E: 0, W: [4]int{15, 0, 0, 0}},
	{P1: 31, P2: 31, A: 31, B: 31, C: 31, D: 31, E: 31, W: [4]int{15, 15, 15, 15}},
	{P1: 1, P2: 5, A: 9, B: 2, C: 30, D: 3, E: 17, W: [4]int{0, 0, 0, 1}},
	{P1: 16, P2: 10, A: 7, B: 7, C: 7, D: 1, E: 2, W: [4]int{13, 12, 12, 12}},
}

func init() {
	register(func() *mc.Check {
		sizes := [][2]int{{1, 1}, {1, 6}, {6, 1}, {2, 2}, {3, 3}, {7, 5}, {17, 9}}
		return &mc.Check{
			ID: "C08", Level: "model_checking",
			Technique: "exhaustive enumeration of small lossless modular images x predictors x coders, encoded by a reference encoder, replayed on the real decoder",
			Bounds: func(tier string) string {
				return "all 3x2 and 2x3 images over {0,1,200} (3^6) x 14 predictors; 7 sizes x 14 predictors x 5 content kinds x bit depths {1,5,8,12,16,20,24} x 4 coders; 5 self-correcting parameter sets; leaf offsets and multipliers on a grid; 26 to 31 bits per sample and 32-bit floats"
			},
			Rule:   "the decoded integer samples equal the encoded ones exactly",
			Assume: []string{"reference encoder follows ISO 18181-1 Annex H"},
			Spaces: []mc.Space{
				{Name: "tiny-images", Quick: true, Body: func(x *mc.X) {
					w := 2 + x.Choose("shape", 2)
					ch := jx.NewCh(w, 5-w)
					vals := []int32{0, 1, 200}
					for y := range ch.D {
						for i := range ch.D[y] {
							ch.D[y][i] = vals[x.Choose("px", 3)]
						}
					}
					x.Do(func(t *mc.T) {
						for p := 0; p < 14; p++ {
							m := simpleMod([]*jx.Ch{ch})
							m.Tree = jx.Leaf(p)
							modRun(t, grayHdr(ch.W, ch.H, 8), lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
						}
					})
				}},
				{Name: "predictors", Quick: true, Body: func(x *mc.X) {
					sz := sizes[x.Choose("size", len(sizes))]
					p := x.Choose("predictor", 14)
					bits := x.Of("bits", 1, 5, 8, 12, 16, 20, 24)
					kind := 1 + x.Choose("content", 5)
					cd := x.Choose("coder", 4)
					x.Do(func(t *mc.T) {
						ch := fill(jx.NewCh(sz[0], sz[1]), kind, p, 1<<uint(bits)-1)
						m := simpleMod([]*jx.Ch{ch})
						m.Tree = jx.Leaf(p)
						m.Code = coderN(cd, 1)
						if cd >= 2 {
							m.LZ = greedyLZ
						}
						modRun(t, grayHdr(sz[0], sz[1], bits), lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
					})
				}},
				{Name: "wide-samples", Quick: true, Body: func(x *mc.X) {
					// up to the 32 bits that a sample can have
					sz := sizes[x.Choose("size", len(sizes))]
					p := x.Choose("predictor", 14)
					bits := x.Of("bits", 26, 28, 30, 31, 32)
					kind := x.Choose("content", 4)
					cd := x.Of("coder", 0, 2)
					if p == 6 && bits > 26 {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						ch := jx.NewCh(sz[0], sz[1])
						hd := grayHdr(sz[0], sz[1], bits)
						if bits == 32 {
							hd.BD = jx.BitDepth{Float: true, Bits: 32, Exp: 8}
						}
						r := rng(p*100 + bits + kind)
						for y := range ch.D {
							for i := range ch.D[y] {
								v := r.next()<<12 ^ r.next()
								switch kind {
								case 1: // the extremes
									v = []uint32{0, 1<<32 - 1, 1 << (bits - 1)}[v%3]
								case 2: // a slope near the maximum
									v = 1<<(bits-1) + uint32(i*3+y*1000)
								case 3:
									v = uint32(math.Float32bits(float32(v%1000) / 500))
								}
								if bits < 32 {
									v &= 1<<bits - 1
								} else if v>>23&255 == 255 {
									v &^= 1 << 25 // neither infinite nor NaN
								}
								ch.D[y][i] = int32(v)
							}
						}
						m := simpleMod([]*jx.Ch{ch})
						m.Tree = jx.Leaf(p)
						m.Code = coderN(cd, 1)
						if bits < 32 {
							modRun(t, hd, lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
							return
						}
						b := encode(hd, lossless(), m, jx.TOC{})
						t.Input(b)
						t.Run()
						im, err := decode(b, 1)
						if err != nil || len(im.Ch) != 1 || !im.Ch[0].Float || im.W != ch.W || im.H != ch.H {
							t.Fail("decode: %v", err)
							return
						}
						for y := range ch.D {
							for i, v := range ch.D[y] {
								if g := int32(math.Float32bits(im.Ch[0].F[y][i])); g != v {
									t.Fail("sample (%d,%d) is %08x, want %08x", i, y, uint32(g), uint32(v))
									return
								}
							}
						}
						t.Outcome("pixels agree")
					})
				}},
				{Name: "self-correcting", Quick: true, Body: func(x *mc.X) {
					sz := sizes[x.Choose("size", len(sizes))]
					wp := x.Choose("parameters", len(wpVariants))
					kind := 1 + x.Choose("content", 5)
					bits := x.Of("bits", 8, 16, 24)
					seed := x.Choose("seed", x.Pick(3, 40))
					x.Do(func(t *mc.T) {
						ch := fill(jx.NewCh(sz[0], sz[1]), kind, seed, 1<<uint(bits)-1)
						m := simpleMod([]*jx.Ch{ch})
						m.Tree = jx.Leaf(6)
						m.WP = wpVariants[wp]
						modRun(t, grayHdr(sz[0], sz[1], bits), lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
					})
				}},
				{Name: "self-correcting-wide", Quick: true, Body: func(x *mc.X) {
					x.Do(func(t *mc.T) {
						ch := fill(jx.NewCh(7, 5), 4, 0, 1<<28-1)
						m := simpleMod([]*jx.Ch{ch})
						m.Tree = jx.Leaf(6)
						b := encode(grayHdr(7, 5, 28), lossless(), m, jx.TOC{})
						t.Input(b)
						t.Run()
						im, err := decode(b, 1)
						if err != nil {
							t.Fail("decode: %v", err)
							return
						}
						if d := diffInts(im, []*jx.Ch{ch}); d != "" {
							// what intermediates of 32 bits give
							if g := fmt.Sprint(im.Ch[0].I); g == "[[0 0 0 0 0 0 0] [0 0 268435455 134217727 -67108864 -31580640 261311619] [0 0 -194314239 -13271040 -65078080 -42215159 -277170788] [0 -49245289 -13271040 -26222800 -57935986 25403248 39974371] [-55367 268380088 -144118871 144360891 -70170466 -42897710 7703827]]" {
								t.FailCase("wp-28-bits", "samples of 28 bits with the self-correcting predictor: %s", d)
								return
							}
							t.Fail("%s", d)
							return
						}
						t.Outcome("pixels agree")
					})
				}},
				{Name: "wp-parameters", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(2, 3)
					d := jx.DefaultWP()
					wp := jx.WP{
						P1: x.DevOf("p1", d.P1, 0, 1, 31), P2: x.DevOf("p2", d.P2, 0, 1, 31),
						A: x.DevOf("a", d.A, 0, 31), B: x.DevOf("b", d.B, 0, 31), C: x.DevOf("c", d.C, 0, 31),
						D: x.DevOf("d", d.D, 1, 31), E: x.DevOf("e", d.E, 1, 31),
					}
					for i := range wp.W {
						wp.W[i] = x.DevOf("w", d.W[i], 0, 1, 15)
					}
					x.Do(func(t *mc.T) {
						for k := 1; k <= 5; k++ {
							ch := fill(jx.NewCh(9, 7), k, 3, 255)
							m := simpleMod([]*jx.Ch{ch})
							m.Tree = jx.Split(15, 2, jx.Leaf(6), jx.Leaf(4))
							m.WP = wp
							modRun(t, grayHdr(9, 7, 8), lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
						}
					})
				}},
				{Name: "offset-multiplier", Quick: true, Body: func(x *mc.X) {
					p := x.Choose("predictor", 14)
					off := x.Of("offset", 0, 1, -1, 77, -4000)
					ml := x.Of("mul log", 0, 1, 3, 7)
					mb := x.Of("mul bits", 0, 1, 4)
					x.Do(func(t *mc.T) {
						// content is generated by the model: choose residuals, derive pixels
						ch := jx.NewCh(6, 5)
						leaf := jx.LeafX(p, int32(off), ml, mb)
						r := rng(p*7 + ml)
						mul := int32(mb+1) << uint(ml)
						jx.Synthesise(ch, leaf, jx.DefaultWP(), func() int32 { return (int32(r.next()%5) - 2) * mul })
						m := simpleMod([]*jx.Ch{ch})
						m.Tree = leaf
						modRun(t, grayHdr(6, 5, 16), lossless(), m, []*jx.Ch{ch}, jx.TOC{}, 1)
					})
				}},
				{Name: "channels", Quick: true, Body: func(x *mc.X) {
					w := x.Of("w", 1, 3, 8)
					hh := x.Of("h", 1, 4)
					nec := x.Choose("extra", 4)
					rgb := x.Choose("rgb", 2)
					p := x.Choose("predictor", 14)
					x.Do(func(t *mc.T) {
						h := grayHdr(w, hh, 8)
						n := 1
						if rgb == 1 {
							h, n = rgbHdr(w, hh, 8), 3
						}
						var chs []*jx.Ch
						for i := 0; i < n+nec; i++ {
							chs = append(chs, fill(jx.NewCh(w, hh), 2, i, 255))
						}
						for i := 0; i < nec; i++ {
							h.EC = append(h.EC, jx.EC{Type: []int{0, 1, 3}[i%3], BD: jx.BitDepth{Bits: 8}})
						}
						m := simpleMod(chs)
						m.Tree = jx.Leaf(p)
						modRun(t, h, lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
			},
		}
	})

	register(func() *mc.Check {
		return &mc.Check{
			ID: "C09", Level: "model_checking",
			Technique: "exhaustive enumeration of bounded meta-adaptive decision trees x properties x thresholds, replayed on the real decoder",
			Bounds: func(tier string) string {
				return "all 24 properties x 12 thresholds x single-split trees x 4 contents on 3-channel images; all two-level trees over property pairs (24x24) with 3 thresholds; 24 reference-channel properties on 7 channel lists (shifted, squeezed, palette, equal-sized channels with other shifts); tree orientation (left/right/both deep), chains of depth 8; 4 coders; trees local to the stream or global; samples of 26 to 31 bits"
			},
			Rule: "the decoded samples equal the encoded ones: every tree decision selects the predictor and entropy context the format prescribes",
			Spaces: []mc.Space{
				{Name: "single-split", Quick: true, Body: func(x *mc.X) {
					prop := x.Choose("property", 24)
					th := x.Of("threshold", -300, -20, -2, -1, 0, 1, 2, 5, 20, 40, 150, 1000)
					kind := 1 + x.Choose("content", 5)
					local := x.Choose("local tree", 2)
					x.Do(func(t *mc.T) {
						chs := treeContent(kind)
						m := simpleMod(chs)
						m.Tree = jx.Split(prop, int32(th), jx.LeafX(5, 0, 0, 0), jx.LeafX(1, 3, 0, 0))
						m.Code = jx.Code{Map: []int{0, 1}, LogAlpha: 8, Prefix: th%2 == 0}
						m.NoTree = local == 1
						modRun(t, rgbHdr(9, 6, 8), lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
				{Name: "wide-samples", Quick: true, Body: func(x *mc.X) {
					// the properties of samples of many bits, where they fit in 32 bits
					prop := 4 + x.Choose("property", 20)
					bits := 29
					if prop == 15 {
						bits = 26
					} else if prop >= 16 {
						bits = x.Of("bits", 29, 31)
					}
					th := []int32{0, 1 << 20, 1 << 26, 1 << 28, 1<<30 - 1}[x.Choose("threshold", 5)]
					if x.Choose("negative threshold", 2) == 1 {
						th = -th - 1
					}
					p := x.Of("predictor", 1, 5, 13)
					x.Do(func(t *mc.T) {
						r := rng(prop*10 + bits)
						var chs []*jx.Ch
						for c := 0; c < 3; c++ {
							ch := jx.NewCh(9, 6)
							for y := range ch.D {
								for i := range ch.D[y] {
									v := r.next()<<12 ^ r.next()
									if v%3 == 0 {
										v = []uint32{0, 1<<32 - 1}[v>>4&1]
									}
									ch.D[y][i] = int32(v & (1<<bits - 1))
								}
							}
							chs = append(chs, ch)
						}
						m := simpleMod(chs)
						m.Tree = jx.Split(prop, th, jx.LeafX(p, 0, 0, 0), jx.LeafX(2, 3, 0, 0))
						m.Code = jx.Code{Map: []int{0, 1}, LogAlpha: 8, Prefix: th%2 == 0}
						modRun(t, rgbHdr(9, 6, bits), lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
				{Name: "two-level", Quick: true, Body: func(x *mc.X) {
					p1 := x.Choose("p1", 24)
					p2 := x.Choose("p2", 24)
					shape := x.Choose("shape", 3)
					th := x.Of("threshold", 0, 2, 60)
					x.Do(func(t *mc.T) {
						chs := treeContent(1 + (p1+p2)%5)
						m := simpleMod(chs)
						a := jx.Split(p2, 1, jx.Leaf(6), jx.Leaf(2))
						b := jx.Split(p2, -1, jx.Leaf(4), jx.Leaf(13))
						switch shape {
						case 0:
							m.Tree = jx.Split(p1, int32(th), a, jx.Leaf(5))
						case 1:
							m.Tree = jx.Split(p1, int32(th), jx.Leaf(5), b)
						case 2:
							m.Tree = jx.Split(p1, int32(th), a, b)
						}
						n := m.Tree.Leaves()
						m.Code = coderN((p1+p2)%2, n)
						modRun(t, rgbHdr(9, 6, 8), lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
				{Name: "chains", Quick: true, Body: func(x *mc.X) {
					prop := x.Choose("property", 24)
					dir := x.Choose("direction", 2)
					cd := x.Choose("coder", 4)
					kind := 1 + x.Choose("content", 5)
					x.Do(func(t *mc.T) {
						chs := treeContent(kind)
						m := simpleMod(chs)
						tree := jx.Leaf(5)
						for d := 0; d < 8; d++ {
							l := jx.LeafX((d*3+prop)%14, int32(d), 0, 0)
							if dir == 0 {
								tree = jx.Split(prop, int32(d*4-10), l, tree)
							} else {
								tree = jx.Split(prop, int32(10-d*4), tree, l)
							}
						}
						m.Tree = tree
						m.Code = coderN(cd, tree.Leaves())
						if cd >= 2 {
							m.LZ = greedyLZ
						}
						modRun(t, rgbHdr(9, 6, 8), lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
				{Name: "streams", Quick: true, Body: func(x *mc.X) {
					// stream-index and channel-index decisions over several groups
					prop := x.Choose("property", 4)
					th := x.Of("threshold", 0, 1, 2, 20, 21, 22, 23, 24, 25, 128)
					local := x.Choose("local tree", 2)
					par := x.Of("goroutines", 1, 3)
					x.Do(func(t *mc.T) {
						chs := []*jx.Ch{fill(jx.NewCh(260, 131), 5, 1, 255), fill(jx.NewCh(260, 131), 1, 2, 255), fill(jx.NewCh(260, 131), 4, 3, 255)}
						m := simpleMod(chs)
						m.Tree = jx.Split(prop, int32(th), jx.LeafX(2, 1, 0, 0), jx.Leaf(5))
						m.Code = coderN(0, 2)
						if local == 1 {
							m.Group = func(s *jx.Sub) { s.Local = true }
						}
						f := lossless()
						f.GroupShift = 0
						modRun(t, rgbHdr(260, 131, 8), f, m, chs, jx.TOC{}, par)
					})
				}},
				{Name: "reference-channels", Quick: true, Body: func(x *mc.X) {
					// properties 16.. look at the preceding channels of the same
					// size and shifts: channel lists where some of them do not count
					prop := 16 + x.Choose("property", 24)
					layout := x.Choose("layout", 7)
					th := x.Of("threshold", -40, 0, 3, 90)
					kind := 1 + x.Choose("content", x.Pick(3, 5))
					x.Do(func(t *mc.T) {
						hd, coded, want, trs, nmeta := refLayout(layout, kind)
						m := simpleMod(coded)
						m.Trs, m.NMeta = trs, nmeta
						m.Tree = jx.Split(prop, int32(th), jx.LeafX(5, 0, 0, 0), jx.LeafX(1, 3, 0, 0))
						m.Code = jx.Code{Map: []int{0, 1}, LogAlpha: 8, Prefix: th%2 == 0}
						b := encode(hd, lossless(), m, jx.TOC{})
						t.Input(b)
						t.Run()
						im, err := decode(b, 1)
						if err != nil {
							t.Fail("decode: %v", err)
							return
						}
						if len(im.Ch) != len(want) {
							t.Fail("%d channels, want %d", len(im.Ch), len(want))
							return
						}
						for i, c := range want {
							if c.HS == 0 { // the others are upsampled, see C16
								if d := diffInts(&Img{Ch: im.Ch[i : i+1]}, want[i:i+1]); d != "" {
									t.Fail("channel %d: %s", i, d)
									return
								}
							}
						}
						t.Outcome("pixels agree")
					})
				}},
				{Name: "tree-coders", Quick: true, Body: func(x *mc.X) {
					cd := x.Choose("tree coder", 4)
					cform := jx.ClusterForm(x.Choose("cluster form", 3))
					n := x.Choose("leaves", 6)
					x.Do(func(t *mc.T) {
						chs := treeContent(5)
						m := simpleMod(chs)
						tree := jx.Leaf(5)
						for d := 0; d < n; d++ {
							tree = jx.Split(9, int32(40*d-60), jx.LeafX(d, 0, 0, 0), tree)
						}
						m.Tree = tree
						tc := jx.Code{Prefix: cd%2 == 0, LogAlpha: 8, CForm: cform}
						if cd >= 2 {
							tc.Map = []int{0, 1, 2, 3, 4, 5}
							if cform == jx.ClusterSimple {
								tc.Map = []int{0, 1, 2, 3, 1, 0}
							}
						}
						m.TCode = tc
						modRun(t, rgbHdr(9, 6, 8), lossless(), m, chs, jx.TOC{}, 1)
					})
				}},
			},
		}
	})
}

// refLayout builds an image with the given list of coded channels; want are
// the decoded ones.
func refLayout(layout, kind int) (hd *jx.Hdr, coded, want []*jx.Ch, trs []jx.Tr, nmeta int) {
	ch := func(w, h, i int) *jx.Ch { return fill(jx.NewCh(w, h), 1+(kind+i)%5, 3*kind+i, 255) }
	switch layout {
	case 0: // full, full, full, shifted, full, shifted, full
		hd = extraHdr(9, 6, 8, 4)
		for i := 0; i < 7; i++ {
			c := ch(9, 6, i)
			if i == 3 || i == 5 {
				hd.EC[i-3].DimShift = 1
				c = ch(5, 3, i)
				c.HS, c.VS = 1, 1
			}
			coded = append(coded, c)
		}
		return hd, coded, coded, nil, 0
	case 1: // one pixel wide, shifted channels have the size of the others
		hd = extraHdr(1, 1, 8, 4)
		for i := 0; i < 7; i++ {
			c := ch(1, 1, i)
			if i == 3 || i == 4 {
				hd.EC[i-3].DimShift = i - 2
				c.HS, c.VS = i-2, i-2
			}
			coded = append(coded, c)
		}
		return hd, coded, coded, nil, 0
	case 2, 3: // squeeze of a one pixel wide (high) channel: same size, other shift
		w, h := 1, 14
		if layout == 3 {
			w, h = h, w
		}
		hd = extraHdr(w, h, 8, 2)
		for i := 0; i < 5; i++ {
			want = append(want, ch(w, h, i))
		}
		sq := []jx.Sq{{Horiz: layout == 2, InPlace: true, Begin: 1, Num: 2}}
		coded, nmeta = jx.ForwardSqueeze(cloneChs(want), 0, sq)
		return hd, coded, want, []jx.Tr{{Kind: 2, Sq: sq}}, nmeta
	case 4: // the palette has the size of the image
		hd = extraHdr(6, 3, 8, 2)
		chs := []*jx.Ch{}
		for i := 0; i < 5; i++ {
			chs = append(chs, ch(6, 3, i))
		}
		tr := jx.Tr{Kind: 1, Begin: 0, NumC: 3, NbCol: 6}
		idx := jx.NewCh(6, 3)
		for y := range idx.D {
			for i := range idx.D[y] {
				idx.D[y][i] = int32(i*5+y*3) % 6
			}
		}
		coded, want = palette(chs, 0, tr, idx, ch(6, 3, 9), 8, jx.DefaultWP())
		return hd, coded, want, []jx.Tr{tr}, 1
	default: // default squeeze; square or wide
		w, h := 12, 12
		if layout == 6 {
			w = 30
		}
		hd = extraHdr(w, h, 8, 2)
		for i := 0; i < 5; i++ {
			want = append(want, ch(w, h, i))
		}
		coded = cloneChs(want)
		coded, nmeta = jx.ForwardSqueeze(coded, 0, jx.DefaultSqueeze(coded, 0))
		return hd, coded, want, []jx.Tr{{Kind: 2}}, nmeta
	}
}

func treeContent(kind int) []*jx.Ch {
	return []*jx.Ch{fill(jx.NewCh(9, 6), kind, 1, 255), fill(jx.NewCh(9, 6), (kind+1)%6, 2, 255), fill(jx.NewCh(9, 6), 5, 3, 255)}
}

var _ = fmt.Sprint
