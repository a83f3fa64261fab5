package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verif/jx"
	"verif/mc"
)

// compositor is the sequential reference model of frame composition.
type compositor struct {
	hd      *jx.Hdr
	ncol    int
	slots   [4][]F2 // whole-image canvases; nil = nothing stored
	canvas  []F2
	illegal bool // a frame used something the format leaves undefined
}

func (c *compositor) nch() int { return c.ncol + len(c.hd.EC) }

// frame composes one frame given its (upsampled, cropped) channels.
func (c *compositor) frame(f *jx.FrameHdr, chs []F2) {
	W, H := c.hd.W, c.hd.H
	if f.Type == 2 { // reference only
		if f.SaveRef >= 0 {
			c.slots[f.SaveRef] = chs
		}
		return
	}
	fw, fh := W, H
	x0, y0 := 0, 0
	if f.Crop {
		fw, fh, x0, y0 = f.W, f.H, f.X0, f.Y0
	}
	alphaAny := false
	for _, e := range c.hd.EC {
		if e.Type == 0 || e.Default {
			alphaAny = true
		}
	}
	bg := func(source, ch int) F2 {
		s := c.slots[source]
		if s == nil {
			return newF2(W, H)
		}
		if len(s[ch]) != H || len(s[ch][0]) != W {
			c.illegal = true
			return newF2(W, H)
		}
		return s[ch]
	}
	clamp := func(v float64) float64 { return math.Max(0, math.Min(1, v)) }
	out := make([]F2, c.nch())
	for ch := range out {
		b := f.Blend
		if ch >= c.ncol {
			b = jx.Blend{}
			if ch-c.ncol < len(f.EcBlend) {
				b = f.EcBlend[ch-c.ncol]
			}
		}
		back := bg(b.Source, ch)
		out[ch] = back.clone()
		isAlpha := ch >= c.ncol && (c.hd.EC[ch-c.ncol].Type == 0 || c.hd.EC[ch-c.ncol].Default)
		if isAlpha && (b.Mode == 2 || b.Mode == 3) && b.Alpha != ch-c.ncol {
			c.illegal = true
		}
		premult := false
		var fa, ba F2
		if alphaAny && (b.Mode == 2 || b.Mode == 3) {
			premult = c.hd.EC[b.Alpha].Assoc
			fa = chs[c.ncol+b.Alpha]
			ba = bg(b.Source, c.ncol+b.Alpha)
		}
		for y := 0; y < fh; y++ {
			for x := 0; x < fw; x++ {
				Y, X := y+y0, x+x0
				if Y < 0 || Y >= H || X < 0 || X >= W {
					continue
				}
				fg, bk := chs[ch][y][x], back[Y][X]
				a, o := 1.0, 1.0
				if fa != nil {
					a, o = fa[y][x], ba[Y][X]
				}
				var v float64
				switch b.Mode {
				case 0:
					v = fg
				case 1:
					v = bk + fg
				case 2:
					if b.Clamp {
						a = clamp(a)
					}
					switch {
					case isAlpha:
						v = o + a*(1-o)
					case fa == nil || premult:
						v = fg + bk*(1-a)
					default:
						if n := a + o*(1-a); n != 0 {
							v = (fg*a + bk*o*(1-a)) / n
						}
					}
				case 3:
					if b.Clamp {
						a = clamp(a)
					}
					if isAlpha {
						v = bk
					} else {
						v = bk + fg*a
					}
				case 4:
					if b.Clamp {
						fg = clamp(fg)
					}
					v = bk * fg
				}
				out[ch][Y][X] = v
			}
		}
	}
	c.canvas = out
	if !f.Last() {
		c.slots[f.SaveRef] = out
	}
}

// frameProgram encodes a sequence of modular frames, composing the expectation.
type frameProgram struct {
	hd   *jx.Hdr
	ncol int
	bw   *jx.BW
	c    *compositor
	bits []int
	seed int
}

func newProgram(hd *jx.Hdr) *frameProgram {
	p := &frameProgram{hd: hd, ncol: hd.NColour(), bw: &jx.BW{}, seed: 1}
	p.c = &compositor{hd: hd, ncol: p.ncol}
	hd.Write(p.bw)
	for i := 0; i < p.ncol; i++ {
		p.bits = append(p.bits, hd.BD.Bits)
	}
	for _, e := range hd.EC {
		b := e.BD.Bits
		if e.Default {
			b = 8
		}
		p.bits = append(p.bits, b)
	}
	return p
}

// add appends a frame; kind selects the contents.
func (p *frameProgram) add(f *jx.FrameHdr, kind int) {
	p.seed++
	cw, ch := f.CodedSize(p.hd)
	nw, nh := p.hd.W, p.hd.H
	if f.Crop {
		nw, nh = f.W, f.H
	}
	var chs []*jx.Ch
	var vals []F2
	for i := 0; i < p.c.nch(); i++ {
		c := fill(jx.NewCh(cw, ch), 2, p.seed*10+i, 1<<p.bits[i]-1)
		alpha := i >= p.ncol && (p.hd.EC[i-p.ncol].Type == 0 || p.hd.EC[i-p.ncol].Default)
		if alpha || kind == 2 {
			// the extremes matter for alpha
			m := int32(1)<<p.bits[i] - 1
			for y := range c.D {
				for x := range c.D[y] {
					switch (x + 2*y + p.seed) % 4 {
					case 0:
						c.D[y][x] = 0
					case 1:
						c.D[y][x] = m
					}
				}
			}
		}
		if kind == 1 { // out of range samples
			for y := range c.D {
				for x := range c.D[y] {
					c.D[y][x] = c.D[y][x]*3 - 1<<p.bits[i]
				}
			}
		}
		chs = append(chs, c)
		vals = append(vals, norm(c, p.bits[i]))
	}
	if f.Up > 0 {
		f.EcUp = nil
		for range p.hd.EC {
			f.EcUp = append(f.EcUp, f.Up)
		}
	}
	if f.Modular {
		if f.RF.Default || f.RF.Gab || f.RF.EPF > 0 {
			copy(vals, filterRef(f, vals[:p.ncol], nil, 0))
		}
		jx.EncodeModular(p.bw, p.hd, f, simpleMod(chs), jx.TOC{})
	} else {
		v := &jx.VarDCT{GlobalScale: 4096, QuantLF: 16}
		vdAlloc(p.hd, f, v)
		mixBlocks(p.hd, f, v, p.seed)
		vdFill(p.hd, f, v, p.seed, 3)
		px := vardctRef(p.hd, f, v, nil)
		if f.RF.Default || f.RF.Gab || f.RF.EPF > 0 {
			copy(px[:], filterRef(f, px[:], v, 0))
		}
		for c := range px {
			vals[c] = px[c].crop(cw, ch)
		}
		if len(chs) > p.ncol {
			v.Mod.Chans = chs[p.ncol:]
			v.Mod.Tree = jx.Leaf(5)
		}
		if f.EcUp == nil {
			f.EcUp = make([]int, len(p.hd.EC))
		}
		p.bw.Pad()
		f.Write(p.bw, p.hd)
		jx.WriteSections(p.bw, jx.VarDCTSections(p.hd, f, v), jx.TOC{})
	}
	for i := range vals {
		if f.Up > 0 {
			vals[i] = upsampleRef(vals[i], 1<<f.Up, upDefaults[f.Up-1])
		}
		vals[i] = vals[i].crop(nw, nh)
	}
	p.c.frame(f, vals)
}

func (p *frameProgram) run(t *mc.T, par int) {
	if p.c.illegal {
		panic("undefined frame program enumerated")
	}
	p.bw.Pad()
	runNear(t, p.bw.B, par, p.c.canvas, p.bits, 3e-5)
}

// frameHeaders for composition checks.
var frameLayouts = []func(w, h int) *jx.Hdr{
	func(w, h int) *jx.Hdr { return grayHdr(w, h, 8) },
	func(w, h int) *jx.Hdr {
		hd := grayHdr(w, h, 8)
		hd.EC = []jx.EC{{Default: true}}
		return hd
	},
	func(w, h int) *jx.Hdr {
		hd := rgbHdr(w, h, 8)
		hd.EC = []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 8}, Assoc: true}}
		return hd
	},
	func(w, h int) *jx.Hdr {
		hd := rgbHdr(w, h, 12)
		hd.EC = []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 8}}, {Type: 0, BD: jx.BitDepth{Bits: 4}}}
		return hd
	},
	func(w, h int) *jx.Hdr {
		hd := grayHdr(w, h, 16)
		hd.EC = []jx.EC{{Type: 3, BD: jx.BitDepth{Bits: 16}}}
		return hd
	},
	func(w, h int) *jx.Hdr { return rgbHdr(w, h, 8) },
	func(w, h int) *jx.Hdr {
		hd := rgbHdr(w, h, 8)
		hd.EC = []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 8}}, {Type: 0, BD: jx.BitDepth{Bits: 5}, Assoc: true}}
		return hd
	},
	func(w, h int) *jx.Hdr {
		hd := grayHdr(w, h, 10)
		hd.EC = []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 6}, Assoc: true}, {Type: 2, BD: jx.BitDepth{Bits: 7}}, {Type: 0, BD: jx.BitDepth{Bits: 12}}}
		return hd
	},
}

// alphas lists the alpha channels (0 when there is none: the index is not used then).
func alphas(hd *jx.Hdr) []int {
	var a []int
	for i, e := range hd.EC {
		if e.Type == 0 || e.Default {
			a = append(a, i)
		}
	}
	if a == nil {
		a = []int{0}
	}
	return a
}

// alphaIndex is the extra channel used for blending (0 if there is no alpha).
func alphaIndex(hd *jx.Hdr) int {
	for i, e := range hd.EC {
		if e.Type == 0 || e.Default {
			return i
		}
	}
	return 0
}

// legalBlend: without an alpha channel the alpha modes still are legal on
// images without extra channels (alpha = 1) but not where the index would
// name a channel that is no alpha.
func legalBlend(hd *jx.Hdr, mode int) bool {
	if mode != 2 && mode != 3 || len(hd.EC) == 0 {
		return true
	}
	a := hd.EC[alphaIndex(hd)]
	return a.Type == 0 || a.Default
}

// ecBlends gives every extra channel the mode; alpha channels blend with themselves.
func ecBlends(hd *jx.Hdr, mode, alpha int, clamp bool, source int) []jx.Blend {
	var bs []jx.Blend
	for i, e := range hd.EC {
		a := alpha
		if e.Type == 0 || e.Default {
			a = i
		}
		bs = append(bs, jx.Blend{Mode: mode, Alpha: a, Clamp: clamp, Source: source})
	}
	return bs
}

// fixFull clears what a frame of full size that replaces does not carry.
func fixFull(f *jx.FrameHdr) {
	if f.Crop {
		return
	}
	if f.Blend.Mode == 0 {
		f.Blend.Source = 0
	}
	for i := range f.EcBlend {
		if f.EcBlend[i].Mode == 0 {
			f.EcBlend[i].Source = 0
		}
	}
}

var cropRects = [][4]int{{0, 0, 0, 0}, {1, 1, 3, 2}, {-1, -2, 4, 4}, {3, 2, 5, 4}, {-2, 0, 9, 3}, {0, -1, 6, 7}, {-3, -3, 12, 12}, {7, 1, 2, 2}, {-4, 1, 3, 2}, {0, 0, 6, 5}, {0, 5, 6, 1}, {5, 4, 1, 1}}

func cropped(f *jx.FrameHdr, k int) *jx.FrameHdr {
	if k > 0 {
		r := cropRects[k]
		f.Crop, f.X0, f.Y0, f.W, f.H = true, r[0], r[1], r[2], r[3]
	}
	return f
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C15", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of frame programs (modes, sources, slots, crops, clamps, per-channel blending, frame types), composed by a sequential reference model and replayed on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "2-frame programs: 8 channel layouts x 12 crops x 5x5 colour/extra modes x clamps x sources x 3 contents; all 3-frame programs over (type, slot, mode, source) with 2 crops; 4- and 5-frame programs with at most 4 deviations from replace/slot 0; 8 channel layouts in all, two with two alpha channels of different kind and depth; crops at the edges of every representation of origins and sizes; frame types x names of 0 to 1000 bytes x extensions of frames and filters; 2 and 3 frames of both encodings, filtered, upsampled, cropped, with up to 2 (thorough 3) deviations from plain added frames"
				}
				return "2-frame programs: 8 channel layouts x 12 crops x 5x5 colour/extra modes x clamps; 3-frame programs over (slot, mode, source, crop); 4-frame programs with at most 2 deviations from replace/slot 0; 8 channel layouts in all, two with two alpha channels of different kind and depth; crops at the edges of every representation of origins and sizes; frame types x names of 0 to 1000 bytes x extensions of frames and filters; 2 and 3 frames of both encodings, filtered, upsampled, cropped, with up to 2 (thorough 3) deviations from plain added frames"
			},
			Rule:   "every sample of every channel equals the sequential composition of the frames (relative tolerance 3e-5)",
			Assume: []string{"blending equations of ISO 18181-1 as in the reference software; programs that the format leaves undefined are not enumerated (backgrounds of another size, alpha channels blended with another alpha)"},
			Spaces: []mc.Space{
				{Name: "two-frames", Quick: true, Body: func(x *mc.X) {
					l := x.Choose("layout", len(frameLayouts))
					crop := x.Choose("crop", len(cropRects))
					cm := x.Choose("colour mode", 5)
					hd := frameLayouts[l](6, 5)
					ecm := 0
					if len(hd.EC) > 0 {
						ecm = x.Choose("extra mode", 5)
					}
					if !legalBlend(hd, cm) || !legalBlend(hd, ecm) {
						x.Prune()
					}
					cl := x.Choose("clamp", 2) == 1
					kind := 0
					if x.Thorough() {
						kind = x.Choose("content", 3)
					} else if cl {
						kind = 1
					}
					src := 0
					if x.Thorough() {
						src = x.Choose("unset source", 2)
					}
					alpha := alphas(hd)[x.Choose("which alpha", len(alphas(hd)))]
					x.Do(func(t *mc.T) {
						p := newProgram(hd)
						f := lossless()
						f.IsLast, f.SaveRef = false, 2
						p.add(f, 0)
						f = cropped(lossless(), crop)
						s := 2 - src
						f.Blend = jx.Blend{Mode: cm, Alpha: alpha, Clamp: cl, Source: s}
						f.EcBlend = ecBlends(hd, ecm, alpha, cl, s)
						p.add(f, kind)
						p.run(t, 1)
					})
				}},
				{Name: "blended-then-blended", Quick: true, Body: func(x *mc.X) {
					// channels that the second frame left in another representation than
					// those of the third, each with a depth of its own
					hd := frameLayouts[x.Of("layout", 3, 4, 6, 7)](6, 5)
					cm2, em2 := x.Choose("second colour mode", 5), x.Choose("second extra mode", 5)
					cm3, em3 := x.Choose("third colour mode", x.Pick(2, 5)), x.Choose("third extra mode", 5)
					crop := []int{1, 0, 2}[x.Choose("crop", x.Pick(1, 3))]
					if !legalBlend(hd, cm2) || !legalBlend(hd, cm3) || !legalBlend(hd, em2) || !legalBlend(hd, em3) {
						x.Prune()
					}
					a := alphas(hd)
					x.Do(func(t *mc.T) {
						p := newProgram(hd)
						f := lossless()
						f.IsLast, f.SaveRef = false, 1
						p.add(f, 0)
						f = lossless()
						f.IsLast, f.SaveRef = false, 2
						f.Blend = jx.Blend{Mode: cm2, Alpha: a[0], Source: 1}
						f.EcBlend = ecBlends(hd, em2, a[0], false, 1)
						fixFull(f)
						p.add(f, 0)
						f = cropped(lossless(), crop)
						f.Blend = jx.Blend{Mode: cm3, Alpha: a[len(a)-1], Source: 2}
						f.EcBlend = ecBlends(hd, em3, a[len(a)-1], false, 2)
						fixFull(f)
						p.add(f, 0)
						p.run(t, 1)
					})
				}},
				{Name: "three-frames", Quick: true, Body: func(x *mc.X) {
					x.Bound = 1
					l := x.Of("layout", 0, 1)
					hd := frameLayouts[l](6, 5)
					p := newProgram(hd)
					var fs []*jx.FrameHdr
					for i := 0; i < 3; i++ {
						f := lossless()
						if i < 2 {
							f.IsLast = false
							f.SaveRef = x.Choose("slot", x.Pick(2, 3))
							if x.Thorough() {
								f.Type = x.Of("type", 0, 2, 3)
							} else {
								f.Type = []int{0, 2, 3}[x.Dev("type", 3)]
							}
						}
						if i > 0 && f.Type != 2 {
							f.Blend.Mode = x.Choose("mode", 5)
							f.Blend.Source = x.Choose("source", x.Pick(2, 3))
							cropped(f, []int{0, 1, 3}[x.Choose("crop", x.Pick(2, 3))])
							if !f.Crop && f.Blend.Mode == 0 {
								f.Blend.Source = 0
							}
							if len(hd.EC) > 0 {
								f.EcBlend = []jx.Blend{f.Blend}
								if f.Blend.Mode == 3 {
									f.EcBlend[0].Mode = 1
								}
							}
						}
						fs = append(fs, f)
					}
					x.Do(func(t *mc.T) {
						for _, f := range fs {
							p.add(f, 0)
						}
						p.run(t, 1)
					})
				}},
				{Name: "programs", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(2, 4)
					n := 4
					if x.Thorough() {
						n = 4 + x.Choose("five", 2)
					}
					l := x.Of("layout", 0, 2)
					hd := frameLayouts[l](6, 5)
					p := newProgram(hd)
					var fs []*jx.FrameHdr
					for i := 0; i < n; i++ {
						f := lossless()
						f.IsLast = i == n-1
						if !f.IsLast {
							f.Type = []int{0, 2, 3}[x.Dev("type", 3)]
							f.SaveRef = x.Dev("slot", 4)
						}
						if f.Type != 2 {
							cropped(f, []int{1, 0, 2, 4}[x.Dev("crop", 4)])
							f.Blend.Mode = x.Dev("mode", 5)
							f.Blend.Source = x.Dev("source", 4)
							if !f.Crop && f.Blend.Mode == 0 {
								f.Blend.Source = 0
							}
							f.EcBlend = []jx.Blend{{Source: f.Blend.Source}}
							if len(hd.EC) > 0 && x.Dev("extra as colour", 2) == 1 {
								f.EcBlend[0] = f.Blend
							}
							if !f.Crop && f.EcBlend[0].Mode == 0 {
								f.EcBlend[0].Source = 0
							}
						} else if x.Dev("before colour transform", 2) == 1 {
							f.BeforeCT = true
						}
						fs = append(fs, f)
					}
					x.Do(func(t *mc.T) {
						for _, f := range fs {
							p.add(f, 0)
						}
						p.run(t, 1)
					})
				}},
				{Name: "different-sources", Quick: true, Body: func(x *mc.X) {
					// colour and extra channels take their background from different slots
					sc, se := x.Choose("colour source", 4), x.Choose("extra source", 4)
					mc_, me := x.Of("colour mode", 0, 1, 4), x.Of("extra mode", 0, 1, 4)
					crop := x.Of("crop", 1, 2, 8)
					x.Do(func(t *mc.T) {
						hd := frameLayouts[3](6, 5)
						p := newProgram(hd)
						for s := 1; s < 4; s++ {
							f := lossless()
							f.IsLast, f.SaveRef = false, s
							p.add(f, 0)
						}
						f := cropped(lossless(), crop)
						f.Blend = jx.Blend{Mode: mc_, Source: sc}
						f.EcBlend = []jx.Blend{{Mode: me, Source: se}, {Mode: 0, Source: sc}}
						p.add(f, 0)
						p.run(t, 1)
					})
				}},
				{Name: "upsampled-frames", Quick: true, Body: func(x *mc.X) {
					l := x.Choose("layout", 4)
					up := 1 + x.Choose("log2 factor", 3)
					crop := x.Choose("crop", 7)
					mode := x.Choose("mode", 5)
					hd := frameLayouts[l](6, 5)
					if !legalBlend(hd, mode) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						p := newProgram(hd)
						f := lossless()
						f.IsLast, f.SaveRef = false, 1
						p.add(f, 0)
						f = cropped(lossless(), crop)
						f.Up = up
						f.Blend = jx.Blend{Mode: mode, Source: 1, Alpha: alphaIndex(hd)}
						for range hd.EC {
							f.EcBlend = append(f.EcBlend, jx.Blend{Mode: 0, Source: 1})
						}
						p.add(f, 0)
						p.run(t, 2)
					})
				}},
				{Name: "mixed-frames", Quick: true, Body: func(x *mc.X) {
					// frames of both encodings, filtered and upsampled before they are composed
					hd := frameLayouts[2](16, 16)
					n := 2 + x.Choose("frames", 2)
					vd := x.Choose("VarDCT frame", n+x.Pick(1, 2)) - 1
					x.Bound = x.Pick(2, 3)
					if vd >= 0 {
						x.Bound = x.Pick(1, 2)
					}
					var fs []*jx.FrameHdr
					for i := 0; i < n; i++ {
						f := lossless()
						f.IsLast = i == n-1
						if vd == i || vd == n {
							f.Modular, f.GroupShift, f.Flags, f.XQ, f.BQ = false, 0, 128, 3, 2
						}
						if !f.IsLast {
							f.Type = []int{0, 2, 3}[x.Dev("type", 3)]
							f.SaveRef = x.Dev("slot", 2)
						}
						f.RF = []jx.RF{{}, {Gab: true}, {Default: true}}[x.Dev("filter", 3)]
						f.Up = x.Dev("upsampling", 2)
						f.EcBlend = make([]jx.Blend, len(hd.EC))
						if f.Type != 2 {
							if k := x.Dev("crop", 3); k > 0 {
								r := [][4]int{{-3, 5, 16, 16}, {4, -2, 32, 16}}[k-1]
								f.Crop, f.X0, f.Y0, f.W, f.H = true, r[0], r[1], r[2], r[3]
							}
							if i > 0 {
								f.Blend = jx.Blend{Mode: []int{1, 0, 2, 3, 4}[x.Dev("mode", 5)], Source: x.Dev("source", 2)}
							}
							if f.Blend.Mode == 2 {
								f.EcBlend[0] = f.Blend
							} else {
								f.EcBlend[0].Source = f.Blend.Source
							}
							fixFull(f)
						} else {
							f.BeforeCT = x.Dev("before colour transform", 2) == 1
						}
						fs = append(fs, f)
					}
					x.Do(func(t *mc.T) {
						p := newProgram(hd)
						for _, f := range fs {
							g := *f
							p.add(&g, 0)
						}
						if p.c.illegal {
							panic("undefined frame program enumerated")
						}
						p.bw.Pad()
						nearScaled(t, p.bw.B, 2, p.c.canvas, 2e-4)
					})
				}},
				{Name: "names-and-extensions", Quick: true, Body: func(x *mc.X) {
					// fields that do not change the image, in front of those that do
					names := []string{"", "a", "fifteen chars..", "sixteen chars...", strings.Repeat("n", 47), strings.Repeat("N", 48), strings.Repeat("\xc3\xa9", 500)}
					exts := []map[int][]byte{nil, {0: {1, 2, 3}}, {63: {0xFF}}, {1: {}, 5: {9, 8, 7, 6, 5}, 40: {1}}, {2: bytes.Repeat([]byte{0xA5}, 300)}}
					first := x.Of("type", 0, 2, 3)
					last := x.Of("last type", 0, 3)
					n1, n2 := x.Choose("name", len(names)), x.Choose("last name", x.Pick(2, len(names)))
					e1 := x.Choose("extensions", len(exts))
					r1 := x.Choose("filter extensions", x.Pick(3, len(exts)))
					rf := x.Choose("filter", 3)
					x.Do(func(t *mc.T) {
						p := newProgram(frameLayouts[2](6, 5))
						f := lossless()
						f.Type, f.IsLast, f.SaveRef = first, false, 1
						f.Name, f.Ext = names[n1], exts[e1]
						f.RF = jx.RF{Gab: rf == 1, Default: rf == 2, Ext: exts[r1]}
						p.add(f, 0)
						f = cropped(lossless(), 1)
						f.Type = last
						f.Name, f.Ext = names[n2], exts[(e1+r1)%len(exts)]
						f.Blend = jx.Blend{Mode: 1, Source: 1}
						f.EcBlend = ecBlends(p.hd, 1, 0, false, 1)
						f.RF = jx.RF{Ext: exts[e1]}
						p.add(f, 0)
						p.run(t, 1)
					})
				}},
				{Name: "far-crops", Quick: true, Body: func(x *mc.X) {
					// origins and sizes around the changes of the fields' representations
					at := x.Of("edge", 128, 1152, 9344)
					d := x.Choose("offset", 4) - 2
					how := x.Choose("position", 3) // far right, far left, a large frame
					vertical := x.Choose("vertical", 2) == 1
					mode := x.Choose("mode", 2)
					x.Do(func(t *mc.T) {
						cw, x0, w := at+8, at+d, 5
						switch how {
						case 1:
							cw, x0, w = 9, -at-d, at+d+5
						case 2:
							cw, x0, w = 9, -3, 2*at+d
						}
						c, o, s := [2]int{cw, 2}, [2]int{x0, 0}, [2]int{w, 1}
						if vertical {
							c, o, s = [2]int{2, cw}, [2]int{0, x0}, [2]int{1, w}
						}
						p := newProgram(grayHdr(c[0], c[1], 8))
						f := lossless()
						f.IsLast, f.SaveRef = false, 1
						p.add(f, 0)
						f = lossless()
						f.Crop, f.X0, f.Y0, f.W, f.H = true, o[0], o[1], s[0], s[1]
						f.Blend = jx.Blend{Mode: mode, Source: 1}
						p.add(f, 0)
						p.run(t, 1)
					})
				}},
				{Name: "group-sized", Quick: true, Body: func(x *mc.X) {
					mode := x.Choose("mode", 5)
					x0, y0 := x.Of("x0", -130, -1, 0, 129), x.Of("y0", -1, 0, 20)
					w := x.Of("w", 100, 140, 270)
					shift := x.Choose("group shift", 2)
					x.Do(func(t *mc.T) {
						hd := frameLayouts[2](150, 30)
						p := newProgram(hd)
						f := shiftLossless(shift)
						f.IsLast, f.SaveRef = false, 3
						p.add(f, 0)
						f = shiftLossless(shift)
						f.Crop, f.X0, f.Y0, f.W, f.H = true, x0, y0, w, 25
						f.Blend = jx.Blend{Mode: mode, Source: 3}
						f.EcBlend = []jx.Blend{{Mode: mode % 3, Source: 3}}
						p.add(f, 0)
						p.run(t, 3)
					})
				}},
			},
		}
	})
}

var _ = fmt.Sprint
