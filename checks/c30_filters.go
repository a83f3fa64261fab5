package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

// mirrored sample access.
func (f F2) mir(x, y int) float64 {
	return f[mirrorIdx(y, len(f))][mirrorIdx(x, len(f[0]))]
}

// gabRef is the Gabor-like filter with weights w1 (edge) and w2 (corner).
func gabRef(in F2, w1, w2 float64) F2 {
	out := in.clone()
	k := 1 / (1 + 4*(w1+w2))
	for y := range in {
		for x := range in[y] {
			e := in.mir(x-1, y) + in.mir(x+1, y) + in.mir(x, y-1) + in.mir(x, y+1)
			d := in.mir(x-1, y-1) + in.mir(x+1, y-1) + in.mir(x-1, y+1) + in.mir(x+1, y+1)
			out[y][x] = k * (in[y][x] + w1*e + w2*d)
		}
	}
	return out
}

type epfPar struct {
	iters              int
	scale              [3]float64
	pass0, pass2, bord float64
	sigma              func(bx, by int) float64
}

func neigh(pass int) (pts [][2]int) {
	r := 1
	if pass == 0 {
		r = 2
	}
	for dy := -r; dy <= r; dy++ {
		for dx := -r; dx <= r; dx++ {
			if a := max(dx, -dx) + max(dy, -dy); a <= r {
				pts = append(pts, [2]int{dx, dy})
			}
		}
	}
	return
}

// epfRef is the edge preserving filter on three planes.
func epfRef(in [3]F2, p epfPar) [3]F2 {
	for pass := 0; pass < 3; pass++ {
		if pass == 0 && p.iters < 3 || pass == 2 && p.iters < 2 || p.iters == 0 {
			continue
		}
		k := 1.65
		switch pass {
		case 0:
			k *= p.pass0
		case 2:
			k *= p.pass2
		}
		pts := neigh(pass)
		shape := neigh(1)
		if pass == 2 {
			shape = [][2]int{{0, 0}}
		}
		var out [3]F2
		for c := range out {
			out[c] = in[c].clone()
		}
		for y := range in[0] {
			for x := range in[0][y] {
				sg := p.sigma(x/8, y/8)
				if sg < 0.3 {
					continue
				}
				m := k * 4 * (1 - math.Sqrt(0.5)) / sg
				if x%8 == 0 || x%8 == 7 || y%8 == 0 || y%8 == 7 {
					m *= p.bord
				}
				var sum [3]float64
				tot := 0.0
				for _, o := range pts {
					sad := 0.0
					for _, q := range shape {
						for c := range in {
							sad += p.scale[c] * math.Abs(in[c].mir(x+q[0], y+q[1])-in[c].mir(x+q[0]+o[0], y+q[1]+o[1]))
						}
					}
					w := math.Max(0, 1-sad*m)
					tot += w
					for c := range in {
						sum[c] += w * in[c].mir(x+o[0], y+o[1])
					}
				}
				for c := range in {
					out[c][y][x] = sum[c] / tot
				}
			}
		}
		in = out
	}
	return in
}

// filterRef applies the frame's restoration filters. blockSigma is the sigma
// before the sharpness scaling of a VarDCT block (nil for modular frames).
func filterRef(f *jx.FrameHdr, in []F2, v *jx.VarDCT, bw int) []F2 {
	rf := f.RF
	if f.AllDefault {
		rf = jx.RF{Default: true}
	}
	gab, iters := rf.Gab, rf.EPF
	if rf.Default {
		gab, iters = true, 2
	}
	out := make([]F2, len(in))
	copy(out, in)
	if gab {
		for c := range out {
			w1, w2 := 0.115169525, 0.061248592
			if rf.GabW != nil && !rf.Default {
				w1, w2 = rf.GabW[2*c], rf.GabW[2*c+1]
			}
			out[c] = gabRef(out[c], w1, w2)
		}
	}
	if iters == 0 {
		return out
	}
	p := epfPar{iters: iters, scale: [3]float64{40, 5, 3.5}, pass0: 0.9, pass2: 6.5, bord: 2.0 / 3}
	qm := 0.46
	var lut [8]float64
	for i := range lut {
		lut[i] = float64(i) / 7
	}
	if !rf.Default {
		if rf.SharpLut != nil {
			lut = *rf.SharpLut
		}
		if rf.Weights != nil {
			p.scale = *rf.Weights
		}
		if s := rf.Sigma; s != nil {
			qm, p.pass0, p.pass2, p.bord = s[0], s[1], s[2], s[3]
		}
	}
	if v == nil {
		s := 1.0
		if !rf.Default {
			s = rf.SigmaMod
		}
		p.sigma = func(bx, by int) float64 { return s }
	} else {
		qf := map[[2]int]int{}
		for _, b := range v.Blocks {
			t := jx.VTypes[b.T]
			for y := 0; y < t.BH; y++ {
				for x := 0; x < t.BW; x++ {
					qf[[2]int{b.X + x, b.Y + y}] = b.QF
				}
			}
		}
		p.sigma = func(bx, by int) float64 {
			return qm * lut[v.Sharp[by][bx]] * 65536 / float64(v.GlobalScale) / float64(qf[[2]int{bx, by}])
		}
	}
	r := epfRef([3]F2{out[0], out[1], out[2]}, p)
	copy(out, r[:])
	return out
}

// rfRun decodes the file and compares it with one of the accepted results. If
// that fails it retries with the syntax lacking epf_weight_custom, the known
// finding.
func rfRun(t *mc.T, f *jx.FrameHdr, enc func() []byte, par int, wants [][]F2, rel float64) {
	run := func() string {
		b := enc()
		t.Input(b)
		t.Run()
		im, err := decode(b, par)
		if err != nil {
			return fmt.Sprintf("decode: %v", err)
		}
		d := ""
		for i, w := range wants {
			e := diffScaled(im, w, rel)
			if e == "" {
				return ""
			}
			if i == 0 {
				d = e
			}
		}
		return d
	}
	d := run()
	if d == "" {
		t.Outcome("as expected")
		return
	}
	if !f.RF.Default && !f.AllDefault && f.RF.EPF > 0 {
		if f.RF.Weights != nil {
			t.FailCase("epf-weight-flag", "explicit filter with custom channel scales: %s", d)
			return
		}
		f.RF.NoWeightFlag = true
		e := run()
		f.RF.NoWeightFlag = false
		if e == "" {
			t.FailCase("epf-weight-flag", "explicit filter with EPF: epf_weight_custom is not read (%s)", d)
			return
		}
		t.Fail("%s; without epf_weight_custom: %s", d, e)
		return
	}
	t.Fail("%s", d)
}

// modFilter runs a modular frame through the filters.
func modFilter(t *mc.T, hd *jx.Hdr, f *jx.FrameHdr, chs []*jx.Ch, par int, rel float64) {
	nc := 3
	if hd.Colour.Space == 1 {
		nc = 1
	}
	var in []F2
	for c := 0; c < nc; c++ {
		in = append(in, norm(chs[c], hd.BD.Bits))
	}
	want := filterRef(f, in, nil, 0)
	for _, c := range chs[nc:] {
		want = append(want, norm(c, 8))
	}
	enc := func() []byte {
		m := simpleMod(cloneChs(chs))
		return encode(hd, f, m, jx.TOC{})
	}
	rfRun(t, f, enc, par, [][]F2{want}, rel)
}

// vdFilter runs a VarDCT frame through the filters.
func vdFilter(t *mc.T, hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, par int, rel float64) {
	px := vardctRef(hd, f, v, nil)
	var wants [][]F2
	full := filterRef(f, px[:], v, 0)
	crop := func(p []F2) (o []F2) {
		for c := range p {
			o = append(o, p[c].crop(hd.W, hd.H))
		}
		return
	}
	wants = append(wants, crop(full))
	if hd.W%8 != 0 || hd.H%8 != 0 {
		wants = append(wants, filterRef(f, crop(px[:]), v, 0))
	}
	rfRun(t, f, func() []byte { return vdEncode(hd, f, v) }, par, wants, rel)
}

var gabSets = []*[6]float64{nil, {0, 0, 0.5, 0.25, 0.125, 1}, {-0.0625, 0.03125, 0.25, -0.125, 1, 1}, {2, 0, 0, 2, 0, 0}}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C30", Level: "model_checking", HangS: 120, QuickDeadlineS: 240,
			Technique: "exhaustive enumeration of bounded frames (sizes x impulse positions x filter parameters x per-block strengths) coded by an independent encoder and replayed on the real decoder against a float64 reference of the Gabor-like and edge preserving filters",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "modular frames: every size up to 10x10 and strips of 260 samples, impulses at every position of every channel up to 6x6, 4 Gabor weight sets, 1..3 EPF iterations x sigma x pass scales x border scale, workers {1,2,3,8,64}; VarDCT frames: all sharpness values x luts x multipliers, 27 block types, group and LF group boundaries, odd sizes; YCbCr frames with every chroma subsampling"
				}
				return "modular frames: every size up to 9x9 and strips of 260 samples, impulses at every position up to 4x4, 4 Gabor weight sets, 1..3 EPF iterations x sigma x scales (2 deviations), workers {1,3,8}; VarDCT frames: sharpness x lut x multiplier (2 deviations), block types, group boundaries; YCbCr frames with every chroma subsampling"
			},
			Rule:   "every decoded sample is within float32 rounding of the filter definition applied to the unfiltered samples",
			Assume: []string{"VarDCT frames whose size is not a multiple of 8 may mirror at the padded or at the unpadded border", "the edge preserving filter is not defined here for one-channel frames (not enumerated)"},
			Spaces: []mc.Space{
				{Name: "gab-impulse", Quick: true, Body: func(x *mc.X) {
					n := x.Pick(4, 6)
					w, h := 1+x.Choose("width", n), 1+x.Choose("height", n)
					c := x.Choose("channel", 4) // 3 = gray image
					gw := x.Choose("weights", len(gabSets))
					pos := x.Choose("position", w*h)
					if c == 1 && !x.Thorough() {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd, n := rgbHdr(w, h, 8), 3
						if c == 3 {
							hd, n = grayHdr(w, h, 8), 1
						}
						f := lossless()
						f.RF = jx.RF{Gab: true, GabW: gabSets[gw]}
						var chs []*jx.Ch
						for i := 0; i < n; i++ {
							ch := jx.NewCh(w, h)
							if i == c%3 {
								ch.D[pos/w][pos%w] = 200
							}
							chs = append(chs, ch)
						}
						modFilter(t, hd, f, chs, 1+pos%3, 2e-6)
					})
				}},
				{Name: "gab-sizes", Quick: true, Body: func(x *mc.X) {
					k := x.Choose("shape", 3)
					gw := x.Choose("weights", len(gabSets))
					kind := x.Choose("content", 2)
					par := []int{1, 3, 8, 2, 64}[x.Choose("workers", x.Pick(3, 5))]
					var w, h int
					switch k {
					case 0:
						n := x.Pick(6, 10)
						w, h = 1+x.Choose("width", n), 1+x.Choose("height", n)
					case 1:
						w, h = 250+x.Choose("width", 12), 1+x.Choose("height", 3)
					case 2:
						w, h = 1+x.Choose("width", 3), 250+x.Choose("height", 12)
					}
					if !x.Thorough() && (k > 0 && par != 3 || k == 0 && kind == 1 && gw != 1) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd := rgbHdr(w, h, 8)
						if kind == 1 {
							hd = rgbHdr(w, h, 12)
						}
						f := lossless()
						f.RF = jx.RF{Gab: true, GabW: gabSets[gw]}
						chs := randChs(3, w, h, 7+gw, int32(255+kind*3840))
						modFilter(t, hd, f, chs, par, 4e-6)
					})
				}},
				{Name: "gab-context", Quick: true, Body: func(x *mc.X) {
					// extra channels stay as they are, upsampling comes later,
					// a second frame blends the filtered one.
					what := x.Choose("context", 3)
					gw := x.Choose("weights", 2)
					par := []int{1, 4}[x.Choose("workers", 2)]
					x.Do(func(t *mc.T) {
						w, h := 9, 7
						hd := rgbHdr(w, h, 8)
						f := lossless()
						f.RF = jx.RF{Gab: true, GabW: gabSets[gw]}
						chs := randChs(3, w, h, 31, 255)
						switch what {
						case 0:
							modFilter(t, hd, f, chs, par, 4e-6)
						case 1:
							hd.EC = []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 8}}, {Type: 2, BD: jx.BitDepth{Bits: 8}}}
							f.EcBlend = make([]jx.Blend, 2)
							f.EcUp = make([]int, 2)
							modFilter(t, hd, f, append(chs, randChs(2, w, h, 32, 255)...), par, 4e-6)
						case 2:
							hd2 := rgbHdr(2*w, 2*h, 8)
							f.Up = 1
							var want []F2
							var in []F2
							for _, c := range chs {
								in = append(in, norm(c, 8))
							}
							for _, c := range filterRef(f, in, nil, 0) {
								want = append(want, upsampleRef(c, 2, upDefaults[0]))
							}
							rfRun(t, f, func() []byte { return encode(hd2, f, simpleMod(cloneChs(chs)), jx.TOC{}) }, par, [][]F2{want}, 4e-6)
						}
					})
				}},
				{Name: "epf-modular", Quick: true, Body: func(x *mc.X) {
					sz := x.Choose("size", x.Pick(12, 16))
					it := 1 + x.Choose("iterations", 3)
					x.Bound = x.Pick(2, 3)
					sg := x.Dev("sigma", 5)
					cust := x.Dev("scales", 5)
					gab := x.Dev("gab", 3)
					kind := x.Dev("content", 5)
					par := []int{1, 3, 8, 64}[x.Dev("workers", 4)]
					x.Do(func(t *mc.T) {
						s := [][2]int{{8, 8}, {1, 1}, {2, 3}, {5, 1}, {1, 6}, {9, 9}, {16, 7}, {7, 17}, {3, 3}, {24, 9}, {33, 5}, {12, 20}, {260, 4}, {4, 260}, {64, 64}, {6, 40}}[sz]
						hd := rgbHdr(s[0], s[1], 8)
						f := lossless()
						f.RF = jx.RF{EPF: it, SigmaMod: []float64{1, 0.5, 4, 0.28125, 16}[sg]}
						if cust > 0 {
							f.RF.Sigma = &[4]float64{0, 1.5, 2, 0.25}
							f.RF.Sigma[cust%4] = []float64{0, 0.5, 8, 1, 3}[cust]
						}
						if gab > 0 {
							f.RF.Gab, f.RF.GabW = true, gabSets[gab-1]
						}
						modFilter(t, hd, f, epfContent(kind, s[0], s[1], 3+sz), par, 2e-5)
					})
				}},
				{Name: "epf-impulse", Quick: true, Body: func(x *mc.X) {
					it := 1 + x.Choose("iterations", 3)
					c := x.Choose("channel", 3)
					sz := x.Choose("size", 3)
					s := [][2]int{{9, 9}, {3, 4}, {17, 8}}[sz]
					pos := x.Choose("position", s[0]*s[1])
					if !x.Thorough() && (sz == 2 || sz == 0 && c != 1) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd := rgbHdr(s[0], s[1], 8)
						f := lossless()
						f.RF = jx.RF{EPF: it, SigmaMod: 2}
						var chs []*jx.Ch
						for i := 0; i < 3; i++ {
							chs = append(chs, fill(jx.NewCh(s[0], s[1]), 0, 0, 0))
							for y := range chs[i].D {
								for x := range chs[i].D[y] {
									chs[i].D[y][x] = int32(100 + i)
								}
							}
						}
						chs[c].D[pos/s[0]][pos%s[0]] += []int32{3, 9, 14}[c]
						modFilter(t, hd, f, chs, 1+pos%2, 2e-5)
					})
				}},
				{Name: "epf-vardct", Quick: true, Body: func(x *mc.X) {
					it := 1 + x.Choose("iterations", 3)
					x.Bound = x.Pick(2, 3)
					sz := x.Dev("size", 7)
					sh := x.Dev("sharpness", 10)
					lut := x.Dev("lut", 3)
					cust := x.Dev("scales", 6)
					gab := x.Dev("gab", 2)
					blocks := x.Dev("blocks", 4)
					gs := x.Dev("global scale", 3)
					par := []int{1, 3, 8}[x.Dev("workers", 3)]
					x.Do(func(t *mc.T) {
						s := [][2]int{{32, 24}, {8, 8}, {16, 40}, {30, 21}, {264, 8}, {8, 264}, {25, 9}}[sz]
						hd, f, v := newVD(s[0], s[1])
						vdSharp(v, sh)
						v.GlobalScale = []int{4096, 1024, 20000}[gs]
						switch blocks {
						case 1:
							mixBlocks(hd, f, v, 3)
							alignCfl(v, 3)
						case 2:
							if s[0] >= 32 && s[1] >= 16 {
								v.Blocks = append(v.Blocks, jx.VBlock{X: 1, Y: 0, T: 4, QF: 9}, jx.VBlock{X: 3, Y: 0, T: 6, QF: 30})
							}
						}
						if blocks != 1 {
							vdTile(hd, f, v)
							for i := range v.Blocks {
								if v.Blocks[i].QF == 1 {
									v.Blocks[i].QF = 1 + i*7%23
								}
								if blocks == 3 {
									v.Blocks[i].QF = 1 + i%256
								}
							}
						}
						f.RF = jx.RF{EPF: it}
						switch lut {
						case 1:
							f.RF.SharpLut = &[8]float64{1, 0.5, 0.25, 2, 0, 4, 3, 0.75}
						case 2:
							f.RF.SharpLut = &[8]float64{0, 0, 0, 0, 8, 8, 8, 8}
						}
						if cust > 0 {
							f.RF.Sigma = &[4]float64{1, 1.5, 2, 0.25}
							f.RF.Sigma[cust%4] = []float64{0, 0.5, 8, 1, 3, 2}[cust]
						}
						f.RF.Gab = gab == 1
						vdSmooth(hd, f, v, 11+sz)
						vdFilter(t, hd, f, v, par, 5e-5)
					})
				}},
				{Name: "subsampled", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(1, 2)
					var up [3]int
					for c := range up {
						up[c] = x.Choose(fmt.Sprintf("up%d", c), 4)
					}
					it := x.DevOf("iterations", 2, 1, 3, 0)
					gab := x.Dev("gab", 2)
					sz := [][2]int{{24, 32}, {24, 24}, {272, 8}, {8, 272}, {19, 35}}[x.Dev("size", 5)]
					kind := x.Dev("content", 3)
					sh := x.Dev("sharpness", 10)
					par := []int{1, 3}[x.Dev("workers", 2)]
					x.Do(func(t *mc.T) {
						ycbcrVardct(t, up, sz, kind, jx.RF{Gab: gab == 1, EPF: it}, sh, par, 5e-5)
					})
				}},
				{Name: "default", Quick: true, Body: func(x *mc.X) {
					// all-default restoration filter bundle: Gabor and two EPF iterations
					mode := x.Choose("frame", 3)
					sz := x.Choose("size", 6)
					sh := x.Choose("sharpness", 3)
					par := []int{1, 3}[x.Choose("workers", 2)]
					if mode == 0 && sh > 0 || mode == 2 && sz > 3 {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						s := [][2]int{{16, 16}, {8, 8}, {40, 16}, {13, 16}, {32, 33}, {264, 24}}[sz]
						if mode == 0 {
							hd := rgbHdr(s[0], s[1], 8)
							f := lossless()
							f.RF.Default = true
							modFilter(t, hd, f, epfContent(0, s[0], s[1], sz), par, 2e-5)
							return
						}
						hd, f, v := newVD(s[0], s[1])
						vdSharp(v, []int{0, 7, 9}[sh])
						vdTile(hd, f, v)
						for i := range v.Blocks {
							v.Blocks[i].QF = 1 + i*7%23
						}
						f.RF.Default = true
						if mode == 2 {
							// the all-default frame header smooths the LF image,
							// which has no effect on frames of at most two blocks
							f = &jx.FrameHdr{AllDefault: true, IsLast: true, XQ: 3, BQ: 2}
							if s[0] > 16 && s[1] > 16 || s[0] > 16 {
								s = [2]int{16, 16}
								hd, _, v = newVD(16, 16)
								vdSharp(v, sh)
								vdTile(hd, f, v)
							}
						}
						vdSmooth(hd, f, v, 5+sz)
						vdFilter(t, hd, f, v, par, 5e-5)
					})
				}},
				{Name: "large", Quick: true, Body: func(x *mc.X) {
					// LF group boundary: strengths of blocks in the second LF group
					vert := x.Choose("vertical", 3)
					it := 1 + 2*x.Choose("iterations", 2)
					if vert == 2 && it == 3 && !x.Thorough() {
						x.Prune()
					}
					par := []int{8, 1}[x.Choose("workers", x.Pick(1, 2))]
					x.Do(func(t *mc.T) {
						w, h := 2064, 8
						if vert == 1 {
							w, h = h, w
						}
						if vert == 2 { // as many groups as LF groups
							w, h = 264, 2064
						}
						hd, f, v := newVD(w, h)
						vdSharp(v, 9)
						vdTile(hd, f, v)
						for i := range v.Blocks {
							v.Blocks[i].QF = 1 + i*7%23
						}
						f.RF = jx.RF{EPF: it, Gab: true}
						vdSmooth(hd, f, v, 5)
						vdFilter(t, hd, f, v, par, 5e-5)
					})
				}},
				{Name: "types", Quick: true, Body: func(x *mc.X) {
					// the strength of a varblock applies to all of its 8x8 blocks
					ty := x.Choose("type", 27)
					n := jx.VTypes[ty]
					if !x.Thorough() && n.Cols() > 64 {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd, f, v := vdGrid(ty, 2, 2)
						for i := range v.Blocks {
							v.Blocks[i].QF = []int{3, 25, 60, 9}[i]
						}
						vdSharp(v, 9)
						f.RF = jx.RF{EPF: 2, Gab: true}
						vdSmooth(hd, f, v, ty)
						vdFilter(t, hd, f, v, 4, 1e-4)
					})
				}},
				{Name: "custom-weights", Quick: true, Body: func(x *mc.X) {
					modular := x.Choose("modular", 2)
					it := 1 + x.Choose("iterations", 3)
					x.Do(func(t *mc.T) {
						rf := jx.RF{EPF: it, Weights: &[3]float64{20, 10, 5}, SigmaMod: 1}
						if modular == 1 {
							f := lossless()
							f.RF = rf
							modFilter(t, rgbHdr(16, 16, 8), f, epfContent(0, 16, 16, 1), 1, 2e-5)
							return
						}
						hd, f, v := newVD(16, 16)
						vdSharp(v, 7)
						vdTile(hd, f, v)
						f.RF = rf
						vdSmooth(hd, f, v, 5)
						vdFilter(t, hd, f, v, 1, 5e-5)
					})
				}},
			},
		}
	})
}

// epfContent are three planes whose neighbouring samples differ little enough
// for the filter to act on some of them.
func epfContent(kind, w, h, seed int) (chs []*jx.Ch) {
	r := rng(seed*7 + kind + 1)
	for c := 0; c < 3; c++ {
		ch := jx.NewCh(w, h)
		for y := range ch.D {
			for x := range ch.D[y] {
				v := 0
				n := int(r.next() % 6)
				switch kind {
				case 0: // gentle noise
					v = 100 + n/2 + c
				case 1: // gradient
					v = 20 + x%40 + 2*(y%40) + n/3
				case 2: // step edge with noise
					v = 60 + n/2
					if x+y > (w+h)/2 {
						v += 120
					}
				case 3: // checks
					v = 128 + (x/2+y/2)%2*2 + n/4
				case 4: // noise in one channel
					v = 50
					if c == 1 {
						v += n * 3
					}
				}
				ch.D[y][x] = int32(v)
			}
		}
		chs = append(chs, ch)
	}
	return
}

// vdSharp sets the sharpness map: constant k below 8, else varying.
func vdSharp(v *jx.VarDCT, k int) {
	for y := range v.Sharp {
		for x := range v.Sharp[y] {
			switch {
			case k < 8:
				v.Sharp[y][x] = int32(7 - k)
			case k == 8:
				v.Sharp[y][x] = int32((x + y) % 2 * 7)
			default:
				v.Sharp[y][x] = int32((x + 3*y) % 8)
			}
		}
	}
}

// vdSmooth draws LF samples and a few coefficients of small amplitude.
func vdSmooth(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, seed int) {
	vdFill(hd, f, v, seed, 3)
	r := rng(seed + 1)
	for c := range v.LF {
		for y := range v.LF[c] {
			for x := range v.LF[c][y] {
				v.LF[c][y][x] = 40 + int32(r.next()%5)
			}
		}
	}
	for i := range v.Blocks {
		for p := range v.Blocks[i].Coef {
			for c := range v.Blocks[i].Coef[p] {
				for k, q := range v.Blocks[i].Coef[p][c] {
					v.Blocks[i].Coef[p][c][k] = max(-1, min(1, q))
				}
			}
		}
	}
}
