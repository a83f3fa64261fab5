package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

// vd is a VarDCT test frame with everything neutral.
func newVD(w, h int) (*jx.Hdr, *jx.FrameHdr, *jx.VarDCT) {
	hd := rgbHdr(w, h, 8)
	hd.Mod16 = false
	f := &jx.FrameHdr{IsLast: true, Flags: 128, XQ: 3, BQ: 2}
	v := &jx.VarDCT{GlobalScale: 4096, QuantLF: 16}
	vdAlloc(hd, f, v)
	return hd, f, v
}

// vdAlloc sizes the planes of v for the frame.
func vdAlloc(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT) {
	bw, bh := v.Dims(hd, f)
	mk := func(w, h int) [][]int32 { return jx.NewCh(w, h).D }
	for c := 0; c < 3; c++ {
		sx, sy := f.UpShift(c)
		v.LF[c] = mk(bw>>uint(sx), bh>>uint(sy))
	}
	v.XFromY, v.BFromY = mk((bw+7)/8, (bh+7)/8), mk((bw+7)/8, (bh+7)/8)
	v.Sharp = mk(bw, bh)
}

// vdTile completes the block list with DCT8 blocks.
func vdTile(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT) {
	bw, bh := v.Dims(hd, f)
	used := make([]bool, bw*bh)
	for _, b := range v.Blocks {
		t := jx.VTypes[b.T]
		for y := b.Y; y < b.Y+t.BH; y++ {
			for x := b.X; x < b.X+t.BW; x++ {
				if used[y*bw+x] {
					panic("overlapping varblocks")
				}
				used[y*bw+x] = true
			}
		}
	}
	for i, u := range used {
		if !u {
			v.Blocks = append(v.Blocks, jx.VBlock{X: i % bw, Y: i / bw, T: 0, QF: 1})
		}
	}
}

// vdFill draws LF samples and coefficients. density in 1/16.
func vdFill(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, seed, density int) {
	r := rng(seed*77 + 5)
	for c := 0; c < 3; c++ {
		for y := range v.LF[c] {
			for x := range v.LF[c][y] {
				v.LF[c][y][x] = int32(r.next()%200) - 60
			}
		}
	}
	np := 1
	if f.Passes != nil {
		np = f.Passes.N
	}
	for i := range v.Blocks {
		b := &v.Blocks[i]
		t := jx.VTypes[b.T]
		n := t.Rows() * t.Cols()
		for p := 0; p < np; p++ {
			var co [3][]int32
			for c := 0; c < 3; c++ {
				co[c] = make([]int32, n)
				for k := range co[c] {
					if int(r.next()%(16*uint32(t.Cov()))) < density {
						co[c][k] = int32(r.next()%9) - 4
					}
				}
			}
			b.Coef = append(b.Coef, co)
		}
	}
}

func vdEncode(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT) []byte {
	w := &jx.BW{}
	hd.Write(w)
	w.Pad()
	f.Write(w, hd)
	jx.WriteSections(w, jx.VarDCTSections(hd, f, v), jx.TOC{})
	w.Pad()
	return w.B
}

// nearScaled decodes b and compares every plane with a tolerance relative to
// the largest magnitude in the plane.
func nearScaled(t *mc.T, b []byte, par int, want []F2, rel float64) {
	t.Input(b)
	t.Run()
	im, err := decode(b, par)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	if d := diffScaled(im, want, rel); d != "" {
		t.Fail("%s", d)
		return
	}
	t.Outcome("as expected")
}

func maxAbs(f F2) float64 {
	m := 0.0
	for y := range f {
		for _, v := range f[y] {
			m = math.Max(m, math.Abs(v))
		}
	}
	return m
}

func diffScaled(im *Img, want []F2, rel float64) string {
	if len(im.Ch) != len(want) {
		return fmt.Sprintf("%d channels, want %d", len(im.Ch), len(want))
	}
	scale := 0.0
	for c := 0; c < 3 && c < len(want); c++ {
		scale = math.Max(scale, maxAbs(want[c]))
	}
	for c := range want {
		p := &im.Ch[c]
		w := want[c]
		if p.H != len(w) || p.W != len(w[0]) {
			return fmt.Sprintf("channel %d is %dx%d, want %dx%d", c, p.W, p.H, len(w[0]), len(w))
		}
		tol := rel * (scale + 1e-3)
		for y := range w {
			for x, v := range w[y] {
				if g := p.at(x, y, 8); !(math.Abs(g-v) <= tol) {
					return fmt.Sprintf("channel %d (%d,%d) = %v, want %v (tolerance %.2g)", c, x, y, g, v, tol)
				}
			}
		}
	}
	return ""
}

func vdWant(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT) []F2 {
	want := vardctRef(hd, f, v, nil)
	var fs []F2
	for c := 0; c < 3; c++ {
		fs = append(fs, want[c].crop(hd.W, hd.H))
	}
	return fs
}

const (
	vdTol  = 2e-5
	vdTolL = 1e-4 // blocks of 64 samples and more
)

func vdRun(t *mc.T, hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, par int) {
	tol := vdTol
	for _, b := range v.Blocks {
		if jx.VTypes[b.T].Cols() >= 64 {
			tol = vdTolL
		}
	}
	nearScaled(t, vdEncode(hd, f, v), par, vdWant(hd, f, v), tol)
}

// manyClusters gives every few contexts their own code.
func manyClusters(n, k int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i * 7919 % k
	}
	for i := 0; i < k && i < n; i++ {
		m[i] = i
	}
	return m
}

// vdOne is a frame of n x m blocks of one type plus DCT8 filling.
func vdGrid(ty, nx, ny int) (*jx.Hdr, *jx.FrameHdr, *jx.VarDCT) {
	t := jx.VTypes[ty]
	hd, f, v := newVD(8*t.BW*nx, 8*t.BH*ny)
	for j := 0; j < ny; j++ {
		for i := 0; i < nx; i++ {
			v.Blocks = append(v.Blocks, jx.VBlock{X: i * t.BW, Y: j * t.BH, T: ty, QF: 1 + (i+2*j)%5})
		}
	}
	return hd, f, v
}

// single returns coefficient arrays with one value.
func single(t jx.VType, c, k int, val int32) [3][]int32 {
	var co [3][]int32
	co[c] = make([]int32, t.Rows()*t.Cols())
	co[c][k] = val
	return co
}

// randPerm is a permutation of n positions fixing the first skip.
func randPerm(n, skip, kind int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch kind {
	case 1: // swap the first two
		p[skip], p[skip+1] = skip+1, skip
	case 2: // reverse
		for i := skip; i < n; i++ {
			p[i] = n - 1 - (i - skip)
		}
	case 3: // rotate
		for i := skip; i < n; i++ {
			p[i] = skip + (i-skip+5)%(n-skip)
		}
	case 4: // shuffle
		r := rng(n)
		for i := n - 1; i > skip; i-- {
			j := skip + int(r.next())%(i-skip+1)
			p[i], p[j] = p[j], p[i]
		}
	case 5: // swap the last two
		p[n-1], p[n-2] = n-2, n-1
	}
	return p
}

// randMat draws a matrix specification of the given mode for parameter set i.
func randMat(i, mode, seed int) jx.QMat {
	r := rng(seed*131 + i*17 + mode)
	q := jx.QMat{Mode: mode}
	f16 := func(lo, hi float64) float64 {
		return math.Round((lo+(hi-lo)*float64(r.next()%256)/255)*16) / 16
	}
	n := []int{0, 3, 6, 2, 1, 9}
	if mode >= 1 && mode <= 5 {
		for c := 0; c < 3; c++ {
			for k := 0; k < n[mode]; k++ {
				switch {
				case mode == 5 && k >= 6:
					q.P[c] = append(q.P[c], f16(-1, 1))
				case mode >= 3 && mode <= 4:
					q.P[c] = append(q.P[c], f16(0.5, 2))
				default:
					q.P[c] = append(q.P[c], f16(2, 60))
				}
			}
		}
	}
	dct := func(nb int) (d [3][]float64) {
		for c := 0; c < 3; c++ {
			d[c] = append(d[c], f16(4, 80))
			for k := 1; k < nb; k++ {
				d[c] = append(d[c], f16(-2, 2))
			}
		}
		return
	}
	if mode >= 3 && mode <= 6 {
		q.DCT = dct(1 + seed%17)
	}
	if mode == 5 {
		q.DCT44 = dct(1 + (seed+3)%17)
	}
	if mode == 7 {
		q.Den = 1.0 / 4096
		rows, cols := shapeOfParam(i)
		for c := 0; c < 3; c++ {
			ch := jx.NewCh(cols, rows)
			for y := range ch.D {
				for x := range ch.D[y] {
					ch.D[y][x] = 1 + int32(r.next()%60)
				}
			}
			q.Raw[c] = ch
		}
	}
	return q
}

// typesOfParam lists the block types of a matrix.
func typesOfParam(i int) (o []int) {
	for k, t := range jx.VTypes {
		if t.Param == i {
			o = append(o, k)
		}
	}
	return
}

// hfCode is the coefficient code k: prefix / ANS with k clusters.
func hfCode(prefix bool, nctx, clusters int) jx.Code {
	c := jx.Code{Prefix: prefix, LogAlpha: 8, CForm: jx.ClusterEntropy}
	if clusters > 1 {
		c.Map = manyClusters(nctx, clusters)
	}
	return c
}

var tileShapes = []int{0, 6, 7, 4, 8, 9, 11, 10, 5} // by type index, 1x1 first

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C29", Level: "model_checking", HangS: 120, QuickDeadlineS: 240,
			Technique: "exhaustive enumeration of bounded VarDCT frames (all block types, single coefficients, block layouts, context models, coefficient orders, dequantisation matrices, quantiser parameters, passes, groups) coded by an independent encoder and replayed on the real decoder against an independent float64 reconstruction",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "27 block types x coefficient patterns; every single HF coefficient of every type up to 32x32 and strided above; all tilings of 4x3 blocks with up to 9 shapes; context models with up to 2 LF and 3 QF thresholds per channel; 6 permutation kinds x 13 orders; 17 matrices x all legal modes; quantiser parameter pairs; 1..4 passes; frames up to 2056 samples; workers {1,8}"
				}
				return "27 block types x coefficient patterns; every single HF coefficient of every 8x8 and 16-sample type, strided above; all tilings of 3x3 blocks with 4 shapes; context models; permutations per order; matrices per mode; quantiser parameters (one deviation); passes; multi-group frames"
			},
			Rule:   "every decoded sample is within float32 rounding (2e-5, or 1e-4 for blocks of 64 and more, of the largest sample) of the inverse transform of the dequantised coefficients",
			Assume: []string{"libjxl constants for default matrices incl. the 128x256 ones as found in the repository", "blocks straddling a 64x64 tile only with equal chroma-from-luma factors"},
			Spaces: []mc.Space{
				{Name: "types", Quick: true, Body: func(x *mc.X) {
					ty := x.Choose("type", 27)
					pat := x.Choose("pattern", 5)
					multi := x.Choose("several", 2)
					if multi == 1 && (pat != 2 || jx.VTypes[ty].Cols() >= 128 && !x.Thorough()) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						vt := jx.VTypes[ty]
						hd, f, v := vdGrid(ty, 1+multi, 1+multi)
						v.Blocks[0].QF = 3
						switch pat {
						case 0:
							vdFill(hd, f, v, ty, 0)
						case 1:
							vdFill(hd, f, v, ty, 4)
						case 2:
							vdFill(hd, f, v, ty+50, 16)
						case 3: // every coefficient used
							vdFill(hd, f, v, ty+90, 16*vt.Cov())
						case 4: // large values, last coefficient in coding order
							vdFill(hd, f, v, ty, 0)
							od := jx.NaturalOrder(vt.Order)
							for c := 0; c < 3; c++ {
								v.Blocks[0].Coef[0][c][od[len(od)-1]] = []int32{1, -2000, 70000}[c]
								v.Blocks[0].Coef[0][c][od[vt.Cov()]] = []int32{-1, 2, -3}[c]
							}
						}
						vdRun(t, hd, f, v, 2)
					})
				}},
				{Name: "single", Quick: true, Body: func(x *mc.X) {
					ty := x.Choose("type", 27)
					vt := jx.VTypes[ty]
					n := vt.Rows() * vt.Cols()
					side := 8
					switch {
					case vt.Cols() == 16:
						side = 8
					case vt.Cols() == 32:
						side = x.Pick(6, 32)
					case vt.Cols() == 64:
						side = x.Pick(3, 8)
					case vt.Cols() >= 128:
						side = x.Pick(1, 4)
					}
					per := side * side
					parts := (n + per - 1) / per
					if vt.Cols() > 16 && !x.Thorough() {
						parts = 1
					}
					if vt.Cols() > 32 {
						parts = 1
					}
					part := x.Choose("part", parts)
					x.Do(func(t *mc.T) {
						hd, f, v := vdGrid(ty, side, side)
						vdFill(hd, f, v, ty, 0)
						step := 1
						if parts*per < n {
							step = n/per - 1 | 1
						}
						for i := range v.Blocks {
							k := ((part*per + i) * step) % n
							v.Blocks[i].QF = 1
							v.Blocks[i].Coef = [][3][]int32{single(vt, i%3, k, []int32{1, -1, 2, -5}[i%4])}
						}
						for c := 0; c < 3; c++ {
							for y := range v.LF[c] {
								for xx := range v.LF[c][y] {
									v.LF[c][y][xx] = 0
								}
							}
						}
						vdRun(t, hd, f, v, 2)
					})
				}},
				{Name: "layouts", Quick: true, Body: func(x *mc.X) {
					bw, bh := x.Pick(3, 4), 3
					shapes := tileShapes[:x.Pick(4, 9)]
					used := make([]bool, bw*bh)
					var bl []jx.VBlock
					if x.Thorough() {
						x.Bound = 4
					} else {
						x.Bound = 3
					}
					for i := range used {
						if used[i] {
							continue
						}
						X, Y := i%bw, i/bw
						var fit []int
						for _, s := range shapes {
							vt := jx.VTypes[s]
							ok := X+vt.BW <= bw && Y+vt.BH <= bh
							for y := Y; ok && y < Y+vt.BH; y++ {
								for xx := X; xx < X+vt.BW; xx++ {
									ok = ok && !used[y*bw+xx]
								}
							}
							if ok {
								fit = append(fit, s)
							}
						}
						s := fit[x.Dev("shape", len(fit))]
						vt := jx.VTypes[s]
						for y := Y; y < Y+vt.BH; y++ {
							for xx := X; xx < X+vt.BW; xx++ {
								used[y*bw+xx] = true
							}
						}
						bl = append(bl, jx.VBlock{X: X, Y: Y, T: s, QF: 1 + i%3})
					}
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(8*bw, 8*bh)
						v.Blocks = bl
						vdFill(hd, f, v, len(bl), 8)
						v.Pass = []jx.HFPassHdr{{Code: hfCode(true, 495*15, 97)}}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "mixed", Quick: true, Body: func(x *mc.X) {
					// all types next to each other in one frame that is larger than a group
					w := x.Of("w", 200, 264, 300, 520)
					h := x.Of("h", 40, 264)
					seed := x.Choose("seed", x.Pick(2, 12))
					par := x.Of("workers", parSet(x)...)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, h)
						mixBlocks(hd, f, v, seed)
						vdFill(hd, f, v, seed+3, 3)
						v.Pass = []jx.HFPassHdr{{Code: hfCode(seed%2 == 0, 495*15, 200)}}
						vdRun(t, hd, f, v, par)
					})
				}},
				{Name: "contexts", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(1, 2)
					var lft [3][]int
					sets := [][]int{{}, {0}, {-30, 40}, {-5, 5, 90}}
					for c := 0; c < 3; c++ {
						lft[c] = sets[x.Dev("LF thresholds", len(sets))]
					}
					qft := [][]int{{}, {2}, {1, 3, 4}, {4, 2}, {40, 255}}[x.Dev("QF thresholds", 5)]
					form := jx.ClusterForm(x.Dev("map form", 3))
					ncl := x.DevOf("clusters", 16, 1, 2, 5)
					code := x.DevOf("code clusters", 200, 64, 7, 1)
					pre := x.Dev("ANS", 2) == 0
					x.Do(func(t *mc.T) {
						nlf := (len(lft[0]) + 1) * (len(lft[1]) + 1) * (len(lft[2]) + 1)
						n := 39 * nlf * (len(qft) + 1)
						if nlf > 64 || form == jx.ClusterSimple && ncl > 8 {
							ncl = min(ncl, 8)
						}
						hd, f, v := newVD(64, 48)
						v.Ctx = &jx.BlockCtx{LFT: lft, QFT: qft, Map: manyClusters(n, ncl), Form: form}
						mixBlocks(hd, f, v, 1)
						vdFill(hd, f, v, 9, 6)
						v.Pass = []jx.HFPassHdr{{Code: hfCode(pre, 495*ncl, code)}}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "orders", Quick: true, Body: func(x *mc.X) {
					o := x.Choose("order", 13)
					kind := x.Choose("permutation", 6)
					ch := x.Choose("channel", 2)
					big := o >= 7
					if big && !x.Thorough() && (kind == 1 || kind == 3 || ch == 1) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						ty := 0
						for i := len(jx.VTypes) - 1; i >= 0; i-- {
							if jx.VTypes[i].Order == o {
								ty = i
							}
						}
						vt := jx.VTypes[ty]
						hd, f, v := vdGrid(ty, 1, 1)
						if !big {
							hd, f, v = vdGrid(ty, 2, 2)
						}
						vdFill(hd, f, v, o+kind, 9)
						n := vt.Rows() * vt.Cols()
						var pm [3][]int
						for c := 0; c < 3; c++ {
							k := kind
							if ch == 1 {
								k = (kind + c) % 6
							}
							pm[c] = randPerm(n, n/64, k)
						}
						v.Pass = []jx.HFPassHdr{{Used: 1 << uint(o), Perm: map[int][3][]int{o: pm}, Code: hfCode(true, 495*15, 60),
							OCode: jx.Code{Prefix: kind%2 == 0, LogAlpha: 8, Map: []int{0, 1, 2, 3, 4, 5, 6, 7}[:8], CForm: jx.ClusterEntropy}}}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "used-orders", Quick: true, Body: func(x *mc.X) {
					used := x.Of("used", 0x5F, 0x13, 0, 1, 2, 0x0F, 0x1FFF)
					sel := x.Choose("selector", 5)
					if used == 0x1FFF && !x.Thorough() {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(96, 80)
						mixBlocks(hd, f, v, 2)
						vdFill(hd, f, v, 4, 6)
						pm := map[int][3][]int{}
						for o := 0; o < 13; o++ {
							if used>>uint(o)&1 == 1 && o < 7 {
								r, c := jx.OrderShape(o)
								pm[o] = [3][]int{randPerm(r*c, r*c/64, 4), nil, randPerm(r*c, r*c/64, 2)}
							}
						}
						v.Pass = []jx.HFPassHdr{{Used: uint(used), Perm: pm, Sel: sel, Code: hfCode(true, 495*15, 60)}}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "matrices", Quick: true, Body: func(x *mc.X) {
					i := x.Choose("matrix", 17)
					mode := 1 + x.Choose("mode", 7)
					seed := x.Choose("seed", x.Pick(2, 6))
					one := i < 4 || i == 9 || i == 10
					if mode <= 5 && !one {
						x.Prune()
					}
					if !x.Thorough() && seed > 0 && (i > 8 && i != 10) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						tys := typesOfParam(i)
						hd, f, v := newVD(8*max(2, 2*jx.VTypes[tys[0]].BW), 8*max(2, 2*jx.VTypes[tys[0]].BH))
						if jx.VTypes[tys[0]].Cols() >= 64 {
							hd, f, v = newVD(8*jx.VTypes[tys[0]].BW, 8*jx.VTypes[tys[0]].BH)
						}
						ty := tys[seed%len(tys)]
						if ty != tys[0] {
							vt := jx.VTypes[ty]
							hd, f, v = newVD(8*vt.BW, 8*vt.BH)
						}
						vt := jx.VTypes[ty]
						bw, bh := v.Dims(hd, f)
						for y := 0; y+vt.BH <= bh; y += vt.BH {
							for xx := 0; xx+vt.BW <= bw; xx += vt.BW {
								v.Blocks = append(v.Blocks, jx.VBlock{X: xx, Y: y, T: ty, QF: 1 + xx%2})
							}
						}
						vdTile(hd, f, v)
						vdFill(hd, f, v, i, 12)
						v.Mats = make([]jx.QMat, 17)
						v.Mats[i] = randMat(i, mode, seed*5+2)
						if i > 0 { // a second custom matrix before it
							v.Mats[0] = randMat(0, 6, 3)
						}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "params", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(1, 2)
					gs := x.DevOf("global scale", 4096, 1, 2048, 2049, 4097, 8193, 73728)
					ql := x.DevOf("LF quantiser", 16, 1, 32, 256, 65536, 47)
					dq := x.Dev("LF dequant", 3)
					ep := x.Dev("extra precision", 4)
					cf := x.Dev("chroma from luma", 9)
					qf := x.DevOf("HF multiplier", 3, 1, 256, 17)
					lfv := x.Dev("LF range", 3)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(136, 72)
						v.GlobalScale, v.QuantLF, v.ExtraPrec = gs, ql, ep
						switch dq {
						case 1:
							v.LFDequant = &[3]float64{0.5, 0.25, 2}
						case 2:
							v.LFDequant = &[3]float64{1.0 / 64, 3, 1.5}
						}
						switch cf {
						case 1:
							v.Cfl = &jx.CfL{Factor: 84, BaseX: 0.5, BaseB: -0.25, XLF: 128, BLF: 128}
						case 2:
							v.Cfl = &jx.CfL{Factor: 256, BaseX: 0, BaseB: 1, XLF: 0, BLF: 255}
						case 3:
							v.Cfl = &jx.CfL{Factor: 2, BaseX: 0.125, BaseB: 0, XLF: 130, BLF: 127}
						case 4:
							v.Cfl = &jx.CfL{Factor: 65793, BaseX: 0.125, BaseB: 0, XLF: 255, BLF: 1}
						case 5:
							v.Cfl = &jx.CfL{Factor: 100, BaseX: 0, BaseB: 0, XLF: 100, BLF: 140}
						}
						mixBlocks(hd, f, v, 3)
						for i := range v.Blocks {
							v.Blocks[i].QF = qf
						}
						vdFill(hd, f, v, 4, 6)
						if cf >= 5 {
							alignCfl(v, cf)
						}
						if lfv > 0 {
							for c := 0; c < 3; c++ {
								for y := range v.LF[c] {
									for i := range v.LF[c][y] {
										v.LF[c][y][i] *= []int32{0, 20, -100}[lfv]
									}
								}
							}
						}
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "presets", Quick: true, Body: func(x *mc.X) {
					n := x.Of("presets", 1, 2, 3, 4)
					k := x.Choose("assignment", 3)
					w := x.Of("w", 520, 264)
					par := x.Of("workers", parSet(x)...)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, 300)
						mixBlocks(hd, f, v, k)
						vdFill(hd, f, v, 4, 2)
						v.Presets = n
						v.Preset = func(p, g int) int { return (g*(k+1) + k) % n }
						v.Pass = []jx.HFPassHdr{{Code: hfCode(k != 1, 495*15*n, 120)}}
						vdRun(t, hd, f, v, par)
					})
				}},
				{Name: "passes", Quick: true, Body: func(x *mc.X) {
					n := x.Of("passes", 2, 3, 4)
					sh := make([]int, n-1)
					for i := range sh {
						sh[i] = x.Choose("shift", 4)
						if n == 4 && i > 0 && !x.Thorough() && sh[i] > 1 {
							x.Prune()
						}
					}
					w := x.Of("w", 48, 300)
					if w == 300 && !x.Thorough() && n == 4 {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, 40)
						f.Passes = &jx.Passes{N: n, Shift: sh}
						mixBlocks(hd, f, v, n)
						vdFill(hd, f, v, 4+n, 3)
						for p := 0; p < n; p++ {
							h := jx.HFPassHdr{Code: hfCode(p%2 == 0, 495*15, 30+p)}
							if p == 1 {
								h.Used = 1
								h.Perm = map[int][3][]int{0: {randPerm(64, 1, 4), nil, randPerm(64, 1, 2)}}
							}
							v.Pass = append(v.Pass, h)
						}
						vdRun(t, hd, f, v, 2)
					})
				}},
				{Name: "lf-frames", Quick: true, Body: func(x *mc.X) {
					x.Bound = 0
					k := x.Choose("size", 3)
					lfFrames([][2]int{{2072, 24}, {24, 2080}, {264, 2056}}[k : k+1])(x)
				}},
				{Name: "sizes", Quick: true, Body: func(x *mc.X) {
					w := 1 + x.Choose("w", 17)
					h := x.Of("h", 1, 8, 9, 15, 17)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, h)
						vdTile(hd, f, v)
						vdFill(hd, f, v, w, 6)
						vdRun(t, hd, f, v, 1)
					})
				}},
				{Name: "modular-side", Quick: true, Body: func(x *mc.X) {
					// how the modular side information (LF, metadata) is coded, and extra channels
					tree := x.Choose("tree", 4)
					code := x.Choose("code", 4)
					ec := x.Choose("extra channels", 3)
					w := x.Of("w", 40, 270)
					if w == 270 && tree > 1 && !x.Thorough() {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, 40)
						var exp []F2
						var bits []int
						for i := 0; i < ec; i++ {
							hd.EC = append(hd.EC, jx.EC{Type: []int{0, 1}[i], BD: jx.BitDepth{Bits: 8}})
							ch := fill(jx.NewCh(w, 40), 2, i, 255)
							v.Mod.Chans = append(v.Mod.Chans, ch)
							exp = append(exp, norm(ch, 8))
							bits = append(bits, 8)
						}
						f.EcUp = make([]int, ec)
						f.EcBlend = make([]jx.Blend, ec)
						mixBlocks(hd, f, v, 5)
						vdFill(hd, f, v, 4, 3)
						switch tree {
						case 0:
							v.Mod.Tree = jx.Leaf(0)
						case 1:
							v.Mod.Tree = jx.Leaf(6)
						case 2:
							v.Mod.Tree = jx.Split(1, 1, jx.Leaf(5), jx.Split(0, 1, jx.Leaf(4), jx.Leaf(1)))
						case 3:
							v.Mod.Tree = jx.Leaf(5)
							v.Mod.Group = func(s *jx.Sub) { s.Local = true }
						}
						lv := v.Mod.Tree.Leaves()
						v.Mod.Code = coderN(code, lv)
						if code >= 2 {
							v.Mod.LZ = greedyLZ
						}
						all := append(vdWant(hd, f, v), exp...)
						b := vdEncode(hd, f, v)
						nearScaled(t, b, 2, all, vdTolL)
					})
				}},
				{Name: "side-streams", Quick: true, Body: func(x *mc.X) {
					// the modular streams inside a VarDCT frame (LF samples, block metadata,
					// raw matrices) with transforms, predictors and trees of their own
					target := x.Choose("stream", 4) // 3 is all of them
					mode := x.Choose("mode", 11)
					tree := x.Choose("tree", 3)
					local := x.Choose("own tree", 2) == 1
					sub := 0
					if x.Thorough() {
						sub = x.Choose("subsampling", 2)
					}
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(80, 72)
						if sub == 1 {
							f.YCbCr, f.JpegUp = true, [3]int{1, 0, 1}
							vdAlloc(hd, f, v)
							vdTile(hd, f, v)
						} else {
							mixBlocks(hd, f, v, mode)
						}
						vdFill(hd, f, v, mode, 3)
						v.Mats = make([]jx.QMat, 17)
						for _, i := range []int{0, 3, 6} {
							v.Mats[i] = randMat(i, 7, i+mode)
						}
						chain := func() *jx.Node {
							n := jx.Leaf(5)
							for p := 23; p >= 0; p-- {
								if p != 1 && p != 15 {
									n = jx.Split(p, int32(p%5), jx.Leaf([]int{1, 2, 4, 5, 8, 10, 12, 13}[p%8]), n)
								}
							}
							return n
						}
						trees := []*jx.Node{jx.Leaf(5), chain(), jx.Split(15, 3, jx.Leaf(6), jx.Split(16, 1, jx.Leaf(6), jx.Leaf(1)))}
						v.Mod.Tree = trees[tree]
						v.Mod.Code = coderN(1, v.Mod.Tree.Leaves())
						v.Mod.Group = func(s *jx.Sub) {
							kind := 2
							switch s.Stream {
							case 1:
								kind = 0
							case 3:
								kind = 1
							}
							if kind != target && target != 3 {
								return
							}
							s.Chans = cloneChs(s.Chans)
							if local {
								s.Local, s.Code, s.TCode = true, jx.Code{LogAlpha: 8}, jx.Code{Prefix: true}
							}
							pal := func(begin, nc int) {
								var tr jx.Tr
								s.Chans, tr = paletteAt(s.Chans, begin, nc)
								s.Trs = append(s.Trs, tr)
								s.NMeta++
							}
							sq := func(steps ...jx.Sq) {
								s.Trs = append(s.Trs, jx.Tr{Kind: 2, Sq: steps})
								if steps == nil {
									steps = jx.DefaultSqueeze(s.Chans, s.NMeta)
								}
								s.Chans, s.NMeta = jx.ForwardSqueeze(s.Chans, s.NMeta, steps)
							}
							rct := func(typ int) {
								if a := s.Chans; kind != 1 && a[0].W == a[1].W && a[0].H == a[1].H && a[0].W == a[2].W && a[0].H == a[2].H {
									jx.ForwardRCT(a, 0, typ)
									s.Trs = append(s.Trs, jx.Tr{Kind: 0, RCT: typ})
								}
							}
							switch mode {
							case 1:
								s.WP = jx.WP{P1: 3, P2: 5, A: 1, B: 2, C: 3, D: 4, E: 5, W: [4]int{1, 2, 3, 4}}
							case 2:
								rct(6)
							case 3:
								rct(23)
							case 4:
								pal(0, 1)
							case 5:
								pal(len(s.Chans)-1, 1)
							case 6:
								pal(1, 1)
								pal(1, 1)
							case 7:
								sq()
							case 8:
								sq(jx.Sq{Horiz: true, InPlace: true, Begin: 0, Num: len(s.Chans)}, jx.Sq{Begin: 2, Num: 1})
							case 9:
								rct(10)
								sq()
							case 10:
								pal(len(s.Chans)-1, 1)
								sq(jx.Sq{Horiz: true, InPlace: true, Begin: 1, Num: 2})
							}
						}
						vdRun(t, hd, f, v, 2)
					})
				}},
				{Name: "large", Body: func(x *mc.X) {
					w := x.Of("w", 2056, 2300)
					h := x.Of("h", 24, 264)
					par := x.Of("workers", 1, 3, 8)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, h)
						mixBlocks(hd, f, v, h)
						vdFill(hd, f, v, 4, 2)
						v.Pass = []jx.HFPassHdr{{Code: hfCode(true, 495*15, 30)}}
						vdRun(t, hd, f, v, par)
					})
				}},
				{Name: "smoothing", Quick: true, Body: func(x *mc.X) {
					w := x.Of("w", 8, 16, 24, 40, 56)
					h := x.Of("h", 8, 16, 24, 40)
					k := x.Choose("content", 4)
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, h)
						f.Flags = 0
						vdTile(hd, f, v)
						vdFill(hd, f, v, 4, 0)
						r := rng(k)
						for c := 0; c < 3; c++ {
							for y := range v.LF[c] {
								for i := range v.LF[c][y] {
									switch k {
									case 0: // flat with steps of one
										v.LF[c][y][i] = 100 + int32(r.next()%2)
									case 1: // ramp
										v.LF[c][y][i] = int32(30*y + 20*i)
									case 2: // one outlier
										v.LF[c][y][i] = 50
										if i == 1 && y == 1 {
											v.LF[c][y][i] = 52
										}
									case 3:
										v.LF[c][y][i] = int32(r.next() % 5)
									}
								}
							}
						}
						b := vdEncode(hd, f, v)
						t.Input(b)
						t.Run()
						im, err := decode(b, 1)
						if err != nil {
							t.Fail("decode: %v", err)
							return
						}
						d := diffScaled(im, vdWant(hd, f, v), vdTol)
						if d == "" {
							t.Outcome("as expected")
							return
						}
						// the defect recorded as known finding weighs the wrong way round
						wrongSmoothing = true
						alt := vdWant(hd, f, v)
						wrongSmoothing = false
						if diffScaled(im, alt, vdTol) == "" {
							t.FailCase("adaptive-lf-smoothing-weights", "%s", d)
							return
						}
						t.Fail("%s", d)
					})
				}},
			},
		}
	})
}

// mixBlocks tiles the frame with a pseudo-random mix of block types that
// respects the group boundaries.
func mixBlocks(hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, seed int) {
	bw, bh := v.Dims(hd, f)
	r := rng(seed*1009 + 3)
	used := make([]bool, bw*bh)
	for y := 0; y < bh; y++ {
		for x := 0; x < bw; x++ {
			if used[y*bw+x] {
				continue
			}
			for {
				ty := int(r.next() % 27)
				t := jx.VTypes[ty]
				ok := x+t.BW <= bw && y+t.BH <= bh && x/32 == (x+t.BW-1)/32 && y/32 == (y+t.BH-1)/32
				// keep big blocks inside one chroma-from-luma tile or tile aligned
				ok = ok && (x%8+t.BW <= 8 || x%8 == 0) && (y%8+t.BH <= 8 || y%8 == 0)
				for yy := y; ok && yy < y+t.BH; yy++ {
					for xx := x; xx < x+t.BW; xx++ {
						ok = ok && !used[yy*bw+xx]
					}
				}
				if !ok {
					continue
				}
				for yy := y; yy < y+t.BH; yy++ {
					for xx := x; xx < x+t.BW; xx++ {
						used[yy*bw+xx] = true
					}
				}
				v.Blocks = append(v.Blocks, jx.VBlock{X: x, Y: y, T: ty, QF: 1 + int(r.next()%6)})
				break
			}
		}
	}
}

// alignCfl gives the tiles different chroma-from-luma factors; tiles covered
// by one large block share theirs.
func alignCfl(v *jx.VarDCT, seed int) {
	r := rng(seed)
	for y := range v.XFromY {
		for x := range v.XFromY[y] {
			v.XFromY[y][x] = int32(r.next()%200) - 100
			v.BFromY[y][x] = int32(r.next()%200) - 100
		}
	}
	for _, b := range v.Blocks {
		t := jx.VTypes[b.T]
		for y := b.Y / 8; y <= (b.Y+t.BH-1)/8; y++ {
			for x := b.X / 8; x <= (b.X+t.BW-1)/8; x++ {
				v.XFromY[y][x], v.BFromY[y][x] = v.XFromY[b.Y/8][b.X/8], v.BFromY[b.Y/8][b.X/8]
			}
		}
	}
}
