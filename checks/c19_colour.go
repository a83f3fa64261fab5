package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

type m3 [3][3]float64

func (a m3) mul(b m3) (o m3) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			for k := 0; k < 3; k++ {
				o[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a m3) vec(v [3]float64) (o [3]float64) {
	for i := 0; i < 3; i++ {
		for k := 0; k < 3; k++ {
			o[i] += a[i][k] * v[k]
		}
	}
	return
}

func (a m3) inv() (o m3) {
	c := func(i, j int) float64 {
		i1, i2, j1, j2 := (i+1)%3, (i+2)%3, (j+1)%3, (j+2)%3
		return a[i1][j1]*a[i2][j2] - a[i1][j2]*a[i2][j1]
	}
	d := a[0][0]*c(0, 0) + a[0][1]*c(0, 1) + a[0][2]*c(0, 2)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			o[j][i] = c(i, j) / d
		}
	}
	return
}

func diag(v [3]float64) m3 { return m3{{v[0], 0, 0}, {0, v[1], 0}, {0, 0, v[2]}} }

func xyzOf(x, y float64) [3]float64 { return [3]float64{x / y, 1, (1 - x - y) / y} }

// toXYZ is the RGB to XYZ matrix of a set of primaries (r, g, b chromaticities).
func toXYZ(p [6]float64, w [2]float64) m3 {
	var m m3
	for i := 0; i < 3; i++ {
		v := xyzOf(p[2*i], p[2*i+1])
		for j := range v {
			m[j][i] = v[j]
		}
	}
	return m.mul(diag(m.inv().vec(xyzOf(w[0], w[1]))))
}

var bradford = m3{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}

// adaptWhite maps XYZ colours under white a to white b.
func adaptWhite(a, b [2]float64) m3 {
	la, lb := bradford.vec(xyzOf(a[0], a[1])), bradford.vec(xyzOf(b[0], b[1]))
	return bradford.inv().mul(diag([3]float64{lb[0] / la[0], lb[1] / la[1], lb[2] / la[2]})).mul(bradford)
}

var (
	whiteD65 = [2]float64{0.3127, 0.3290}
	primSRGB = [6]float64{0.639998686, 0.330010138, 0.300003784, 0.600003357, 0.150002046, 0.059997204}
)

// xybModel converts XYB samples to the linear RGB of the image header.
type xybModel struct {
	m    m3
	bias [3]float64
	cb   [3]float64
	it   float64
}

func newXYB(hd *jx.Hdr) *xybModel {
	x := &xybModel{it: 255.0 / 255}
	x.m = m3{
		{11.031566901960783, -9.866943921568629, -0.16462299647058826},
		{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
		{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}}
	for i := range x.bias {
		x.bias[i] = -0.0037930732552754493
	}
	if !hd.DefaultM && hd.Opsin != nil {
		for i := 0; i < 9; i++ {
			x.m[i/3][i%3] = hd.Opsin.M[i]
		}
		x.bias = hd.Opsin.Bias
	}
	for i := range x.cb {
		x.cb[i] = math.Cbrt(x.bias[i])
	}
	if hd.AllDefault {
		return x
	}
	if !hd.Tone.Default {
		x.it = 255 / hd.Tone.Target
	}
	c := hd.Colour
	if c.Default || c.ICC || c.Space != 0 {
		return x
	}
	w := map[int][2]float64{1: whiteD65, 10: {1.0 / 3, 1.0 / 3}, 11: {0.314, 0.351},
		2: {float64(c.WhiteXY[0]) / 1e6, float64(c.WhiteXY[1]) / 1e6}}[c.White]
	var cp [6]float64
	for i, v := range c.PrimXY {
		cp[i] = float64(v) / 1e6
	}
	p := map[int][6]float64{1: primSRGB, 2: cp, 9: {0.708, 0.292, 0.170, 0.797, 0.131, 0.046}, 11: {0.680, 0.320, 0.265, 0.690, 0.150, 0.060}}[c.Prim]
	x.m = toXYZ(p, w).inv().mul(adaptWhite(whiteD65, w)).mul(toXYZ(primSRGB, whiteD65)).mul(x.m)
	return x
}

// at converts one sample; mag is the magnitude of the largest summand.
func (x *xybModel) at(X, Y, B float64) (rgb [3]float64, mag float64) {
	g := [3]float64{Y + X - x.cb[0], Y - X - x.cb[1], B - x.cb[2]}
	var mix [3]float64
	in := math.Abs(X) + math.Abs(Y) + math.Abs(B)
	for i := range g {
		mix[i] = g[i]*g[i]*g[i] + x.bias[i]
	}
	rgb = x.m.vec(mix)
	for i := range rgb {
		rgb[i] *= x.it
		s := 0.0
		for j := range mix {
			s += math.Abs(x.m[i][j]) * (math.Abs(g[j]*g[j]*g[j]) + math.Abs(x.bias[j]) + 3*g[j]*g[j]*(in+math.Abs(x.cb[j])))
		}
		mag = math.Max(mag, s*x.it)
	}
	return
}

// convert converts whole planes (X, Y, B); the magnitudes come back as a plane.
func (x *xybModel) convert(in [3]F2) (out [3]F2, mag F2) {
	mag = in[0].clone()
	for c := range out {
		out[c] = in[c].clone()
	}
	for r := range in[0] {
		for q := range in[0][r] {
			v, m := x.at(in[0][r][q], in[1][r][q], in[2][r][q])
			for c := range out {
				out[c][r][q] = v[c]
			}
			mag[r][q] = m
		}
	}
	return
}

// modXYB turns the coded channels Y, X, B of a modular frame into X, Y, B samples.
func modXYB(chs []*jx.Ch, dq *[3]float64) (o [3]F2) {
	s := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	if dq != nil {
		for i := range s {
			s[i] = dq[i] / 128
		}
	}
	for c := range o {
		o[c] = newF2(chs[0].W, chs[0].H)
		for y := range o[c] {
			for x := range o[c][y] {
				v := float64(chs[[3]int{1, 0, 2}[c]].D[y][x])
				if c == 2 {
					v += float64(chs[0].D[y][x])
				}
				o[c][y][x] = v * s[c]
			}
		}
	}
	return
}

// ycbcrRef converts Cb, Y, Cr planes.
func ycbcrRef(in [3]F2) (out [3]F2, mag F2) {
	mag = in[0].clone()
	for c := range out {
		out[c] = in[c].clone()
	}
	for r := range in[0] {
		for q := range in[0][r] {
			cb, y, cr := in[0][r][q], in[1][r][q]+128.0/255, in[2][r][q]
			out[0][r][q] = y + 1.402*cr
			out[1][r][q] = y - 0.344136286*cb - 0.714136286*cr
			out[2][r][q] = y + 1.772*cb
			mag[r][q] = 1 + math.Abs(cb) + math.Abs(y) + math.Abs(cr)
		}
	}
	return
}

// colourRun decodes b and compares the planes; the tolerance of a sample is
// rel times its magnitude (flat: the largest magnitude of the image).
func colourRun(t *mc.T, b []byte, par int, want []F2, mag F2, rel float64, flat bool) {
	t.Input(b)
	t.Run()
	im, err := decode(b, par)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	if d := colourDiff(im, want, mag, rel, flat); d != "" {
		t.Fail("%s", d)
		return
	}
	t.Outcome("as expected")
}

func colourDiff(im *Img, want []F2, mag F2, rel float64, flat bool) string {
	if len(im.Ch) != len(want) {
		return fmt.Sprintf("%d channels, want %d", len(im.Ch), len(want))
	}
	top := maxAbs(mag)
	for c := range want {
		p, w := &im.Ch[c], want[c]
		if p.H != len(w) || p.W != len(w[0]) {
			return fmt.Sprintf("channel %d is %dx%d, want %dx%d", c, p.W, p.H, len(w[0]), len(w))
		}
		for y := range w {
			for x, v := range w[y] {
				tol := rel * top
				if !flat {
					tol = rel * mag[y][x]
				}
				tol += 1e-9
				if g := p.at(x, y, 8); !(math.Abs(g-v) <= tol) {
					return fmt.Sprintf("channel %d (%d,%d) = %v, want %v (tolerance %.2g)", c, x, y, g, v, tol)
				}
			}
		}
	}
	return ""
}

// cropAll crops planes.
func cropAll(p []F2, w, h int) (o []F2) {
	for _, f := range p {
		o = append(o, f.crop(w, h))
	}
	return
}

// opsins are the custom inverse matrices (all values are exact half floats).
var opsins = []*jx.Opsin{nil,
	{M: [9]float64{1, 0, 0, 0, 1, 0, 0, 0, 1}, Bias: [3]float64{0, 0, 0}, Q: [4]float64{0.9375, 0.875, 0.9375, 0.125}},
	{M: [9]float64{1, 2, 3, -4, 5, 0.5, 0.25, -0.125, 8}, Bias: [3]float64{-0.125, -0.015625, -0.001953125}, Q: [4]float64{1, 1, 1, 0}},
	{M: [9]float64{11, -9.5, -0.5, -3, 4.5, -0.5, -3.5, 2.5, 2}, Bias: [3]float64{0.125, -0.0078125, 0.5}, Q: [4]float64{0.5, 0.25, 0.75, 0.5}},
}

func setOpsin(hd *jx.Hdr, k int) {
	if k > 0 {
		hd.DefaultM, hd.Opsin = false, opsins[k]
	} else if k < 0 { // explicit default bundle
		hd.DefaultM = false
	}
}

var tones = []jx.Tone{{Default: true}, {Target: 255}, {Target: 10000, Min: 0.5}, {Target: 100, Min: 1, Lin: 0.5, Relative: true}, {Target: 1}, {Target: 4000, Min: 0.0625, Lin: 2}}

// xybColours are the target spaces.
var xybColours = func() (o []jx.Colour) {
	o = append(o, jx.Colour{Default: true})
	for _, w := range []int{1, 10, 11, 2} {
		for _, p := range []int{1, 9, 11, 2} {
			c := jx.Colour{White: w, Prim: p, TF: 8, Intent: 1}
			if w == 2 {
				c.WhiteXY = [2]int32{345700, 358500}
			}
			if p == 2 {
				c.PrimXY = [6]int32{734700, 265300, 115200, 826400, 156600, 17700}
			}
			o = append(o, c)
		}
	}
	o = append(o,
		jx.Colour{White: 1, Prim: 1, TF: 13},
		jx.Colour{White: 1, Prim: 9, TF: 16, Intent: 3},
		jx.Colour{White: 10, Prim: 11, Gamma: 4545454, Intent: 2},
		jx.Colour{White: 2, WhiteXY: [2]int32{310000, 316000}, Prim: 1, TF: 1})
	return
}()

func setColour(hd *jx.Hdr, c jx.Colour) { hd.Colour = c }

// xybGrid are coded Y, X, B channels covering combinations of sample values.
func xybGrid(kind int) []*jx.Ch {
	vals := [][]int32{{0, 1, -1, 20, 60, 120, 255, 400, -30, 511}, {0, 5, -7, 30, -30, 100, -100, 1}, {0, 1, -1, 40, -60, 100, 255, -200}}
	if kind == 1 {
		vals = [][]int32{{0, 3000, -2000, 17, 511}, {0, 2000, -2047, 3}, {0, -1500, 700, 2047}}
	}
	w, h := len(vals[0]), len(vals[1])*len(vals[2])
	chs := []*jx.Ch{jx.NewCh(w, h), jx.NewCh(w, h), jx.NewCh(w, h)}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			chs[0].D[y][x] = vals[0][x]
			chs[1].D[y][x] = vals[1][y%len(vals[1])]
			chs[2].D[y][x] = vals[2][y/len(vals[1])]
		}
	}
	return chs
}

var lfDequants = []*[3]float64{nil, {0.03125, 0.25, 0.5}, {1, 0.125, 2}, {0.5, 2, 0.0625}}

// newXYBVD is a VarDCT frame on an XYB image.
func newXYBVD(w, h int) (*jx.Hdr, *jx.FrameHdr, *jx.VarDCT) {
	hd, f, v := newVD(w, h)
	hd.XYB = true
	v.GlobalScale, v.QuantLF = 4096*4, 16
	return hd, f, v
}

// calmLF keeps the samples of an XYB frame in the range of images.
func calmLF(v *jx.VarDCT) {
	for c := 0; c < 3; c++ {
		for y := range v.LF[c] {
			for x := range v.LF[c][y] {
				d := &v.LF[c][y][x]
				switch c {
				case 0:
					*d = *d/4 - 5
				case 2:
					*d /= 4
				default:
					*d = *d + 300
				}
			}
		}
	}
}

const colTol = 4e-6

func init() {
	register(func() *mc.Check {
		return &mc.Check{ID: "C19", Level: "model_checking", Technique: "explicit enumeration of colour configurations and coded sample grids, replayed on the real decoder against a float64 colour model",
			Bounds: func(tier string) string {
				return fmt.Sprintf("%d opsin sets x %d tone sets x %d target spaces (up to 2 deviations; thorough: all combinations) x grids of 640 and 100 coded triples; all 64 JPEG upsampling mode triples; LF frames of 1 and 2 levels", len(opsins)+1, len(tones), len(xybColours))
			},
			Rule:   "every path of the choice tree (colour configuration x coded values) is encoded, decoded and compared with the float64 conversion",
			Assume: []string{"the colour model in checks/c19_colour.go restates the format", "the tolerance allows single precision arithmetic"},
			Spaces: colourSpaces()}
	})
}

func colourSpaces() []mc.Space {
	return []mc.Space{
		{Name: "xyb-modular", Quick: true, Body: func(x *mc.X) {
			op := x.Dev("opsin", len(opsins)+1) - 1
			tone := x.Dev("tone", len(tones))
			col := x.Dev("colour", len(xybColours))
			kind := x.Dev("grid", 2)
			dq := x.Dev("lfdequant", len(lfDequants))
			par := x.Dev("par", 2)
			bits := x.DevOf("bits", 8, 16, 12)
			ec := x.Dev("extra", 2)
			x.Do(func(t *mc.T) {
				chs := xybGrid(kind)
				hd := rgbHdr(chs[0].W, chs[0].H, bits)
				hd.XYB = true
				setOpsin(hd, op)
				hd.Tone = tones[tone]
				setColour(hd, xybColours[col])
				px := modXYB(chs, lfDequants[dq])
				want, mag := newXYB(hd).convert(px)
				w := want[:]
				if ec > 0 {
					hd.EC = []jx.EC{{Default: true}}
					a := fill(jx.NewCh(hd.W, hd.H), 2, 9, 255)
					chs = append(chs, a)
					w = append(w, norm(a, 8))
				}
				m := simpleMod(chs)
				m.LFDequant = lfDequants[dq]
				colourRun(t, encode(hd, lossless(), m, jx.TOC{}), 1+par, w, mag, colTol, false)
			})
		}},
		{Name: "xyb-modular-all", Body: func(x *mc.X) {
			op := x.Choose("opsin", len(opsins)+1) - 1
			tone := x.Choose("tone", len(tones))
			col := x.Choose("colour", len(xybColours))
			kind := x.Choose("grid", 2)
			dq := x.Choose("lfdequant", len(lfDequants))
			x.Do(func(t *mc.T) {
				chs := xybGrid(kind)
				hd := rgbHdr(chs[0].W, chs[0].H, 8)
				hd.XYB = true
				setOpsin(hd, op)
				hd.Tone = tones[tone]
				setColour(hd, xybColours[col])
				want, mag := newXYB(hd).convert(modXYB(chs, lfDequants[dq]))
				m := simpleMod(chs)
				m.LFDequant = lfDequants[dq]
				colourRun(t, encode(hd, lossless(), m, jx.TOC{}), 1, want[:], mag, colTol, false)
			})
		}},
		{Name: "xyb-gray", Quick: true, Body: func(x *mc.X) {
			tone := x.Choose("tone", len(tones))
			white := x.Of("white", 1, 10)
			op := x.Dev("opsin", 2) - 1
			ec := x.Dev("extra", 2)
			vd := x.Dev("vardct", 2)
			x.Do(func(t *mc.T) {
				chs := xybGrid(0)
				hd := grayHdr(chs[0].W, chs[0].H, 8)
				hd.Colour.White = white
				hd.XYB = true
				setOpsin(hd, op)
				hd.Tone = tones[tone]
				dq := &[3]float64{0.5, 0.5, 0.5}
				for y := range chs[0].D {
					for i := range chs[0].D[y] {
						chs[1].D[y][i], chs[2].D[y][i] = 0, 0
					}
				}
				var a *jx.Ch
				if ec > 0 {
					hd.EC = []jx.EC{{Default: true}}
					a = fill(jx.NewCh(hd.W, hd.H), 2, 9, 255)
				}
				if vd > 0 {
					f := &jx.FrameHdr{IsLast: true, Flags: 128, XQ: 2, BQ: 2}
					v := &jx.VarDCT{GlobalScale: 4096 * 4, QuantLF: 16, LFDequant: dq}
					vdAlloc(hd, f, v)
					vdTile(hd, f, v)
					vdFill(hd, f, v, 3, 0)
					for c := range v.LF {
						for y := range v.LF[c] {
							for i := range v.LF[c][y] {
								if c != 1 {
									v.LF[c][y][i] = 0
								}
							}
						}
					}
					if a != nil {
						v.Mod.Chans = []*jx.Ch{a}
					}
					px := vardctRef(hd, f, v, nil)
					for y := range px[1] {
						copy(px[2][y], px[1][y])
					}
					want, mag := newXYB(hd).convert(px)
					w := []F2{want[1].crop(hd.W, hd.H)}
					if a != nil {
						w = append(w, norm(a, 8))
					}
					colourRun(t, vdEncode(hd, f, v), 1, w, mag, 2e-5, true)
					return
				}
				want, mag := newXYB(hd).convert(modXYB(chs, dq))
				w := []F2{want[1]}
				if a != nil {
					chs = append(chs, a)
					w = append(w, norm(a, 8))
				}
				m := simpleMod(chs)
				m.LFDequant = dq
				colourRun(t, encode(hd, lossless(), m, jx.TOC{}), 1, w, mag, colTol, false)
			})
		}},
		{Name: "xyb-vardct", Quick: true, Body: func(x *mc.X) {
			xq := x.Dev("x_qm", 8)
			bq := x.Dev("b_qm", 8)
			op := x.Dev("opsin", len(opsins)+1) - 1
			tone := x.Dev("tone", len(tones))
			col := x.DevOf("colour", 0, 5, 10, 16)
			dq := x.Dev("lfdequant", 2)
			cfl := x.Dev("cfl", 3)
			size := x.Dev("size", 3)
			x.Do(func(t *mc.T) {
				sz := [][2]int{{16, 16}, {21, 11}, {80, 72}}[size]
				hd, f, v := newXYBVD(sz[0], sz[1])
				f.XQ, f.BQ = xq, bq
				setOpsin(hd, op)
				hd.Tone = tones[tone]
				setColour(hd, xybColours[col])
				vdTile(hd, f, v)
				vdFill(hd, f, v, 7+xq, 6)
				calmLF(v)
				if dq > 0 {
					v.LFDequant = &[3]float64{0.015625, 0.5, 1}
				}
				if cfl == 1 {
					v.Cfl = &jx.CfL{Factor: 200, BaseX: 0.125, BaseB: 0.5, XLF: 90, BLF: 140}
				}
				if cfl == 2 {
					alignCfl(v, 5)
				}
				want, mag := newXYB(hd).convert(vardctRef(hd, f, v, nil))
				colourRun(t, vdEncode(hd, f, v), 1, cropAll(want[:], hd.W, hd.H), mag, 2e-5, true)
			})
		}},
		{Name: "xyb-default-headers", Quick: true, Body: func(x *mc.X) {
			ih := x.Choose("image-default", 2)
			fh := x.Choose("frame-default", 2)
			mod := x.Choose("modular", 2)
			size := x.Choose("size", 4)
			dm := x.Choose("default-transform", 2)
			first := x.Choose("preceding-frame", 3)
			if fh == 1 && mod == 1 {
				x.Prune()
			}
			x.Do(func(t *mc.T) {
				sz := [][2]int{{8, 8}, {24, 17}, {264, 9}, {300, 270}}[size]
				hd, f, v := newXYBVD(sz[0], sz[1])
				hd.AllDefault = ih == 1
				hd.DefaultM = dm == 0
				rf := f
				f.Flags = 0
				if fh == 1 {
					*f = jx.FrameHdr{AllDefault: true, IsLast: true}
					// what the defaults mean
					rf = &jx.FrameHdr{IsLast: true, XQ: 3, BQ: 2, RF: jx.RF{Gab: true, EPF: 2}}
				}
				w := &jx.BW{}
				hd.Write(w)
				w.Pad()
				switch first {
				case 1: // overwritten by the frame under test
					p := &jx.FrameHdr{Modular: true, GroupShift: 1}
					chs := []*jx.Ch{fill(jx.NewCh(hd.W, hd.H), 2, 1, 200), fill(jx.NewCh(hd.W, hd.H), 0, 2, 20), fill(jx.NewCh(hd.W, hd.H), 2, 3, 20)}
					jx.EncodeModular(w, hd, p, simpleMod(chs), jx.TOC{})
				case 2: // reference only
					p := &jx.FrameHdr{Modular: true, Type: 2, GroupShift: 1, SaveRef: 1}
					chs := []*jx.Ch{fill(jx.NewCh(hd.W, hd.H), 2, 1, 200), fill(jx.NewCh(hd.W, hd.H), 0, 2, 20), fill(jx.NewCh(hd.W, hd.H), 2, 3, 20)}
					jx.EncodeModular(w, hd, p, simpleMod(chs), jx.TOC{})
				}
				if mod == 1 {
					f.Modular, f.GroupShift = true, 1
					chs := []*jx.Ch{fill(jx.NewCh(hd.W, hd.H), 2, 4, 300), fill(jx.NewCh(hd.W, hd.H), 2, 5, 60), fill(jx.NewCh(hd.W, hd.H), 2, 6, 90)}
					jx.EncodeModular(w, hd, f, simpleMod(chs), jx.TOC{})
					w.Pad()
					want, mag := newXYB(hd).convert(modXYB(chs, nil))
					colourRun(t, w.B, 1, want[:], mag, colTol, false)
					return
				}
				vdTile(hd, f, v)
				vdFill(hd, f, v, 11, 5)
				calmLF(v)
				// flat LF: the adaptive smoothing (decided by C29) has nothing to do
				for c := range v.LF {
					for y := range v.LF[c] {
						for i := range v.LF[c][y] {
							v.LF[c][y][i] = v.LF[c][0][0]
						}
					}
				}
				for y := range v.Sharp {
					for i := range v.Sharp[y] {
						v.Sharp[y][i] = int32((i + 3*y) % 8)
					}
				}
				f.Write(w, hd)
				jx.WriteSections(w, jx.VarDCTSections(hd, f, v), jx.TOC{})
				w.Pad()
				px := vardctRef(hd, rf, v, nil)
				wants := [][]F2{}
				fl := filterRef(rf, px[:], v, 0)
				wants = append(wants, fl)
				if hd.W%8 != 0 || hd.H%8 != 0 {
					wants = append(wants, filterRef(rf, cropAll(px[:], hd.W, hd.H), v, 0))
				}
				t.Input(w.B)
				t.Run()
				im, err := decode(w.B, 1)
				if err != nil {
					t.Fail("decode: %v", err)
					return
				}
				d := ""
				for _, p := range wants {
					c := cropAll(p, hd.W, hd.H)
					want, mag := newXYB(hd).convert([3]F2{c[0], c[1], c[2]})
					e := colourDiff(im, want[:], mag, 5e-5, true)
					if e == "" {
						t.Outcome("as expected")
						return
					}
					if d == "" {
						d = e
					}
				}
				t.Fail("%s", d)
			})
		}},
		{Name: "lf-frames", Quick: true, Body: lfFrames([][2]int{{64, 64}, {40, 16}, {280, 24}, {67, 75}})},
		{Name: "ycbcr-modular", Quick: true, Body: func(x *mc.X) {
			bits := x.Of("bits", 8, 10, 16)
			kind := x.Choose("values", 4)
			ec := x.Dev("extra", 2)
			par := x.Dev("par", 2)
			w := x.DevOf("w", 7, 1, 130)
			h := x.DevOf("h", 5, 1, 140)
			x.Do(func(t *mc.T) {
				hd := rgbHdr(w, h, bits)
				mx := int32(1)<<bits - 1
				var chs []*jx.Ch
				for c := 0; c < 3; c++ {
					ch := fill(jx.NewCh(w, h), kind, 40+c, mx)
					if kind == 3 {
						for y := range ch.D {
							for i := range ch.D[y] {
								ch.D[y][i] = []int32{0, mx, -mx, mx / 2, -mx / 3}[(i*[3]int{1, 2, 3}[c]+y*[3]int{3, 1, 2}[c])%5]
							}
						}
					}
					if c != 1 {
						for y := range ch.D {
							for i := range ch.D[y] {
								ch.D[y][i] -= mx / 2
							}
						}
					}
					chs = append(chs, ch)
				}
				want, mag := ycbcrRef([3]F2{norm(chs[0], bits), norm(chs[1], bits), norm(chs[2], bits)})
				o := want[:]
				if ec > 0 {
					hd.EC = []jx.EC{{Default: true}}
					a := fill(jx.NewCh(w, h), 2, 9, 255)
					chs = append(chs, a)
					o = append(o, norm(a, 8))
				}
				f := lossless()
				f.YCbCr = true
				colourRun(t, encode(hd, f, simpleMod(chs), jx.TOC{}), 1+par, o, mag, colTol, false)
			})
		}},
		{Name: "ycbcr-vardct", Quick: true, Body: func(x *mc.X) {
			x.Bound = x.Pick(1, 2)
			var up [3]int
			for c := range up {
				up[c] = x.Choose(fmt.Sprintf("up%d", c), 4)
			}
			size := x.Dev("size", 4)
			kind := x.Dev("content", 3)
			rf := x.Dev("gab", 2)
			par := x.Dev("par", 2)
			x.Do(func(t *mc.T) {
				sz := [][2]int{{32, 32}, {48, 16}, {272, 32}, {19, 35}}[size]
				ycbcrVardct(t, up, sz, kind, jx.RF{Gab: rf > 0}, 0, 1+par, 2e-5)
			})
		}},
		{Name: "ycbcr-modular-subsampled", Quick: true, Body: func(x *mc.X) {
			var up [3]int
			for c := range up {
				up[c] = x.Choose(fmt.Sprintf("up%d", c), 4)
			}
			x.Bound = x.Pick(1, 2)
			size := x.Dev("size", 4)
			bits := x.DevOf("bits", 8, 10)
			ec := x.Dev("extra", 2)
			gs := x.Dev("groupshift", 2)
			par := x.Dev("par", 2)
			gab := x.Dev("gab", 2)
			x.Do(func(t *mc.T) {
				// whole chroma samples only: whether the frame size is rounded up otherwise is not pinned down
				sz := [][2]int{{8, 6}, {2, 2}, {140, 18}, {6, 10}}[size]
				hd := rgbHdr(sz[0], sz[1], bits)
				f := lossless()
				f.GroupShift = gs
				f.YCbCr, f.JpegUp = true, up
				if gab > 0 {
					f.RF = jx.RF{Gab: true}
				}
				mx := int32(1)<<bits - 1
				var chs []*jx.Ch
				var px []F2
				mX, mY := 0, 0
				for c := 0; c < 3; c++ {
					sx, sy := f.UpShift(c)
					mX, mY = max(mX, sx), max(mY, sy)
				}
				rw, rh := (hd.W+1<<uint(mX)-1)>>uint(mX)<<uint(mX), (hd.H+1<<uint(mY)-1)>>uint(mY)<<uint(mY)
				for c := 0; c < 3; c++ {
					sx, sy := f.UpShift(c)
					ch := fill(jx.NewCh(rw>>uint(sx), rh>>uint(sy)), 2, 50+c, mx)
					ch.HS, ch.VS = sx, sy
					chs = append(chs, ch)
					p := norm(ch, bits)
					if sx > 0 {
						p = unsampleX(p)
					}
					if sy > 0 {
						p = unsampleY(p)
					}
					px = append(px, p)
				}
				px = cropAll(px, hd.W, hd.H)
				if gab > 0 {
					px = filterRef(f, px, nil, 0)
				}
				want, mag := ycbcrRef([3]F2{px[0], px[1], px[2]})
				o := want[:]
				if ec > 0 {
					hd.EC = []jx.EC{{Default: true}}
					a := fill(jx.NewCh(hd.W, hd.H), 2, 9, 255)
					chs = append(chs, a)
					o = append(o, norm(a, 8))
				}
				colourRun(t, encode(hd, f, simpleMod(chs), jx.TOC{}), 1+par, o, mag, 1e-5, true)
			})
		}},
		{Name: "blended", Quick: true, Body: func(x *mc.X) {
			xyb := x.Choose("xyb", 2)
			mode := x.Choose("mode", 5)
			second := x.Choose("second", 2) // 1: the other frame is of the other coding
			crop := x.Dev("crop", 6)
			ec := x.Dev("alpha", 2)
			save := x.Dev("slot", 4)
			ref := x.Dev("reference-only", 2)
			gray := xyb == 1 && x.Dev("gray", 2) == 1
			x.Do(func(t *mc.T) {
				hd := rgbHdr(6, 6, 8)
				if gray {
					hd = grayHdr(6, 6, 8)
				}
				hd.XYB = xyb == 1
				if ec > 0 {
					hd.EC = []jx.EC{{Default: true}}
				}
				if !legalBlend(hd, mode) {
					return
				}
				if ref == 1 && crop > 0 && mode != 0 {
					// fine: the reference has the full size
					ref = 1
				}
				w := &jx.BW{}
				hd.Write(w)
				w.Pad()
				c := &compositor{hd: hd, ncol: hd.NColour()}
				magTop := newF2(1, 1)
				for i := 0; i < 2; i++ {
					f := &jx.FrameHdr{Modular: true, GroupShift: 1, IsLast: i == 1}
					if i == 0 {
						f.SaveRef = save
						if ref == 1 {
							f.Type = 2
						}
					} else {
						b := jx.Blend{Mode: mode, Source: save}
						f.Blend = b
						if ec > 0 {
							f.EcBlend = []jx.Blend{b}
						}
						cropped(f, crop)
					}
					if xyb == 0 {
						f.YCbCr = i == 0 != (second == 1)
					}
					cw, ch := f.CodedSize(hd)
					chs := []*jx.Ch{fill(jx.NewCh(cw, ch), 2, 3*i+1, 200), fill(jx.NewCh(cw, ch), 2, 3*i+2, 30), fill(jx.NewCh(cw, ch), 2, 3*i+3, 50)}
					var px [3]F2
					var mag F2
					switch {
					case xyb == 1:
						if gray {
							chs[1], chs[2] = jx.NewCh(cw, ch), jx.NewCh(cw, ch)
						}
						px, mag = newXYB(hd).convert(modXYB(chs, nil))
					case f.YCbCr:
						px, mag = ycbcrRef([3]F2{norm(chs[0], 8), norm(chs[1], 8), norm(chs[2], 8)})
					default:
						px, mag = [3]F2{norm(chs[0], 8), norm(chs[1], 8), norm(chs[2], 8)}, F2{{1}}
					}
					magTop[0][0] = math.Max(magTop[0][0], math.Max(1, maxAbs(mag)))
					vals := px[:]
					if gray {
						vals = []F2{px[1]}
					}
					if ec > 0 {
						a := fill(jx.NewCh(cw, ch), 2, 3*i+9, 255)
						chs = append(chs, a)
						vals = append(vals, norm(a, 8))
					}
					jx.EncodeModular(w, hd, f, simpleMod(chs), jx.TOC{})
					c.frame(f, vals)
				}
				w.Pad()
				if c.illegal {
					panic("undefined frame program enumerated")
				}
				top := magTop[0][0]
				colourRun(t, w.B, 1, c.canvas, F2{{top * top}}, 1e-5, true)
			})
		}},
	}
}

// lfFrames replaces the LF of a VarDCT frame by chains of LF frames.
func lfFrames(sizes [][2]int) func(x *mc.X) {
	return func(x *mc.X) {
		depth := x.Of("levels", 1, 2)
		lfMod := x.Choose("lf-modular", 2)
		mainMod := x.Dev("main-modular", 2)
		size := x.Dev("size", len(sizes))
		lfLevel := x.Dev("unused-level", 2)
		gab := x.Dev("lf-filter", 2)
		ec := x.Dev("extra", 2)
		smooth := x.Dev("smoothing-flag", 2)
		if mainMod == 1 {
			x.Prune()
		}
		x.Do(func(t *mc.T) {
			sz := sizes[size]
			hd, f, v := newXYBVD(sz[0], sz[1])
			if ec > 0 {
				hd.EC = []jx.EC{{Default: true}}
			}
			var res [][]F2
			var mags []F2
			var file []byte
			for padded := 0; padded < 2; padded++ {
				w := &jx.BW{}
				hd.Write(w)
				w.Pad()
				var lf *[3]F2
				if lfLevel > 0 {
					depth = max(depth, 1)
				}
				for l := depth; l >= 1; l-- {
					seed := 20 + l
					lfh := &jx.FrameHdr{Type: 1, LFLevel: l, Modular: lfMod == 1, Flags: 128, XQ: 2, BQ: 2}
					if lf != nil {
						lfh.Flags |= 32
					}
					if lfMod == 1 && lf != nil {
						// a modular frame has no use for an LF frame; it replaces it
						lfh.Flags = 0
					}
					cw, chh := lfh.CodedSize(hd)
					var px [3]F2
					if lfMod == 1 {
						lfh.GroupShift = 1
						lfh.Flags = 0
						chs := []*jx.Ch{fill(jx.NewCh(cw, chh), 2, seed, 300), fill(jx.NewCh(cw, chh), 2, seed+1, 50), fill(jx.NewCh(cw, chh), 2, seed+2, 60)}
						px = modXYB(chs, nil)
						if ec > 0 {
							chs = append(chs, fill(jx.NewCh(cw, chh), 2, seed+3, 255))
						}
						if gab > 0 {
							lfh.RF = jx.RF{Gab: true}
						}
						jx.EncodeModular(w, hd, lfh, simpleMod(chs), jx.TOC{})
					} else {
						lv := &jx.VarDCT{GlobalScale: 4096 * 4, QuantLF: 16}
						vdAlloc(hd, lfh, lv)
						vdTile(hd, lfh, lv)
						vdFill(hd, lfh, lv, seed, 6)
						calmLF(lv)
						lv.Cfl = &jx.CfL{Factor: 84, XLF: 128, BLF: 128}
						if gab > 0 {
							lfh.RF = jx.RF{Gab: true}
						}
						if ec > 0 {
							lv.Mod.Chans = []*jx.Ch{fill(jx.NewCh(cw, chh), 2, seed+3, 255)}
						}
						lfh.Write(w, hd)
						jx.WriteSections(w, jx.VarDCTSections(hd, lfh, lv), jx.TOC{})
						px = vardctRef(hd, lfh, lv, lf)
					}
					if gab > 0 {
						// filtered with or without the padding of the last blocks
						in := px[:]
						if padded == 0 {
							in = cropAll(in, cw, chh)
						}
						o := filterRef(lfh, in, nil, 0)
						px = [3]F2{o[0], o[1], o[2]}
					}
					c := cropAll(px[:], cw, chh)
					// the blocks of the next frame beyond the coded area repeat the padding; only whole blocks are compared
					lf = &[3]F2{c[0], c[1], c[2]}
				}
				f.Flags = 32
				v.Blocks = nil
				if smooth == 0 {
					f.Flags |= 128
				}
				vdTile(hd, f, v)
				vdFill(hd, f, v, 31, 5)
				var a *jx.Ch
				if ec > 0 {
					a = fill(jx.NewCh(hd.W, hd.H), 2, 77, 255)
					v.Mod.Chans = []*jx.Ch{a}
				}
				f.Write(w, hd)
				jx.WriteSections(w, jx.VarDCTSections(hd, f, v), jx.TOC{})
				w.Pad()
				want, mag := newXYB(hd).convert(vardctRef(hd, f, v, lf))
				o := cropAll(want[:], hd.W, hd.H)
				if a != nil {
					o = append(o, norm(a, 8))
				}
				res, mags, file = append(res, o), append(mags, mag), w.B
			}
			t.Input(file)
			t.Run()
			im, err := decode(file, 1)
			if err != nil {
				t.Fail("decode: %v", err)
				return
			}
			d := colourDiff(im, res[0], mags[0], 5e-5, true)
			if d != "" && gab > 0 && colourDiff(im, res[1], mags[1], 5e-5, true) == "" {
				d = ""
			}
			if d != "" {
				t.Fail("%s", d)
				return
			}
			t.Outcome("as expected")
		})
	}
}

// ycbcrVardct decodes a subsampled VarDCT frame with restoration filters.
func ycbcrVardct(t *mc.T, up [3]int, sz [2]int, kind int, rf jx.RF, sharp, par int, tol float64) {
	hd, f, v := newVD(sz[0], sz[1])
	f.YCbCr, f.JpegUp = true, up
	v.Cfl = &jx.CfL{Factor: 84, XLF: 128, BLF: 128}
	vdAlloc(hd, f, v)
	vdTile(hd, f, v)
	vdFill(hd, f, v, 3+kind, []int{6, 0, 16}[kind])
	f.RF = rf
	vdSharp(v, sharp)
	px := vardctRef(hd, f, v, nil)
	// variants of the reference: the padding takes part in the upsampling or is cropped first
	variant := func(vr, vf int) [3]F2 {
		var q [3]F2
		for c := range px {
			p := px[c]
			sx, sy := f.UpShift(c)
			if vr == 1 {
				p = p.crop((hd.W+1<<uint(sx)-1)>>uint(sx), (hd.H+1<<uint(sy)-1)>>uint(sy))
			}
			if sx > 0 {
				p = unsampleX(p)
			}
			if sy > 0 {
				p = unsampleY(p)
			}
			q[c] = p
		}
		s := q[:]
		if vf == 1 || vr == 1 {
			s = cropAll(s, hd.W, hd.H)
		}
		if rf.Gab || rf.EPF > 0 {
			s = filterRef(f, s, v, 0)
		}
		s = cropAll(s, hd.W, hd.H)
		return [3]F2{s[0], s[1], s[2]}
	}
	run := func() string {
		b := vdEncode(hd, f, v)
		t.Input(b)
		t.Run()
		im, err := decode(b, par)
		if err != nil {
			return fmt.Sprintf("decode: %v", err)
		}
		d := ""
		for k := 0; k < 4; k++ {
			want, mag := ycbcrRef(variant(k/2, k%2))
			e := colourDiff(im, want[:], mag, tol, true)
			if e == "" {
				return ""
			}
			if d == "" {
				d = e
			}
		}
		return d
	}
	d := run()
	if d == "" {
		t.Outcome("as expected")
		return
	}
	if rf.EPF > 0 { // the known finding of C30
		f.RF.NoWeightFlag = true
		if run() == "" {
			t.FailCase("epf-weight-flag", "explicit filter with EPF: epf_weight_custom is not read (%s)", d)
			return
		}
	}
	t.Fail("%s", d)
}
