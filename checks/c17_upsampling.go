package checks

import (
	"math"

	"verif/jx"
	"verif/mc"
)

// upWeights returns header weights (nil = default) for weight set k.
func upWeights(k, lg int) (half []uint16, tri []float64) {
	n := []int{15, 55, 210}[lg-1]
	if k == 0 {
		return nil, upDefaults[lg-1]
	}
	r := rng(k * 77)
	for i := 0; i < n; i++ {
		var v float64
		switch k {
		case 1: // distinct values
			v = float64(i+1) / 64
		case 2: // noise of either sign
			v = float64(int(r.next()%129)-64) / 256
		case 3: // one weight only (chosen per position by the caller through k>=4)
			v = 0
		}
		half = append(half, jx.HalfBits(v))
	}
	if k >= 4 {
		half[(k-4)%n] = jx.HalfBits(1)
	}
	return half, halfVals(half)
}

func setUp(hd *jx.Hdr, lg int, half []uint16) {
	if half == nil {
		return
	}
	hd.DefaultM = false
	switch lg {
	case 1:
		hd.Up2 = half
	case 2:
		hd.Up4 = half
	case 3:
		hd.Up8 = half
	}
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C17", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of factors x sizes x weight sets x contents, replayed on the real decoder against a direct evaluation of the interpolation",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "factors 2,4,8 x all coded sizes up to 9x9 and all partial sizes of the last sample x 4 weight sets x 3 contents; every single weight alone; all binary images up to 3x3; group-crossing sizes; worker counts 1..6; extra channels with every (own factor, dim shift, colour factor) combination; cropped upsampled frames"
				}
				return "factors 2,4,8 x all coded sizes up to 6x6 with 2 partial sizes x 4 weight sets; every single weight alone; all binary images up to 2x3; group-crossing sizes; worker counts 1..4; extra channels with every (own factor, dim shift, colour factor) combination; cropped upsampled frames"
			},
			Rule:   "each sample equals the 5x5 weighted sum of the mirrored neighbourhood clamped to its range (relative tolerance 1e-5), and the image has its nominal size",
			Assume: []string{"the interpolation of ISO 18181-1 J.2 with default weights as transcribed"},
			Spaces: []mc.Space{
				{Name: "sizes", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					n := x.Pick(6, 9)
					cw, ch := 1+x.Choose("coded w", n), 1+x.Choose("coded h", n)
					k := 1 << lg
					var rw, rh int
					if x.Thorough() {
						rw, rh = x.Choose("missing columns", k), x.Choose("missing rows", min(k, 3))
					} else {
						rw = []int{0, k - 1, 1}[x.Choose("missing columns", 2)]
						rh = (rw + cw) % k
					}
					ws := x.Choose("weights", 3)
					kind := 2
					if x.Thorough() {
						kind = x.Of("content", 2, 1, 4)
					}
					x.Do(func(t *mc.T) { upRun(t, cw*k-rw, ch*k-rh, lg, ws, kind, 1, 2, 8) })
				}},
				{Name: "single-weights", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					i := x.Choose("weight", []int{15, 55, 210}[lg-1])
					x.Do(func(t *mc.T) { upRun(t, 7<<lg, 6<<lg, lg, 4+i, 2, 1, 1, 8) })
				}},
				{Name: "binary-images", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					w, h := 1+x.Choose("w", x.Pick(2, 3)), 1+x.Choose("h", 3)
					c := jx.NewCh(w, h)
					for y := range c.D {
						for i := range c.D[y] {
							c.D[y][i] = int32(255 * x.Choose("px", 2))
						}
					}
					x.Do(func(t *mc.T) {
						hd := grayHdr(w<<lg, h<<lg, 8)
						f := lossless()
						f.Up = lg
						runNear(t, encode(hd, f, simpleMod([]*jx.Ch{c}), jx.TOC{}), 1, []F2{upsampleRef(norm(c, 8), 1<<lg, upDefaults[lg-1])}, []int{8}, 1e-5)
					})
				}},
				{Name: "negative-and-bright", Quick: true, Body: func(x *mc.X) {
					// samples outside of the nominal range keep their sign and size
					lg := 1 + x.Choose("log2 factor", 3)
					base := x.Of("base", -300, -1, 0, 300)
					amp := x.Of("amplitude", 0, 2, 40)
					x.Do(func(t *mc.T) {
						c := fill(jx.NewCh(5, 4), 2, base, int32(amp))
						for _, r := range c.D {
							for i := range r {
								r[i] += int32(base)
							}
						}
						hd := grayHdr(5<<lg, 4<<lg, 8)
						f := lossless()
						f.Up = lg
						runNear(t, encode(hd, f, simpleMod([]*jx.Ch{c}), jx.TOC{}), 1, []F2{upsampleRef(norm(c, 8), 1<<lg, upDefaults[lg-1])}, []int{8}, 1e-5)
					})
				}},
				{Name: "groups", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					w := x.Of("coded w", 127, 128, 129, 130, 257)
					h := x.Of("coded h", 3, 129)
					par := 1 + x.Choose("workers", x.Pick(4, 6))
					x.Do(func(t *mc.T) { upRun(t, w<<lg-1, h<<lg, lg, 0, 2, 1, par, 8) })
				}},
				{Name: "workers", Quick: true, Body: func(x *mc.X) {
					h := 1 + x.Choose("rows", 9)
					par := 1 + x.Choose("workers", 12)
					bits := x.Of("bits", 8, 16, 1)
					x.Do(func(t *mc.T) { upRun(t, 10, 2*h, 1, 0, 2, 3, par, bits) })
				}},
				{Name: "extra-channels", Quick: true, Body: func(x *mc.X) {
					up := x.Choose("colour log2 factor", 4)
					eu := x.Choose("extra log2 factor", 4)
					ds := x.Choose("dim shift", 4)
					if eu+ds > 3 || eu+ds < up {
						x.Prune()
					}
					w, h := x.Of("w", 5, 16, 33, 141), x.Of("h", 3, 8, 17)
					ws := x.Choose("weights", 2)
					second := x.Choose("plain channel before", 2)
					x.Do(func(t *mc.T) {
						hd := grayHdr(w, h, 8)
						for lg := 1; lg <= 3; lg++ {
							hf, _ := upWeights(ws, lg)
							setUp(hd, lg, hf)
						}
						ec := jx.EC{Type: 1, BD: jx.BitDepth{Bits: 8}, DimShift: ds}
						f := lossless()
						f.GroupShift = 0
						f.Up = up
						f.EcUp = []int{eu}
						hd.EC = []jx.EC{ec}
						lgs := []int{up, eu + ds}
						if second == 1 {
							hd.EC = []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 8}}, ec}
							f.EcUp = []int{up, eu}
							lgs = []int{up, up, eu + ds}
						}
						var chs []*jx.Ch
						var want []F2
						var bits []int
						for i, lg := range lgs {
							k := 1 << lg
							c := fill(jx.NewCh((w+k-1)/k, (h+k-1)/k), 2, i+w, 255)
							c.HS, c.VS = lg-up, lg-up
							chs = append(chs, c)
							tri := []float64{1}
							if lg > 0 {
								_, tri = upWeights(ws, lg)
							}
							want = append(want, upsampleRef(norm(c, 8), k, tri).crop(w, h))
							bits = append(bits, 8)
						}
						runNear(t, encode(hd, f, simpleMod(chs), jx.TOC{}), 2, want, bits, 1e-5)
					})
				}},
				{Name: "float-samples", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					bd := x.Choose("format", 2)
					w, h := x.Of("w", 3, 8, 17), x.Of("h", 2, 9)
					x.Do(func(t *mc.T) {
						hd := grayHdr(w, h, 8)
						hd.Mod16 = false
						hd.BD = []jx.BitDepth{{Float: true, Bits: 32, Exp: 8}, {Float: true, Bits: 16, Exp: 5}}[bd]
						f := lossless()
						f.Up = lg
						cw, ch := f.CodedSize(hd)
						c := jx.NewCh(cw, ch)
						v := newF2(cw, ch)
						r := rng(w*h + lg)
						for y := range v {
							for i := range v[y] {
								q := float64(int(r.next()%2000)-900) / 512
								v[y][i] = jx.HalfValue(jx.HalfBits(q))
								if bd == 0 {
									c.D[y][i] = int32(math.Float32bits(float32(v[y][i])))
								} else {
									c.D[y][i] = int32(jx.HalfBits(q))
								}
							}
						}
						m := simpleMod([]*jx.Ch{c})
						m.Tree = jx.Leaf(0)
						runNear(t, encode(hd, f, m, jx.TOC{}), 1, []F2{upsampleRef(v, 1<<lg, upDefaults[lg-1]).crop(w, h)}, []int{8}, 1e-5)
					})
				}},
				{Name: "cropped-frames", Quick: true, Body: func(x *mc.X) {
					lg := 1 + x.Choose("log2 factor", 3)
					x0, y0 := x.Of("x0", -5, 0, 3), x.Of("y0", -1, 0, 4)
					w, h := x.Of("w", 1, 8, 13), x.Of("h", 3, 16)
					x.Do(func(t *mc.T) {
						W, H := 19, 15
						hd := grayHdr(W, H, 8)
						f := lossless()
						f.Up = lg
						f.Crop, f.X0, f.Y0, f.W, f.H = true, x0, y0, w, h
						cw, ch := f.CodedSize(hd)
						c := fill(jx.NewCh(cw, ch), 2, w, 255)
						u := upsampleRef(norm(c, 8), 1<<lg, upDefaults[lg-1])
						want := newF2(W, H)
						for y := 0; y < h; y++ {
							for i := 0; i < w; i++ {
								if Y, X := y+y0, i+x0; Y >= 0 && Y < H && X >= 0 && X < W {
									want[Y][X] = u[y][i]
								}
							}
						}
						runNear(t, encode(hd, f, simpleMod([]*jx.Ch{c}), jx.TOC{}), 2, []F2{want}, []int{8}, 1e-5)
					})
				}},
			},
		}
	})
}

func upRun(t *mc.T, w, h, lg, ws, kind, nch, par, bits int) {
	hd := grayHdr(w, h, bits)
	if nch == 3 {
		hd = rgbHdr(w, h, bits)
	}
	hf, tri := upWeights(ws, lg)
	setUp(hd, lg, hf)
	f := lossless()
	f.GroupShift = 0
	f.Up = lg
	cw, ch := f.CodedSize(hd)
	var chs []*jx.Ch
	var want []F2
	var bs []int
	for i := 0; i < nch; i++ {
		c := fill(jx.NewCh(cw, ch), kind, i+w+h, 1<<bits-1)
		chs = append(chs, c)
		want = append(want, upsampleRef(norm(c, bits), 1<<lg, tri).crop(w, h))
		bs = append(bs, bits)
	}
	runNear(t, encode(hd, f, simpleMod(chs), jx.TOC{}), par, want, bs, 1e-5)
}
