package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

var ecDepths = []jx.BitDepth{{Bits: 8}, {Bits: 1}, {Bits: 16}, {Bits: 5}, {Bits: 24}, {Bits: 31}, {Bits: 12}, {Float: true, Bits: 32, Exp: 8}, {Float: true, Bits: 16, Exp: 5}, {Float: true, Bits: 24, Exp: 7}}

// ecSamples makes samples of a channel and their normalised values.
func ecSamples(bd jx.BitDepth, w, h, seed int) (*jx.Ch, F2) {
	c, v := jx.NewCh(w, h), newF2(w, h)
	r := rng(seed*31 + 7)
	for y := range c.D {
		for x := range c.D[y] {
			u := r.next()
			if !bd.Float {
				m := uint32(1)<<bd.Bits - 1
				if bd.Bits > 20 {
					u = u<<8 ^ r.next()
				}
				s := u & m
				if u%5 == 0 {
					s = m
				}
				c.D[y][x], v[y][x] = int32(s), float64(s)/float64(m)
				continue
			}
			f := float64(int(u%2000)-900) / 512
			switch bd.Bits {
			case 32:
				c.D[y][x], v[y][x] = int32(math.Float32bits(float32(f))), float64(float32(f))
			case 16:
				hb := jx.HalfBits(f)
				c.D[y][x], v[y][x] = int32(hb), jx.HalfValue(hb)
			case 24: // 1 sign, 7 exponent, 16 mantissa bits
				b := math.Float32bits(float32(f))
				e := int(b>>23&255) - 127 + 63
				if f == 0 || e < 1 {
					continue
				}
				c.D[y][x] = int32(b>>31<<23 | uint32(e)<<16 | b>>7&0xFFFF)
				v[y][x] = float64(math.Float32frombits(b &^ 0x7F))
			}
		}
	}
	return c, v
}

// ecImage builds the image of a header with extra channels and its expectation.
func ecRun(t *mc.T, colour int, cbd jx.BitDepth, ecs []jx.EC, w, h, shift, par int) {
	hd := rgbHdr(w, h, 8)
	if colour == 1 {
		hd = grayHdr(w, h, 8)
	}
	hd.BD = cbd
	hd.Mod16 = false
	hd.EC = ecs
	f := shiftLossless(shift)
	var chs []*jx.Ch
	var vals []F2
	for i := 0; i < colour; i++ {
		c, v := ecSamples(cbd, w, h, i)
		chs, vals = append(chs, c), append(vals, v)
	}
	for i, e := range ecs {
		bd := e.BD
		if e.Default {
			bd = jx.BitDepth{Bits: 8}
		}
		k := 1 << e.DimShift
		c, v := ecSamples(bd, (w+k-1)/k, (h+k-1)/k, 10+i)
		c.HS, c.VS = e.DimShift, e.DimShift
		if e.DimShift > 0 {
			v = upsampleRef(v, k, upDefaults[e.DimShift-1]).crop(w, h)
		}
		chs, vals = append(chs, c), append(vals, v)
	}
	m := simpleMod(chs)
	m.Tree = jx.Leaf(0)
	b := encode(hd, f, m, jx.TOC{})
	t.Input(b)
	t.Run()
	im, err := decode(b, par)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	if len(im.Ch) != len(chs) {
		t.Fail("%d channels, want %d", len(im.Ch), len(chs))
		return
	}
	for i, c := range chs {
		bd, ds := cbd, 0
		if i >= colour {
			bd, ds = ecs[i-colour].BD, ecs[i-colour].DimShift
			if ecs[i-colour].Default {
				bd, ds = jx.BitDepth{Bits: 8}, 0
			}
		}
		p := &im.Ch[i]
		if !bd.Float && ds == 0 {
			if p.Float || p.W != w || p.H != h {
				t.Fail("channel %d is float=%v %dx%d, want integer samples %dx%d", i, p.Float, p.W, p.H, w, h)
				return
			}
			for y := range c.D {
				for x := range c.D[y] {
					if p.I[y][x] != c.D[y][x] {
						t.Fail("channel %d (%d,%d) = %d, want %d", i, x, y, p.I[y][x], c.D[y][x])
						return
					}
				}
			}
			continue
		}
		tol := 0.0
		if ds > 0 {
			tol = 2e-5
		}
		if d := diffF(p, vals[i], bd.Bits, tol); d != "" {
			t.Fail("channel %d %s", i, d)
			return
		}
	}
	// the reported channel information is the coded one
	alpha := false
	for i, e := range ecs {
		ty := e.Type
		if e.Default {
			ty = 0
		}
		alpha = alpha || ty == 0
		if g, err := im.J.GetExtraChannelType(i); err != nil || int(g) != ty {
			t.Fail("extra channel %d reported as type %d (%v), want %d", i, g, err, ty)
			return
		}
	}
	if im.J.HasAlpha() != alpha || im.J.NumExtraChannels() != len(ecs) {
		t.Fail("HasAlpha %v, %d extra channels; want %v, %d", im.J.HasAlpha(), im.J.NumExtraChannels(), alpha, len(ecs))
		return
	}
	t.Outcome(fmt.Sprintf("%d extra channels agree", len(ecs)))
}

func init() {
	register(func() *mc.Check {
		types := []int{0, 1, 2, 3, 4, 5, 6, 15, 16}
		return &mc.Check{
			ID: "C16", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of extra channel layouts (types x formats x sub-sampling x order x image shapes), replayed on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "single channels: 9 types x 10 sample formats x 4 sub-samplings x gray/colour x 6 shapes; all ordered pairs of (type, format, sub-sampling) deviating from a default in at most 3 places, x 4 shapes; triples and quadruples with every sub-sampling vector"
				}
				return "single channels: 9 types x 10 sample formats x 4 sub-samplings x gray/colour x 3 shapes; all ordered pairs of (type, format, sub-sampling) deviating from a default in at most 2 places; triples and quadruples with every sub-sampling vector"
			},
			Rule:   "full-resolution integer channels are returned exactly, float ones bit-exactly, sub-sampled ones as the defined interpolation; colour is unaffected; types and counts are reported as coded",
			Assume: []string{"sub-sampled extra channels are returned as normalised interpolated samples"},
			Spaces: []mc.Space{
				{Name: "single", Quick: true, Body: func(x *mc.X) {
					colour := x.Of("colours", 1, 3)
					ty := types[x.Choose("type", len(types))]
					bd := ecDepths[x.Choose("format", len(ecDepths))]
					ds := x.Choose("dim shift", 4)
					k := x.Choose("shape", x.Pick(3, 6))
					par := 1 + x.Choose("two workers", x.Pick(1, 2))
					x.Do(func(t *mc.T) {
						s := [][2]int{{5, 3}, {131, 17}, {1, 1}, {8, 16}, {260, 9}, {33, 70}}[k]
						e := jx.EC{Type: ty, BD: bd, DimShift: ds, Cfa: 1, Spot: [4]float64{0.5, 0.25, 1, 0.5}}
						if ty == 0 && ds == 1 {
							e.Assoc = true
						}
						ecRun(t, colour, jx.BitDepth{Bits: 8}, []jx.EC{e}, s[0], s[1], 0, par)
					})
				}},
				{Name: "pairs", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(2, 3)
					colour := x.Of("colours", 1, 3)
					cbd := ecDepths[x.Dev("colour format", len(ecDepths))]
					var ecs []jx.EC
					for i := 0; i < 2; i++ {
						e := jx.EC{Type: types[x.Dev("type", len(types))], BD: ecDepths[x.Dev("format", len(ecDepths))], DimShift: x.Dev("dim shift", 4), Cfa: 2}
						e.Name = []string{"", "depth", "a channel with a long name, more than sixteen bytes"}[x.Dev("name", 3)]
						if e.Type == 0 {
							e.Assoc = x.Dev("associated", 2) == 1
						}
						ecs = append(ecs, e)
					}
					k := x.Dev("shape", 4)
					shift := x.Dev("group shift", 2)
					x.Do(func(t *mc.T) {
						s := [][2]int{{9, 7}, {140, 20}, {1, 9}, {257, 3}}[k]
						ecRun(t, colour, cbd, ecs, s[0], s[1], shift, 2)
					})
				}},
				{Name: "many", Quick: true, Body: func(x *mc.X) {
					n := 3 + x.Choose("three or four", 2)
					var ecs []jx.EC
					for i := 0; i < n; i++ {
						ecs = append(ecs, jx.EC{Type: []int{0, 1, 16, 4}[i], BD: ecDepths[i], DimShift: x.Choose("dim shift", 4)})
					}
					big := x.Choose("several groups", 2)
					x.Do(func(t *mc.T) {
						w, h := 19, 10
						if big == 1 {
							w, h = 150, 5
						}
						ecRun(t, 3, jx.BitDepth{Bits: 8}, ecs, w, h, 0, 2)
					})
				}},
				{Name: "default-alpha", Quick: true, Body: func(x *mc.X) {
					n := 1 + x.Choose("channels", 4)
					colour := x.Of("colours", 1, 3)
					pos := x.Choose("default at", n)
					w := x.Of("w", 3, 129)
					x.Do(func(t *mc.T) {
						var ecs []jx.EC
						for i := 0; i < n; i++ {
							e := jx.EC{Type: 1, BD: jx.BitDepth{Bits: 8 + i}}
							if i == pos {
								e = jx.EC{Default: true}
							}
							ecs = append(ecs, e)
						}
						ecRun(t, colour, jx.BitDepth{Bits: 10}, ecs, w, 4, 0, 1)
					})
				}},
			},
		}
	})
}
