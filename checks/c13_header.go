package checks

import (
	"bytes"
	"fmt"
	"math"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/mc"
)

type cmp struct{ msg string }

func (c *cmp) eq(what string, got, want any) {
	if c.msg == "" && got != want {
		c.msg = fmt.Sprintf("%s = %v, want %v", what, got, want)
	}
}

func (c *cmp) near(what string, got float32, want float64) {
	if c.msg == "" && math.Abs(float64(got)-want) > 1e-6 {
		c.msg = fmt.Sprintf("%s = %v, want %v", what, got, want)
	}
}

var whiteXY = map[int][2]float64{1: {0.3127, 0.3290}, 10: {1.0 / 3, 1.0 / 3}, 11: {0.314, 0.351}}
var primXY = map[int][6]float64{
	1:  {0.639998686, 0.330010138, 0.300003784, 0.600003357, 0.150002046, 0.059997204},
	9:  {0.708, 0.292, 0.170, 0.797, 0.131, 0.046},
	11: {0.680, 0.320, 0.265, 0.690, 0.150, 0.060}}

// checkHeader compares every publicly visible header field with the model.
func checkHeader(g *bundle.ImageHeader, h *jx.Hdr) string {
	c := &cmp{}
	c.eq("width", g.Size.Width, uint32(h.W))
	c.eq("height", g.Size.Height, uint32(h.H))
	ow, oh := h.W, h.H
	if h.Orientation > 4 {
		ow, oh = oh, ow
	}
	c.eq("orientation", g.Orientation, uint32(h.Orientation))
	c.eq("oriented width", g.OrientedWidth, uint32(ow))
	c.eq("oriented height", g.OrientedHeight, uint32(oh))
	bd := h.BD
	ec := h.EC
	m16, col := h.Mod16, h.Colour
	if h.AllDefault {
		bd, ec, m16, col = jx.BitDepth{Bits: 8}, nil, true, jx.Colour{Default: true}
	}
	c.eq("bits per sample", g.BitDepth.BitsPerSample, uint32(bd.Bits))
	c.eq("float samples", g.BitDepth.UsesFloatSamples, bd.Float)
	c.eq("exponent bits", g.BitDepth.ExpBits, uint32(bd.Exp))
	c.eq("modular 16 bit", g.Modular16BitBuffers, m16)
	c.eq("xyb", g.XybEncoded, h.IsXYB())
	c.eq("preview", g.PreviewSize != nil, h.Preview != nil)
	if h.Preview != nil && g.PreviewSize != nil {
		c.eq("preview width", g.PreviewSize.Width, uint32(h.Preview[0]))
		c.eq("preview height", g.PreviewSize.Height, uint32(h.Preview[1]))
	}
	c.eq("extra channels", len(g.ExtraChannelInfo), len(ec))
	nc := 3
	if !h.AllDefault && !col.Default && col.Space == 1 {
		nc = 1
	}
	c.eq("colour channels", g.GetColourChannelCount(), nc)
	c.eq("total channels", g.GetTotalChannelCount(), nc+len(ec))
	alpha := 0
	for i := range ec {
		if c.msg != "" {
			return c.msg
		}
		e, x := ec[i], g.ExtraChannelInfo[i]
		p := fmt.Sprintf("extra channel %d ", i)
		if e.Default {
			e = jx.EC{BD: jx.BitDepth{Bits: 8}}
		}
		c.eq(p+"type", x.EcType, int32(e.Type))
		c.eq(p+"bits", x.BitDepth.BitsPerSample, uint32(e.BD.Bits))
		c.eq(p+"exponent bits", x.BitDepth.ExpBits, uint32(e.BD.Exp))
		c.eq(p+"dim shift", x.DimShift, int32(e.DimShift))
		c.eq(p+"name", x.Name, e.Name)
		c.eq(p+"premultiplied", x.AlphaAssociated, e.Type == 0 && e.Assoc)
		if e.Type == 2 {
			c.near(p+"red", x.Red, e.Spot[0])
			c.near(p+"green", x.Green, e.Spot[1])
			c.near(p+"blue", x.Blue, e.Spot[2])
			c.near(p+"solidity", x.Solidity, e.Spot[3])
		}
		if e.Type == 5 {
			c.eq(p+"cfa", x.CfaIndex, int32(e.Cfa))
		}
		if e.Type == 0 {
			if alpha < len(g.AlphaIndices) {
				c.eq("alpha index", g.AlphaIndices[alpha], int32(i))
			}
			alpha++
		}
	}
	c.eq("alpha channels", len(g.AlphaIndices), alpha)
	c.eq("has alpha", g.HasAlpha(), alpha > 0)
	g2 := g.ColourEncoding
	if col.Default {
		col = jx.Colour{Space: 0, White: 1, Prim: 1, TF: 13, Intent: 1}
	}
	c.eq("icc", g2.UseIccProfile, col.ICC)
	c.eq("colour space", g2.ColourEncoding, int32(col.Space))
	c.eq("colour model", g.GetColourModel(), int32(col.Space))
	if !col.ICC && col.Space != 2 {
		c.eq("white point", g2.WhitePoint, int32(col.White))
		wxy, ok := whiteXY[col.White]
		if !ok {
			wxy = [2]float64{float64(col.WhiteXY[0]) * 1e-6, float64(col.WhiteXY[1]) * 1e-6}
		}
		c.near("white x", g2.White.X, wxy[0])
		c.near("white y", g2.White.Y, wxy[1])
		if col.Space != 1 {
			c.eq("primaries", g2.Primaries, int32(col.Prim))
			pxy, ok := primXY[col.Prim]
			if !ok {
				for i, v := range col.PrimXY {
					pxy[i] = float64(v) * 1e-6
				}
			}
			c.near("red x", g2.Prim.Red.X, pxy[0])
			c.near("red y", g2.Prim.Red.Y, pxy[1])
			c.near("green x", g2.Prim.Green.X, pxy[2])
			c.near("green y", g2.Prim.Green.Y, pxy[3])
			c.near("blue x", g2.Prim.Blue.X, pxy[4])
			c.near("blue y", g2.Prim.Blue.Y, pxy[5])
		}
		tf := int32(1<<24 + col.TF)
		if col.Gamma > 0 {
			tf = int32(col.Gamma)
		}
		c.eq("transfer function", g2.Tf, tf)
		c.eq("intent", g2.RenderingIntent, int32(col.Intent))
	}
	t := h.Tone
	if t.Default || h.AllDefault {
		t = jx.Tone{Target: 255}
	}
	c.near("intensity target", g.ToneMapping.GetIntensityTarget(), t.Target)
	c.near("min nits", g.ToneMapping.MinNits, t.Min)
	c.near("linear below", g.ToneMapping.LinearBelow, t.Lin)
	c.eq("relative to max display", g.ToneMapping.RelativeToMaxDisplay, t.Relative)
	for i := 0; i < 64; i++ {
		c.eq("extension present", g.Extensions.ExtensionsKey>>uint(i)&1 == 1, !h.AllDefault && h.Ext[i] != nil)
	}
	if h.Opsin != nil && h.IsXYB() && !h.DefaultM && c.msg == "" {
		o := g.OpsinInverseMatrix
		for i := 0; i < 9; i++ {
			c.near("opsin matrix", o.Matrix[i/3][i%3], h.Opsin.M[i])
		}
		for i := 0; i < 3; i++ {
			c.near("opsin bias", o.OpsinBias[i], h.Opsin.Bias[i])
			c.near("quant bias", o.QuantBias[i], h.Opsin.Q[i])
		}
		c.near("quant bias numerator", o.QuantBiasNumerator, h.Opsin.Q[3])
	}
	ups := []struct {
		got  []float32
		want []uint16
		def  []float32
	}{{g.Up2Weights, h.Up2, bundle.DEFAULT_UP2}, {g.Up4Weights, h.Up4, bundle.DEFAULT_UP4}, {g.Up8Weights, h.Up8, bundle.DEFAULT_UP8}}
	for k, u := range ups {
		if h.DefaultM {
			u.want = nil
		}
		n := []int{15, 55, 210}[k]
		c.eq("upsampling weights", len(u.got), n)
		for i := 0; i < n && c.msg == ""; i++ {
			if u.want == nil {
				c.near("upsampling weight", u.got[i], float64(u.def[i]))
			} else {
				c.near("upsampling weight", u.got[i], jx.HalfValue(u.want[i]))
			}
		}
	}
	return c.msg
}

// headerRun parses the header three ways and compares them with the model.
func headerRun(t *mc.T, h *jx.Hdr) {
	w := &jx.BW{}
	h.Write(w)
	w.Pad()
	n := len(w.B)
	// a recognisable tail: the parser must stop exactly at the end of the header
	b := append(append([]byte{}, w.B...), bytes.Repeat([]byte{0xA5}, 40)...)
	t.Input(b)
	t.Run()
	var g *bundle.ImageHeader
	br := jxlio.NewBitStreamReader(bytes.NewReader(b))
	if err := guard(func() (e error) { g, e = bundle.ParseImageHeader(br, 5); return }); err != nil {
		if h.Preview != nil && (h.Preview[0] > 4096 || h.Preview[1] > 4096) && !isPanic(err) {
			t.Outcome("too large a preview: rejected")
			return
		}
		t.Fail("ParseImageHeader: %v", err)
		return
	}
	if h.Preview != nil && (h.Preview[0] > 4096 || h.Preview[1] > 4096) {
		t.Fail("accepts a %dx%d preview", h.Preview[0], h.Preview[1])
		return
	}
	if d := checkHeader(g, h); d != "" {
		t.Fail("ParseImageHeader: %s", d)
		return
	}
	if br.BitsRead() != uint64(n)*8 {
		t.Fail("header used %d bits, want %d", br.BitsRead(), n*8)
		return
	}
	var g2 *bundle.ImageHeader
	err := guard(func() (e error) {
		g2, e = core.NewJXLDecoder(bytes.NewReader(b), nil).GetImageHeader()
		return
	})
	if err != nil {
		t.Fail("GetImageHeader: %v", err)
		return
	}
	if d := checkHeader(g2, h); d != "" {
		t.Fail("GetImageHeader: %s", d)
		return
	}
	if !bytes.Equal(g.EncodedICC, g2.EncodedICC) || !bytes.Equal(g.EncodedICC, h.ICC) && len(h.ICC) > 0 {
		t.Fail("encoded ICC stream differs")
		return
	}
	t.Outcome("header agrees")
}

// decodeHeaderRun decodes a complete tiny image and compares what the image
// reports with the header.
func decodeHeaderRun(t *mc.T, h *jx.Hdr) {
	n := h.NColour()
	if h.IsXYB() {
		n = 3
	}
	var chs []*jx.Ch
	for i := 0; i < n; i++ {
		chs = append(chs, fill(jx.NewCh(h.W, h.H), 5, i, 200))
	}
	for range h.EC {
		chs = append(chs, fill(jx.NewCh(h.W, h.H), 5, len(chs), 200))
	}
	b := encode(h, lossless(), simpleMod(chs), jx.TOC{})
	t.Input(b)
	t.Run()
	im, err := decode(b, 1)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	ow, oh := h.W, h.H
	if h.Orientation > 4 {
		ow, oh = oh, ow
	}
	c := &cmp{}
	c.eq("image width", im.W, ow)
	c.eq("image height", im.H, oh)
	c.eq("channels", len(im.Ch), h.NColour()+len(h.EC))
	for i, p := range im.Ch {
		c.eq(fmt.Sprintf("channel %d width", i), p.W, ow)
		c.eq(fmt.Sprintf("channel %d height", i), p.H, oh)
	}
	c.eq("extra channels", im.J.NumExtraChannels(), len(h.EC))
	alpha := false
	for i, e := range h.EC {
		ty, err := im.J.GetExtraChannelType(i)
		if err != nil {
			c.eq("extra channel type error", err.Error(), "none")
		}
		c.eq("extra channel type", ty, int32(e.Type))
		alpha = alpha || e.Type == 0 || e.Default
	}
	_, err = im.J.GetExtraChannelType(len(h.EC))
	c.eq("extra channel index out of range is an error", err != nil, true)
	c.eq("has alpha", im.J.HasAlpha(), alpha)
	sp := int32(h.Colour.Space)
	if h.Colour.Default || h.AllDefault {
		sp = 0
	}
	c.eq("colour encoding", im.J.ColorEncoding, sp)
	if c.msg != "" {
		t.Fail("decoded image: %s", c.msg)
		return
	}
	t.Outcome("decoded image agrees")
}

// chooseHdr enumerates header fields by deviations from a plain header.
func chooseHdr(x *mc.X, w, h int) *jx.Hdr {
	hd := jx.NewHdr(w, h)
	hd.Orientation = 1 + x.Dev("orientation", 8)
	hd.ExtraFields = x.Dev("extra fields", 2) == 1
	switch x.Dev("intrinsic", 3) {
	case 1:
		hd.Intrinsic = &[2]int{1, 1}
	case 2:
		hd.Intrinsic = &[2]int{700, 9000}
	}
	bds := []jx.BitDepth{{Bits: 8}, {Bits: 1}, {Bits: 10}, {Bits: 12}, {Bits: 16}, {Bits: 31}, {Float: true, Bits: 32, Exp: 8}, {Float: true, Bits: 16, Exp: 5}, {Float: true, Bits: 24, Exp: 7}}
	hd.BD = bds[x.Dev("bit depth", len(bds))]
	hd.Mod16 = x.Dev("modular 16 bit", 2) == 0
	ne := []int{0, 1, 2, 3, 17}[x.Dev("extra channels", 5)]
	for i := 0; i < ne; i++ {
		hd.EC = append(hd.EC, chooseEC(x, bds))
	}
	hd.XYB = x.Dev("xyb", 2) == 1
	hd.Colour = chooseColour(x)
	switch x.Dev("tone", 4) {
	case 1:
		hd.Tone = jx.Tone{Target: 1000, Min: 0.5, Lin: 0.25, Relative: true}
	case 2:
		hd.Tone = jx.Tone{Target: 10000, Min: 0, Lin: 64}
	case 3:
		hd.Tone = jx.Tone{Target: 0.5, Min: 0.5, Lin: 1, Relative: true}
	}
	switch x.Dev("extensions", 6) {
	case 1:
		hd.Ext = map[int][]byte{0: {1, 2, 3}}
	case 2:
		hd.Ext = map[int][]byte{63: {0xFF}}
	case 3:
		hd.Ext = map[int][]byte{1: {}, 5: {9, 8, 7, 6, 5}, 40: {1}}
	case 4:
		hd.Ext = map[int][]byte{2: bytes.Repeat([]byte{0x5A}, 40)}
	case 5:
		hd.Ext = map[int][]byte{7: {}}
	}
	switch x.Dev("transform data", 6) {
	case 1:
		hd.DefaultM = false
	case 2:
		hd.DefaultM = false
		hd.Opsin = &jx.Opsin{M: [9]float64{1, 0.5, 0.25, 2, -1, 4, 8, -0.5, 0.125}, Bias: [3]float64{-0.5, 0.25, -0.125}, Q: [4]float64{0.5, 0.75, 1, 0.25}}
	case 3:
		hd.DefaultM = false
		hd.Up2 = halfs(15, 1)
	case 4:
		hd.DefaultM = false
		hd.Up4 = halfs(55, 2)
	case 5:
		hd.DefaultM = false
		hd.Up2, hd.Up4, hd.Up8 = halfs(15, 3), halfs(55, 4), halfs(210, 5)
	}
	return hd
}

func halfs(n, seed int) []uint16 {
	o := make([]uint16, n)
	for i := range o {
		o[i] = uint16(0x3000 + (i*37+seed*101)%0xC00)
		if (i+seed)%3 == 0 {
			o[i] |= 0x8000
		}
	}
	return o
}

func chooseEC(x *mc.X, bds []jx.BitDepth) jx.EC {
	e := jx.EC{BD: jx.BitDepth{Bits: 8}}
	if x.Dev("default alpha", 2) == 1 {
		return jx.EC{Default: true}
	}
	e.Type = x.DevOf("type", 0, 1, 2, 3, 4, 5, 6, 15, 16)
	e.BD = bds[x.Dev("ec bit depth", len(bds))]
	e.DimShift = x.DevOf("dim shift", 0, 1, 2, 3, 4, 8)
	e.Name = []string{"", "a", "fifteen chars..", "sixteen chars...", string(bytes.Repeat([]byte("n"), 47)), string(bytes.Repeat([]byte("N"), 48)), string(bytes.Repeat([]byte("\xc3\xa9"), 200))}[x.Dev("name", 7)]
	if e.Type == 0 {
		e.Assoc = x.Dev("premultiplied", 2) == 1
	}
	if e.Type == 2 {
		e.Spot = [4]float64{0.5, -2, 0.125, 1}
	}
	if e.Type == 5 {
		e.Cfa = x.DevOf("cfa", 1, 0, 2, 3, 18, 19, 274)
	}
	return e
}

func chooseColour(x *mc.X) jx.Colour {
	c := jx.Colour{Default: true}
	if x.Dev("explicit colour", 2) == 0 {
		return c
	}
	c = jx.Colour{Space: x.DevOf("space", 0, 1, 3)}
	c.White = x.DevOf("white", 1, 2, 10, 11)
	if c.White == 2 {
		c.WhiteXY = [][2]int32{{345700, 358500}, {1, -1}, {-524288, 1048575}, {1572864, -1572864}}[x.Dev("white xy", 4)]
	}
	c.Prim = x.DevOf("primaries", 1, 2, 9, 11)
	if c.Prim == 2 {
		c.PrimXY = [][6]int32{{640000, 330000, 300000, 600000, 150000, 60000}, {-1, 0, 1, 262143, -262144, 2097151}}[x.Dev("primaries xy", 2)]
	}
	c.Gamma = x.DevOf("gamma", 0, 4545455, 10000000, 1)
	c.TF = x.DevOf("transfer", 13, 1, 2, 8, 16, 17, 18)
	c.Intent = x.DevOf("intent", 1, 0, 2, 3)
	return c
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C13", Level: "model_checking",
			Technique: "exhaustive enumeration of bounded header field assignments (all size forms; all headers within k field deviations of a plain one), encoded by a reference writer and replayed on the real header parser and decoder",
			Bounds: func(tier string) string {
				k := 2
				if tier == "thorough" {
					k = 3
				}
				return fmt.Sprintf("all size forms x boundary sizes x 7 ratios x levels 5 and 10 including every limit; all headers within %d deviations over 40+ fields (each with 2..9 alternatives) for header parsing; all within 2 for full decodes", k)
			},
			Rule:   "every public header field equals the encoded value, the parser stops exactly at the end of the header, header-only parsing and the decoded image agree",
			Assume: []string{"ISO 18181-1 Annex D header layout; animation headers are excluded (unsupported by the library)"},
			Spaces: []mc.Space{
				{Name: "sizes", Quick: true, Body: func(x *mc.X) {
					form := x.Choose("form", 2)
					ratio := x.Choose("ratio", 8)
					hs := []int{1, 2, 8, 64, 255, 256, 257, 512, 513, 8191, 8192, 8193, 262143, 262144, 262145, 1 << 28, 1<<28 + 1, 1 << 30}
					var w, h, selW, selH int
					if form == 1 {
						h = 8 * (1 + x.Choose("height", 32))
					} else {
						h = hs[x.Choose("height", len(hs))]
						selH = x.Choose("height selector", 4) + 1
					}
					if ratio == 0 {
						if form == 1 {
							w = 8 * (1 + x.Choose("width", 32))
						} else {
							w = hs[x.Choose("width", len(hs))]
							selW = x.Choose("width selector", 4) + 1
						}
					}
					lim := []int{9, 13, 18, 30}
					if form == 0 && (h > 1<<uint(lim[selH-1]) || ratio == 0 && w > 1<<uint(lim[selW-1])) {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						for _, level := range []int{5, 10} {
							bw := &jx.BW{}
							hd := jx.NewHdr(w, h)
							hd.SizeForm, hd.RatioNo = form, ratio
							if ratio != 0 {
								hd.W = jx.RatioW(ratio, h)
							}
							bw.Bits(16, 0x0AFF)
							bw.Bool(form == 1)
							if form == 1 {
								bw.Bits(5, uint64(h/8-1))
							} else {
								bw.U32Sel(jx.SizeDist, selH-1, uint64(h))
							}
							bw.Bits(3, uint64(ratio))
							if ratio == 0 {
								if form == 1 {
									bw.Bits(5, uint64(w/8-1))
								} else {
									bw.U32Sel(jx.SizeDist, selW-1, uint64(w))
								}
							}
							bw.Bool(true) // all default
							bw.Bool(true) // default transform
							bw.Pad()
							W, H := uint64(hd.W), uint64(h)
							maxD, maxT := uint64(1<<18), uint64(1<<30)
							if level == 10 {
								maxD, maxT = 1<<28, 1<<40
							}
							ok := W <= maxD && H <= maxD && W*H <= maxT
							t.Input(append(bw.B, byte(level)))
							t.Run()
							var g *bundle.ImageHeader
							err := guard(func() (e error) {
								g, e = bundle.ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(bw.B)), int32(level))
								return
							})
							if !ok {
								if err == nil {
									t.Fail("level %d accepts %dx%d as %dx%d", level, W, H, g.Size.Width, g.Size.Height)
									return
								}
								if isPanic(err) {
									t.Fail("%v", err)
								}
								t.Outcome("too large: rejected")
								continue
							}
							if W == 0 {
								continue
							}
							if err != nil {
								t.Fail("level %d %dx%d: %v", level, W, H, err)
								return
							}
							if uint64(g.Size.Width) != W || uint64(g.Size.Height) != H {
								t.Fail("size %dx%d, want %dx%d", g.Size.Width, g.Size.Height, W, H)
								return
							}
							t.Outcome("size agrees")
						}
					})
				}},
				{Name: "fields", Quick: true, Body: func(x *mc.X) {
					x.Bound = x.Pick(2, 3)
					hd := chooseHdr(x, 5, 3)
					switch x.Dev("preview", 4) {
					case 1:
						hd.Preview = &[2]int{1, 1}
					case 2:
						hd.Preview = &[2]int{64, 320}
					case 3:
						hd.Preview = &[2]int{4096, 1345}
					}
					x.Do(func(t *mc.T) { headerRun(t, hd) })
				}},
				{Name: "colour", Quick: true, Body: func(x *mc.X) {
					hd := jx.NewHdr(5, 3)
					hd.XYB = x.Choose("xyb", 2) == 1
					xys := []int32{0, 1, -1, 262143, -262144, 262144, 345700, 524287, -524288, 524288, 1048575, -1048576, 1048576, 2097151, -2097152}
					pat := x.Choose("part", 2)
					if pat == 0 { // all kinds
						c := jx.Colour{Space: x.Of("space", 0, 1, 3)}
						c.White = x.Of("white", 1, 2, 10, 11)
						c.WhiteXY = [2]int32{345700, -358500}
						if c.Space == 0 || c.Space == 3 {
							c.Prim = x.Of("primaries", 1, 2, 9, 11)
							c.PrimXY = [6]int32{640000, 330000, 300000, 600000, 150000, -60000}
						}
						if k := x.Choose("transfer", 10); k < 3 {
							c.Gamma = []int{4545455, 10000000, 1}[k]
						} else {
							c.TF = []int{13, 1, 2, 8, 16, 17, 18}[k-3]
						}
						c.Intent = x.Choose("intent", 4)
						hd.Colour = c
					} else { // all coordinates
						c := jx.Colour{Space: 0, White: 2, WhiteXY: [2]int32{345700, 358500}, Prim: 2,
							PrimXY: [6]int32{640000, 330000, 300000, 600000, 150000, 60000}, TF: 13, Intent: 1}
						k, v := x.Choose("coordinate", 8), xys[x.Choose("value", len(xys))]
						if k < 2 {
							c.WhiteXY[k] = v
						} else {
							c.PrimXY[k-2] = v
						}
						hd.Colour = c
					}
					x.Do(func(t *mc.T) { headerRun(t, hd) })
				}},
				{Name: "many-extra", Quick: true, Body: func(x *mc.X) {
					// the number of channels, and one channel among them with all its fields.
					n := x.Of("extra channels", 1, 2, 4, 16, 17, 18, 19, 40)
					x.Bound = 2
					bds := []jx.BitDepth{{Bits: 8}, {Bits: 1}, {Bits: 10}, {Bits: 12}, {Bits: 16}, {Bits: 31}, {Float: true, Bits: 32, Exp: 8}, {Float: true, Bits: 16, Exp: 5}, {Float: true, Bits: 24, Exp: 7}}
					at := x.Choose("at", 2)
					hd := jx.NewHdr(5, 3)
					e := chooseEC(x, bds)
					for i := 0; i < n; i++ {
						hd.EC = append(hd.EC, jx.EC{Type: i % 4, BD: jx.BitDepth{Bits: 1 + i%16}})
					}
					hd.EC[at*(n-1)] = e
					x.Do(func(t *mc.T) { headerRun(t, hd) })
				}},
				{Name: "preview", Quick: true, Body: func(x *mc.X) {
					hd := jx.NewHdr(5, 3)
					hd.PrevDiv8 = x.Choose("div8", 2) == 1
					hd.PrevRatio = x.Choose("ratio", 8)
					sz := []int{1, 2, 64, 65, 100, 320, 321, 1344, 1345, 4095, 4096, 4097, 5440}
					q := 1
					if hd.PrevDiv8 {
						sz, q = []int{1, 2, 16, 31, 32, 33, 34, 511, 512, 513, 544}, 8
					}
					hd.Preview = &[2]int{0, q * sz[x.Choose("height", len(sz))]}
					if hd.PrevRatio == 0 {
						hd.Preview[0] = q * sz[x.Choose("width", len(sz))]
					} else {
						hd.Preview[0] = jx.RatioW(hd.PrevRatio, hd.Preview[1])
					}
					x.Do(func(t *mc.T) { headerRun(t, hd) })
				}},
				{Name: "all-default", Quick: true, Body: func(x *mc.X) {
					w, h := 1+x.Choose("w", 40), 1+x.Choose("h", 40)
					dm := x.Choose("transform data", 3)
					x.Do(func(t *mc.T) {
						hd := jx.NewHdr(w, h)
						hd.AllDefault = true
						if dm == 1 {
							hd.DefaultM = false
						}
						if dm == 2 {
							hd.DefaultM, hd.Up2 = false, halfs(15, w)
						}
						headerRun(t, hd)
					})
				}},
				{Name: "decode", Quick: true, Body: func(x *mc.X) {
					x.Bound = 2
					hd := chooseHdr(x, 5, 3)
					for _, e := range hd.EC {
						if e.DimShift > 0 {
							x.Prune()
						}
					}
					x.Do(func(t *mc.T) { decodeHeaderRun(t, hd) })
				}},
			},
		}
	})
}
