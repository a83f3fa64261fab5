package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"strings"

	jxlgo "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"

	"verif/jx"
	"verif/mc"
)

// outKind describes a synthetic image for the output checks.
type outKind struct {
	col    jx.Colour
	bd     jx.BitDepth
	ecs    []jx.EC
	xyb    bool
	orient int
	w, h   int
	tone   float64 // intensity target, 0 = default
	icc    []byte  // encoded
	wild   bool    // samples beyond the range
}

func (k outKind) build() (*jx.Hdr, []byte) {
	if k.w == 0 {
		k.w, k.h = 16, 17
	}
	n := 3
	if k.col.Space == 1 && !k.col.Default {
		n = 1
	}
	var chs []*jx.Ch
	if k.xyb {
		chs = xybGrid(0)
		k.w, k.h = chs[0].W, chs[0].H
	}
	hd := rgbHdr(k.w, k.h, 8)
	hd.Colour, hd.BD, hd.EC, hd.XYB, hd.ICC = k.col, k.bd, k.ecs, k.xyb, k.icc
	hd.Mod16 = false
	if k.orient > 0 {
		hd.Orientation = k.orient
	}
	if k.tone > 0 {
		hd.Tone = jx.Tone{Target: k.tone}
	}
	for c := 0; c < n && !k.xyb; c++ {
		chs = append(chs, outChannel(k.bd, k.w, k.h, c, k.wild))
	}
	for i, e := range k.ecs {
		bd := e.BD
		if e.Default {
			bd = jx.BitDepth{Bits: 8}
		}
		chs = append(chs, outChannel(bd, k.w, k.h, 3+i, k.wild))
	}
	m := simpleMod(chs)
	m.Tree = jx.Leaf(0)
	return hd, encode(hd, lossless(), m, jx.TOC{})
}

// outChannel covers the values of the depth: all of them up to 8 bits.
func outChannel(bd jx.BitDepth, w, h, c int, wild bool) *jx.Ch {
	if bd.Float {
		ch, _ := ecSamples(bd, w, h, c)
		if bd.Bits == 32 && w > 2 {
			for i, v := range []float32{0, 1, 0.5, 1.0 / 255, 0.25, 0.9999, 1.5, -0.25, 1e-7, 0.003, 0.0404} {
				ch.D[(i+c)%h][i%w] = int32(math.Float32bits(v))
			}
		}
		return ch
	}
	ch := jx.NewCh(w, h)
	max := int64(1)<<bd.Bits - 1
	r := rng(c*977 + bd.Bits)
	for y := range ch.D {
		for x := range ch.D[y] {
			i := int64(y*w + x)
			v := i * []int64{1, 255, 3, 5, 7, 11}[c%6] % (max + 1)
			if bd.Bits > 8 {
				switch {
				case y%4 == 0:
					v = int64(r.next()) * 251 % (max + 1)
				case y%4 == 1:
					v = i * 257 % (max + 1)
				case y%4 == 2:
					v = max - i*37%(max+1)
				default:
					v = max / 2 >> uint(i%int64(bd.Bits))
				}
			}
			if wild && x%5 == c%5 && bd.Bits < 30 {
				v = []int64{-1, max + 1, -max, 2 * max, max + 77}[(y+c)%5]
			}
			ch.D[y][x] = int32(v)
		}
	}
	return ch
}

func alphaEC(bits int) jx.EC { return jx.EC{Type: 0, BD: jx.BitDepth{Bits: bits}} }

var alphaSets = []struct {
	name string
	ecs  func(bits int) []jx.EC
}{
	{"no extra channel", func(int) []jx.EC { return nil }},
	{"alpha", func(b int) []jx.EC { return []jx.EC{alphaEC(b)} }},
	{"alpha after depth", func(b int) []jx.EC {
		return []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 12}}, alphaEC(b)}
	}},
	{"premultiplied alpha", func(b int) []jx.EC {
		e := alphaEC(b)
		e.Assoc = true
		return []jx.EC{e}
	}},
	{"two alphas", func(b int) []jx.EC { return []jx.EC{alphaEC(b), alphaEC(5)} }},
	{"depth only", func(b int) []jx.EC { return []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 9}}} }},
	{"default alpha before thermal", func(b int) []jx.EC {
		return []jx.EC{{Default: true}, {Type: 6, BD: jx.BitDepth{Bits: 3}}}
	}},
	{"float alpha", func(b int) []jx.EC {
		return []jx.EC{{Type: 0, BD: jx.BitDepth{Float: true, Bits: 32, Exp: 8}}}
	}},
	{"premultiplied alpha after depth", func(b int) []jx.EC {
		e := alphaEC(b)
		e.Assoc = true
		return []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 12}}, e}
	}},
	{"alpha before premultiplied alpha", func(b int) []jx.EC {
		e := alphaEC(6)
		e.Assoc = true
		return []jx.EC{alphaEC(b), e}
	}},
}

// outKinds enumerates images: integer depths x extra channels, float depths, colour
// encodings, profiles, orientations and sizes.
func outKinds(x *mc.X) outKind {
	k := outKind{bd: jx.BitDepth{Bits: 8}}
	gray := x.Choose("colours", 2) == 1
	k.col = jx.Colour{Default: true}
	if gray {
		k.col = jx.GrayColour()
	}
	switch x.Choose("family", 6) {
	case 0:
		k.bd.Bits = x.Of("bits", 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 30, 31)
		k.ecs = alphaSets[x.Choose("extra channels", len(alphaSets))].ecs(x.Of("alpha bits", 8, 16, 1, 10, k.bd.Bits))
		k.wild = x.Choose("out of range samples", 2) == 1
		k.col.Intent = 1
	case 1:
		k.bd = []jx.BitDepth{{Float: true, Bits: 32, Exp: 8}, {Float: true, Bits: 16, Exp: 5}, {Float: true, Bits: 24, Exp: 7}}[x.Choose("float format", 3)]
		k.ecs = alphaSets[x.Choose("extra channels", len(alphaSets))].ecs(8)
	case 2:
		k.xyb = x.Choose("XYB", 2) == 1
		k.bd.Bits = x.Of("bits", 8, 12)
		if x.Thorough() {
			k.bd.Bits = x.Of("deep", k.bd.Bits, 16)
			k.wild = x.Choose("out of range samples", 2) == 1
		}
		k.col = jx.Colour{White: 1, Prim: 1, TF: 13}
		k.col.White = x.Of("white point", 1, 2, 10, 11)
		k.col.WhiteXY = [2]int32{345700, 358500}
		k.col.PrimXY = [6]int32{734700, 265300, 115200, 826400, 156600, 17700}
		if gray {
			k.col.Space = 1
		} else {
			k.col.Prim = x.Of("primaries", 1, 2, 9, 11)
		}
		if i := x.Choose("transfer function", 9); i < 6 {
			k.col.TF = []int{13, 1, 8, 16, 17, 13}[i]
		} else {
			k.col.Gamma = []int{4545454, 10000000, 3333333}[i-6]
		}
		k.col.Intent = x.Choose("rendering intent", x.Pick(2, 4))
		k.tone = []float64{0, 1000, 10000, 80}[x.Choose("intensity target", x.Pick(3, 4))]
		a := x.Choose("extra channels", x.Pick(2, 3))
		k.ecs = alphaSets[[]int{0, 3, 1}[a]].ecs(8)
	case 3:
		k.col = jx.Colour{ICC: true, Space: x.Of("colour space", 0, 1)}
		ss := iccSamples()
		k.icc = ss[x.Choose("profile", len(ss))].Bytes()
		k.bd.Bits = x.Of("bits", 8, 5, 10, 16)
		k.ecs = alphaSets[x.Choose("extra channels", len(alphaSets))].ecs(8)
	case 5: // XYB: a profile is ignored, HLG is only the tag
		k.xyb = true
		k.bd.Bits = x.Of("bits", 8, 5, 10, 16)
		if x.Choose("colour", 2) == 0 {
			k.col = jx.Colour{ICC: true, Space: x.Of("colour space", 0, 1)}
			k.icc = iccSamples()[0].Bytes()
		} else {
			k.col.Default = false
			k.col.White, k.col.Prim, k.col.TF = 1, x.Of("primaries", 1, 9, 11), 18
			k.tone = []float64{0, 1000}[x.Choose("intensity target", 2)]
		}
		k.ecs = alphaSets[x.Of("extra channels", 0, 1, 2, 5)].ecs(8)
	case 4:
		k.orient = 1 + x.Choose("orientation", 8)
		k.w = x.Of("width", 1, 2, 3, 7, 64, 257)
		k.h = x.Of("height", 1, 2, 5, 33)
		k.bd.Bits = x.Of("bits", 8, 11)
		k.ecs = alphaSets[x.Choose("extra channels", 2)].ecs(8)
	}
	return k
}

// failWriter fails (or writes short) from a given call on.
type failWriter struct {
	bytes.Buffer
	n, at int
	short bool
}

var errWriter = errors.New("injected write error")

func (f *failWriter) Write(b []byte) (int, error) {
	f.n++
	if f.at > 0 && f.n >= f.at {
		k := 0
		if f.short {
			k = len(b) / 2
			f.Buffer.Write(b[:k])
		}
		return k, errWriter
	}
	return f.Buffer.Write(b)
}

func writePNG(j *core.JXLImage, w io.Writer) error {
	return guard(func() error { return (&core.PNGWriter{}).WritePNG(j, w) })
}

func writePFM(j *core.JXLImage, w io.Writer) error {
	return guard(func() error { return core.WritePFM(j, w) })
}

func toImage(j *core.JXLImage) (m image.Image, err error) {
	err = guard(func() (e error) { m, e = j.ToImage(); return })
	return
}

// straightOutput says whether the samples go out as they are.
func straightOutput(hd *jx.Hdr) bool {
	return !hd.AllDefault && !hd.Colour.Default && hd.Colour.ICC && !hd.XYB
}

// decodeFor decodes a file for an output check and copies its samples.
func decodeFor(t *mc.T, b []byte) (im, before *Img) {
	t.Input(b)
	t.Runs(1)
	im, err := decode(b, 1)
	if err != nil {
		t.Fail("decode: %v", err)
		return nil, nil
	}
	return im, im.snap()
}

// checkPNG compares a PNG with what it should show.
func checkPNG(hd *jx.Hdr, before *Img, icc, b []byte) string {
	p, err := parsePNG(b)
	if err != nil {
		return "invalid PNG: " + err.Error()
	}
	if g, err := png.Decode(bytes.NewReader(b)); err != nil {
		return "image/png: " + err.Error()
	} else if g.Bounds().Dx() != p.w || g.Bounds().Dy() != p.h {
		return fmt.Sprintf("image/png sees %v", g.Bounds())
	}
	if p.w != before.W || p.h != before.H {
		return fmt.Sprintf("size %dx%d, want %dx%d", p.w, p.h, before.W, before.H)
	}
	space, err := p.space()
	if err != nil {
		return err.Error()
	}
	asIs := straightOutput(hd)
	if asIs && !bytes.Equal(p.icc, icc) {
		return fmt.Sprintf("profile of %d bytes, want %d", len(p.icc), len(icc))
	}
	if !asIs && p.icc != nil {
		return "profile in a PNG of an image without"
	}
	tag := headerSpace(hd.Colour)
	intent := 1
	if !hd.AllDefault && !hd.Colour.Default && !hd.Colour.ICC {
		intent = hd.Colour.Intent
	}
	if p.srgb >= 0 && p.srgb != intent {
		return fmt.Sprintf("rendering intent %d, want %d", p.srgb, intent)
	}
	bits := hd.BD.Bits
	if bits > 8 && p.depth != 16 || bits <= 8 && p.depth != 8 && !isHDR(tag) {
		return fmt.Sprintf("depth %d for %d bits", p.depth, bits)
	}
	col, alpha := expectOutput(hd, before, space, asIs)
	want := len(col)
	if alpha != nil {
		want++
	}
	if p.channels() != want {
		return fmt.Sprintf("colour type %d for %d colours, alpha %v", p.ctype, len(col), alpha != nil)
	}
	for y := range p.pix {
		for x, px := range p.pix[y] {
			for c := range px {
				o := outSample{}
				if c < len(col) {
					o = col[c][y][x]
				} else {
					o = alpha[y][x]
				}
				if !o.near(px[c], p.depth) {
					return fmt.Sprintf("channel %d (%d,%d) = %d, want %.3f +- %.3f", c, x, y, px[c], o.v*float64(int(1)<<p.depth-1), .5+o.tol*float64(int(1)<<p.depth-1))
				}
			}
		}
	}
	return ""
}

func pngRun(t *mc.T, hd *jx.Hdr, b, icc []byte) {
	im, before := decodeFor(t, b)
	if im == nil {
		return
	}
	var out bytes.Buffer
	if err := writePNG(im.J, &out); err != nil {
		t.Fail("WritePNG: %v", err)
		return
	}
	if d := checkPNG(hd, before, icc, out.Bytes()); d != "" {
		t.Fail("%s", d)
		return
	}
	t.Outcome("PNG shows the image")
}

// goSamples reads the non-premultiplied samples of a Go image at 16 bits.
func goImageDiff(hd *jx.Hdr, before *Img, m image.Image) string {
	bd := m.Bounds()
	if bd.Min != (image.Point{}) || bd.Dx() != before.W || bd.Dy() != before.H {
		return fmt.Sprintf("bounds %v, want %dx%d", bd, before.W, before.H)
	}
	space := spaceSRGB
	if tag := headerSpace(hd.Colour); isHDR(tag) {
		space = colourSpace{16, primBT2100, whiteD65}
	}
	asIs := straightOutput(hd)
	col, alpha := expectOutput(hd, before, space, asIs)
	depth := 16
	switch m.(type) {
	case *image.Gray, *image.NRGBA:
		depth = 8
	case *image.RGBA:
		return "premultiplied 8-bit image"
	}
	if alpha != nil {
		switch m.(type) {
		case *image.Gray, *image.Gray16:
			return fmt.Sprintf("%T has no alpha", m)
		}
	}
	if hd.BD.Bits <= 8 && depth == 16 && !isHDR(headerSpace(hd.Colour)) {
		// more than asked for is fine
		depth = 16
	}
	for y := 0; y < before.H; y++ {
		for x := 0; x < before.W; x++ {
			var v [4]int
			if depth == 8 {
				c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
				v = [4]int{int(c.R), int(c.G), int(c.B), int(c.A)}
			} else {
				c, ok := m.At(x, y).(color.NRGBA64)
				if !ok {
					c = color.NRGBA64Model.Convert(m.At(x, y)).(color.NRGBA64)
				}
				v = [4]int{int(c.R), int(c.G), int(c.B), int(c.A)}
			}
			if n, ok := m.At(x, y).(color.NRGBA); ok {
				v = [4]int{int(n.R), int(n.G), int(n.B), int(n.A)}
			}
			for c := 0; c < 4; c++ {
				o := outSample{1, 0}
				switch {
				case c < 3 && len(col) == 3:
					o = col[c][y][x]
				case c < 3:
					o = col[0][y][x]
				case alpha != nil:
					o = alpha[y][x]
				}
				if !o.near(v[c], depth) {
					return fmt.Sprintf("%T: channel %d (%d,%d) = %d, want %.3f", m, c, x, y, v[c], o.v*float64(int(1)<<depth-1))
				}
			}
		}
	}
	return ""
}

func checkPFM(hd *jx.Hdr, before *Img, b []byte) string {
	n := hd.NColour()
	parts := bytes.SplitN(b, []byte("\n"), 4)
	if len(parts) != 4 {
		return "no PFM header"
	}
	if want := map[int]string{1: "Pf", 3: "PF"}[n]; string(parts[0]) != want {
		return fmt.Sprintf("type %q, want %q", parts[0], want)
	}
	if want := fmt.Sprintf("%d %d", before.W, before.H); string(parts[1]) != want {
		return fmt.Sprintf("size %q, want %q", parts[1], want)
	}
	var scale float64
	if _, err := fmt.Sscanf(string(parts[2]), "%g", &scale); err != nil || math.Abs(scale) != 1 {
		return fmt.Sprintf("scale %q", parts[2])
	}
	var order binary.ByteOrder = binary.BigEndian
	if scale < 0 {
		order = binary.LittleEndian
	}
	data := parts[3]
	if len(data) != 4*n*before.W*before.H {
		return fmt.Sprintf("%d bytes of samples, want %d", len(data), 4*n*before.W*before.H)
	}
	bits := hd.BD.Bits
	for y := before.H - 1; y >= 0; y-- {
		for x := 0; x < before.W; x++ {
			for c := 0; c < n; c++ {
				g := float64(math.Float32frombits(order.Uint32(data)))
				data = data[4:]
				w := before.Ch[c].at(x, y, bits)
				if !(math.Abs(g-w) <= 2e-7*math.Abs(w)) {
					return fmt.Sprintf("channel %d (%d,%d) = %v, want %v", c, x, y, g, w)
				}
			}
		}
	}
	return ""
}

func channelDiff(bits int, p *Plane, m image.Image) string {
	if m.Bounds() != image.Rect(0, 0, p.W, p.H) {
		return fmt.Sprintf("bounds %v, want %dx%d", m.Bounds(), p.W, p.H)
	}
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			w := math.Min(math.Max(p.at(x, y, bits), 0), 1) * 65535
			g := float64(color.Gray16Model.Convert(m.At(x, y)).(color.Gray16).Y)
			tol := 257.0
			if !p.Float && bits == 8 {
				tol = 0.01
			}
			if math.Abs(g-w) > tol {
				return fmt.Sprintf("(%d,%d) = %.2f of 255, want %.2f", x, y, g/257, w/257)
			}
		}
	}
	return ""
}

func hdrICC(hd *jx.Hdr) []byte {
	if hd.ICC == nil {
		return nil
	}
	b, _, _ := jx.ICCDecode(hd.ICC)
	return b
}

// outputs are the ways to get an image out.
var outputs = []struct {
	name string
	run  func(j *core.JXLImage) (string, error)
}{
	{"WritePNG", func(j *core.JXLImage) (string, error) {
		var b bytes.Buffer
		err := writePNG(j, &b)
		return b.String(), err
	}},
	{"WritePFM", func(j *core.JXLImage) (string, error) {
		var b bytes.Buffer
		err := writePFM(j, &b)
		return b.String(), err
	}},
	{"ToImage", func(j *core.JXLImage) (string, error) {
		m, err := toImage(j)
		return fmt.Sprintf("%#v", m), err
	}},
	{"ChannelToImage 0", func(j *core.JXLImage) (s string, err error) {
		err = guard(func() error {
			m, err := j.ChannelToImage(0)
			s = fmt.Sprintf("%#v", m)
			return err
		})
		return
	}},
}

// outputHistory runs a sequence of outputs on one image; each must give what it gives on a
// fresh decode, and leave the samples alone.
func outputHistory(t *mc.T, b []byte, seq []int) {
	im, before := decodeFor(t, b)
	if im == nil {
		return
	}
	for i, o := range seq {
		t.Runs(1)
		got, err := outputs[o].run(im.J)
		fresh, e := decode(b, 1)
		if e != nil {
			t.Fail("decode again: %v", e)
			return
		}
		want, werr := outputs[o].run(fresh.J)
		if fmt.Sprint(err) != fmt.Sprint(werr) {
			t.Fail("%s at step %d: error %v, alone %v", outputs[o].name, i+1, err, werr)
			return
		}
		if got != want {
			t.Fail("%s at step %d differs from the same on a fresh image", outputs[o].name, i+1)
			return
		}
		now := neutral(im.J)
		if d := diffImg(before, now); d != "" {
			t.Fail("%s changed the image: %s", outputs[o].name, d)
			return
		}
		if im.J.Width != uint32(before.W) || im.J.Height != uint32(before.H) {
			t.Fail("%s changed the size of the image", outputs[o].name)
			return
		}
	}
	t.Outcome("outputs independent")
}

func historySpace(first []int) mc.Space {
	return mc.Space{Name: "sequences of outputs", Quick: true, Body: func(x *mc.X) {
		kinds := []outKind{
			{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: 8}, ecs: alphaSets[1].ecs(8)},
			{col: jx.GrayColour(), bd: jx.BitDepth{Bits: 12}},
			{col: jx.GrayColour(), bd: jx.BitDepth{Bits: 5}, ecs: alphaSets[3].ecs(4)},
			{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: 8}, xyb: true},
			{col: jx.Colour{White: 1, Prim: 9, TF: 1}, bd: jx.BitDepth{Bits: 10}, ecs: alphaSets[3].ecs(10)},
			{col: jx.Colour{White: 1, Prim: 9, TF: 16}, bd: jx.BitDepth{Bits: 16}},
			{col: jx.Colour{Default: true}, bd: jx.BitDepth{Float: true, Bits: 32, Exp: 8}, orient: 6},
			{col: jx.Colour{ICC: true}, icc: iccSamples()[0].Bytes(), bd: jx.BitDepth{Bits: 9}},
		}
		_, b := kinds[x.Choose("image", len(kinds))].build()
		seq := []int{first[x.Choose("first", len(first))]}
		n := 1 + x.Choose("more outputs", x.Pick(2, 3))
		for i := 0; i < n; i++ {
			seq = append(seq, x.Choose("output", len(outputs)))
		}
		x.Do(func(t *mc.T) { outputHistory(t, b, seq) })
	}}
}

// corpusOutputs runs an output on images of the corpus (several frames, VarDCT, groups).
func corpusOutputs(check func(hd *jx.Hdr, im, before *Img) string) mc.Space {
	return mc.Space{Name: "corpus", Quick: true, Body: func(x *mc.X) {
		ns := corpusNames(func(f CFile) bool { return f.Hd != nil && f.Name != "v-lfgroups" })
		f := corpusFile(ns[x.Choose("file", len(ns))])
		x.Do(func(t *mc.T) {
			if im, before := decodeFor(t, f.B); im != nil {
				if d := check(f.Hd, im, before); d != "" {
					t.Fail("%s", d)
				}
				t.Outcome("corpus file")
			}
		})
	}}
}

const kindBounds = "images: gray/colour x 19 integer depths x 8 sets of extra channels x 5 alpha depths x in range/out of range samples; 3 float formats; 4 white points x 4 primaries x 9 transfer functions x XYB or not x intensity targets x alpha; profiles; 8 orientations x 24 sizes"

func init() {
	register(func() *mc.Check {
		return &mc.Check{ID: "C24", Level: "model_checking", Technique: "stateless model checking: all image kinds, writer faults and output sequences within the bounds, executed on the real PNG writer; strict PNG parser and colour conversion in float64 as oracle",
			Bounds: func(tier string) string {
				return kindBounds + "; a write error at every call of the writer; sequences of up to 3 (thorough: 4) outputs"
			},
			Rule:   "the file is a valid PNG whose samples are those of the image, converted to the colour space it declares, within half a step plus float error",
			Assume: []string{"PQ means absolute light: linear 1.0 is the intensity target", "HLG without XYB and unknown transfer functions are unsupported (explicit error)", "colours of transparent premultiplied pixels are not judged"},
			Spaces: []mc.Space{
				{Name: "image kinds", Quick: true, Body: func(x *mc.X) {
					k := outKinds(x)
					x.Do(func(t *mc.T) {
						hd, b := k.build()
						pngRun(t, hd, b, hdrICC(hd))
					})
				}},
				{Name: "write faults", Quick: true, Body: func(x *mc.X) {
					kinds := []outKind{{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: 8}, w: 5, h: 3}, {col: jx.GrayColour(), bd: jx.BitDepth{Bits: 16}, ecs: alphaSets[1].ecs(8), w: 3, h: 3},
						{col: jx.Colour{ICC: true}, icc: iccSamples()[0].Bytes(), bd: jx.BitDepth{Bits: 8}, w: 5, h: 3}, {col: jx.Colour{White: 1, Prim: 9, TF: 16}, bd: jx.BitDepth{Bits: 10}, w: 5, h: 3}}
					_, b := kinds[x.Choose("image", len(kinds))].build()
					short := x.Choose("partial write", 2) == 1
					x.Do(func(t *mc.T) { faultRun(t, b, short, writePNG) })
				}},
				historySpace([]int{0}),
				corpusOutputs(func(hd *jx.Hdr, im, before *Img) string {
					var out bytes.Buffer
					if err := writePNG(im.J, &out); err != nil {
						return err.Error()
					}
					return checkPNG(hd, before, hdrICC(hd), out.Bytes())
				}),
			}}
	})
	register(func() *mc.Check {
		return &mc.Check{ID: "C25", Level: "model_checking", Technique: "stateless model checking: all image kinds, writer faults and output sequences within the bounds, executed on the real PFM writer and read back",
			Bounds: func(tier string) string {
				return kindBounds + "; corpus files; a write error at every call of the writer; sequences of up to 3 (thorough: 4) outputs"
			},
			Rule: "header and sample order as PFM defines them, samples equal to those of the image (integers scaled to 0..1)",
			Spaces: []mc.Space{
				{Name: "image kinds", Quick: true, Body: func(x *mc.X) {
					k := outKinds(x)
					x.Do(func(t *mc.T) {
						hd, b := k.build()
						im, before := decodeFor(t, b)
						if im == nil {
							return
						}
						var out bytes.Buffer
						if err := writePFM(im.J, &out); err != nil {
							t.Fail("WritePFM: %v", err)
						} else if d := checkPFM(hd, before, out.Bytes()); d != "" {
							t.Fail("%s", d)
						}
						t.Outcome("PFM has the samples")
					})
				}},
				{Name: "write faults", Quick: true, Body: func(x *mc.X) {
					kinds := []outKind{{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: 8}, w: 5, h: 3}, {col: jx.GrayColour(), bd: jx.BitDepth{Float: true, Bits: 32, Exp: 8}, w: 3, h: 3}}
					_, b := kinds[x.Choose("image", len(kinds))].build()
					short := x.Choose("partial write", 2) == 1
					x.Do(func(t *mc.T) { faultRun(t, b, short, writePFM) })
				}},
				historySpace([]int{1}),
				corpusOutputs(func(hd *jx.Hdr, im, before *Img) string {
					var out bytes.Buffer
					if err := writePFM(im.J, &out); err != nil {
						return err.Error()
					}
					return checkPFM(hd, before, out.Bytes())
				}),
			}}
	})
	register(func() *mc.Check {
		return &mc.Check{ID: "C26", Level: "model_checking", Technique: "stateless model checking: all image kinds and output sequences within the bounds, executed on the real conversions; colour conversion in float64 as oracle",
			Bounds: func(tier string) string {
				return kindBounds + "; every channel of each as a single image; sequences of up to 3 (thorough: 4) outputs"
			},
			Rule:   "size, colours and alpha of the Go image equal those of the image within half a step (one step for single channels)",
			Assume: []string{"HDR images are given as BT.2100 PQ samples, like the PNG", "HLG without XYB and unknown transfer functions are unsupported (explicit error)", "colours of transparent premultiplied pixels are not judged"},
			Spaces: []mc.Space{
				{Name: "image kinds", Quick: true, Body: func(x *mc.X) {
					k := outKinds(x)
					x.Do(func(t *mc.T) {
						hd, b := k.build()
						im, before := decodeFor(t, b)
						if im == nil {
							return
						}
						m, err := toImage(im.J)
						if err != nil {
							t.Fail("ToImage: %v", err)
						} else if d := goImageDiff(hd, before, m); d != "" {
							t.Fail("%s", d)
						}
						t.Outcome("same picture")
					})
				}},
				{Name: "single channels", Quick: true, Body: func(x *mc.X) {
					k := outKinds(x)
					x.Do(func(t *mc.T) {
						hd, b := k.build()
						im, before := decodeFor(t, b)
						if im == nil {
							return
						}
						n := hd.NColour()
						for c := -1; c <= len(before.Ch); c++ {
							var m image.Image
							err := guard(func() (e error) { m, e = im.J.ChannelToImage(c); return })
							if c < 0 || c == len(before.Ch) {
								if err == nil || isPanic(err) {
									t.Fail("channel %d of %d: %v", c, len(before.Ch), err)
								}
								continue
							}
							bits := hd.BD.Bits
							if c >= n {
								bits = hd.EC[c-n].BD.Bits
								if hd.EC[c-n].Default {
									bits = 8
								}
							}
							if err != nil {
								t.Fail("channel %d: %v", c, err)
							} else if d := channelDiff(bits, &before.Ch[c], m); d != "" {
								t.Fail("channel %d: %s", c, d)
							}
							if t.Failed() {
								return
							}
						}
						t.Outcome("same channel")
					})
				}},
				historySpace([]int{2, 3}),
				corpusOutputs(func(hd *jx.Hdr, im, before *Img) string {
					m, err := toImage(im.J)
					if err != nil {
						return err.Error()
					}
					return goImageDiff(hd, before, m)
				}),
			}}
	})
	register(func() *mc.Check {
		return &mc.Check{ID: "C27", Level: "model_checking", Technique: "stateless model checking: all image kinds x wrappings x reader kinds within the bounds, decoded through the standard image package with the registered format and compared with the decoder's own result",
			Bounds: func(tier string) string {
				return "gray/colour x extra channels x depths x orientations x sizes; 6 wrappings (bare, containers whole and in parts, with boxes) x 5 readers (seekable, buffered, one byte at a time, not seekable, seekable at an offset); corpus files, good and defective; junk"
			},
			Rule: "Decode gives the pixels of ToImage, DecodeConfig its size and colour model, both name the format \"jxl\", and both fail exactly when the decoder does",
			Spaces: []mc.Space{
				{Name: "kinds and readers", Quick: true, Body: func(x *mc.X) {
					k := outKind{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: x.Of("bits", 8, 12)}}
					if x.Choose("colours", 2) == 1 {
						k.col = jx.GrayColour()
					}
					k.ecs = alphaSets[x.Choose("extra channels", 4)].ecs(8)
					k.orient = 1 + x.Choose("orientation", 8)
					k.w, k.h = 5, x.Of("height", 3, 40)
					wr, rd := x.Choose("wrapping", wrapN), x.Choose("reader", len(stdReaders))
					x.Do(func(t *mc.T) {
						_, b := k.build()
						stdRun(t, wrapFile(b, wr), rd, true)
					})
				}},
				{Name: "colour encodings", Quick: true, Body: func(x *mc.X) {
					k := outKinds(x)
					x.Do(func(t *mc.T) {
						_, b := k.build()
						stdRun(t, b, 1, true)
					})
				}},
				{Name: "corpus", Quick: true, Body: func(x *mc.X) {
					ns := corpusNames(func(f CFile) bool { return f.Name != "v-lfgroups" })
					f := corpusFile(ns[x.Choose("file", len(ns))])
					wr, rd := x.Choose("wrapping", 2), x.Choose("reader", 2)
					x.Do(func(t *mc.T) { stdRun(t, wrapFile(f.B, wr), rd, !f.Bad) })
				}},
				{Name: "cut files", Quick: true, Body: func(x *mc.X) {
					_, b := outKind{col: jx.GrayColour(), bd: jx.BitDepth{Bits: 8}, w: 5, h: 5}.build()
					wr, rd := x.Choose("wrapping", wrapN), x.Choose("reader", len(stdReaders))
					x.Do(func(t *mc.T) {
						c := wrapFile(b, wr)
						for n := 0; n < len(c) && !t.Failed(); n++ {
							stdRun(t, c[:n], rd, false)
						}
					})
				}},
			}}
	})
}

func faultRun(t *mc.T, b []byte, short bool, write func(*core.JXLImage, io.Writer) error) {
	for at := 0; ; at++ {
		im, _ := decodeFor(t, b)
		if im == nil {
			return
		}
		w := &failWriter{at: at, short: short}
		err := write(im.J, w)
		if at == 0 {
			if err != nil {
				t.Fail("without a fault: %v", err)
				return
			}
			continue
		}
		if w.n < at {
			if err != nil {
				t.Fail("without a fault: %v", err)
			}
			break
		}
		if err == nil {
			t.Fail("write error at call %d not reported", at)
			return
		}
		if isPanic(err) {
			t.Fail("write error at call %d: %v", at, err)
			return
		}
	}
	t.Outcome("write errors reported")
}

// plainReader hides everything but Read.
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

type oneByteReader struct{ r io.Reader }

func (p oneByteReader) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return p.r.Read(b)
}

// peekSeeker is a seekable reader that can peek, as the image package asks for.
type peekSeeker struct {
	*bytes.Reader
}

func (p peekSeeker) Peek(n int) ([]byte, error) {
	pos, _ := p.Seek(0, io.SeekCurrent)
	b := make([]byte, n)
	k, err := io.ReadFull(p.Reader, b)
	p.Seek(pos, io.SeekStart)
	if err != nil {
		err = io.EOF
	}
	return b[:k], err
}

var stdReaders = []struct {
	name string
	mk   func(b []byte) io.Reader
}{
	{"bytes.Reader", func(b []byte) io.Reader { return bytes.NewReader(b) }},
	{"plain reader", func(b []byte) io.Reader { return plainReader{bytes.NewReader(b)} }},
	{"one byte at a time", func(b []byte) io.Reader { return oneByteReader{bytes.NewReader(b)} }},
	{"strings.Reader", func(b []byte) io.Reader { return strings.NewReader(string(b)) }},
	{"seekable with Peek", func(b []byte) io.Reader { return peekSeeker{bytes.NewReader(b)} }},
}

const wrapN = 6

func wrapFile(b []byte, k int) []byte {
	switch k {
	case 1:
		return container([]boxSpec{{"jxlc", b, 0}})
	case 2:
		return container(split(b, 3))
	case 3:
		return container([]boxSpec{{"jxll", []byte{5}, 0}, {"Exif", make([]byte, 20), 0}, {"jxlc", b, 1}})
	case 4:
		return container([]boxSpec{{"jxlc", b, 2}})
	case 5:
		return container(append(split(b, 2), boxSpec{"xml ", []byte("<x/>"), 0}))
	}
	return b
}

func stdRun(t *mc.T, b []byte, rd int, good bool) {
	t.Input(b)
	t.Runs(1)
	_ = jxlgo.Decode // the import registers the format
	own, oerr := decode(b, 1)
	var want image.Image
	if oerr == nil {
		want, oerr = toImage(own.J)
	}
	if good && oerr != nil {
		t.Fail("own decode: %v", oerr)
		return
	}
	var m image.Image
	var name, cname string
	var cfg image.Config
	err := guard(func() (e error) { m, name, e = image.Decode(stdReaders[rd].mk(b)); return })
	cerr := guard(func() (e error) { cfg, cname, e = image.DecodeConfig(stdReaders[rd].mk(b)); return })
	var d *core.JXLDecoder
	herr := guard(func() error {
		d = core.NewJXLDecoder(bytes.NewReader(b), nil)
		_, e := d.GetImageHeader()
		return e
	})
	switch {
	case isPanic(err) || isPanic(cerr):
		t.Fail("%v, %v", err, cerr)
	case (err != nil) != (oerr != nil):
		t.Fail("image.Decode from %s: %v, own decode: %v", stdReaders[rd].name, err, oerr)
	case (cerr != nil) != (herr != nil):
		t.Fail("image.DecodeConfig from %s: %v, own header: %v", stdReaders[rd].name, cerr, herr)
	case cerr == nil && cname != "jxl":
		t.Fail("DecodeConfig names the format %q", cname)
	case err != nil:
		t.Outcome("rejected")
	case name != "jxl":
		t.Fail("Decode names the format %q", name)
	case fmt.Sprintf("%#v", m) != fmt.Sprintf("%#v", want):
		t.Fail("image.Decode gives another image than ToImage")
	case cfg.Width != m.Bounds().Dx() || cfg.Height != m.Bounds().Dy():
		t.Fail("DecodeConfig says %dx%d, the image is %v", cfg.Width, cfg.Height, m.Bounds())
	case cfg.ColorModel != m.ColorModel():
		t.Fail("DecodeConfig's colour model is not that of the %T", m)
	default:
		t.Outcome("as the decoder")
	}
}
