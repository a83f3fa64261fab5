// Command seedgen writes the example files of some seeded changes.
package main

import (
	"os"

	"verif/jx"
)

type rng uint32

func (r *rng) next() uint32 {
	*r = *r*1664525 + 1013904223
	return uint32(*r) >> 8
}

func noise(w, h, seed int, max uint32) *jx.Ch {
	c := jx.NewCh(w, h)
	r := rng(seed*7919 + 1)
	for y := range c.D {
		for x := range c.D[y] {
			c.D[y][x] = int32(r.next() % (max + 1))
		}
	}
	return c
}

func mod(pred int, chs ...*jx.Ch) *jx.Mod {
	return &jx.Mod{Chans: chs, Tree: jx.Leaf(pred), WP: jx.DefaultWP(), Code: jx.Code{Prefix: true}, TCode: jx.Code{Prefix: true}}
}

func frame(shift int) *jx.FrameHdr {
	return &jx.FrameHdr{Modular: true, IsLast: true, GroupShift: shift}
}

func gray(w, h int) *jx.Hdr {
	hd := rgb(w, h)
	hd.Colour = jx.GrayColour()
	return hd
}

func rgb(w, h int) *jx.Hdr {
	hd := jx.NewHdr(w, h)
	hd.BD = jx.BitDepth{Bits: 8}
	hd.Mod16 = true
	hd.Colour = jx.Colour{Default: true}
	return hd
}

func enc(h *jx.Hdr, f *jx.FrameHdr, m *jx.Mod) []byte {
	w := &jx.BW{}
	h.Write(w)
	jx.EncodeModular(w, h, f, m, jx.TOC{})
	w.Pad()
	return w.B
}

var gens = map[string]func() []byte{
	"c07-window": func() []byte {
		w, h := 1024, 570
		c := noise(w, h, 1, 15)
		for y := 0; y < 520; y++ {
			for x := range c.D[y] {
				c.D[y][x] = 0
			}
		}
		for y := 540; y < h; y++ {
			copy(c.D[y], c.D[y-10])
		}
		m := mod(0, c)
		m.Code = jx.Code{Prefix: true, LZ: &jx.LZ{MinSymbol: 224, MinLength: 3, LenHyb: jx.Hyb{Split: 4, Msb: 1}}, Map: []int{0, 1},
			Hyb: []jx.Hyb{{Split: 7}, {Split: 4, Msb: 2}}}
		m.LZ = func(_ int, toks []jx.Tok, _ int) []jx.Tok {
			o := []jx.Tok{toks[0], {Ctx: toks[0].Ctx, Copy: true, Val: 520*1024 - 1, Dist: 120}}
			o = append(o, toks[520*1024:540*1024]...)
			return append(o, jx.Tok{Ctx: toks[0].Ctx, Copy: true, Val: 30 * 1024, Dist: 119 + 10*1024})
		}
		return enc(gray(w, h), frame(3), m)
	},
	"c12-end": func() []byte {
		w := 140
		c := noise(w, 4, 3, 255)
		bw := &jx.BW{}
		hd := gray(w, 4)
		hd.Write(bw)
		jx.EncodeModular(bw, hd, frame(0), mod(5, c), jx.TOC{Perm: []int{3, 4, 0, 2, 1}, End: 1})
		bw.Pad()
		return bw.B
	},
	"c12-many": func() []byte {
		n := 300
		w := 128*(n-1) + 7
		c := jx.NewCh(w, 1)
		for x := range c.D[0] {
			c.D[0][x] = int32(x / 128 % 7)
		}
		var p []int
		for i := 0; i < 2*n; i++ {
			p = append(p, i)
		}
		f := frame(0)
		hd := gray(w, 1)
		g := jx.Geometry(hd, f)
		p = p[:2+g.NX*g.NY+g.NLX*g.NLY]
		l := len(p)
		p[l-1], p[l-2], p[l-5] = p[l-5], p[l-1], p[l-2]
		bw := &jx.BW{}
		hd.Write(bw)
		jx.EncodeModular(bw, hd, f, mod(5, c), jx.TOC{Perm: p})
		bw.Pad()
		return bw.B
	},
}

func main() {
	os.WriteFile(os.Args[2], gens[os.Args[1]](), 0o644)
}
