package checks

import (
	"strings"
	"sync"

	"verif/jx"
)

// CFile is a file of the shared corpus (all written by the reference encoder).
type CFile struct {
	Name string
	B    []byte
	VD   bool // decodes a VarDCT frame (slow)
	Bad  bool // derived from a good file by damaging it
	Hd   *jx.Hdr
}

var corpusOnce sync.Once
var corpusFiles []CFile

func corpusFile(name string) CFile {
	if f, ok := tinyFile(name); ok {
		return f
	}
	for _, f := range corpus() {
		if f.Name == name {
			return f
		}
	}
	panic("no corpus file " + name)
}

// tinyFile builds filtered files that are not part of the corpus (used in
// fresh processes, where building the whole corpus takes too long).
func tinyFile(name string) (CFile, bool) {
	if p, k, ok := strings.Cut(name, "/"); ok {
		return paramFile(p, int(k[0]-'0')), true
	}
	w, h := 0, 0
	switch name {
	case "x-filter1":
		w, h = 9, 7
	case "x-filter2":
		w, h = 20, 17
	default:
		return CFile{}, false
	}
	f := lossless()
	f.RF = jx.RF{Gab: true, EPF: 1}
	hd := grayHdr(w, h, 8)
	return CFile{Name: name, B: encode(hd, f, simpleMod([]*jx.Ch{fill(jx.NewCh(w, h), 2, 1, 255)}), jx.TOC{}), Hd: hd}, true
}

// params are the parameters paramFile varies, cheap ones first.
var params = []string{"up2", "up4", "up8", "opsin", "mgab", "mepf", "mlfq", "wp", "tree", "depth", "icc", "tone",
	"mats", "rawmats", "order", "passes", "blockctx", "cfl", "quant", "lfq", "sharp", "qm"}

const modParams = 12 // the first ones need no VarDCT frame

// paramFile is a file that leaves one parameter at its default (k = 0) or
// codes values of its own (k = 1, 2); otherwise the files of a parameter agree.
func paramFile(p string, k int) CFile {
	out := CFile{Name: p + "/" + string(rune('0'+k))}
	chN := func(n, w, h int) (c []*jx.Ch) {
		for i := 0; i < n; i++ {
			c = append(c, fill(jx.NewCh(w, h), 2+3*(i%2), 3+i, 200))
		}
		return
	}
	at := -1
	for i := range params {
		if params[i] == p {
			at = i
		}
	}
	if at < modParams {
		hd, f := rgbHdr(12, 9, 8), lossless()
		m := simpleMod(chN(3, 12, 9))
		v := float64(k)
		switch p {
		case "up2", "up4", "up8":
			lg := int(p[2]-'0')/2 - int(p[2]-'0')/8
			f.Up = lg
			w, h := f.CodedSize(hd)
			m = simpleMod(chN(3, w, h))
			if k > 0 {
				half, _ := upWeights(k, lg)
				setUp(hd, lg, half)
			}
		case "opsin":
			hd.XYB = true
			setOpsin(hd, k)
		case "mgab":
			f.RF = jx.RF{Gab: true}
			if k > 0 {
				f.RF.GabW = &[6]float64{v / 8, 0.0625, 0.25, v / 16, 0.125, 0.125}
			}
		case "mepf":
			f.RF = jx.RF{EPF: 2, SigmaMod: 1 + v}
		case "mlfq":
			hd.XYB = true
			if k > 0 {
				m.LFDequant = &[3]float64{v / 64, 0.5, v / 16}
			}
		case "wp":
			m.Tree = jx.Leaf(6)
			if k > 0 {
				m.WP = jx.DefaultWP()
				m.WP.P1, m.WP.P2 = 3*k, 5
			}
		case "tree":
			m.Tree = []*jx.Node{jx.Leaf(5), jx.Split(6, 90, jx.Leaf(1), jx.Leaf(3)), jx.Split(0, 1, jx.Leaf(4), jx.Split(2, 4, jx.Leaf(6), jx.Leaf(2)))}[k]
		case "depth":
			f.RF = jx.RF{Gab: true}
			hd.BD.Bits = 8 + 2*k
		case "icc":
			if k > 0 {
				hd.Colour = jx.Colour{ICC: true}
				ss := iccSamples()
				hd.ICC = ss[k].Bytes()
			}
		case "tone":
			hd.XYB = true
			if k > 0 {
				hd.ExtraFields, hd.Orientation = true, 1
				hd.Tone = jx.Tone{Target: 1000 * v, Min: v / 4, Lin: 8}
			}
		}
		out.Hd, out.B = hd, encode(hd, f, m, jx.TOC{})
		return out
	}
	hd, f, v := newXYBVD(24, 16)
	f.Flags = 0
	mixBlocks(hd, f, v, 5)
	vdFill(hd, f, v, 4, 4)
	fk := float64(k)
	switch p {
	case "mats", "rawmats":
		if k > 0 {
			v.Mats = make([]jx.QMat, 17)
			v.Mats[0] = randMat(0, map[string]int{"mats": 6, "rawmats": 7}[p], k)
		}
	case "order":
		if k > 0 {
			v.Pass = []jx.HFPassHdr{{Used: 1, Perm: map[int][3][]int{0: {randPerm(64, 1, 2*k), randPerm(64, 1, 3), nil}}}}
		}
	case "passes":
		if k > 0 {
			f.Passes = &jx.Passes{N: 1 + k, Shift: []int{1, 0}[:k]}
			v.Pass = make([]jx.HFPassHdr, 1+k)
			vdFill(hd, f, v, 4, 4)
		}
	case "blockctx":
		if k > 0 {
			v.Ctx = &jx.BlockCtx{LFT: [3][]int{{1}, nil, {-2 * k}}, QFT: []int{2 + k}, Map: manyClusters(39*8, 4*k), Form: jx.ClusterEntropy}
			v.Pass = []jx.HFPassHdr{{Code: hfCode(true, 495*4*k, 30)}}
		}
	case "cfl":
		if k > 0 {
			v.Cfl = &jx.CfL{Factor: 40 * k, BaseX: fk / 4, BaseB: 0.5, XLF: 100 + k, BLF: 140}
		}
	case "quant":
		v.GlobalScale += 700 * k
		v.QuantLF += 3 * k
	case "lfq":
		if k > 0 {
			v.LFDequant = &[3]float64{fk / 64, 0.25, fk / 32}
		}
	case "sharp":
		f.RF = jx.RF{Default: true}
		calmLF(v)
		vdSharp(v, 7+k)
	case "qm":
		f.XQ, f.BQ = f.XQ+k, f.BQ+2*k
	}
	out.VD, out.Hd, out.B = true, hd, vdEncode(hd, f, v)
	return out
}

// corpus returns the shared small files.
func corpus() []CFile {
	corpusOnce.Do(func() { corpusFiles = buildCorpus() })
	return corpusFiles
}

func buildCorpus() (out []CFile) {
	mod := func(name string, hd *jx.Hdr, f *jx.FrameHdr, m *jx.Mod) {
		out = append(out, CFile{Name: name, B: encode(hd, f, m, jx.TOC{}), Hd: hd})
	}
	chN := func(n, w, h, seed int, max int32) (c []*jx.Ch) {
		for i := 0; i < n; i++ {
			c = append(c, fill(jx.NewCh(w, h), 2+3*(i%2), seed+i, max))
		}
		return
	}
	// modular
	{
		mod("m-gray", grayHdr(9, 7, 8), lossless(), simpleMod(chN(1, 9, 7, 1, 255)))

		chs := chN(3, 12, 10, 2, 255)
		m := simpleMod(nil)
		m.Trs = []jx.Tr{{Kind: 0, Begin: 0, RCT: 6}, {Kind: 2}}
		jx.ForwardRCT(chs, 0, 6)
		m.Chans, m.NMeta = jx.ForwardSqueeze(chs, 0, jx.DefaultSqueeze(chs, 0))
		mod("m-squeeze", rgbHdr(12, 10, 8), lossless(), m)

		idx := fill(jx.NewCh(10, 8), 2, 4, 6)
		pal := jx.NewCh(7, 3)
		fill(pal, 2, 5, 255)
		tr := jx.Tr{Kind: 1, Begin: 0, NumC: 3, NbCol: 7}
		coded, _ := palette(chN(3, 10, 8, 4, 255), 0, tr, idx, pal, 8, jx.DefaultWP())
		m = simpleMod(coded)
		m.NMeta, m.Trs = 1, []jx.Tr{tr}
		mod("m-palette", rgbHdr(10, 8, 8), lossless(), m)

		hd := grayHdr(8, 6, 32)
		hd.BD = jx.BitDepth{Bits: 16, Exp: 5, Float: true}
		c := fill(jx.NewCh(8, 6), 2, 7, 0x3bff)
		m = simpleMod([]*jx.Ch{c})
		mod("m-float", hd, lossless(), m)

		hd = rgbHdr(8, 9, 8)
		hd.EC = []jx.EC{{Default: true}, {Type: 1, BD: jx.BitDepth{Bits: 16}, Name: "depth"}}
		chs = chN(5, 8, 9, 11, 255)
		mod("m-extra", hd, lossless(), simpleMod(chs))

		f := lossless()
		f.GroupShift = 0
		m = simpleMod(chN(1, 150, 140, 21, 3))
		mod("m-groups", grayHdr(150, 140, 8), f, m)

		m = simpleMod([]*jx.Ch{fill(jx.NewCh(20, 12), 3, 0, 255)})
		m.Tree = jx.Leaf(0)
		m.Code = coderN(2, 1)
		m.LZ = greedyLZ
		mod("m-lz", grayHdr(20, 12, 8), lossless(), m)

		p := newProgram(frameLayouts[2](8, 8))
		p.add(&jx.FrameHdr{Modular: true, GroupShift: 1, SaveRef: 1}, 0)
		p.add(cropped(&jx.FrameHdr{Modular: true, GroupShift: 1, IsLast: true, Blend: jx.Blend{Mode: 2, Source: 1}, EcBlend: []jx.Blend{{Mode: 2, Source: 1}}}, 1), 0)
		p.bw.Pad()
		out = append(out, CFile{Name: "m-blend", B: p.bw.B})

		f = lossless()
		f.Up = 1
		mod("m-upsample", grayHdr(11, 9, 8), f, simpleMod(chN(1, 6, 5, 31, 255)))

		f = lossless()
		f.RF = jx.RF{Gab: true, EPF: 2, SigmaMod: 1}
		mod("m-filter", rgbHdr(16, 12, 8), f, simpleMod(chN(3, 16, 12, 33, 255)))

		hd = rgbHdr(10, 6, 8)
		hd.XYB = true
		mod("m-xyb", hd, lossless(), simpleMod(chN(3, 10, 6, 35, 200)))
	}
	vd := func(name string, hd *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT) {
		out = append(out, CFile{Name: name, B: vdEncode(hd, f, v), VD: true, Hd: hd})
	}
	{
		hd, f, v := newVD(8, 8)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 3, 6)
		vd("v-8", hd, f, v)

		hd, f, v = newXYBVD(32, 24)
		f.Flags = 0
		f.RF = jx.RF{Default: true}
		mixBlocks(hd, f, v, 5)
		vdFill(hd, f, v, 4, 4)
		calmLF(v)
		vdSharp(v, 9)
		vd("v-filter", hd, f, v)

		hd, f, v = newVD(32, 24)
		mixBlocks(hd, f, v, 5)
		vdFill(hd, f, v, 14, 7)
		vd("v-32", hd, f, v)

		for i, up := range [][3]int{{0, 1, 0}, {1, 0, 1}} {
			hd, f, v = newVD(32, 32)
			f.YCbCr, f.JpegUp = true, up
			v.Cfl = &jx.CfL{Factor: 84, XLF: 128, BLF: 128}
			vdAlloc(hd, f, v)
			vdTile(hd, f, v)
			vdFill(hd, f, v, 8+i, 5)
			vd([]string{"v-420", "v-luma-sub"}[i], hd, f, v)
		}

		hd, f, v = newVD(16, 16)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 5, 6)
		v.Mats = make([]jx.QMat, 17)
		for i := range v.Mats {
			if i < 2 {
				v.Mats[i] = randMat(i, 6*(1-i)+i, 3)
			}
		}
		vd("v-mats", hd, f, v)

		hd, f, v = newVD(24, 16)
		f.Passes = &jx.Passes{N: 2, Shift: []int{1}}
		v.Pass = make([]jx.HFPassHdr, 2)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 6, 6)
		vd("v-2pass", hd, f, v)

		hd, f, v = newVD(264, 40)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 7, 1)
		vd("v-groups", hd, f, v)

		hd, f, v = newVD(16, 8)
		hd.EC = []jx.EC{{Default: true}}
		vdTile(hd, f, v)
		vdFill(hd, f, v, 8, 5)
		v.Mod.Chans = []*jx.Ch{fill(jx.NewCh(16, 8), 2, 3, 255)}
		vd("v-alpha", hd, f, v)

		// several LF groups (decoded by goroutines of their own)
		hd, f, v = newVD(2056, 8)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 9, 1)
		vd("v-lfgroups", hd, f, v)
	}
	{
		f := lossless()
		f.GroupShift = 0
		chs := chN(1, 1030, 3, 40, 255)
		m := simpleMod(chs)
		m.Group = func(s *jx.Sub) { s.Local = true }
		mod("m-lfgroups", grayHdr(1030, 3, 8), f, m)
	}
	// files in which several sections at once are too short
	short := func(name string, hd *jx.Hdr, f *jx.FrameHdr, secs []*jx.BW, from, to int, vd bool) {
		for _, s := range secs[from:to] {
			s.Pad()
			s.B = s.B[:1]
		}
		w := &jx.BW{}
		hd.Write(w)
		w.Pad()
		f.Write(w, hd)
		jx.WriteSections(w, secs, jx.TOC{})
		w.Pad()
		out = append(out, CFile{Name: name, B: w.B, VD: vd, Bad: true})
	}
	{
		hd, f, v := newVD(264, 40)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 7, 5)
		secs := jx.VarDCTSections(hd, f, v)
		short("b-vgroups2", hd, f, secs, len(secs)-2, len(secs), true)

		hd, f, v = newVD(2056, 8)
		vdTile(hd, f, v)
		vdFill(hd, f, v, 9, 1)
		short("b-vlf2", hd, f, jx.VarDCTSections(hd, f, v), 1, 3, true)

		f = lossless()
		f.GroupShift = 0
		hd = grayHdr(150, 140, 8)
		secs = jx.ModularSections(hd, f, simpleMod(chN(1, 150, 140, 21, 200)))
		short("b-mgroups", hd, f, secs, len(secs)-4, len(secs), false)
	}
	// damaged files: each stops at a different stage with buffers in use
	get := func(n string) CFile {
		for _, f := range out {
			if f.Name == n {
				return f
			}
		}
		panic(n)
	}
	bad := func(name, of string, edit func(b []byte) []byte) {
		g := get(of)
		out = append(out, CFile{Name: name, B: edit(append([]byte{}, g.B...)), VD: g.VD, Bad: true})
	}
	bad("b-garbage", "m-gray", func(b []byte) []byte { return []byte("not a jxl file, just text text text") })
	bad("b-head", "m-squeeze", func(b []byte) []byte { return b[:9] })
	bad("b-cut", "m-groups", func(b []byte) []byte { return b[:len(b)*2/3] })
	bad("b-lfcut", "m-lfgroups", func(b []byte) []byte { return b[:len(b)*2/3] })
	bad("b-vcut", "v-32", func(b []byte) []byte { return b[:len(b)*3/4] })
	bad("b-vgroups", "v-groups", func(b []byte) []byte { b[len(b)-40] ^= 0x55; b[len(b)-20] ^= 0xff; return b })
	bad("b-v420", "v-420", func(b []byte) []byte { return b[:len(b)-12] })
	bad("b-vflip", "v-8", func(b []byte) []byte { b[len(b)-9] ^= 0x55; return b })
	bad("b-vfilter", "v-filter", func(b []byte) []byte { b[len(b)*2/3] ^= 0x18; return b })
	return
}
