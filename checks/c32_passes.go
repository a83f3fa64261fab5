package checks

import (
	"verif/jx"
	"verif/mc"
)

// choosePasses enumerates the progressive pass structure of a frame.
func choosePasses(x *mc.X, maxN int) *jx.Passes {
	n := 2 + x.Choose("extra passes", maxN-1)
	p := &jx.Passes{N: n}
	nds := x.Choose("downsamples", min(n, 4))
	ds := []int{8, 4, 2, 1}
	di, li := 0, 0
	for i := 0; i < nds; i++ {
		k := di + x.Choose("downsample", len(ds)-di)
		if li >= n {
			x.Prune()
		}
		l := li + x.Choose("last pass", n-li)
		p.DS, p.Last = append(p.DS, ds[k]), append(p.Last, l)
		di, li = k+1, l+1
		if di >= len(ds) && i+1 < nds {
			x.Prune()
		}
	}
	for i := 0; i < n-1; i++ {
		p.Shift = append(p.Shift, x.Dev("shift", 4))
	}
	return p
}

// streamTree makes every modular stream up to the given one use a leaf of its own.
func streamTree(m *jx.Mod, kind, last int) {
	if kind == 0 {
		return
	}
	tree := jx.Leaf(5)
	for i := last; i >= 0; i-- {
		tree = jx.Split(1, int32(i), tree, jx.LeafX([]int{1, 2, 4, 0}[i%4], int32(i%5), 0, 0))
	}
	m.Tree = tree
	m.Code = coderN(2, tree.Leaves())
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C32", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of bounded progressive pass structures (pass counts x downsampling x last-pass assignments) over squeezed modular frames and the coefficients and extra channels of VarDCT frames, replayed on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all pass structures with 2..5 passes and up to 3 downsampling entries x 5 squeezed image shapes x {one leaf, a leaf per stream} x {1,4} workers; single structures up to 11 passes; VarDCT frames with 2..3 (thorough 4) passes x {no, plain, squeezed} extra channel"
				}
				return "all pass structures with 2..4 passes and up to 3 downsampling entries x 4 squeezed image shapes x {one leaf, a leaf per stream}; single structures up to 11 passes; VarDCT frames with 2..3 (thorough 4) passes x {no, plain, squeezed} extra channel"
			},
			Rule:   "decoded samples equal the encoded image (VarDCT: that of the summed coefficients) whatever the number of passes the channels are spread over",
			Assume: []string{"the channels of a pass are selected by the downsampling bracket of ISO 18181-1 C.4.3"},
			Spaces: []mc.Space{
				{Name: "structures", Quick: true, Body: func(x *mc.X) {
					sh := x.Choose("shape", x.Pick(4, 5))
					tree := x.Choose("tree", 2)
					x.Bound = 1
					p := choosePasses(x, x.Pick(4, 5))
					x.Do(func(t *mc.T) {
						w, h, n := 20, 17, 3
						switch sh {
						case 1:
							w, h, n = 131, 33, 1
						case 2:
							w, h, n = 40, 9, 4
						case 3: // channels of every shift are larger than a group
							w, h, n = 1060, 17, 1
						case 4:
							w, h, n = 260, 133, 3
						}
						hd := grayHdr(w, h, 8)
						if n >= 3 {
							hd = extraHdr(w, h, 8, n-3)
						}
						chs := randChs(n, w, h, sh, 255)
						var s []jx.Sq
						for i := 0; i < 3; i++ {
							s = append(s, jx.Sq{Horiz: true, InPlace: true, Begin: 0, Num: n}, jx.Sq{InPlace: true, Begin: 0, Num: n})
						}
						m := simpleMod(nil)
						m.Chans, m.NMeta = jx.ForwardSqueeze(cloneChs(chs), 0, s)
						m.Trs = []jx.Tr{{Kind: 2, Sq: s}}
						streamTree(m, tree, 21+(w+127)/128*((h+127)/128)*p.N)
						f := shiftLossless(0)
						f.Passes = p
						for _, par := range parSet(x) {
							modRun(t, hd, f, m, chs, jx.TOC{}, par)
						}
					})
				}},
				{Name: "many-passes", Quick: true, Body: func(x *mc.X) {
					n := 2 + x.Choose("passes", 10)
					l := x.Choose("last", min(n, 8))
					tree := x.Choose("tree", 2)
					x.Do(func(t *mc.T) {
						w, h := 140, 20
						chs := randChs(1, w, h, n, 255)
						f := shiftLossless(0)
						f.Passes = &jx.Passes{N: n, Shift: make([]int, n-1), DS: []int{4}, Last: []int{l}}
						m := sqMod(chs, false, true)
						if tree == 1 {
							m.Group = nil
							streamTree(m, 1, 21+2*n)
						}
						modRun(t, grayHdr(w, h, 8), f, m, chs, jx.TOC{}, 2)
					})
				}},
				{Name: "plain", Quick: true, Body: func(x *mc.X) {
					// without squeeze everything is in the last bracket (or in the global section)
					p := choosePasses(x, 3)
					w := x.Of("w", 5, 140)
					x.Do(func(t *mc.T) {
						chs := randChs(3, w, 7, w, 255)
						f := shiftLossless(0)
						f.Passes = p
						modRun(t, rgbHdr(w, 7, 8), f, simpleMod(chs), chs, jx.TOC{}, 2)
					})
				}},
				{Name: "vardct", Quick: true, Body: func(x *mc.X) {
					// coefficients and the channels of extra channels spread over passes
					w := x.Of("w", 40, 264)
					kind := x.Choose("extra channels", 3)
					x.Bound = 1
					if w == 264 && !x.Thorough() {
						x.Bound = 0
						if kind < 2 {
							x.Prune()
						}
					}
					p := choosePasses(x, x.Pick(3, 4))
					x.Do(func(t *mc.T) {
						hd, f, v := newVD(w, 40)
						f.Passes = p
						var exp []F2
						if kind > 0 {
							hd.EC = []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 8}}}
							ch := fill(jx.NewCh(w, 40), 2, p.N, 255)
							exp = []F2{norm(ch, 8)}
							v.Mod.Chans = []*jx.Ch{ch}
							if kind == 2 {
								sq := []jx.Sq{{Horiz: true, InPlace: true, Num: 1}, {InPlace: true, Num: 1}, {Horiz: true, InPlace: true, Num: 1}, {InPlace: true, Num: 1}}
								v.Mod.Chans, v.Mod.NMeta = jx.ForwardSqueeze(cloneChs(v.Mod.Chans), 0, sq)
								v.Mod.Trs = []jx.Tr{{Kind: 2, Sq: sq}}
							}
							f.EcUp, f.EcBlend = make([]int, 1), make([]jx.Blend, 1)
							v.Mod.Tree = jx.Leaf(5)
						}
						mixBlocks(hd, f, v, p.N)
						vdFill(hd, f, v, 4+p.N, 3)
						for i := 0; i < p.N; i++ {
							v.Pass = append(v.Pass, jx.HFPassHdr{Code: hfCode(i%2 == 0, 495*15, 30+i)})
						}
						want := append(vdWant(hd, f, v), exp...)
						nearScaled(t, vdEncode(hd, f, v), 2, want, vdTolL)
					})
				}},
			},
		}
	})
}
