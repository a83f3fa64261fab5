package checks

import (
	"verif/jx"
	"verif/mc"
)

// gmod is a modular payload whose global stream may carry transforms.
func sqMod(chs []*jx.Ch, rct bool, sq bool) *jx.Mod {
	coded := cloneChs(chs)
	m := simpleMod(coded)
	if rct && len(chs) >= 3 {
		jx.ForwardRCT(coded, 0, 6)
		m.Trs = append(m.Trs, jx.Tr{Kind: 0, Begin: 0, RCT: 6})
	}
	if sq {
		act := jx.DefaultSqueeze(coded, 0)
		m.Chans, m.NMeta = jx.ForwardSqueeze(coded, 0, act)
		m.Trs = append(m.Trs, jx.Tr{Kind: 2})
	}
	return m
}

func shiftLossless(shift int) *jx.FrameHdr {
	return &jx.FrameHdr{Modular: true, IsLast: true, GroupShift: shift}
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C11", Level: "model_checking", HangS: 120,
			Technique: "exhaustive enumeration of bounded frame geometries (sizes around every group and LF-group boundary x group size x channels x global and local transforms x worker counts) with a reference tiling model, replayed on the real decoder",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "all size pairs from 14 widths/heights around multiples of 128 (1..513) x {1,3,4} channels x 4 transform sets x {1,8} workers; group sizes 128..1024 around their boundaries; LF-group boundaries 1023..2049 in both axes; all 4^3 group-local coding modes; distance multiplier cases"
				}
				return "all size pairs from 9 widths/heights around multiples of 128 (1..385) x {1,3,4} channels x 4 transform sets; group sizes 128..1024 around their boundaries; LF-group boundaries 1023..2049 in both axes; all 4^3 group-local coding modes; distance multiplier cases"
			},
			Rule:   "every sample of every channel equals the encoded image, whatever section it is coded in",
			Assume: []string{"group, LF-group and section layout follow ISO 18181-1 Annex F and libjxl's group rectangles"},
			Spaces: []mc.Space{
				{Name: "sizes", Quick: true, Body: func(x *mc.X) {
					sz := []int{1, 7, 127, 128, 129, 255, 257, 300, 385}
					if x.Thorough() {
						sz = append(sz, 130, 256, 384, 513, 136)
					}
					w, h := x.Of("w", sz...), x.Of("h", sz...)
					if max(w, h) <= 128 {
						x.Prune()
					}
					tr := x.Choose("transforms", 4)
					n := x.Of("channels", 1, 3, 4)
					if n == 1 && tr&1 != 0 {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						hd := grayHdr(w, h, 8)
						if n >= 3 {
							hd = extraHdr(w, h, 8, n-3)
						}
						chs := randChs(n, w, h, w+h+tr, 255)
						for _, p := range parSet(x) {
							modRun(t, hd, shiftLossless(0), sqMod(chs, tr&1 != 0, tr&2 != 0), chs, jx.TOC{}, p)
						}
					})
				}},
				{Name: "group-size", Quick: true, Body: func(x *mc.X) {
					gs := x.Choose("shift", 4)
					d := 128 << uint(gs)
					w := x.Of("w", 1, d-1, d, d+1, d+9)
					h := x.Of("h", 1, d, d+1)
					sq := x.Choose("squeeze", 2) == 1
					if gs == 3 && w > 1 && h > 1 && !x.Thorough() {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						chs := randChs(1, w, h, w+h, 255)
						modRun(t, grayHdr(w, h, 8), shiftLossless(gs), sqMod(chs, false, sq), chs, jx.TOC{}, 8)
					})
				}},
				{Name: "lf-groups", Quick: true, Body: func(x *mc.X) {
					a := x.Of("long", 1023, 1024, 1025, 1031, 1153, 2049)
					b := x.Of("short", 1, 9, 129, 200)
					if b == 200 && !x.Thorough() {
						x.Prune()
					}
					tall := x.Choose("tall", 2) == 1
					n := x.Of("channels", 1, 3)
					if n == 3 && b > 9 && !x.Thorough() {
						x.Prune()
					}
					sq := x.Choose("squeeze", 3)
					x.Do(func(t *mc.T) {
						w, h := a, b
						if tall {
							w, h = b, a
						}
						hd := grayHdr(w, h, 8)
						if n == 3 {
							hd = rgbHdr(w, h, 8)
						}
						chs := randChs(n, w, h, w+h, 255)
						m := sqMod(chs, false, sq == 1)
						if sq == 2 { // repeated squeezing along both axes, well beyond 8x
							var s []jx.Sq
							for i := 0; i < 4; i++ {
								s = append(s, jx.Sq{Horiz: true, InPlace: i&1 == 0, Begin: 0, Num: n}, jx.Sq{InPlace: i&1 == 0, Begin: 0, Num: n})
							}
							m.Chans, m.NMeta = jx.ForwardSqueeze(cloneChs(chs), 0, s)
							m.Trs = []jx.Tr{{Kind: 2, Sq: s}}
						}
						for _, p := range parSet(x) {
							modRun(t, hd, shiftLossless(0), m, chs, jx.TOC{}, p)
						}
					})
				}},
				{Name: "lf-both", Quick: false, Body: func(x *mc.X) {
					w, h := x.Of("w", 1025, 1152), x.Of("h", 1025, 1200)
					sq := x.Choose("squeeze", 2) == 1
					x.Do(func(t *mc.T) {
						chs := randChs(1, w, h, w+h, 255)
						modRun(t, grayHdr(w, h, 8), shiftLossless(0), sqMod(chs, false, sq), chs, jx.TOC{}, 8)
					})
				}},
				{Name: "one-axis-squeeze", Quick: true, Body: func(x *mc.X) {
					// squeezes along one axis only give channels with unequal shifts
					w, h := x.Of("w", 129, 257, 300), x.Of("h", 40, 129, 140)
					k := 1 + x.Choose("steps", 4)
					mask := x.Choose("axis", 1<<uint(k))
					inplace := x.Choose("in place", 2) == 1
					x.Do(func(t *mc.T) {
						chs := randChs(1, w, h, w+h, 255)
						var s []jx.Sq
						for i := 0; i < k; i++ {
							s = append(s, jx.Sq{Horiz: mask>>uint(i)&1 == 1, InPlace: inplace, Begin: 0, Num: 1})
						}
						m := simpleMod(nil)
						m.Chans, m.NMeta = jx.ForwardSqueeze(cloneChs(chs), 0, s)
						m.Trs = []jx.Tr{{Kind: 2, Sq: s}}
						modRun(t, grayHdr(w, h, 8), shiftLossless(0), m, chs, jx.TOC{}, 2)
					})
				}},
				{Name: "local", Quick: true, Body: func(x *mc.X) {
					// every assignment of coding modes to three groups
					var mode [3]int
					for i := range mode {
						mode[i] = x.Choose("mode", 5)
					}
					x.Do(func(t *mc.T) {
						w, h := 290, 60
						chs := randChs(4, w, h, mode[0]+mode[1]*5, 255)
						m := simpleMod(cloneChs(chs))
						first := -1
						m.Group = func(s *jx.Sub) {
							if first < 0 {
								first = s.Stream
							}
							localMode(s, mode[s.Stream-first])
						}
						modRun(t, extraHdr(w, h, 8, 1), shiftLossless(0), m, chs, jx.TOC{}, 3)
					})
				}},
				{Name: "distance-multiplier", Quick: true, Body: func(x *mc.X) {
					// LZ77 special distances depend on the widest channel of the section
					kind := x.Choose("kind", 3)
					w, h := x.Of("w", 129, 140, 258), x.Of("h", 20, 129)
					coder := 2 + x.Choose("coder", 2)
					x.Do(func(t *mc.T) {
						chs := randChs(3, w, h, kind, 3)
						var m *jx.Mod
						switch kind {
						case 0:
							m = simpleMod(cloneChs(chs))
						case 1:
							m = sqMod(chs, true, true)
						case 2:
							coded, _, trs, nm, ok := composeTransforms2(cloneChs(chs), []int{5})
							if !ok {
								t.Fail("encoder bug")
								return
							}
							m = simpleMod(coded)
							m.Trs, m.NMeta = trs, nm
						}
						m.Code = coderN(coder, 1)
						m.Tree = jx.Leaf(0)
						m.LZ = greedyLZ
						modRun(t, rgbHdr(w, h, 8), shiftLossless(0), m, chs, jx.TOC{}, 2)
					})
				}},
			},
		}
	})
}

func parSet(x *mc.X) []int {
	if x.Thorough() {
		return []int{1, 8}
	}
	return []int{4}
}

// localMode changes how a group's sub-stream is coded.
func localMode(s *jx.Sub, mode int) {
	switch mode {
	case 1: // own tree
		s.Local, s.Tree, s.Code, s.TCode = true, jx.Split(9, 0, jx.Leaf(1), jx.Leaf(12)), jx.Code{LogAlpha: 8}, jx.Code{Prefix: true}
	case 2: // local colour transform
		s.Trs = []jx.Tr{{Kind: 0, Begin: 0, RCT: 10}}
		jx.ForwardRCT(s.Chans, 0, 10)
	case 3: // local squeeze
		act := jx.DefaultSqueeze(s.Chans, 0)
		s.Chans, s.NMeta = jx.ForwardSqueeze(s.Chans, 0, act)
		s.Trs = []jx.Tr{{Kind: 2}}
	case 4: // local palette of the first channel
		coded, _, trs, nm, ok := composeTransforms2(s.Chans, []int{4})
		if ok {
			s.Chans, s.Trs, s.NMeta = coded, trs, nm
		}
		s.WP = jx.WP{P1: 3, P2: 5, A: 1, B: 2, C: 3, D: 4, E: 5, W: [4]int{1, 2, 3, 4}}
	}
}
