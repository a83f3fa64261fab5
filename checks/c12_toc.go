package checks

import (
	"verif/jx"
	"verif/mc"
)

// permute returns the i-th pick of the remaining elements.
func choosePerm(x *mc.X, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var p []int
	for len(rest) > 0 {
		k := x.Choose("next", len(rest))
		p = append(p, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return p
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C12", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of all section permutations and size encodings of bounded tables of contents, replayed on the real decoder",
			Bounds: func(tier string) string {
				n := "720"
				if tier == "thorough" {
					n = "5040"
				}
				return "all 120 permutations of 5-section frames x 4 entropy codings; all 720 permutations of 6-section frames (and " + n + " in all for up to 7 sections in the thorough tier); all rotations, reversals, swaps of 12..40 section frames; explicitly coded trailing zeros of the Lehmer code; six permutation shapes of 140..520 section frames; every size selector; permuted frame followed by another frame"
			},
			Rule:   "decoded samples do not depend on the storage order of the sections or the encoding of their sizes",
			Assume: []string{"permutation semantics as in ISO 18181-1 C.3: the i-th logical section is stored at position permutation[i]"},
			Spaces: []mc.Space{
				{Name: "all-5", Quick: true, Body: func(x *mc.X) {
					c := x.Choose("coder", 4)
					p := choosePerm(x, 5)
					x.Do(func(t *mc.T) { tocRun(t, 2, p, c, 0, 1+c%3) })
				}},
				{Name: "all-6", Quick: true, Body: func(x *mc.X) {
					p := choosePerm(x, 6)
					x.Do(func(t *mc.T) { tocRun(t, 3, p, 0, 0, 1) })
				}},
				{Name: "all-7", Body: func(x *mc.X) {
					p := choosePerm(x, 7)
					x.Do(func(t *mc.T) { tocRun(t, 4, p, 1, 0, 1) })
				}},
				{Name: "many-sections", Quick: true, Body: func(x *mc.X) {
					g := x.Of("groups", 9, 17, 37)
					n := g + 2 + (g+7)/8
					kind := x.Choose("kind", 3)
					k := x.Choose("parameter", n)
					c := x.Choose("coder", 2)
					var p []int
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							p = append(p, (i+k)%n)
						case 1:
							p = append(p, (n-1-i+k)%n)
						case 2:
							p = append(p, i)
						}
					}
					if kind == 2 {
						p[0], p[k] = p[k], p[0]
					}
					x.Do(func(t *mc.T) { tocRun(t, g, p, c, 0, 1) })
				}},
				{Name: "explicit-ends", Quick: true, Body: func(x *mc.X) {
					// trailing zero entries of the Lehmer code may be coded explicitly
					end := 1 + x.Choose("explicit", 5)
					c := x.Choose("coder", 4)
					p := choosePerm(x, 5)
					x.Do(func(t *mc.T) { tocRunT(t, 2, jx.TOC{Perm: p, End: end}, c, 1, 4) })
				}},
				{Name: "hundreds-of-sections", Quick: true, Body: func(x *mc.X) {
					g := x.Of("groups", 125, 126, 220, 227, 228, 300, 460)
					k := x.Choose("kind", 6)
					x.Do(func(t *mc.T) {
						n := g + 2 + (g+7)/8
						var p []int
						for i := 0; i < n; i++ {
							p = append(p, i)
						}
						switch k {
						case 0:
							p[n-1], p[n-2], p[n-4] = p[n-2], p[n-4], p[n-1]
						case 1:
							p[0], p[n-1] = p[n-1], p[0]
						case 2:
							for i := range p {
								p[i] = n - 1 - i
							}
						case 3:
							for i := range p {
								p[i] = (i + n/2) % n
							}
						case 4:
							for i := 0; i+1 < n; i += 2 {
								p[i], p[i+1] = p[i+1], p[i]
							}
						case 5:
							r := rng(g)
							for i := n - 1; i > 0; i-- {
								j := int(r.next()) % (i + 1)
								p[i], p[j] = p[j], p[i]
							}
						}
						tocRunX(t, g, p, 0, 0, 2, 2)
					})
				}},
				{Name: "size-selectors", Quick: true, Body: func(x *mc.X) {
					sel := x.Choose("selector", 4)
					g := x.Of("groups", 1, 2, 5)
					big := x.Choose("sections above 1024 bytes", 2)
					perm := x.Choose("permuted", 2) == 1
					x.Do(func(t *mc.T) {
						var p []int
						n := g + 3
						if g == 1 {
							n = 1
						}
						for i := 0; i < n && perm; i++ {
							p = append(p, n-1-i)
						}
						tocRunX(t, g, p, 0, sel+1, 1, []int{4, 70}[big])
					})
				}},
				{Name: "two-frames", Quick: true, Body: func(x *mc.X) {
					p := choosePerm(x, 5)
					x.Do(func(t *mc.T) {
						w, h := 140, 3
						hd := grayHdr(w, h, 8)
						a := fill(jx.NewCh(w, h), 2, 1, 255)
						b := fill(jx.NewCh(w, h), 2, 2, 255)
						bw := &jx.BW{}
						hd.Write(bw)
						f := shiftLossless(0)
						f.IsLast = false
						jx.EncodeModular(bw, hd, f, simpleMod([]*jx.Ch{a}), jx.TOC{Perm: p})
						jx.EncodeModular(bw, hd, shiftLossless(0), simpleMod([]*jx.Ch{b}), jx.TOC{Perm: p})
						bw.Pad()
						t.Input(bw.B)
						t.Run()
						im, err := decode(bw.B, 2)
						if err != nil {
							t.Fail("decode: %v", err)
							return
						}
						if d := diffInts(im, []*jx.Ch{b}); d != "" {
							t.Fail("%s", d)
						}
						t.Outcome("second frame replaces the first")
					})
				}},
			},
		}
	})
}

func tocRun(t *mc.T, groups int, p []int, c, sel, par int) { tocRunX(t, groups, p, c, sel, par, 4) }

func tocRunX(t *mc.T, groups int, p []int, c, sel, par, h int) {
	tocRunT(t, groups, jx.TOC{Perm: p, Sel: sel}, c, par, h)
}

func tocRunT(t *mc.T, groups int, toc jx.TOC, c, par, h int) {
	w := 128*(groups-1) + 7
	ch := fill(jx.NewCh(w, h), 2, groups, 255)
	code := coderN(c, 8)
	if c >= 2 {
		code.LZ = nil
		code.Prefix = c == 2
		code.Map = []int{0, 0, 0, 0, 0, 0, 0, 0}
		code.CForm = jx.ClusterSimple
	}
	toc.Code = &code
	modRun(t, grayHdr(w, h, 8), shiftLossless(0), simpleMod([]*jx.Ch{ch}), []*jx.Ch{ch}, toc, par)
}
