package checks

import (
	"verif/jx"
	"verif/mc"
)

// palette builds the coded channels for a palette transform of numC channels
// at begin: returns coded channels (meta first) and the decoded channels.
func palette(chs []*jx.Ch, begin int, tr jx.Tr, idx *jx.Ch, pal *jx.Ch, depth int, wp jx.WP) (coded, want []*jx.Ch) {
	dec := jx.InversePalette(pal, idx, tr, depth, wp)
	pal.HS, pal.VS = -1, -1
	coded = append(coded, pal)
	coded = append(coded, chs[:begin]...)
	coded = append(coded, idx)
	coded = append(coded, chs[begin+tr.NumC:]...)
	want = append(want, chs[:begin]...)
	want = append(want, dec...)
	want = append(want, chs[begin+tr.NumC:]...)
	return
}

func extraHdr(w, h, bits, nec int) *jx.Hdr {
	hd := rgbHdr(w, h, bits)
	for i := 0; i < nec; i++ {
		hd.EC = append(hd.EC, jx.EC{Type: []int{0, 1, 3}[i%3], BD: jx.BitDepth{Bits: bits}})
	}
	return hd
}

func randChs(n, w, h, seed int, max int32) []*jx.Ch {
	var c []*jx.Ch
	for i := 0; i < n; i++ {
		c = append(c, fill(jx.NewCh(w, h), 2+3*((i+seed)%2), seed*10+i, max))
	}
	return c
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C10", Level: "model_checking",
			Technique: "exhaustive enumeration of bounded modular transform lists (RCT, palette, squeeze and compositions) with forward transforms by a reference encoder, replayed on the real decoder",
			Bounds: func(tier string) string {
				return "all 42 reversible colour transforms x 3 start channels x extremal pixel triples x depths of 8 to 30 bits (squeezes to 31); palettes: channels {1,3,4} x colours {0,1,3,9} x deltas {0,1,3} x 14 predictors x 5 index kinds (explicit, implicit small/large cube, delta table) x depths; all implicit squeezes of sizes 1..20 x 1..20 x {1,3,4} channels; explicit squeeze lists of up to 3 steps; all ordered pairs of transforms; all pairs of 7 transforms of palettes over 4 palette layouts; values at the ends of every field of a transform (first channel to 1100, palettes of 1025 channels, 70911 colours or 2000 deltas, 273 transforms, 296 squeeze steps)"
			},
			Rule:   "decoded samples equal the image before the forward transforms",
			Assume: []string{"forward transforms follow ISO 18181-1 Annex H.6"},
			Spaces: []mc.Space{
				{Name: "rct", Quick: true, Body: func(x *mc.X) {
					typ := x.Choose("type", 42)
					begin := x.Choose("begin", 3)
					bits := x.Of("bits", 8, 16, 24, 29, 30)
					kind := x.Choose("content", 3)
					x.Do(func(t *mc.T) {
						max := int32(1)<<uint(bits) - 1
						w, h := 8, 8
						if kind == 0 { // all triples over {0,1,max-1,max}
							vals := []int32{0, 1, max - 1, max}
							chs := []*jx.Ch{jx.NewCh(w, h), jx.NewCh(w, h), jx.NewCh(w, h), jx.NewCh(w, h), jx.NewCh(w, h)}
							for i := 0; i < 64; i++ {
								for k := range chs {
									chs[k].D[i/8][i%8] = vals[i>>uint(2*(k%3))&3]
								}
							}
							rctRun(t, chs, begin, typ, bits)
							return
						}
						rctRun(t, randChs(5, w, h, kind, max), begin, typ, bits)
					})
				}},
				{Name: "palette", Quick: true, Body: func(x *mc.X) {
					numC := x.Of("channels", 1, 3, 4)
					begin := x.Choose("begin", 2)
					nb := x.Of("colours", 3, 0, 1, 9)
					nd := x.Of("deltas", 0, 1, 3)
					kind := x.Choose("indices", 4)
					if nd > nb {
						x.Prune()
					}
					bits := x.Of("bits", 8, 2, 12)
					x.Do(func(t *mc.T) {
						w, h := 7, 6
						preds := 14
						if nd == 0 && kind != 3 {
							preds = 1
						}
						for p := 0; p < preds; p++ {
							chs := randChs(5, w, h, p, 1<<uint(bits)-1)
							pal := fill(jx.NewCh(nb, numC), 2, nb+p, 1<<uint(bits)-1)
							for c := range pal.D {
								for i := 0; i < nd && i < nb; i++ {
									pal.D[c][i] = pal.D[c][i]%9 - 4
								}
							}
							idx := jx.NewCh(w, h)
							r := rng(17*p + kind)
							for y := range idx.D {
								for i := range idx.D[y] {
									v := int32(0)
									k := kind
									if nb == 0 && k == 0 {
										k = 1
									}
									if numC > 3 && k != 3 { // implicit colours define three channels
										k = 0
									}
									if nb == 0 && k == 0 {
										k = 3
									}
									switch k {
									case 0:
										v = int32(r.next()) % int32(nb)
									case 1:
										v = int32(nb) + int32(r.next())%64
									case 2:
										v = int32(nb) + 64 + int32(r.next())%125
									case 3:
										v = -1 - int32(r.next())%150
									}
									idx.D[y][i] = v
								}
							}
							tr := jx.Tr{Kind: 1, Begin: begin, NumC: numC, NbCol: nb, NbDelta: nd, DPred: p}
							wp := wpVariants[p%2*4]
							coded, want := palette(chs, begin, tr, idx, pal, bits, wp)
							m := simpleMod(coded)
							m.NMeta, m.Trs, m.WP = 1, []jx.Tr{tr}, wp
							modRun(t, extraHdr(w, h, bits, 2), lossless(), m, want, jx.TOC{}, 1)
							if t.Failed() {
								return
							}
						}
					})
				}},
				{Name: "implicit-colours", Quick: true, Body: func(x *mc.X) {
					bits := x.Of("bits", 1, 2, 3, 4, 8, 10, 16)
					lo := x.Choose("block", 11)
					x.Do(func(t *mc.T) {
						// every index from -160 to 190, in blocks
						nb := 2
						idx := jx.NewCh(32, 1)
						for i := range idx.D[0] {
							idx.D[0][i] = int32(-160 + lo*32 + i)
						}
						pal := jx.NewCh(nb, 3)
						tr := jx.Tr{Kind: 1, NumC: 3, NbCol: nb}
						coded, want := palette(randChs(3, 32, 1, 0, 1), 0, tr, idx, pal, bits, jx.DefaultWP())
						m := simpleMod(coded)
						m.NMeta, m.Trs = 1, []jx.Tr{tr}
						modRun(t, rgbHdr(32, 1, bits), lossless(), m, want, jx.TOC{}, 1)
					})
				}},
				{Name: "squeeze-default", Quick: true, Body: func(x *mc.X) {
					w := 1 + x.Choose("w", x.Pick(20, 40))
					h := 1 + x.Choose("h", x.Pick(20, 40))
					x.Do(func(t *mc.T) {
						for _, nec := range []int{-1, 0, 1} {
							hd := extraHdr(w, h, 8, max(nec, 0))
							n := 3 + nec
							if nec < 0 {
								hd, n = grayHdr(w, h, 8), 1
							}
							chs := randChs(n, w, h, w+h, 255)
							sqRun(t, hd, chs, 0, nil)
						}
					})
				}},
				{Name: "squeeze-explicit", Quick: true, Body: func(x *mc.X) {
					w := x.Of("w", 1, 2, 5, 8)
					h := x.Of("h", 1, 2, 5, 8)
					k := 1 + x.Choose("steps", x.Pick(2, 3))
					var sq []jx.Sq
					nch := 4
					for i := 0; i < k; i++ {
						s := jx.Sq{Horiz: x.Choose("horizontal", 2) == 1, InPlace: x.Choose("in place", 2) == 1}
						b := x.Choose("range", 4)
						s.Begin, s.Num = []int{0, 1, 0, 2}[b], []int{1, 2, 4, 2}[b]
						if s.Begin+s.Num > nch {
							x.Prune()
						}
						nch += s.Num
						sq = append(sq, s)
					}
					x.Do(func(t *mc.T) {
						for seed := 0; seed < 2; seed++ {
							sqRun(t, extraHdr(w, h, 8, 1), randChs(4, w, h, seed, 255), 0, sq)
						}
					})
				}},
				{Name: "squeeze-tendency", Quick: true, Body: func(x *mc.X) {
					// every 6-sample line over four values, horizontally and vertically
					var px [6]int32
					for i := range px {
						px[i] = []int32{0, 3, 100, 255}[x.Choose("px", 4)]
					}
					bits := x.Of("bits", 8, 30, 31)
					for i := range px {
						px[i] = px[i]*(1<<uint(bits-8)) + px[i]&1*(1<<uint(bits-8)-1)
					}
					x.Do(func(t *mc.T) {
						a, b := jx.NewCh(6, 1), jx.NewCh(1, 6)
						for i, v := range px {
							a.D[0][i], b.D[i][0] = v, v
						}
						sqRun(t, grayHdr(6, 1, bits), []*jx.Ch{a}, 0, []jx.Sq{{Horiz: true, InPlace: true, Num: 1}, {Horiz: true, InPlace: true, Num: 1}})
						sqRun(t, grayHdr(1, 6, bits), []*jx.Ch{b}, 0, []jx.Sq{{InPlace: true, Num: 1}, {InPlace: true, Num: 1}})
					})
				}},
				{Name: "many", Quick: true, Body: func(x *mc.X) {
					// values around the ends of every field of a transform
					what := x.Choose("field", 9)
					lists := [9][]int{
						{7, 8, 71, 72, 1095, 1096, 1100},                // first channel of an RCT
						{7, 8, 71, 72, 1095, 1096, 1100},                // first channel of a palette
						{2, 5, 9, 70, 1025},                             // channels of a palette
						{7, 8, 71, 72, 1095, 1096, 1100},                // first channel of a squeeze
						{2, 3, 4, 5, 18, 19},                            // channels of a squeeze
						{255, 256, 1279, 1280, 5375, 5376, 70911, 7000}, // colours
						{1, 2, 256, 257, 1280, 1281, 2000},              // deltas
						{2, 17, 18, 19, 80, 273},                        // transforms
						{1, 8, 9, 40, 41, 60, 296},                      // squeeze steps
					}
					v := lists[what][x.Choose("value", len(lists[what]))]
					x.Do(func(t *mc.T) {
						w, h, bits := 4, 3, 8
						switch what {
						case 0:
							chs := randChs(v+4, w, h, v, 255)
							coded := cloneChs(chs)
							jx.ForwardRCT(coded, v, 9)
							m := simpleMod(coded)
							m.Trs = []jx.Tr{{Kind: 0, Begin: v, RCT: 9}}
							modRun(t, extraHdr(w, h, bits, v+1), lossless(), m, chs, jx.TOC{}, 1)
						case 1, 2, 5, 6:
							begin, nc, nb, nd := 1, 1, 20, 3
							switch what {
							case 1:
								begin = v
							case 2:
								nc = v
							case 5:
								nb = v
							case 6:
								nb, nd = v+9, v
							}
							chs := randChs(begin+nc+1, w, h, v, 255)
							pal := fill(jx.NewCh(nb, nc), 2, v, 255)
							for c := range pal.D {
								for i := 0; i < nd; i++ {
									pal.D[c][i] = pal.D[c][i]%9 - 4
								}
							}
							idx := jx.NewCh(w, h)
							at := []int{0, 1, nd - 1, nd, nb - 1, nb - 2, nb / 2, nd + 1, nb / 3, nd - 1, nb - 1, 2}
							for i, k := range at {
								idx.D[i/w][i%w] = int32(k)
							}
							tr := jx.Tr{Kind: 1, Begin: begin, NumC: nc, NbCol: nb, NbDelta: nd, DPred: 5}
							coded, want := palette(chs, begin, tr, idx, pal, bits, jx.DefaultWP())
							m := simpleMod(coded)
							m.NMeta, m.Trs = 1, []jx.Tr{tr}
							modRun(t, extraHdr(w, h, bits, len(chs)-3), lossless(), m, want, jx.TOC{}, 1)
						case 3, 4:
							sq := jx.Sq{Horiz: true, InPlace: v%2 == 0, Begin: v, Num: 2}
							if what == 4 {
								sq.Begin, sq.Num = 1, v
							}
							chs := randChs(sq.Begin+sq.Num+1, w, h, v, 255)
							sqRun(t, extraHdr(w, h, bits, len(chs)-3), chs, 0, []jx.Sq{sq})
						case 7:
							chs := randChs(4, w, h, v, 255)
							coded := cloneChs(chs)
							m := simpleMod(coded)
							for i := 0; i < v; i++ {
								tr := jx.Tr{Kind: 0, Begin: i % 2, RCT: 7 * (1 + i%5)} // permutations alone keep the range
								jx.ForwardRCT(coded, tr.Begin, tr.RCT)
								m.Trs = append(m.Trs, tr)
							}
							modRun(t, extraHdr(w, h, bits, 1), lossless(), m, chs, jx.TOC{}, 1)
						case 8:
							var sq []jx.Sq
							for i := 0; i < v; i++ {
								sq = append(sq, jx.Sq{Horiz: i%3 == 0, InPlace: i%2 == 0, Begin: i % 3, Num: 1})
							}
							sqRun(t, extraHdr(w, h, bits, 1), randChs(4, w, h, v, 255), 0, sq)
						}
					})
				}},
				{Name: "compositions", Quick: true, Body: func(x *mc.X) {
					n := 2 + x.Choose("length", 2)
					var kinds []int
					for i := 0; i < n; i++ {
						kinds = append(kinds, x.Choose("transform", 6))
					}
					sz := [][2]int{{6, 5}, {17, 12}}[x.Choose("size", 2)]
					x.Do(func(t *mc.T) {
						w, h := sz[0], sz[1]
						bits := 8
						// the last-inverted (first) palette must come from index content, so
						// build from the inside out: start with random coded channels of the
						// right layout and invert with the reference model
						chs, want, trs, nmeta, ok := composeTransforms(w, h, bits, kinds)
						if !ok {
							t.Outcome("not composable")
							return
						}
						m := simpleMod(chs)
						m.Trs, m.NMeta = trs, nmeta
						modRun(t, extraHdr(w, h, bits, 1), lossless(), m, want, jx.TOC{}, 1)
					})
				}},
				{Name: "meta-channels", Quick: true, Body: func(x *mc.X) {
					// transforms of the palettes themselves
					first := x.Choose("palettes", 4)
					k := 1 + x.Choose("steps", 2)
					var ops []int
					for i := 0; i < k; i++ {
						ops = append(ops, x.Choose("transform", 7))
					}
					seed := x.Choose("content", 2)
					x.Do(func(t *mc.T) {
						w, h := 6, 5
						want := randChs(4, w, h, seed, 3)
						for i := range want {
							for y := range want[i].D {
								for xx := range want[i].D[y] {
									want[i].D[y][xx] = want[i].D[y][xx]*60 + int32(i)
								}
							}
						}
						chs, nmeta := cloneChs(want), 0
						var trs []jx.Tr
						pal := func(begin, nc int) {
							var tr jx.Tr
							chs, tr = paletteAt(chs, begin, nc)
							trs = append(trs, tr)
							if begin < nmeta {
								nmeta += 2 - nc
							} else {
								nmeta++
							}
						}
						switch first {
						case 0:
							pal(0, 3)
						case 1:
							pal(2, 1)
						case 2:
							pal(0, 1)
							pal(2, 1)
							pal(4, 1)
						case 3:
							pal(0, 3)
							pal(2, 1)
						}
						for _, op := range ops {
							switch op {
							case 0, 1, 2: // squeeze of the first meta channel, of all of them
								sq := []jx.Sq{{Horiz: op != 1, InPlace: true, Num: 1}}
								if op == 2 {
									sq[0].Num = nmeta
								}
								chs, nmeta = jx.ForwardSqueeze(chs, nmeta, sq)
								trs = append(trs, jx.Tr{Kind: 2, Sq: sq})
							case 3:
								if chs[0].W == 0 || chs[0].H == 0 {
									t.Outcome("not composable")
									return
								}
								pal(0, 1)
							case 4: // reversible colour transform of three palettes
								if nmeta < 3 || chs[0].W != chs[1].W || chs[0].W != chs[2].W || chs[0].H != chs[1].H || chs[0].H != chs[2].H {
									t.Outcome("not composable")
									return
								}
								jx.ForwardRCT(chs, 0, 6+7*seed)
								trs = append(trs, jx.Tr{Kind: 0, RCT: 6 + 7*seed})
							case 5: // squeeze of all image channels, in place or not
								sq := []jx.Sq{{Horiz: true, InPlace: seed == 0, Begin: nmeta, Num: len(chs) - nmeta}}
								chs, nmeta = jx.ForwardSqueeze(chs, nmeta, sq)
								trs = append(trs, jx.Tr{Kind: 2, Sq: sq})
							case 6:
								trs = append(trs, jx.Tr{Kind: 2})
								chs, nmeta = jx.ForwardSqueeze(chs, nmeta, jx.DefaultSqueeze(chs, nmeta))
							}
						}
						m := simpleMod(chs)
						m.Trs, m.NMeta = trs, nmeta
						modRun(t, extraHdr(w, h, 8, 1), lossless(), m, want, jx.TOC{}, 1)
					})
				}},
			},
		}
	})
}

func rctRun(t *mc.T, chs []*jx.Ch, begin, typ, bits int) {
	coded := cloneChs(chs)
	jx.ForwardRCT(coded, begin, typ)
	m := simpleMod(coded)
	m.Trs = []jx.Tr{{Kind: 0, Begin: begin, RCT: typ}}
	modRun(t, extraHdr(chs[0].W, chs[0].H, bits, 2), lossless(), m, chs, jx.TOC{}, 1)
}

func sqRun(t *mc.T, h *jx.Hdr, chs []*jx.Ch, nmeta int, sq []jx.Sq) {
	actual := sq
	if actual == nil {
		actual = jx.DefaultSqueeze(chs, nmeta)
	}
	coded, nm := jx.ForwardSqueeze(cloneChs(chs), nmeta, actual)
	m := simpleMod(coded)
	m.NMeta = nm
	m.Trs = []jx.Tr{{Kind: 2, Sq: sq}}
	modRun(t, h, lossless(), m, chs, jx.TOC{}, 1)
}

// composeTransforms applies the forward transforms in order. Palettes collapse
// channels, so the image content is chosen such that each palette applied to
// the image is exact: palettes are only exact when they come first, so later
// palettes work on single channels whose values are turned into indices.
func composeTransforms(w, h, bits int, kinds []int) (chs, want []*jx.Ch, trs []jx.Tr, nmeta int, ok bool) {
	n := 4
	chs = randChs(n, w, h, len(kinds), 3) // few values: palettable
	for i := range chs {
		for y := range chs[i].D {
			for k := range chs[i].D[y] {
				chs[i].D[y][k] *= 60
			}
		}
	}
	return composeTransforms2(chs, kinds)
}

func composeTransforms2(chs []*jx.Ch, kinds []int) (_, want []*jx.Ch, trs []jx.Tr, nmeta int, ok bool) {
	want = cloneChs(chs)
	for _, k := range kinds {
		switch k {
		case 0, 1: // RCT on the first three image channels
			if len(chs) < nmeta+3 {
				return nil, nil, nil, 0, false
			}
			a, b, c := chs[nmeta], chs[nmeta+1], chs[nmeta+2]
			if a.W != b.W || a.W != c.W || a.H != b.H || a.H != c.H || a.HS != c.HS || a.VS != c.VS {
				return nil, nil, nil, 0, false
			}
			rct := []int{6, 23}[k]
			jx.ForwardRCT(chs, nmeta, rct)
			trs = append(trs, jx.Tr{Kind: 0, Begin: nmeta, RCT: rct})
		case 2: // default squeeze
			sq := jx.DefaultSqueeze(chs, nmeta)
			chs, nmeta = jx.ForwardSqueeze(chs, nmeta, sq)
			trs = append(trs, jx.Tr{Kind: 2})
		case 3: // explicit squeeze of the last channel
			sq := []jx.Sq{{Horiz: true, InPlace: true, Begin: len(chs) - 1, Num: 1}}
			chs, nmeta = jx.ForwardSqueeze(chs, nmeta, sq)
			trs = append(trs, jx.Tr{Kind: 2, Sq: sq})
		case 4, 5: // palette of one / three channels
			nc := []int{1, 3}[k-4]
			if len(chs) < nmeta+nc {
				return nil, nil, nil, 0, false
			}
			for i := 1; i < nc; i++ {
				if chs[nmeta+i].W != chs[nmeta].W || chs[nmeta+i].H != chs[nmeta].H || chs[nmeta+i].HS != chs[nmeta].HS || chs[nmeta+i].VS != chs[nmeta].VS {
					return nil, nil, nil, 0, false
				}
			}
			if chs[nmeta].W == 0 || chs[nmeta].H == 0 {
				return nil, nil, nil, 0, false
			}
			var tr jx.Tr
			chs, tr = paletteAt(chs, nmeta, nc)
			trs = append(trs, tr)
			nmeta++
		}
	}
	return chs, want, trs, nmeta, true
}

// paletteAt replaces nc channels from begin on by a palette and indices.
func paletteAt(chs []*jx.Ch, begin, nc int) ([]*jx.Ch, jx.Tr) {
	seen := map[[3]int32]int32{}
	var cols [][3]int32
	idx := chs[begin].Clone()
	for y := range idx.D {
		for xx := range idx.D[y] {
			var v [3]int32
			for i := 0; i < nc; i++ {
				v[i] = chs[begin+i].D[y][xx]
			}
			j, f := seen[v]
			if !f {
				j = int32(len(cols))
				seen[v] = j
				cols = append(cols, v)
			}
			idx.D[y][xx] = j
		}
	}
	pal := jx.NewCh(len(cols), nc)
	pal.HS, pal.VS = -1, -1
	for j, v := range cols {
		for i := 0; i < nc; i++ {
			pal.D[i][j] = v[i]
		}
	}
	out := []*jx.Ch{pal}
	out = append(out, chs[:begin]...)
	out = append(out, idx)
	out = append(out, chs[begin+nc:]...)
	return out, jx.Tr{Kind: 1, Begin: begin, NumC: nc, NbCol: len(cols)}
}
