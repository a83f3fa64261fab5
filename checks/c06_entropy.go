package checks

import (
	"bytes"
	"fmt"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/mc"
)

// entropyRun writes pre bits of junk, the stream and a trailer, reads it with
// the real decoder and compares each value, the final state and the position.
// want lists the values (after LZ77 expansion) with their contexts.
func entropyRun(t *mc.T, c jx.Code, nctx int, toks []jx.Tok, mult int32, pre int) {
	w := &jx.BW{}
	w.Bits(pre, 0x55)
	st := jx.Prepare(c, nctx, toks)
	st.WriteAll(w, toks)
	w.Bits(13, 0x15A7&0x1fff)
	w.Pad()
	t.Input(w.B)
	t.Run()
	vals, ctxs := expandLZ(toks, int(mult))
	err := guard(func() error {
		br := jxlio.NewBitStreamReader(bytes.NewReader(w.B))
		br.ReadBits(uint32(pre))
		es, err := entropy.NewEntropyStreamWithReaderAndNumDists(br, nctx, entropy.ReadClusterMap)
		if err != nil {
			return fmt.Errorf("header: %w", err)
		}
		for i, v := range vals {
			var g int32
			if mult == 0 && i%2 == 0 {
				g, err = es.ReadSymbol(br, ctxs[i])
			} else {
				g, err = es.ReadSymbolWithMultiplier(br, ctxs[i], mult)
			}
			if err != nil {
				return fmt.Errorf("symbol %d: %w", i, err)
			}
			if uint32(g) != v {
				return fmt.Errorf("symbol %d (context %d) = %d, want %d", i, ctxs[i], uint32(g), v)
			}
		}
		if !es.ValidateFinalState() {
			return fmt.Errorf("final state rejected")
		}
		tr, err := br.ReadBits(13)
		if err != nil || tr != 0x15A7&0x1fff {
			return fmt.Errorf("reader is not positioned right after the stream (%x, %v)", tr, err)
		}
		return nil
	})
	if err != nil {
		t.Fail("%v (code %+v, values %v)", err, c, clip(vals))
		return
	}
	t.Outcome("values agree")
}

func clip(v []uint32) []uint32 {
	if len(v) > 24 {
		return v[:24]
	}
	return v
}

var lzSpecial = [120][2]int{
	{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2}, {2, 1}, {-2, 1}, {2, 2},
	{-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3}, {3, 1}, {-3, 1}, {2, 3}, {-2, 3}, {3, 2},
	{-3, 2}, {0, 4}, {4, 0}, {1, 4}, {-1, 4}, {4, 1}, {-4, 1}, {3, 3}, {-3, 3}, {2, 4},
	{-2, 4}, {4, 2}, {-4, 2}, {0, 5}, {3, 4}, {-3, 4}, {4, 3}, {-4, 3}, {5, 0}, {1, 5},
	{-1, 5}, {5, 1}, {-5, 1}, {2, 5}, {-2, 5}, {5, 2}, {-5, 2}, {4, 4}, {-4, 4}, {3, 5},
	{-3, 5}, {5, 3}, {-5, 3}, {0, 6}, {6, 0}, {1, 6}, {-1, 6}, {6, 1}, {-6, 1}, {2, 6},
	{-2, 6}, {6, 2}, {-6, 2}, {4, 5}, {-4, 5}, {5, 4}, {-5, 4}, {3, 6}, {-3, 6}, {6, 3},
	{-6, 3}, {0, 7}, {7, 0}, {1, 7}, {-1, 7}, {5, 5}, {-5, 5}, {7, 1}, {-7, 1}, {4, 6},
	{-4, 6}, {6, 4}, {-6, 4}, {2, 7}, {-2, 7}, {7, 2}, {-7, 2}, {3, 7}, {-3, 7}, {7, 3},
	{-7, 3}, {5, 6}, {-5, 6}, {6, 5}, {-6, 5}, {8, 0}, {4, 7}, {-4, 7}, {7, 4}, {-7, 4},
	{8, 1}, {8, 2}, {6, 6}, {-6, 6}, {8, 3}, {5, 7}, {-5, 7}, {7, 5}, {-7, 5}, {8, 4}, {6, 7},
	{-6, 7}, {7, 6}, {-7, 6}, {8, 5}, {7, 7}, {-7, 7}, {8, 6}, {8, 7},
}

// lzDistance is the distance denoted by a coded distance value.
func lzDistance(v uint32, mult int) int {
	if mult == 0 {
		return int(v) + 1
	}
	if v < 120 {
		d := lzSpecial[v][0] + mult*lzSpecial[v][1]
		if d < 1 {
			d = 1
		}
		return d
	}
	return int(v) - 119
}

func expandLZ(toks []jx.Tok, mult int) (vals []uint32, ctxs []int) {
	for _, k := range toks {
		if !k.Copy {
			vals = append(vals, k.Val)
			ctxs = append(ctxs, k.Ctx)
			continue
		}
		d := lzDistance(k.Dist, mult)
		if d > 1<<20 {
			d = 1 << 20
		}
		if d > len(vals) {
			d = len(vals)
		}
		for i := uint32(0); i < k.Val; i++ {
			v := uint32(0)
			if d > 0 {
				v = vals[len(vals)-d]
			}
			vals = append(vals, v)
			ctxs = append(ctxs, k.Ctx)
		}
	}
	return
}

func tokSeq(vals []uint32, ctx func(i int) int) []jx.Tok {
	var t []jx.Tok
	for i, v := range vals {
		c := 0
		if ctx != nil {
			c = ctx(i)
		}
		t = append(t, jx.Tok{Ctx: c, Val: v})
	}
	return t
}

// kraft enumerates the complete prefix-code length multisets for n symbols.
func kraft(n, max int) [][]int {
	var out [][]int
	var rec func(left, unit int, l []int, minLen int)
	rec = func(left, space int, l []int, minLen int) {
		if left == 0 {
			if space == 0 {
				out = append(out, append([]int{}, l...))
			}
			return
		}
		for k := minLen; k <= max; k++ {
			c := 1 << uint(max-k)
			if c*1 > space {
				continue
			}
			if left*c < space { // the remaining, shorter-or-equal codes cannot fill it
				continue
			}
			rec(left-1, space-c, append(l, k), k)
		}
	}
	rec(n, 1<<uint(max), nil, 1)
	return out
}

func init() {
	register(func() *mc.Check {
		boundary := func(cap uint32) []uint32 {
			var v []uint32
			seen := map[uint32]bool{}
			for k := 0; k <= 32; k++ {
				for d := -1; d <= 1; d++ {
					x := int64(1)<<uint(k) + int64(d)
					if x >= 0 && x <= int64(cap) && !seen[uint32(x)] {
						seen[uint32(x)] = true
						v = append(v, uint32(x))
					}
				}
			}
			for _, x := range []uint32{5, 11, 100, 1000, 54321, 0xABCDEF, 0x7ABCDEF1} {
				if x <= cap && !seen[x] {
					seen[x] = true
					v = append(v, x)
				}
			}
			return v
		}
		return &mc.Check{
			ID: "C06", Level: "model_checking",
			Technique: "exhaustive enumeration of entropy-code descriptions and short symbol sequences encoded by a reference encoder, replayed on the real decoder",
			Bounds: func(tier string) string {
				return "hybrid-integer configs: all (split<=8/15, msb, lsb) x ~100 boundary values up to 2^32-1, prefix and ANS log-alphabet 5..8; all symbol sequences of length <=4 (6 thorough) over 4 values x coder x description form x 3 cluster maps; all complete prefix-code length vectors of 2..7 symbols; codes of 2..8 bits in up to 3 runs with unused symbols between, before and after, in single and chained repeat codes; all 2- and 3-symbol ANS frequency splits on a boundary grid x 4 description forms; all cluster maps of up to 5 contexts and 4 clusters in 3 forms"
			},
			Rule:   "every value read equals the encoded value, the final state validates and the reader stops exactly after the stream",
			Assume: []string{"reference encoder follows ISO 18181-1 Annex C and the brotli prefix-code description"},
			Spaces: []mc.Space{
				{Name: "hybrid", Quick: true, Body: func(x *mc.X) {
					prefix := x.Choose("prefix", 2) == 1
					la := 15
					if !prefix {
						la = x.Of("log alphabet", 5, 6, 7, 8)
					}
					split := x.Choose("split", la+1)
					msb, lsb := 0, 0
					if split < la {
						msb = x.Choose("msb", split+1)
						lsb = x.Choose("lsb", split-msb+1)
					}
					h := jx.Hyb{Split: split, Msb: msb, Lsb: lsb}
					x.Do(func(t *mc.T) {
						var vals []uint32
						for _, v := range boundary(0xffffffff) {
							tok, _, _ := h.Encode(v)
							if tok < 1<<uint(min(la, 11)) {
								vals = append(vals, v)
							}
						}
						if prefix {
							// at most 64 distinct tokens per code keeps codes <= 15 bits
							entropyRun(t, jx.Code{Prefix: true, Hyb: []jx.Hyb{h}}, 1, tokSeq(vals, nil), 0, 3)
							return
						}
						entropyRun(t, jx.Code{LogAlpha: la, Hyb: []jx.Hyb{h}}, 1, tokSeq(vals, nil), 0, 3)
					})
				}},
				{Name: "sequences", Quick: true, Body: func(x *mc.X) {
					coder := x.Choose("coder", 5) // prefix, ANS 5..8
					form := x.Choose("form", 5)
					cm := x.Choose("map", 4)
					set := [][]uint32{{0, 1, 2, 9}, {0, 3, 31, 300}}[x.Choose("alphabet", 2)]
					n := x.Choose("length", x.Pick(5, 7))
					if coder > 0 && n == 0 {
						x.Prune() // whether an empty ANS stream stores a state is not observable
					}
					var vals []uint32
					for i := 0; i < n; i++ {
						vals = append(vals, set[x.Choose("v", 4)])
					}
					x.Do(func(t *mc.T) {
						c := jx.Code{Prefix: coder == 0, LogAlpha: 4 + coder}
						f := []jx.DistForm{jx.DistAuto, jx.DistFlat, jx.DistSimple, jx.DistComplex, jx.DistRLE}[form]
						nctx := 1
						switch cm {
						case 1:
							nctx, c.Map = 2, []int{0, 1}
						case 2:
							nctx, c.Map, c.CForm = 3, []int{1, 0, 1}, jx.ClusterEntropy
						case 3:
							nctx, c.Map, c.CForm = 3, []int{2, 0, 1}, jx.ClusterEntropyMTF
						}
						c.Form = []jx.DistForm{f, jx.DistAuto, f}
						if coder == 1 {
							c.Hyb = []jx.Hyb{{Split: 2, Msb: 0, Lsb: 0}, {Split: 3, Msb: 1, Lsb: 0}, {Split: 0}}
						}
						entropyRun(t, c, nctx, tokSeq(vals, func(i int) int { return i % nctx }), 0, n%8)
					})
				}},
				{Name: "prefix-lengths", Quick: true, Body: func(x *mc.X) {
					n := 2 + x.Choose("symbols", x.Pick(6, 7))
					ls := kraft(n, 12)
					k := x.Choose("lengths", len(ls))
					rot := x.Choose("rotation", n)
					gap := x.Of("gap", 0, 1, 7)
					cplx := x.Choose("complex", 2)
					x.Do(func(t *mc.T) {
						l := make([]int, n*(gap+1))
						for i, v := range ls[k] {
							l[(i+rot)%n*(gap+1)] = v
						}
						var vals []uint32
						for i := range l {
							if l[i] > 0 {
								vals = append(vals, uint32(i))
							}
						}
						for i := range vals {
							vals = append(vals, vals[(i*i+1)%n])
						}
						c := jx.Code{Prefix: true, Lens: [][]int{l}, Hyb: []jx.Hyb{{Split: 15}}}
						if cplx == 1 {
							c.Form = []jx.DistForm{jx.DistComplex}
						}
						entropyRun(t, c, 1, tokSeq(vals, nil), 0, n%8)
					})
				}},
				{Name: "prefix-runs", Quick: true, Body: func(x *mc.X) {
					// 2^d codes of d bits (some replaced by two longer ones) in runs separated by unused symbols.
					d := x.Of("bits", 2, 4, 6, 8)
					split := x.Choose("longer pair", 2)
					n := 1<<uint(d) + split
					form := x.Choose("form", 2)
					var runs []int
					rest := n
					for _, c := range [][]int{{0, 1, 3, 4, 6, 7, 8, 9, 23, 24, 70}, {1, 2, 3, 4, 7, 8, 22, 25, 86}} {
						r := c[x.Choose("run", len(c))]
						if r >= rest {
							x.Prune()
						}
						runs = append(runs, r)
						rest -= r
					}
					runs = append(runs, rest)
					zs := []int{0, 1, 3, 4, 10, 11, 12, 18, 19, 82, 83, 91}
					if !x.Thorough() {
						zs = []int{0, 1, 3, 11, 18, 83}
					}
					z0 := zs[x.Choose("unused", len(zs))]
					z1 := zs[x.Choose("unused", x.Pick(4, len(zs)))]
					z2 := x.Of("trailing", 0, 5)
					x.Do(func(t *mc.T) {
						var l []int
						for k, r := range runs {
							for ; r > 0; r-- {
								l = append(l, d)
							}
							l = append(l, make([]int, []int{z0, z1, z2}[k])...)
						}
						for i, k := 0, 0; split == 1 && k < 2; i++ {
							if l[i] > 0 {
								l[i] = d + 1
								k++
							}
						}
						var vals []uint32
						for i := range l {
							if l[i] > 0 {
								vals = append(vals, uint32(i))
							}
						}
						f := jx.DistRLEMulti
						if form == 1 {
							f = jx.DistRLE
						}
						c := jx.Code{Prefix: true, Lens: [][]int{l}, Hyb: []jx.Hyb{{Split: 15}}, Form: []jx.DistForm{f}}
						entropyRun(t, c, 1, tokSeq(vals, nil), 0, n%8)
					})
				}},
				{Name: "prefix-large", Quick: true, Body: func(x *mc.X) {
					n := x.Of("alphabet", 16, 17, 33, 100, 255, 256, 257, 700, 2048)
					shape := x.Choose("shape", 4)
					x.Do(func(t *mc.T) {
						var vals []uint32
						for i := 0; i < n; i++ {
							rep := 1
							switch shape {
							case 1:
								rep = 1 + i%5
							case 2:
								if i%9 != 0 {
									rep = 0
								}
							case 3:
								if i < n-6 && i > 6 {
									rep = 0
								}
								rep *= 1 << uint(i%7)
							}
							for ; rep > 0; rep-- {
								vals = append(vals, uint32(i))
							}
						}
						entropyRun(t, jx.Code{Prefix: true, Hyb: []jx.Hyb{{Split: 15}}}, 1, tokSeq(vals, nil), 0, 5)
					})
				}},
				{Name: "ans-frequencies", Quick: true, Body: func(x *mc.X) {
					la := x.Of("log alphabet", 5, 6, 7, 8)
					ns := 1 + x.Choose("symbols", 4)
					grid := []int{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 63, 64, 100, 127, 128, 129, 255, 256, 300, 511, 512, 1000, 1023, 1024, 1365, 2047, 2048, 2049, 3000, 4000, 4092, 4093, 4094, 4095}
					if ns > 2 {
						grid = []int{1, 2, 16, 17, 128, 1000, 1365, 2048, 3000, 4093, 4094}
					}
					rest := 4096
					var f []int
					for i := 0; i < ns-1; i++ {
						v := grid[x.Choose("freq", len(grid))]
						if v >= rest {
							x.Prune()
						}
						f = append(f, v)
						rest -= v
					}
					f = append(f, rest)
					pos := x.Choose("placement", 4)
					form := x.Choose("form", 5)
					x.Do(func(t *mc.T) {
						size := 1 << uint(la)
						var full []int
						place := func(at []int, n int) {
							full = make([]int, n)
							for i, v := range f {
								full[at[i]] = v
							}
						}
						switch pos {
						case 0:
							place([]int{0, 1, 2, 3}, ns)
						case 1:
							place([]int{3, 0, 2, 1}, 4)
						case 2:
							place([]int{size - 1, 5, 9, 17}, size)
						case 3:
							place([]int{1, 12, 13, size - 2}, size)
						}
						var vals []uint32
						for r := 0; r < 3; r++ {
							for i, v := range full {
								if v > 0 {
									for k := 0; k <= (i+r)%3; k++ {
										vals = append(vals, uint32(i))
									}
								}
							}
						}
						c := jx.Code{LogAlpha: la, Hyb: []jx.Hyb{{Split: la}}, Freqs: [][]int{full},
							Form: []jx.DistForm{[]jx.DistForm{jx.DistAuto, jx.DistNoOmitTweak, jx.DistRLE, jx.DistDual, jx.DistRLEStart}[form]}}
						entropyRun(t, c, 1, tokSeq(vals, nil), 0, pos)
					})
				}},
				{Name: "ans-flat", Quick: true, Body: func(x *mc.X) {
					la := x.Of("log alphabet", 5, 6, 7, 8)
					n := 1 + x.Choose("size", 1<<uint(la))
					form := x.Choose("form", 2)
					x.Do(func(t *mc.T) {
						var vals []uint32
						for i := 0; i < n; i++ {
							vals = append(vals, uint32((i*7+3)%n), uint32(i))
						}
						vals = append(vals, uint32(n-1))
						c := jx.Code{LogAlpha: la, Hyb: []jx.Hyb{{Split: la}}, Form: []jx.DistForm{jx.DistFlat}}
						if form == 1 {
							if n < 3 {
								return
							}
							c.Form[0] = jx.DistRLE // equal frequencies: long runs
							f := make([]int, n)
							for i := range f {
								f[i] = 4096 / (n + 1)
							}
							f[n/2] += 4096 - 4096/(n+1)*n
							c.Freqs = [][]int{f}
						}
						entropyRun(t, c, 1, tokSeq(vals, nil), 0, 1)
					})
				}},
				{Name: "cluster-maps", Quick: true, Body: func(x *mc.X) {
					n := 2 + x.Choose("contexts", x.Pick(4, 5))
					form := jx.ClusterForm(x.Choose("form", 3))
					var m []int
					hi := 0
					for i := 0; i < n; i++ {
						v := x.Choose("cluster", min(hi+2, 4))
						m = append(m, v)
						hi = max(hi, v)
					}
					// every cluster up to the largest must occur
					seen := map[int]bool{}
					for _, v := range m {
						seen[v] = true
					}
					if len(seen) != hi+1 {
						x.Prune()
					}
					rev := x.Choose("reversed labels", 2)
					ans := x.Choose("ans", 2)
					x.Do(func(t *mc.T) {
						mm := append([]int{}, m...)
						if rev == 1 {
							for i := range mm {
								mm[i] = hi - mm[i]
							}
						}
						var toks []jx.Tok
						for r := 0; r < 3; r++ {
							for i := 0; i < n; i++ {
								toks = append(toks, jx.Tok{Ctx: i, Val: uint32(10*mm[i] + (i*r)%4)})
							}
						}
						entropyRun(t, jx.Code{Prefix: ans == 0, LogAlpha: 8, Map: mm, CForm: form}, n, toks, 0, n)
					})
				}},
				{Name: "many-clusters", Quick: true, Body: func(x *mc.X) {
					n := x.Of("contexts", 9, 40, 100, 255)
					ncl := x.Of("clusters", 1, 8, 9, 30, 64)
					form := jx.ClusterForm(x.Choose("form", 3))
					perm := x.Choose("order", 3)
					if ncl > n {
						x.Prune()
					}
					x.Do(func(t *mc.T) {
						var toks []jx.Tok
						m := make([]int, n)
						for i := range m {
							switch perm {
							case 0:
								m[i] = i % ncl
							case 1:
								m[i] = ncl - 1 - i%ncl
							case 2:
								m[i] = (i * 7) % ncl
								if i < ncl {
									m[i] = i
								}
							}
							toks = append(toks, jx.Tok{Ctx: i, Val: uint32(m[i]*3 + i%3)}, jx.Tok{Ctx: i, Val: uint32(m[i] * 3)})
						}
						entropyRun(t, jx.Code{Prefix: n%2 == 0, LogAlpha: 8, Map: m, CForm: form}, n, toks, 0, 0)
					})
				}},
			},
		}
	})

	register(func() *mc.Check {
		lzc := func(x *mc.X, full bool) (jx.Code, int) {
			c := jx.Code{LogAlpha: 8}
			c.Prefix = x.Choose("prefix", 2) == 1
			lz := &jx.LZ{MinSymbol: 224, MinLength: uint32(x.DevOf("min length", 3, 4, 5, 9))}
			if c.Prefix {
				lz.MinSymbol = uint32(x.DevOf("min symbol", 224, 512, 4096, 20))
			}
			lz.LenHyb = []jx.Hyb{{Split: 7}, {Split: 0}, {Split: 4, Msb: 2, Lsb: 1}, {Split: 8}}[x.Dev("length code", 4)]
			if !c.Prefix && lz.LenHyb.Split > 4 {
				lz.LenHyb = jx.Hyb{Split: 3, Msb: 1, Lsb: 1}
			}
			c.LZ = lz
			n := 1
			switch x.Dev("clusters", 3) {
			case 0:
				c.Map = []int{0, 1}
				c.Hyb = []jx.Hyb{{Split: 4, Msb: 1, Lsb: 1}, {Split: 7, Msb: 0, Lsb: 0}}
			case 1: // the distance context shares the value cluster
				c.Map = []int{0, 0}
				c.Hyb = []jx.Hyb{{Split: 4, Msb: 1, Lsb: 0}}
			case 2:
				n = 2
				c.Map = []int{1, 0, 2}
				c.Hyb = []jx.Hyb{{Split: 3}, {Split: 4, Msb: 1, Lsb: 1}, {Split: 5, Msb: 2, Lsb: 3}}
			}
			return c, n
		}
		return &mc.Check{
			ID: "C07", Level: "model_checking",
			Technique: "exhaustive enumeration of short LZ77 literal/copy histories encoded by a reference encoder, replayed on the real decoder",
			Bounds: func(tier string) string {
				return "all literal/copy histories up to 4 (5 thorough) operations x copy length {min, min+1, 17} x distance values {0..3,119,120,121,past-start}, distance multiplier {0,1,2,7}; all 120 special distances x 6 multipliers; window wrap-around at 2^20"
			},
			Rule: "copies reproduce the values 'distance' back (special-distance table, clamped to [1, decoded]) and count exactly min-length plus the coded length",
			Spaces: []mc.Space{
				{Name: "histories", Quick: true, Body: func(x *mc.X) {
					mult := x.Of("multiplier", 0, 1, 2, 7)
					x.Bound = x.Pick(2, 3)
					c, n := lzc(x, false)
					k := 2 + x.Choose("ops", x.Pick(2, 3))
					var toks []jx.Tok
					for i := 0; i < k; i++ {
						switch x.Choose("op", 3) {
						case 0:
							toks = append(toks, jx.Tok{Ctx: i % n, Val: uint32(i * 5)})
						case 1:
							toks = append(toks, jx.Tok{Ctx: i % n, Val: uint32(1)}, jx.Tok{Ctx: 0, Val: uint32(i + 3)})
						case 2:
							ln := c.LZ.MinLength + uint32(x.DevOf("len", 0, 1, 17, 200))
							if tk, _, _ := c.LZ.LenHyb.Encode(ln - c.LZ.MinLength); !c.Prefix && tk+int(c.LZ.MinSymbol) > 255 {
								x.Prune() // outside the 8-bit alphabet
							}
							d := x.DevOf("dist", 0, 1, 2, 3, 119, 120, 121, 125, 4000)
							toks = append(toks, jx.Tok{Ctx: i % n, Copy: true, Val: ln, Dist: uint32(d)})
						}
					}
					toks = append(toks, jx.Tok{Val: 2})
					x.Do(func(t *mc.T) { entropyRun(t, c, n, toks, int32(mult), k) })
				}},
				{Name: "special-distances", Quick: true, Body: func(x *mc.X) {
					mult := x.Of("multiplier", 1, 2, 3, 8, 20, 300)
					v := x.Choose("value", 124)
					prefix := x.Choose("prefix", 2)
					x.Do(func(t *mc.T) {
						var toks []jx.Tok
						r := rng(v*31 + mult)
						for i := 0; i < 9*mult+30; i++ {
							toks = append(toks, jx.Tok{Val: r.next() % 97})
						}
						for j := 0; j < 3; j++ {
							toks = append(toks, jx.Tok{Copy: true, Val: 5 + uint32(j), Dist: uint32(v)}, jx.Tok{Val: uint32(j)})
						}
						c := jx.Code{Prefix: prefix == 1, LogAlpha: 8, LZ: &jx.LZ{MinSymbol: 224, MinLength: 3, LenHyb: jx.Hyb{Split: 4}}, Map: []int{0, 1},
							Hyb: []jx.Hyb{{Split: 7}, {Split: 4, Msb: 2, Lsb: 0}}}
						entropyRun(t, c, 1, toks, int32(mult), 0)
					})
				}},
				{Name: "window", Quick: true, Body: func(x *mc.X) {
					d := x.Of("distance", 1<<20-2, 1<<20-1, 1<<20, 1<<20+1, 1<<20+5000)
					n := x.Of("length", 3, 400, 1<<20+100)
					x.Do(func(t *mc.T) {
						var toks []jx.Tok
						r := rng(d)
						for i := 0; i < 300; i++ {
							toks = append(toks, jx.Tok{Val: r.next() % 50})
						}
						// run of period 300 up to just short of the window
						toks = append(toks, jx.Tok{Copy: true, Val: 1<<20 - 310, Dist: 299})
						for i := 0; i < 30; i++ {
							toks = append(toks, jx.Tok{Val: 50 + r.next()%20})
						}
						toks = append(toks, jx.Tok{Copy: true, Val: uint32(n), Dist: uint32(d - 1)}, jx.Tok{Val: 7})
						c := jx.Code{Prefix: true, LZ: &jx.LZ{MinSymbol: 224, MinLength: 3, LenHyb: jx.Hyb{Split: 4, Msb: 1}}, Map: []int{0, 1},
							Hyb: []jx.Hyb{{Split: 7}, {Split: 4, Msb: 2, Lsb: 0}}}
						entropyRun(t, c, 1, toks, 0, 0)
					})
				}},
			},
		}
	})
}
