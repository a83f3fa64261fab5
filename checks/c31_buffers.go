package checks

import (
	"fmt"
	"math"

	image2 "github.com/kpfaulkner/jxl-go/image"

	"verif/mc"
)

// ints makes an integer buffer of the given shape from a value list.
func intBuf(w, h int, v func(i int) int32) *image2.ImageBuffer {
	m := make([][]int32, h)
	for y := range m {
		m[y] = make([]int32, w)
		for x := range m[y] {
			m[y][x] = v(y*w + x)
		}
	}
	return image2.NewImageBufferFromInts(m)
}

func floatBuf(w, h int, v func(i int) float32) *image2.ImageBuffer {
	m := make([][]float32, h)
	for y := range m {
		m[y] = make([]float32, w)
		for x := range m[y] {
			m[y][x] = v(y*w + x)
		}
	}
	return image2.NewImageBufferFromFloats(m)
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C31", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of sample values, depths, shapes and operation sequences on the real sample buffers against exact arithmetic",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "round trip of every value of every depth 1..22; boundary values of depths up to 31; every rounding boundary of depths 1..12; all operation sequences of length 4 over two buffers"
				}
				return "round trip of every value of every depth 1..16; boundary values of depths up to 31; every rounding boundary of depths 1..10; all operation sequences of length 3 over two buffers"
			},
			Rule:   "float form = value / maximum within one float ulp or so; integer form = nearest integer, clamped; copies are equal and independent; Equals is value equality",
			Assume: []string{"depths above 22 bits cannot round-trip exactly through 32-bit floats; there the error bound of float arithmetic is checked instead"},
			Spaces: []mc.Space{
				{Name: "round-trip", Quick: true, Body: func(x *mc.X) {
					bits := 1 + x.Choose("bits", x.Pick(16, 22))
					x.Do(func(t *mc.T) {
						n := 1 << bits
						w := min(n, 256)
						b := intBuf(w, n/w, func(i int) int32 { return int32(i) })
						t.Run()
						if err := b.CastToFloatIfMax(int32(n - 1)); err != nil {
							t.Fail("to float: %v", err)
							return
						}
						if !b.IsFloat() || b.IsInt() {
							t.Fail("not a float buffer after the cast")
							return
						}
						for i := 0; i < n; i++ {
							g, want := float64(b.FloatBuffer[i/w][i%w]), float64(i)/float64(n-1)
							if math.Abs(g-want) > 2e-7 {
								t.Fail("%d/%d becomes %v", i, n-1, g)
								return
							}
						}
						if err := b.CastToIntIfMax(int32(n - 1)); err != nil || !b.IsInt() {
							t.Fail("to int: %v", err)
							return
						}
						for i := 0; i < n; i++ {
							if g := b.IntBuffer[i/w][i%w]; int(g) != i {
								t.Fail("%d of %d bits comes back as %d", i, bits, g)
								return
							}
						}
						t.Outcome("round trip exact")
					})
				}},
				{Name: "other-depth", Quick: true, Body: func(x *mc.X) {
					// converting between depths is scaling with rounding
					from, to := 1+x.Choose("from", 12), 1+x.Choose("to", 16)
					x.Do(func(t *mc.T) {
						n := 1 << from
						b := intBuf(n, 1, func(i int) int32 { return int32(i) })
						t.Run()
						e1 := b.CastToFloatIfMax(int32(n - 1))
						e2 := b.CastToIntIfMax(int32(1<<to - 1))
						if e1 != nil || e2 != nil {
							t.Fail("%v %v", e1, e2)
							return
						}
						for i := 0; i < n; i++ {
							w := float64(i) * float64(int(1)<<to-1) / float64(n-1)
							if math.Abs(float64(b.IntBuffer[0][i])-w) > 0.5+0.01 {
								t.Fail("%d of %d bits becomes %d of %d bits", i, from, b.IntBuffer[0][i], to)
								return
							}
						}
					})
				}},
				{Name: "rounding", Quick: true, Body: func(x *mc.X) {
					bits := 1 + x.Choose("bits", x.Pick(10, 12))
					x.Do(func(t *mc.T) {
						m := float64(int(1)<<bits - 1)
						offs := []float64{-0.49, -0.25, 0, 0.25, 0.49}
						n := 1 << bits
						b := floatBuf(len(offs), n, func(i int) float32 { return float32((float64(i/len(offs)) + offs[i%len(offs)]) / m) })
						t.Run()
						if err := b.CastToIntIfMax(int32(m)); err != nil {
							t.Fail("%v", err)
							return
						}
						for i := 0; i < n; i++ {
							for k := range offs {
								if int(b.IntBuffer[i][k]) != i {
									t.Fail("%v of %v becomes %d", float64(i)+offs[k], m, b.IntBuffer[i][k])
									return
								}
							}
						}
					})
				}},
				{Name: "clamping", Quick: true, Body: func(x *mc.X) {
					bits := 1 + x.Choose("bits", 31)
					v := []float64{-1e30, -3e9, -2, -1, -0.5, -1e-3, math.Copysign(0, -1), 0, 1, 1.0000001, 1.001, 1.5, 2, 3, 17, 70000, 3e9, 1e12, 1e30, math.Inf(1), math.Inf(-1)}
					k := x.Choose("value", len(v))
					x.Do(func(t *mc.T) {
						m := int32(1<<bits - 1)
						b := floatBuf(2, 2, func(int) float32 { return float32(v[k]) })
						t.Run()
						if err := b.CastToIntIfMax(m); err != nil {
							t.Fail("%v", err)
							return
						}
						want := int64(0)
						if v[k] >= 1 {
							want = int64(m)
						} else if s := v[k] * float64(m); s > 0 {
							want = int64(math.Round(s))
						}
						for _, r := range b.IntBuffer {
							for _, g := range r {
								if d := int64(g) - want; d > int64(m)>>23 || -d > int64(m)>>23 {
									t.Fail("%v with maximum %d becomes %d, want %d", v[k], m, g, want)
									return
								}
							}
						}
						t.Outcome("clamped")
					})
				}},
				{Name: "large-depths", Quick: true, Body: func(x *mc.X) {
					bits := 17 + x.Choose("bits", 15)
					k := x.Choose("value", 40)
					x.Do(func(t *mc.T) {
						m := int64(1)<<bits - 1
						val := []int64{0, 1, 2, 3, m / 2, m/2 + 1, m - 3, m - 2, m - 1, m}
						for i := int64(1); len(val) < 40; i++ {
							val = append(val, m*i/31)
						}
						v := val[k]
						b := intBuf(1, 1, func(int) int32 { return int32(v) })
						t.Run()
						e1 := b.CastToFloatIfMax(int32(m))
						if f := float64(b.FloatBuffer[0][0]); math.Abs(f-float64(v)/float64(m)) > 2e-7 {
							t.Fail("%d/%d becomes %v", v, m, f)
							return
						}
						e2 := b.CastToIntIfMax(int32(m))
						if e1 != nil || e2 != nil {
							t.Fail("%v %v", e1, e2)
							return
						}
						tol := int64(0)
						if bits > 22 {
							tol = 1 + m>>22
						}
						if d := int64(b.IntBuffer[0][0]) - v; d > tol || -d > tol {
							t.Fail("%d of %d bits comes back as %d", v, bits, b.IntBuffer[0][0])
						}
					})
				}},
				{Name: "int-clamp", Quick: true, Body: func(x *mc.X) {
					bits := 1 + x.Choose("bits", 30)
					v := []int64{math.MinInt32, -70000, -1, 0, 1, 1<<bits - 2, 1<<bits - 1, 1 << bits, 1<<bits + 1, math.MaxInt32}
					k := x.Choose("value", len(v))
					x.Do(func(t *mc.T) {
						m := int64(1)<<bits - 1
						b := intBuf(3, 2, func(i int) int32 {
							if i == 4 {
								return int32(v[k])
							}
							return 1
						})
						t.Run()
						if err := b.Clamp(int32(m)); err != nil {
							t.Fail("%v", err)
							return
						}
						want := min(max(int64(int32(v[k])), 0), m)
						if g := int64(b.IntBuffer[1][1]); g != want || b.IntBuffer[0][0] != 1 {
							t.Fail("%d clamped to %d becomes %d", int32(v[k]), m, g)
						}
					})
				}},
				{Name: "sequences", Quick: true, Body: func(x *mc.X) {
					// operation sequences over a buffer and its copy against a value model
					n := x.Pick(3, 4)
					start := x.Choose("start float", 2)
					var ops []int
					for i := 0; i < n; i++ {
						ops = append(ops, x.Choose("op", 8))
					}
					x.Do(func(t *mc.T) { bufferSequence(t, start == 1, ops) })
				}},
				{Name: "equality", Quick: true, Body: func(x *mc.X) {
					wa, ha := 1+x.Choose("wa", 3), 1+x.Choose("ha", 3)
					wb, hb := 1+x.Choose("wb", 3), 1+x.Choose("hb", 3)
					ta, tb := x.Choose("ta", 2), x.Choose("tb", 2)
					diff := x.Choose("different sample", 1+wb*hb)
					x.Do(func(t *mc.T) {
						mk := func(ty, w, h, d int) *image2.ImageBuffer {
							if ty == 1 {
								return floatBuf(w, h, func(i int) float32 {
									if i == d-1 {
										return -7
									}
									return float32(i)
								})
							}
							return intBuf(w, h, func(i int) int32 {
								if i == d-1 {
									return -7
								}
								return int32(i)
							})
						}
						a, b := mk(ta, wa, ha, 0), mk(tb, wb, hb, diff)
						want := ta == tb && wa == wb && ha == hb && diff == 0
						t.Run()
						if g := a.Equals(*b); g != want {
							t.Fail("Equals = %v, want %v", g, want)
							return
						}
						if g := b.Equals(*a); g != want {
							t.Fail("Equals (swapped) = %v, want %v", g, want)
							return
						}
						same := image2.ImageBufferSliceEquals([]image2.ImageBuffer{*a, *b}, []image2.ImageBuffer{*a, *a})
						if same != want {
							t.Fail("slice equality = %v, want %v", same, want)
							return
						}
						if image2.ImageBufferSliceEquals([]image2.ImageBuffer{*a}, []image2.ImageBuffer{*a, *a}) {
							t.Fail("slices of different length are equal")
						}
						t.Outcome(fmt.Sprint(want))
					})
				}},
			},
		}
	})
}

// bufferSequence applies operations to a buffer and its copy.
func bufferSequence(t *mc.T, float bool, ops []int) {
	const w, h, m = 3, 2, 255
	type model struct {
		v     [w * h]float64 // value scaled to 0..255
		float bool
	}
	var a, b *image2.ImageBuffer
	var ma, mb model
	val := func(i int) float64 { return []float64{0, 255, 17, 128, 254, 1}[i] }
	if float {
		a = floatBuf(w, h, func(i int) float32 { return float32(val(i) / m) })
	} else {
		a = intBuf(w, h, func(i int) int32 { return int32(val(i)) })
	}
	for i := range ma.v {
		ma.v[i] = val(i)
	}
	ma.float = float
	b = image2.NewImageBufferFromImageBuffer(a, true)
	mb = ma
	t.Run()
	set := func(ib *image2.ImageBuffer, mo *model, i int, v float64) {
		if mo.float {
			ib.FloatBuffer[i/w][i%w] = float32(v / m)
		} else {
			ib.IntBuffer[i/w][i%w] = int32(v)
		}
		mo.v[i] = v
	}
	for s, op := range ops {
		var err error
		switch op {
		case 0:
			err = a.CastToFloatIfMax(m)
			ma.float = true
		case 1:
			err = a.CastToIntIfMax(m)
			ma.float = false
		case 2:
			err = b.CastToFloatIfMax(m)
			mb.float = true
		case 3:
			err = b.CastToIntIfMax(m)
			mb.float = false
		case 4:
			set(a, &ma, s, 77)
		case 5:
			set(b, &mb, s+1, 99)
		case 6:
			b = image2.NewImageBufferFromImageBuffer(a, true)
			mb = ma
		case 7:
			a = image2.NewImageBufferFromImageBuffer(b, true)
			ma = mb
		}
		if err != nil {
			t.Fail("operation %d: %v", op, err)
			return
		}
		eq := ma.float == mb.float
		for k, p := range []struct {
			ib *image2.ImageBuffer
			mo *model
		}{{a, &ma}, {b, &mb}} {
			if p.ib.IsFloat() != p.mo.float || p.ib.IsInt() == p.mo.float || p.ib.Width != w || p.ib.Height != h {
				t.Fail("buffer %d has the wrong kind or size after %v", k, ops[:s+1])
				return
			}
			for i, v := range p.mo.v {
				var g float64
				if p.mo.float {
					g = float64(p.ib.FloatBuffer[i/w][i%w]) * m
				} else {
					g = float64(p.ib.IntBuffer[i/w][i%w])
				}
				if math.Abs(g-v) > 1e-4 {
					t.Fail("buffer %d sample %d = %v, want %v after %v", k, i, g, v, ops[:s+1])
					return
				}
				if ma.v[i] != mb.v[i] {
					eq = false
				}
			}
		}
		if a.Equals(*b) != eq && (!ma.float || !eq) {
			t.Fail("Equals = %v, want %v after %v", !eq, eq, ops[:s+1])
			return
		}
	}
	t.Outcome("consistent")
}
