package checks

import (
	"fmt"
	"math"

	"verif/jx"
	"verif/mc"
)

// F2 is a plane of normalised reference samples.
type F2 [][]float64

func newF2(w, h int) F2 {
	f := make(F2, h)
	for y := range f {
		f[y] = make([]float64, w)
	}
	return f
}

func (f F2) clone() F2 {
	o := make(F2, len(f))
	for y := range f {
		o[y] = append([]float64{}, f[y]...)
	}
	return o
}

// norm converts an integer channel to normalised samples.
func norm(c *jx.Ch, bits int) F2 {
	f := newF2(c.W, c.H)
	m := math.Exp2(float64(bits)) - 1
	for y := range f {
		for x := range f[y] {
			f[y][x] = float64(c.D[y][x]) / m
		}
	}
	return f
}

// at returns a decoded sample, normalised.
func (p *Plane) at(x, y, bits int) float64 {
	if p.Float {
		return float64(p.F[y][x])
	}
	return float64(p.I[y][x]) / (math.Exp2(float64(bits)) - 1)
}

// diffF compares a decoded plane with normalised reference samples.
func diffF(p *Plane, want F2, bits int, tol float64) string {
	if p.H != len(want) || p.H > 0 && p.W != len(want[0]) {
		return fmt.Sprintf("is %dx%d, want %dx%d", p.W, p.H, len(want[0]), len(want))
	}
	for y := range want {
		for x, w := range want[y] {
			g := p.at(x, y, bits)
			if !(math.Abs(g-w) <= tol*(1+math.Abs(w))) {
				return fmt.Sprintf("(%d,%d) = %v, want %v", x, y, g, w)
			}
		}
	}
	return ""
}

// runNear decodes and compares all channels within the tolerance.
func runNear(t *mc.T, b []byte, par int, want []F2, bits []int, tol float64) {
	t.Input(b)
	t.Run()
	im, err := decode(b, par)
	if err != nil {
		t.Fail("decode: %v", err)
		return
	}
	if len(im.Ch) != len(want) {
		t.Fail("%d channels, want %d", len(im.Ch), len(want))
		return
	}
	if im.H != len(want[0]) || im.W != len(want[0][0]) {
		t.Fail("image size %dx%d, want %dx%d", im.W, im.H, len(want[0][0]), len(want[0]))
		return
	}
	for c := range want {
		if d := diffF(&im.Ch[c], want[c], bits[c], tol); d != "" {
			t.Fail("channel %d %s", c, d)
			return
		}
	}
	t.Outcome("as expected")
}

// orient applies an EXIF orientation: the stored plane becomes the displayed one.
func orient(in *jx.Ch, o int) *jx.Ch {
	w, h := in.W, in.H
	ow, oh := w, h
	if o >= 5 {
		ow, oh = h, w
	}
	out := jx.NewCh(ow, oh)
	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			var sx, sy int
			switch o {
			case 1:
				sx, sy = x, y
			case 2:
				sx, sy = w-1-x, y
			case 3:
				sx, sy = w-1-x, h-1-y
			case 4:
				sx, sy = x, h-1-y
			case 5:
				sx, sy = y, x
			case 6:
				sx, sy = y, h-1-x
			case 7:
				sx, sy = w-1-y, h-1-x
			case 8:
				sx, sy = w-1-y, x
			}
			out.D[y][x] = in.D[sy][sx]
		}
	}
	return out
}

func orientF(in F2, o int) F2 {
	idx := jx.NewCh(len(in[0]), len(in))
	for y := range idx.D {
		for x := range idx.D[y] {
			idx.D[y][x] = int32(y*idx.W + x)
		}
	}
	out := orient(idx, o)
	f := newF2(out.W, out.H)
	for y := range f {
		for x := range f[y] {
			i := int(out.D[y][x])
			f[y][x] = in[i/idx.W][i%idx.W]
		}
	}
	return f
}

// crop returns the upper left w x h part.
func (f F2) crop(w, h int) F2 {
	o := newF2(w, h)
	for y := range o {
		copy(o[y], f[y][:w])
	}
	return o
}

func mirrorIdx(i, n int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -1 - i
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

// upKernel expands the upper triangle of the symmetric 5n/2 x 5n/2 weight
// matrix of factor n into one 5x5 kernel per output phase.
func upKernel(n int, tri []float64) [][][5][5]float64 {
	m := 5 * n / 2
	full := newF2(m, m)
	k := 0
	for y := 0; y < m; y++ {
		for x := y; x < m; x++ {
			full[y][x], full[x][y] = tri[k], tri[k]
			k++
		}
	}
	if k != len(tri) {
		panic("weights")
	}
	ker := make([][][5][5]float64, n)
	for ky := range ker {
		ker[ky] = make([][5][5]float64, n)
		for kx := range ker[ky] {
			qy, fy := ky, false
			if ky >= n/2 {
				qy, fy = n-1-ky, true
			}
			qx, fx := kx, false
			if kx >= n/2 {
				qx, fx = n-1-kx, true
			}
			for iy := 0; iy < 5; iy++ {
				for ix := 0; ix < 5; ix++ {
					sy, sx := iy, ix
					if fy {
						sy = 4 - iy
					}
					if fx {
						sx = 4 - ix
					}
					ker[ky][kx][iy][ix] = full[5*qy+sy][5*qx+sx]
				}
			}
		}
	}
	return ker
}

// upsampleRef upsamples by n (2, 4, 8).
func upsampleRef(in F2, n int, tri []float64) F2 {
	if n == 1 {
		return in
	}
	h, w := len(in), len(in[0])
	ker := upKernel(n, tri)
	out := newF2(w*n, h*n)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			var win [5][5]float64
			for iy := range win {
				for ix := range win[iy] {
					v := in[mirrorIdx(y+iy-2, h)][mirrorIdx(x+ix-2, w)]
					win[iy][ix] = v
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
			}
			for ky := 0; ky < n; ky++ {
				for kx := 0; kx < n; kx++ {
					s := 0.0
					for iy := range win {
						for ix := range win[iy] {
							s += win[iy][ix] * ker[ky][kx][iy][ix]
						}
					}
					out[y*n+ky][x*n+kx] = math.Max(lo, math.Min(hi, s))
				}
			}
		}
	}
	return out
}

func halfVals(h []uint16) []float64 {
	var o []float64
	for _, v := range h {
		o = append(o, jx.HalfValue(v))
	}
	return o
}
