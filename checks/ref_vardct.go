package checks

import (
	"math"
	"sync"

	"verif/jx"
)

// Reference reconstruction of VarDCT frames in float64, straight from the
// definitions (no fast transforms, no shared tables with the decoder).

var cosTab sync.Map

// dctBasis returns basis[k][n] = (k==0 ? 1 : sqrt2) cos(pi k (2n+1) / 2N).
func dctBasis(n int) [][]float64 {
	if b, ok := cosTab.Load(n); ok {
		return b.([][]float64)
	}
	b := newF2(n, n)
	for k := range b {
		for i := range b[k] {
			v := math.Cos(math.Pi * float64(k) * float64(2*i+1) / float64(2*n))
			if k > 0 {
				v *= math.Sqrt2
			}
			b[k][i] = v
		}
	}
	cosTab.Store(n, [][]float64(b))
	return b
}

// idct evaluates sum c(fy,fx) basis at all pixels of an h x w block.
func idct(c func(fy, fx int) float64, h, w int) F2 {
	by, bx := dctBasis(h), dctBasis(w)
	tmp := newF2(w, h) // [fy][x]
	for fy := 0; fy < h; fy++ {
		for fx := 0; fx < w; fx++ {
			v := c(fy, fx)
			if v == 0 {
				continue
			}
			for x := 0; x < w; x++ {
				tmp[fy][x] += v * bx[fx][x]
			}
		}
	}
	out := newF2(w, h)
	for fy := 0; fy < h; fy++ {
		for y := 0; y < h; y++ {
			k := by[fy][y]
			for x := 0; x < w; x++ {
				out[y][x] += k * tmp[fy][x]
			}
		}
	}
	return out
}

// llfScale turns the DCT of block means into low frequency coefficients.
func llfScale(k, pixels int) float64 {
	a := math.Pi * float64(k) / float64(2*pixels)
	return 1 / (math.Cos(a) * math.Cos(2*a) * math.Cos(4*a))
}

// lowFreq computes the BH x BW low frequency coefficients (fy, fx) from LF samples.
func lowFreq(lf func(y, x int) float64, bh, bw int) F2 {
	by, bx := dctBasis(bh), dctBasis(bw)
	out := newF2(bw, bh)
	for fy := 0; fy < bh; fy++ {
		for fx := 0; fx < bw; fx++ {
			s := 0.0
			for y := 0; y < bh; y++ {
				for x := 0; x < bw; x++ {
					s += lf(y, x) * by[fy][y] * bx[fx][x]
				}
			}
			out[fy][fx] = s / float64(bh*bw) * llfScale(fy, 8*bh) * llfScale(fx, 8*bw)
		}
	}
	return out
}

// invBlock reconstructs the pixels of a varblock from its coefficient array a
// (row-major rows x cols, low frequencies included).
func invBlock(t jx.VType, a []float64) F2 {
	cols := t.Cols()
	at := func(r, c int) float64 { return a[r*cols+c] }
	w, h := 8*t.BW, 8*t.BH
	if t.Transform == 0 {
		if t.Transposed() {
			return idct(func(fy, fx int) float64 { return at(fx, fy) }, h, w)
		}
		return idct(at, h, w)
	}
	out := newF2(8, 8)
	put := func(y0, x0 int, b F2) {
		for y := range b {
			copy(out[y0+y][x0:], b[y])
		}
	}
	// hadamard of the 2x2 corner: value of quadrant (y, x)
	quad := func(y, x int) float64 {
		sy, sx := 1-2*float64(y), 1-2*float64(x)
		return at(0, 0) + sy*at(0, 1) + sx*at(1, 0) + sx*sy*at(1, 1)
	}
	switch t.Transform {
	case 1: // recursive 2x2
		cur := newF2(8, 8)
		for y := range cur {
			for x := range cur[y] {
				cur[y][x] = at(y, x)
			}
		}
		for s := 2; s <= 8; s *= 2 {
			nx := cur.clone()
			n := s / 2
			for y := 0; y < n; y++ {
				for x := 0; x < n; x++ {
					c00, c01, c10, c11 := cur[y][x], cur[y][x+n], cur[y+n][x], cur[y+n][x+n]
					nx[2*y][2*x] = c00 + c01 + c10 + c11
					nx[2*y][2*x+1] = c00 + c01 - c10 - c11
					nx[2*y+1][2*x] = c00 - c01 + c10 - c11
					nx[2*y+1][2*x+1] = c00 - c01 - c10 + c11
				}
			}
			cur = nx
		}
		return cur
	case 2: // four 4x4 DCTs, interleaved coefficients
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				put(4*y, 4*x, idct(func(fy, fx int) float64 {
					if fy == 0 && fx == 0 {
						return quad(y, x)
					}
					return at(y+2*fx, x+2*fy)
				}, 4, 4))
			}
		}
	case 3: // Hornuss
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				res := 0.0
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						if iy+ix > 0 {
							res += at(y+2*iy, x+2*ix)
						}
					}
				}
				base := quad(y, x) - res/16
				for iy := 0; iy < 4; iy++ {
					for ix := 0; ix < 4; ix++ {
						switch {
						case iy == 1 && ix == 1:
							out[4*y+1][4*x+1] = base
						case iy == 0 && ix == 0:
							out[4*y][4*x] = base + at(y+2, x+2)
						default:
							out[4*y+iy][4*x+ix] = base + at(y+2*iy, x+2*ix)
						}
					}
				}
			}
		}
	case 4: // two halves 4 wide
		for k := 0; k < 2; k++ {
			put(0, 4*k, idct(func(fy, fx int) float64 {
				if fy == 0 && fx == 0 {
					return at(0, 0) + (1-2*float64(k))*at(1, 0)
				}
				return at(k+2*fx, fy)
			}, 8, 4))
		}
	case 5: // two halves 4 high
		for k := 0; k < 2; k++ {
			put(4*k, 0, idct(func(fy, fx int) float64 {
				if fy == 0 && fx == 0 {
					return at(0, 0) + (1-2*float64(k))*at(1, 0)
				}
				return at(k+2*fy, fx)
			}, 4, 8))
		}
	case 6:
		right, bottom := t.Flip&1, t.Flip>>1
		// the corner: 4x4 of the even rows and columns in the AFV basis
		var px [16]float64
		for j := 0; j < 16; j++ {
			v := at(j/4*2, j%4*2)
			if j == 0 {
				v = 4 * (at(0, 0) + at(1, 0) + at(0, 1))
			}
			for i := range px {
				px[i] += v * afvBasis[j][i]
			}
		}
		for iy := 0; iy < 4; iy++ {
			for ix := 0; ix < 4; ix++ {
				sy, sx := iy, ix
				if bottom == 1 {
					sy = 3 - iy
				}
				if right == 1 {
					sx = 3 - ix
				}
				out[4*bottom+iy][4*right+ix] = px[4*sy+sx]
			}
		}
		put(4*bottom, 4-4*right, idct(func(fy, fx int) float64 {
			if fy == 0 && fx == 0 {
				return at(0, 0) + at(1, 0) - at(0, 1)
			}
			return at(2*fx, 2*fy+1)
		}, 4, 4))
		put(4-4*bottom, 0, idct(func(fy, fx int) float64 {
			if fy == 0 && fx == 0 {
				return at(0, 0) - at(1, 0)
			}
			return at(1+2*fy, fx)
		}, 4, 8))
	}
	return out
}

func qmult(v float64) float64 {
	if v > 0 {
		return 1 + v
	}
	return 1 / (1 - v)
}

func bandsOf(p []float64) []float64 {
	b := append([]float64{}, p...)
	for i := 1; i < len(b); i++ {
		b[i] = b[i-1] * qmult(p[i])
	}
	return b
}

func interp(pos float64, b []float64) float64 {
	if len(b) == 1 {
		return b[0]
	}
	i := int(pos)
	if i >= len(b)-1 {
		return b[len(b)-1]
	}
	return b[i] * math.Pow(b[i+1]/b[i], pos-float64(i))
}

func dctWeights(rows, cols int, p []float64) F2 {
	b := bandsOf(p)
	sc := float64(len(b)-1) / (math.Sqrt2 + 1e-6)
	w := newF2(cols, rows)
	for y := range w {
		for x := range w[y] {
			dy, dx := float64(y)/float64(rows-1), float64(x)/float64(cols-1)
			w[y][x] = interp(math.Hypot(dx, dy)*sc, b)
		}
	}
	return w
}

// libMats are the default matrices in decoded form (first band included).
func libMat(i int) jx.QMat {
	A := []float64{-1.025, -0.78, -0.65012, -0.19041574084286472, -0.20819395464, -0.421064, -0.32733845535848671}
	B := []float64{-0.3041958212306401, -0.3633036457487539, -0.35660379990111464, -0.3443074455424403, -0.33699592683512467, -0.30180866526242109, -0.27321683125358037}
	C := []float64{-1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5}
	abc := func(a, b, c float64) jx.QMat {
		f := func(v float64, s []float64) []float64 { return append([]float64{v}, s...) }
		return jx.QMat{Mode: 6, DCT: [3][]float64{f(a, A), f(b, B), f(c, C)}}
	}
	d48 := [3][]float64{
		{2198.050556016380522, -0.96269623020744692, -0.76194253026666783, -0.6551140670773547},
		{764.3655248643528689, -0.92630200888366945, -0.9675229603596517, -0.27845290869168118},
		{527.107573587542228, -1.4594385811273854, -1.450082094097871593, -1.5843722511996204}}
	d44 := [3][]float64{{2200, 0, 0, 0}, {392, 0, 0, 0}, {112, -0.25, -0.25, -0.5}}
	switch i {
	case 0:
		return jx.QMat{Mode: 6, DCT: [3][]float64{{3150, 0, -0.4, -0.4, -0.4, -2}, {560, 0, -0.3, -0.3, -0.3, -0.3}, {512, -2, -1, 0, -1, -2}}}
	case 1:
		return jx.QMat{Mode: 1, P: [3][]float64{{280, 3160, 3160}, {60, 864, 864}, {18, 200, 200}}}
	case 2:
		return jx.QMat{Mode: 2, P: [3][]float64{{3840, 2560, 1280, 640, 480, 300}, {960, 640, 320, 180, 140, 120}, {640, 320, 128, 64, 32, 16}}}
	case 3:
		return jx.QMat{Mode: 3, P: [3][]float64{{1, 1}, {1, 1}, {1, 1}}, DCT: d44}
	case 4:
		return jx.QMat{Mode: 6, DCT: [3][]float64{
			{8996.8725711814115328, -1.3000777393353804, -0.49424529824571225, -0.439093774457103443, -0.6350101832695744, -0.90177264050827612, -1.6162099239887414},
			{3191.48366296844234752, -0.67424582104194355, -0.80745813428471001, -0.44925837484843441, -0.35865440981033403, -0.31322389111877305, -0.37615025315725483},
			{1157.50408145487200256, -2.0531423165804414, -1.4, -0.50687130033378396, -0.42708730624733904, -1.4856834539296244, -4.9209142884401604}}}
	case 5:
		return jx.QMat{Mode: 6, DCT: [3][]float64{
			{15718.40830982518931456, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27},
			{7305.7636810695983104, -0.8041958212306401, -0.7633036457487539, -0.55660379990111464, -0.49785304658857626, -0.43699592683512467, -0.40180866526242109, -0.27321683125358037},
			{3803.53173721215041536, -3.060733579805728, -2.0413270132490346, -2.0235650159727417, -0.5495389509954993, -0.4, -0.4, -0.3}}}
	case 6:
		return jx.QMat{Mode: 6, DCT: [3][]float64{
			{7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5},
			{1448.15468787004, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2},
			{506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6}}}
	case 7:
		return jx.QMat{Mode: 6, DCT: [3][]float64{
			{16283.2494710648897, -1.7812845336559429, -1.6309059012653515, -1.0382179034313539, -0.85, -0.7, -0.9, -1.2360638576849587},
			{5089.15750884921511936, -0.320049391452786891, -0.35362849922161446, -0.30340000000000003, -0.61, -0.5, -0.5, -0.6},
			{3397.77603275308720128, -0.321327362693153371, -0.34507619223117997, -0.70340000000000003, -0.9, -1.0, -1.0, -1.1754605576265209}}}
	case 8:
		return jx.QMat{Mode: 6, DCT: [3][]float64{
			{13844.97076442300573, -0.97113799999999995, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6},
			{4798.964084220744293, -0.61125308982767057, -0.83770786552491361, -0.79014862079498627, -0.2692727459704829, -0.38272769465388551, -0.22924222653091453, -0.20719098826199578},
			{1807.236946760964614, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5}}}
	case 9:
		return jx.QMat{Mode: 4, P: [3][]float64{{1}, {1}, {1}}, DCT: d48}
	case 10:
		return jx.QMat{Mode: 5, P: [3][]float64{
			{3072, 3072, 256, 256, 256, 414, 0, 0, 0}, {1024, 1024, 50, 50, 50, 58, 0, 0, 0}, {384, 384, 12, 12, 12, 22, -0.25, -0.25, -0.25}}, DCT: d48, DCT44: d44}
	case 11:
		return abc(0.9*26629.073922049845, 0.9*9311.3238710010046, 0.9*4992.2486445538634)
	case 12:
		return abc(0.65*23629.073922049845, 0.65*8611.3238710010046, 0.65*4492.2486445538634)
	case 13:
		return abc(1.8*26629.073922049845, 1.8*9311.3238710010046, 1.8*4992.2486445538634)
	case 14:
		return abc(1.3*23629.073922049845, 1.3*8611.3238710010046, 1.3*4492.2486445538634)
	case 15:
		return abc(3.6*26629.073922049845, 3.6*9311.3238710010046, 3.6*4992.2486445538634)
	}
	return abc(2.6*23629.073922049845, 2.6*9311.3238710010046, 2.6*4992.2486445538634)
}

func shapeOfParam(i int) (rows, cols int) {
	for _, t := range jx.VTypes {
		if t.Param == i {
			return t.Rows(), t.Cols()
		}
	}
	panic("param")
}

// dequantMatrix returns the multipliers of matrix i for channel c.
func dequantMatrix(i, c int, q jx.QMat) F2 {
	rows, cols := shapeOfParam(i)
	s64 := func(p []float64) []float64 { // coded form: the first band is divided by 64
		o := append([]float64{}, p...)
		o[0] *= 64
		return o
	}
	mul := 64.0
	if q.Mode == 0 {
		q, mul = libMat(i), 1
		s64 = func(p []float64) []float64 { return p }
	}
	if q.Mode == 7 {
		w := newF2(cols, rows)
		for y := range w {
			for x := range w[y] {
				w[y][x] = q.Den * float64(q.Raw[c].D[y][x])
			}
		}
		return w
	}
	w := newF2(cols, rows)
	switch q.Mode {
	case 1:
		for y := range w {
			for x := range w[y] {
				w[y][x] = q.P[c][0] * mul
			}
		}
		w[0][1], w[1][0], w[1][1] = q.P[c][1]*mul, q.P[c][1]*mul, q.P[c][2]*mul
	case 2:
		for y := range w {
			for x := range w[y] {
				k := 0
				switch m := max(x, y); {
				case m >= 4:
					k = 4
				case m >= 2:
					k = 2
				}
				lim := []int{1, 0, 2, 0, 4}[k]
				if x >= lim && y >= lim {
					k++
				}
				w[y][x] = q.P[c][k] * mul
			}
		}
	case 3:
		d := dctWeights(4, 4, s64(q.DCT[c]))
		for y := range w {
			for x := range w[y] {
				w[y][x] = d[y/2][x/2]
			}
		}
		w[0][1] /= q.P[c][0]
		w[1][0] /= q.P[c][0]
		w[1][1] /= q.P[c][1]
	case 4:
		d := dctWeights(4, 8, s64(q.DCT[c]))
		for y := range w {
			for x := range w[y] {
				w[y][x] = d[y/2][x]
			}
		}
		w[1][0] /= q.P[c][0]
	case 5:
		d8 := dctWeights(4, 8, s64(q.DCT[c]))
		d4 := dctWeights(4, 4, s64(q.DCT44[c]))
		freqs := []float64{0, 0, 0.8517778890324296, 5.37778436506804, 0, 0, 4.734747904497923, 5.449245381693219,
			1.6598270267479331, 4, 7.275749096817861, 10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235}
		lo, hi := freqs[2], freqs[15]
		p := q.P[c]
		b := bandsOf([]float64{p[5] * mul, p[6], p[7], p[8]})
		for y := 0; y < 4; y++ {
			for x := 0; x < 8; x++ {
				w[2*y+1][x] = d8[y][x]
			}
			for x := 0; x < 4; x++ {
				w[2*y][2*x+1] = d4[y][x]
				if x > 1 || y > 1 {
					w[2*y][2*x] = interp((freqs[4*y+x]-lo)/(hi-lo+1e-6)*3, b)
				}
			}
		}
		w[1][0], w[0][1] = p[0]*mul, p[1]*mul
		w[2][0], w[0][2], w[2][2] = p[2]*mul, p[3]*mul, p[4]*mul
	case 6:
		w = dctWeights(rows, cols, s64(q.DCT[c]))
	}
	for y := range w {
		for x := range w[y] {
			w[y][x] = 1 / w[y][x]
		}
	}
	return w
}

// vardctRef reconstructs the colour planes (X, Y, B order, padded, subsampled
// planes not yet upsampled). lfIn overrides the LF samples (LF frame).
func vardctRef(h *jx.Hdr, f *jx.FrameHdr, v *jx.VarDCT, lfIn *[3]F2) [3]F2 {
	bw, bh := v.Dims(h, f)
	var sx, sy [3]int
	sub := false
	for c := 0; c < 3; c++ {
		sx[c], sy[c] = f.UpShift(c)
		sub = sub || sx[c]+sy[c] > 0
	}
	inv := 65536 / float64(v.GlobalScale)
	dq := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	if v.LFDequant != nil {
		for c := range dq {
			dq[c] = v.LFDequant[c] / 128
		}
	}
	cfl := jx.CfL{Factor: 84, BaseX: 0, BaseB: 1, XLF: 128, BLF: 128}
	if v.Cfl != nil {
		cfl = *v.Cfl
	}
	var lf [3]F2
	if lfIn != nil {
		lf = *lfIn
	} else {
		var step [3]float64
		for c := 0; c < 3; c++ {
			step[c] = inv * dq[c] / float64(v.QuantLF)
			s := step[c] / float64(int(1)<<v.ExtraPrec)
			lf[c] = newF2(bw>>uint(sx[c]), bh>>uint(sy[c]))
			for y := range lf[c] {
				for x := range lf[c][y] {
					lf[c][y][x] = s * float64(v.LF[c][y][x])
				}
			}
		}
		if !sub {
			kx := cfl.BaseX + float64(cfl.XLF-128)/float64(cfl.Factor)
			kb := cfl.BaseB + float64(cfl.BLF-128)/float64(cfl.Factor)
			for y := range lf[1] {
				for x := range lf[1][y] {
					lf[0][y][x] += kx * lf[1][y][x]
					lf[2][y][x] += kb * lf[1][y][x]
				}
			}
		}
		if f.Flags&128 == 0 {
			lf = smoothLF(lf, step)
		}
	}
	qb := [4]float64{1 - 0.05465007330715401, 1 - 0.07005449891748593, 1 - 0.049935103337343655, 0.145}
	if h.Opsin != nil {
		for i := range qb {
			qb[i] = h.Opsin.Q[i]
		}
	}
	qm := [3]float64{inv, inv, inv}
	if h.IsXYB() {
		qm[0] *= math.Pow(0.8, float64(f.XQ-2))
		qm[2] *= math.Pow(0.8, float64(f.BQ-2))
	}
	var out [3]F2
	for c := range out {
		out[c] = newF2(8*(bw>>uint(sx[c])), 8*(bh>>uint(sy[c])))
	}
	mats := map[[2]int]F2{}
	mat := func(p, c int) F2 {
		if m, ok := mats[[2]int{p, c}]; ok {
			return m
		}
		q := jx.QMat{}
		if v.Mats != nil {
			q = v.Mats[p]
		}
		m := dequantMatrix(p, c, q)
		mats[[2]int{p, c}] = m
		return m
	}
	npass := 1
	if f.Passes != nil {
		npass = f.Passes.N
	}
	for i := range v.Blocks {
		b := &v.Blocks[i]
		t := jx.VTypes[b.T]
		rows, cols := t.Rows(), t.Cols()
		var co [3][]float64
		for c := 0; c < 3; c++ {
			co[c] = make([]float64, rows*cols)
			if b.X&(1<<uint(sx[c])-1) != 0 || b.Y&(1<<uint(sy[c])-1) != 0 {
				continue
			}
			m := mat(t.Param, c)
			for k := range co[c] {
				if k/cols < rows/8 && k%cols < cols/8 {
					continue
				}
				q := int32(0)
				for p := 0; p < npass && p < len(b.Coef); p++ {
					if b.Coef[p][c] != nil {
						s := uint(0)
						if f.Passes != nil && p < npass-1 && p < len(f.Passes.Shift) {
							s = uint(f.Passes.Shift[p])
						}
						q += b.Coef[p][c][k] << s
					}
				}
				if q == 0 {
					continue
				}
				var d float64
				switch {
				case q == 1:
					d = qb[c]
				case q == -1:
					d = -qb[c]
				default:
					d = float64(q) - qb[3]/float64(q)
				}
				co[c][k] = d * qm[c] / float64(b.QF) * m[k/cols][k%cols]
			}
		}
		if !sub {
			for k := range co[1] {
				// coefficient position inside the block decides the tile
				tx, ty := b.X/8, b.Y/8
				kx := cfl.BaseX + float64(v.XFromY[ty][tx])/float64(cfl.Factor)
				kb := cfl.BaseB + float64(v.BFromY[ty][tx])/float64(cfl.Factor)
				co[0][k] += kx * co[1][k]
				co[2][k] += kb * co[1][k]
			}
		}
		for c := 0; c < 3; c++ {
			if b.X&(1<<uint(sx[c])-1) != 0 || b.Y&(1<<uint(sy[c])-1) != 0 {
				continue
			}
			x0, y0 := b.X>>uint(sx[c]), b.Y>>uint(sy[c])
			l := lowFreq(func(y, x int) float64 { return lf[c][y0+y][x0+x] }, t.BH, t.BW)
			for fy := range l {
				for fx := range l[fy] {
					if t.Transposed() {
						co[c][fx*cols+fy] = l[fy][fx]
					} else {
						co[c][fy*cols+fx] = l[fy][fx]
					}
				}
			}
			px := invBlock(t, co[c])
			for y := range px {
				copy(out[c][8*y0+y][8*x0:], px[y])
			}
		}
	}
	return out
}

// wrongSmoothing selects the formula of the known finding (one worker = one goroutine).
var wrongSmoothing bool

// smoothLF is the adaptive LF smoothing.
func smoothLF(lf [3]F2, step [3]float64) [3]F2 {
	h, w := len(lf[0]), len(lf[0][0])
	var out [3]F2
	for c := range out {
		out[c] = lf[c].clone()
	}
	if h < 3 || w < 3 {
		return out
	}
	const k0, k1, k2 = 0.05226273532324128, 0.20345139757231578, 0.0334829185968739
	for y := 1; y < h-1; y++ {
		for x := 1; x < w-1; x++ {
			gap := 0.5
			var sm [3]float64
			for c := 0; c < 3; c++ {
				p := lf[c]
				sm[c] = k0*p[y][x] + k1*(p[y-1][x]+p[y+1][x]+p[y][x-1]+p[y][x+1]) + k2*(p[y-1][x-1]+p[y-1][x+1]+p[y+1][x-1]+p[y+1][x+1])
				if wrongSmoothing {
					gap = math.Max(gap, math.Abs(sm[c]-p[y][x])*step[c])
				} else {
					gap = math.Max(gap, math.Abs(sm[c]-p[y][x])/step[c])
				}
			}
			k := math.Max(0, 3-4*gap)
			for c := 0; c < 3; c++ {
				if wrongSmoothing {
					out[c][y][x] = sm[c] + (lf[c][y][x]-sm[c])*k
					continue
				}
				out[c][y][x] += (sm[c] - lf[c][y][x]) * k
			}
		}
	}
	return out
}

// unsample doubles a subsampled plane horizontally or vertically.
func unsampleX(in F2) F2 {
	out := newF2(2*len(in[0]), len(in))
	for y := range in {
		n := len(in[y])
		for x, v := range in[y] {
			out[y][2*x] = 0.75*v + 0.25*in[y][max(0, x-1)]
			out[y][2*x+1] = 0.75*v + 0.25*in[y][min(n-1, x+1)]
		}
	}
	return out
}

func unsampleY(in F2) F2 {
	n := len(in)
	out := newF2(len(in[0]), 2*n)
	for y := range in {
		for x, v := range in[y] {
			out[2*y][x] = 0.75*v + 0.25*in[max(0, y-1)][x]
			out[2*y+1][x] = 0.75*v + 0.25*in[min(n-1, y+1)][x]
		}
	}
	return out
}

var afvBasis = [][]float64{
	{0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25},
	{0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375, 0.2206518106944236, -0.10140050393753777, -0.10140050393753772, -0.10140050393753763,
		-0.10140050393753758, -0.10140050393753769, -0.1014005039375375, -0.10140050393753768, -0.10140050393753768,
		-0.10140050393753759, -0.10140050393753763, -0.10140050393753741},
	{0.0, 0.0, 0.40670075830260755, 0.44444816619734445, 0.0, 0.0, 0.19574399372042936, 0.2929100136981264, -0.40670075830260716,
		-0.19574399372042872, 0.0, 0.11379074460448091, -0.44444816619734384, -0.29291001369812636,
		-0.1137907446044814, 0.0},
	{0.0, 0.0, -0.21255748058288748, 0.3085497062849767, 0.0, 0.4706702258572536, -0.1621205195722993,
		0.0, -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764,
		0.3085497062849487, 0.0, -0.14642918671266536, 0.4251149611657548},
	{0.0, -0.7071067811865474, 0.0, 0.0, 0.7071067811865476, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	{-0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266, 0.6235485373547694,
		-0.06435071657946284, -0.0643507165794628, -0.06435071657946274, -0.06435071657946272, -0.06435071657946279,
		-0.06435071657946266, -0.06435071657946277, -0.06435071657946277, -0.06435071657946273, -0.06435071657946274,
		-0.0643507165794626},
	{0.0, 0.0, -0.4517556589999482, 0.15854503551840063, 0.0, -0.04038515160822202,
		0.0074182263792423875, 0.39351034269210167, -0.45175565899994635, 0.007418226379244351, 0.1107416575309343,
		0.08298163094882051, 0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796},
	{0.0, 0.0, -0.304684750724869, 0.5112616136591823, 0.0, 0.0, -0.290480129728998, -0.06578701549142804,
		0.304684750724884, 0.2904801297290076, 0.0, -0.23889773523344604, -0.5112616136592012, 0.06578701549142545,
		0.23889773523345467, 0.0},
	{0.0, 0.0, 0.3017929516615495, 0.25792362796341184, 0.0, 0.16272340142866204,
		0.09520022653475037, 0.0, 0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297,
		0.25792362796341295, 0.0, -0.3531238544981624, -0.6035859033230976},
	{0.0, 0.0, 0.40824829046386274, 0.0, 0.0,
		0.0, 0.0, -0.4082482904638628, -0.4082482904638635, 0.0, 0.0, -0.40824829046386296, 0.0, 0.4082482904638634,
		0.408248290463863, 0.0},
	{0.0, 0.0, 0.1747866975480809, 0.0812611176717539, 0.0, 0.0, -0.3675398009862027,
		-0.307882213957909, -0.17478669754808135, 0.3675398009862011, 0.0, 0.4826689115059883, -0.08126111767175039,
		0.30788221395790305, -0.48266891150598584, 0.0},
	{0.0, 0.0, -0.21105601049335784, 0.18567180916109802, 0.0, 0.0,
		0.49215859013738733, -0.38525013709251915, 0.21105601049335806, -0.49215859013738905, 0.0, 0.17419412659916217,
		-0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0.0}, {0.0, 0.0, -0.14266084808807264,
		-0.3416446842253372, 0.0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306, -0.14266084808807344,
		0.24627107722075137, 0.14883399227113567, -0.04768680350229251, -0.3416446842253373, -0.08574019035519267,
		-0.047686803502292804, -0.14266084808807242},
	{0.0, 0.0, -0.13813540350758585, 0.3302282550303788, 0.0,
		0.08755115000587084, -0.07946706605909573, -0.4613374887461511, -0.13813540350758294, -0.07946706605910261,
		0.49724647109535086, 0.12538059448563663, 0.3302282550303805, -0.4613374887461554, 0.12538059448564315,
		-0.13813540350758452},
	{0.0, 0.0, -0.17437602599651067, 0.0702790691196284, 0.0, -0.2921026642334881,
		0.3623817333531167, 0.0, -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445,
		0.07027906911962818, 0.0, -0.4326608024727457, 0.34875205199302267},
	{0.0, 0.0, 0.11354987314994337,
		-0.07417504595810355, 0.0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466, 0.11354987314994257,
		-0.4351904965232251, 0.5550443808910661, -0.25468277124066463, -0.07417504595810233, 0.2191868483885728,
		-0.25468277124066413, 0.1135498731499429}}
