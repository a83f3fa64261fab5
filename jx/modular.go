package jx

import "math/bits"

// Ch is one modular channel.
type Ch struct {
	W, H   int
	HS, VS int
	D      [][]int32
}

func NewCh(w, h int) *Ch {
	c := &Ch{W: w, H: h, D: make([][]int32, h)}
	for y := range c.D {
		c.D[y] = make([]int32, w)
	}
	return c
}

func (c *Ch) Clone() *Ch {
	n := NewCh(c.W, c.H)
	n.HS, n.VS = c.HS, c.VS
	for y := range c.D {
		copy(n.D[y], c.D[y])
	}
	return n
}

// Node is a meta-adaptive tree node. Prop < 0: leaf.
type Node struct {
	Prop int
	Val  int32
	L, R *Node // L taken when property > Val
	Pred int
	Off  int32
	MulLog,
	MulBits int
	ctx int
}

func Leaf(pred int) *Node { return &Node{Prop: -1, Pred: pred} }
func LeafX(pred int, off int32, mulLog, mulBits int) *Node {
	return &Node{Prop: -1, Pred: pred, Off: off, MulLog: mulLog, MulBits: mulBits}
}
func Split(prop int, val int32, l, r *Node) *Node { return &Node{Prop: prop, Val: val, L: l, R: r} }

func (n *Node) mul() int32 { return int32(n.MulBits+1) << uint(n.MulLog) }

// bfs numbers the leaves in serialisation order and returns nodes and #leaves.
func (n *Node) bfs() ([]*Node, int) {
	q := []*Node{n}
	leaves := 0
	for i := 0; i < len(q); i++ {
		if q[i].Prop >= 0 {
			q = append(q, q[i].L, q[i].R)
		} else {
			q[i].ctx = leaves
			leaves++
		}
	}
	return q, leaves
}

func (n *Node) tokens() []Tok {
	q, _ := n.bfs()
	var t []Tok
	for _, x := range q {
		t = append(t, Tok{Ctx: 1, Val: uint32(x.Prop + 1)})
		if x.Prop >= 0 {
			t = append(t, Tok{Ctx: 0, Val: uint32(PackSigned(int64(x.Val)))})
			continue
		}
		t = append(t, Tok{Ctx: 2, Val: uint32(x.Pred)}, Tok{Ctx: 3, Val: uint32(PackSigned(int64(x.Off)))},
			Tok{Ctx: 4, Val: uint32(x.MulLog)}, Tok{Ctx: 5, Val: uint32(x.MulBits)})
	}
	return t
}

func (n *Node) Leaves() int { _, l := n.bfs(); return l }

func (n *Node) usesWP() bool {
	if n.Prop < 0 {
		return n.Pred == 6
	}
	return n.Prop == 15 || n.L.usesWP() || n.R.usesWP()
}

// WP holds the self-correcting predictor parameters.
type WP struct {
	P1, P2, A, B, C, D, E int
	W                     [4]int
}

func DefaultWP() WP { return WP{16, 10, 7, 7, 7, 0, 0, [4]int{13, 12, 12, 12}} }

func (p WP) write(w *BW) {
	if p == DefaultWP() {
		w.Bool(true)
		return
	}
	w.Bool(false)
	for _, v := range []int{p.P1, p.P2, p.A, p.B, p.C, p.D, p.E} {
		w.Bits(5, uint64(v))
	}
	for _, v := range p.W {
		w.Bits(4, uint64(v))
	}
}

// wpState follows the reference software's formulation: the per-predictor
// error of a pixel is also added to the accumulator of its north-east
// neighbour in the previous row.
type wpState struct {
	p    WP
	w    int
	sub  [4][2][]int64 // two alternating rows (w+2)
	err  [2][]int64
	pr   [4]int64
	pred int64
	row  int
}

func newWP(p WP, w int) *wpState {
	s := &wpState{p: p, w: w}
	for i := range s.sub {
		s.sub[i][0] = make([]int64, w+3)
		s.sub[i][1] = make([]int64, w+3)
	}
	s.err[0] = make([]int64, w+3)
	s.err[1] = make([]int64, w+3)
	return s
}

func errWeight(x int64, maxw int64) int64 {
	sh := bits.Len64(uint64(x+1)) - 1 - 5
	if sh < 0 {
		sh = 0
	}
	return 4 + (maxw * ((1 << 24) / ((x >> uint(sh)) + 1)) >> uint(sh))
}

// predict returns (prediction, max-error property) for pixel (x, y).
func (s *wpState) predict(x, y int, N, W, NE, NW, NN int64) (int64, int64) {
	cur, prev := y&1, 1-y&1
	N, W, NE, NW, NN = N*8, W*8, NE*8, NW*8, NN*8
	xNE := x
	if x+1 < s.w {
		xNE = x + 1
	}
	xNW := x
	if x > 0 {
		xNW = x - 1
	}
	var wt [4]int64
	for i := 0; i < 4; i++ {
		e := s.sub[i][prev]
		wt[i] = errWeight(e[x]+e[xNE]+e[xNW], int64(s.p.W[i]))
	}
	var teW int64
	if x > 0 {
		teW = s.err[cur][x-1]
	}
	teN := s.err[prev][x]
	teNW := s.err[prev][xNW]
	teNE := s.err[prev][xNE]
	sumWN := teN + teW
	s.pr[0] = W + NE - N
	s.pr[1] = N - ((sumWN+teNE)*int64(s.p.P1))>>5
	s.pr[2] = W - ((sumWN+teNW)*int64(s.p.P2))>>5
	s.pr[3] = N - (teNW*int64(s.p.A)+teN*int64(s.p.B)+teNE*int64(s.p.C)+(NN-N)*int64(s.p.D)+(NW-W)*int64(s.p.E))>>5
	prop := teW
	for _, v := range []int64{teN, teNW, teNE} {
		if abs(v) > abs(prop) {
			prop = v
		}
	}
	var sum int64
	for _, v := range wt {
		sum += v
	}
	lg := bits.Len64(uint64(sum)) - 1
	sum = 0
	for i := range wt {
		wt[i] >>= uint(lg - 4)
		sum += wt[i]
	}
	acc := sum>>1 - 1
	for i := range wt {
		acc += s.pr[i] * wt[i]
	}
	s.pred = (acc * ((1 << 24) / sum)) >> 24
	if (teN^teW)|(teN^teNW) <= 0 {
		mx, mn := max(W, NE, N), min(W, NE, N)
		s.pred = min(max(s.pred, mn), mx)
	}
	return (s.pred + 3) >> 3, prop
}

func (s *wpState) update(x, y int, v int64) {
	cur, prev := y&1, 1-y&1
	v *= 8
	s.err[cur][x] = s.pred - v
	for i := 0; i < 4; i++ {
		e := (abs(s.pr[i]-v) + 3) >> 3
		s.sub[i][cur][x] = e
		s.sub[i][prev][x+1] += e
	}
}

func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// neighbours of (x,y) with the standard edge rules.
type nb struct{ W, N, NW, NE, NN, WW, NEE int64 }

func neigh(c *Ch, x, y int) nb {
	g := func(xx, yy int) int64 { return int64(c.D[yy][xx]) }
	var n nb
	switch {
	case x > 0:
		n.W = g(x-1, y)
	case y > 0:
		n.W = g(x, y-1)
	}
	n.N = n.W
	if y > 0 {
		n.N = g(x, y-1)
	}
	n.NW = n.W
	if x > 0 && y > 0 {
		n.NW = g(x-1, y-1)
	}
	n.NE = n.N
	if y > 0 && x+1 < c.W {
		n.NE = g(x+1, y-1)
	}
	n.NN = n.N
	if y > 1 {
		n.NN = g(x, y-2)
	}
	n.WW = n.W
	if x > 1 {
		n.WW = g(x-2, y)
	}
	n.NEE = n.NE
	if y > 0 && x+2 < c.W {
		n.NEE = g(x+2, y-1)
	}
	return n
}

func clampGrad(n, w, nw int64) int64 {
	v := n + w - nw
	return min(max(v, min(n, w)), max(n, w))
}

func predictWith(p int, n nb, wp int64) int64 {
	switch p {
	case 0:
		return 0
	case 1:
		return n.W
	case 2:
		return n.N
	case 3:
		return (n.W + n.N) / 2
	case 4:
		// select: W if it is closer to the planar estimate
		e := n.W + n.N - n.NW
		if abs(e-n.W) < abs(e-n.N) {
			return n.W
		}
		return n.N
	case 5:
		return clampGrad(n.N, n.W, n.NW)
	case 6:
		return wp
	case 7:
		return n.NE
	case 8:
		return n.NW
	case 9:
		return n.WW
	case 10:
		return (n.W + n.NW) / 2
	case 11:
		return (n.N + n.NW) / 2
	case 12:
		return (n.N + n.NE) / 2
	case 13:
		return (6*n.N - 2*n.NN + 7*n.W + n.WW + n.NEE + 3*n.NE + 8) / 16
	}
	panic("predictor")
}

// Sub is one modular sub-bitstream.
type Sub struct {
	Stream int
	Chans  []*Ch // after forward transforms, in bitstream order (meta first)
	NMeta  int
	Tree   *Node
	WP     WP
	// MaxDim limits which channels are coded here (global stream); 0 = all.
	MaxDim int
	Trs    []Tr
	Local  bool // writes its own tree (not the global one)
	Code   Code // entropy code for the data when Local
	TCode  Code // entropy code for the local tree
	toks   []Tok
	mult   int
	coded  int
}

// LZPlan chooses LZ77 copies for a token stream.
type LZPlan func(vals []uint32, mult int) []LZCopy

// LZCopy replaces Len values starting at Pos with a copy from Dist back.
type LZCopy struct{ Pos, Len, Code int }

// Coded returns the number of leading channels coded in this stream.
func (s *Sub) Coded() int {
	n := 0
	for i, c := range s.Chans {
		if s.MaxDim > 0 && i >= s.NMeta && (c.W > s.MaxDim || c.H > s.MaxDim) {
			break
		}
		n++
	}
	return n
}

// Tokenise computes the residual tokens (reference encoder).
func (s *Sub) Tokenise(visit func(props []int64, pred int64)) []Tok {
	s.Tree.bfs()
	var toks []Tok
	n := s.Coded()
	s.coded = n
	for _, c := range s.Chans[:n] {
		if c.H > 0 && c.W > s.mult {
			s.mult = c.W
		}
	}
	for ci := 0; ci < n; ci++ {
		c := s.Chans[ci]
		wp := newWP(s.WP, c.W)
		for y := 0; y < c.H; y++ {
			// a fresh "row start": property 8 uses the previous pixel's
			// gradient property, which is 0 at x = 0
			prevGrad := int64(0)
			for x := 0; x < c.W; x++ {
				nn := neigh(c, x, y)
				wpred, maxErr := wp.predict(x, y, nn.N, nn.W, nn.NE, nn.NW, nn.NN)
				grad := nn.W + nn.N - nn.NW
				node := s.Tree
				for node.Prop >= 0 {
					v := s.property(node.Prop, ci, x, y, nn, grad, prevGrad, maxErr)
					if v > int64(node.Val) {
						node = node.L
					} else {
						node = node.R
					}
				}
				p := predictWith(node.Pred, nn, wpred)
				d := int64(c.D[y][x]) - p - int64(node.Off)
				m := int64(node.mul())
				if m == 1 {
					d = int64(int32(d)) // samples of 32 bits wrap
				}
				if d%m != 0 {
					panic(NotDivisible{})
				}
				toks = append(toks, Tok{Ctx: node.ctx, Val: uint32(PackSigned(d / m))})
				wp.update(x, y, int64(c.D[y][x]))
				prevGrad = grad
			}
		}
	}
	return toks
}

type NotDivisible struct{}

func (s *Sub) property(k, ci, x, y int, n nb, grad, prevGrad, maxErr int64) int64 {
	switch k {
	case 0:
		return int64(ci)
	case 1:
		return int64(s.Stream)
	case 2:
		return int64(y)
	case 3:
		return int64(x)
	case 4:
		return abs(n.N)
	case 5:
		return abs(n.W)
	case 6:
		return n.N
	case 7:
		return n.W
	case 8:
		return n.W - prevGrad
	case 9:
		return grad
	case 10:
		return n.W - n.NW
	case 11:
		return n.NW - n.N
	case 12:
		return n.N - n.NE
	case 13:
		return n.N - n.NN
	case 14:
		return n.W - n.WW
	case 15:
		return maxErr
	}
	// reference channel properties
	want := (k - 16) / 4
	c := s.Chans[ci]
	for j := ci - 1; j >= 0; j-- {
		r := s.Chans[j]
		if r.W != c.W || r.H != c.H || r.HS != c.HS || r.VS != c.VS {
			continue
		}
		if want > 0 {
			want--
			continue
		}
		v := int64(r.D[y][x])
		var W, N, NW int64
		if x > 0 {
			W = int64(r.D[y][x-1])
		}
		N = W
		if y > 0 {
			N = int64(r.D[y-1][x])
		}
		NW = W
		if x > 0 && y > 0 {
			NW = int64(r.D[y-1][x-1])
		}
		g := v - clampGrad(N, W, NW)
		switch (k - 16) % 4 {
		case 0:
			return abs(v)
		case 1:
			return v
		case 2:
			return abs(g)
		default:
			return g
		}
	}
	return 0
}

// ---- transforms (forward direction, plus header syntax) ----

// Tr is a modular transform header.
type Tr struct {
	Kind     int // 0 RCT, 1 palette, 2 squeeze
	Begin    int
	RCT      int
	NumC     int
	NbCol    int
	NbDelta  int
	DPred    int
	Sq       []Sq // explicit squeeze params (nil = default)
	sqActual []Sq
}

type Sq struct {
	Horiz, InPlace bool
	Begin, Num     int
}

func (t *Tr) write(w *BW) {
	w.Bits(2, uint64(t.Kind))
	if t.Kind != 2 {
		w.U32(D(0, 3, 8, 6, 72, 10, 1096, 13), uint64(t.Begin))
	}
	switch t.Kind {
	case 0:
		w.U32(D(6, 0, 0, 2, 2, 4, 10, 6), uint64(t.RCT))
	case 1:
		w.U32(D(1, 0, 3, 0, 4, 0, 1, 13), uint64(t.NumC))
		w.U32(D(0, 8, 256, 10, 1280, 12, 5376, 16), uint64(t.NbCol))
		w.U32(D(0, 0, 1, 8, 257, 10, 1281, 16), uint64(t.NbDelta))
		w.Bits(4, uint64(t.DPred))
	case 2:
		w.U32(D(0, 0, 1, 4, 9, 6, 41, 8), uint64(len(t.Sq)))
		for _, s := range t.Sq {
			w.Bool(s.Horiz)
			w.Bool(s.InPlace)
			w.U32(D(0, 3, 8, 6, 72, 10, 1096, 13), uint64(s.Begin))
			w.U32(D(1, 0, 2, 0, 3, 0, 4, 4), uint64(s.Num))
		}
	}
}

// ForwardRCT produces coded channels from the three output channels.
func ForwardRCT(chs []*Ch, begin, rct int) {
	perm, typ := rct/7, rct%7
	// output position of v[j] per permutation
	var pos [3]int
	pos[0] = perm % 3
	pos[1] = (perm + 1 + perm/3) % 3
	pos[2] = (perm + 2 - perm/3) % 3
	in := [3]*Ch{chs[begin], chs[begin+1], chs[begin+2]}
	v := [3]*Ch{in[pos[0]].Clone(), in[pos[1]].Clone(), in[pos[2]].Clone()}
	for y := 0; y < v[0].H; y++ {
		for x := 0; x < v[0].W; x++ {
			a, b, c := int64(v[0].D[y][x]), int64(v[1].D[y][x]), int64(v[2].D[y][x])
			// a,b,c are the *decoded* v0,v1,v2; find coded values
			var f, s, t int64
			if typ == 6 {
				R, G, B := a, b, c
				Co := R - B
				tmp := B + Co>>1
				Cg := G - tmp
				Y := tmp + Cg>>1
				f, s, t = Y, Co, Cg
			} else {
				f = a
				s, t = b, c
				switch typ >> 1 {
				case 1:
					s = b - a
				case 2:
					s = b - (a+c)>>1
				}
				if typ&1 == 1 {
					t = c - a
				}
			}
			v[0].D[y][x], v[1].D[y][x], v[2].D[y][x] = int32(f), int32(s), int32(t)
		}
	}
	chs[begin], chs[begin+1], chs[begin+2] = v[0], v[1], v[2]
}

// DefaultSqueeze computes the implicit squeeze parameters.
func DefaultSqueeze(chs []*Ch, nmeta int) []Sq {
	var out []Sq
	n := len(chs) - nmeta
	w, h := chs[nmeta].W, chs[nmeta].H
	if n > 2 && chs[nmeta+1].W == w && chs[nmeta+1].H == h {
		out = append(out, Sq{true, false, nmeta + 1, 2}, Sq{false, false, nmeta + 1, 2})
	}
	if h >= w && h > 8 {
		out = append(out, Sq{false, true, nmeta, n})
		h = (h + 1) / 2
	}
	for w > 8 || h > 8 {
		if w > 8 {
			out = append(out, Sq{true, true, nmeta, n})
			w = (w + 1) / 2
		}
		if h > 8 {
			out = append(out, Sq{false, true, nmeta, n})
			h = (h + 1) / 2
		}
	}
	return out
}

// Tendency is the smooth-tendency function of the squeeze transform.
func Tendency(B, a, n int64) int64 {
	var d int64
	if B >= a && a >= n {
		d = (4*B - 3*n - a + 6) / 12
		if d-(d&1) > 2*(B-a) {
			d = 2*(B-a) + 1
		}
		if d+(d&1) > 2*(a-n) {
			d = 2 * (a - n)
		}
	} else if B <= a && a <= n {
		d = (4*B - 3*n - a - 6) / 12
		if d+(d&1) < 2*(B-a) {
			d = 2*(B-a) - 1
		}
		if d-(d&1) < 2*(a-n) {
			d = 2 * (a - n)
		}
	}
	return d
}

// squeeze1 forward-squeezes a line into averages and residuals.
func squeeze1(in []int32) (avg, res []int32) {
	n := len(in)
	na := (n + 1) / 2
	avg = make([]int32, na)
	res = make([]int32, n/2)
	for i := 0; i < na; i++ {
		if 2*i+1 < n {
			A, B := int64(in[2*i]), int64(in[2*i+1])
			// first = avg + diff/2 (towards zero), second = first - diff
			d := A - B
			avg[i] = int32(A - d/2)
		} else {
			avg[i] = in[2*i]
		}
	}
	for i := range res {
		a := int64(avg[i])
		next := a
		if i+1 < na {
			next = int64(avg[i+1])
		}
		left := a
		if i > 0 {
			left = int64(in[2*i-1])
		}
		res[i] = int32(int64(in[2*i]) - int64(in[2*i+1]) - Tendency(left, a, next))
	}
	return
}

func ForwardSqueeze(chs []*Ch, nmeta int, sq []Sq) ([]*Ch, int) {
	for _, s := range sq {
		end := s.Begin + s.Num - 1
		off := len(chs)
		if s.InPlace {
			off = end + 1
		}
		if s.Begin < nmeta {
			nmeta += s.Num
		}
		for c := s.Begin; c <= end; c++ {
			ch := chs[c]
			var a, r *Ch
			if s.Horiz {
				a, r = NewCh((ch.W+1)/2, ch.H), NewCh(ch.W/2, ch.H)
				a.HS, a.VS = ch.HS+1, ch.VS
				r.HS, r.VS = ch.HS+1, ch.VS
				for y := 0; y < ch.H; y++ {
					av, re := squeeze1(ch.D[y])
					copy(a.D[y], av)
					copy(r.D[y], re)
				}
			} else {
				a, r = NewCh(ch.W, (ch.H+1)/2), NewCh(ch.W, ch.H/2)
				a.HS, a.VS = ch.HS, ch.VS+1
				r.HS, r.VS = ch.HS, ch.VS+1
				for x := 0; x < ch.W; x++ {
					col := make([]int32, ch.H)
					for y := range col {
						col[y] = ch.D[y][x]
					}
					av, re := squeeze1(col)
					for y := range av {
						a.D[y][x] = av[y]
					}
					for y := range re {
						r.D[y][x] = re[y]
					}
				}
			}
			chs[c] = a
			p := off + c - s.Begin
			chs = append(chs[:p], append([]*Ch{r}, chs[p:]...)...)
		}
	}
	return chs, nmeta
}

// PaletteValue is the value of palette index idx for component c.
func PaletteValue(pal *Ch, nbCol int, idx int, c int, depth int) int64 {
	maxv := int64(1)<<uint(depth) - 1
	if idx < 0 {
		if c >= 3 {
			return 0
		}
		i := (-(idx + 1)) % 143
		v := int64(DeltaPalette[(i+1)>>1][c])
		if i&1 == 0 {
			v = -v
		}
		if depth > 8 {
			v *= 1 << uint(depth-8)
		}
		return v
	}
	if idx < nbCol {
		return int64(pal.D[c][idx])
	}
	i := int64(idx - nbCol)
	if i < 64 {
		i >>= uint(2 * c)
		half := int64(0)
		if depth >= 3 {
			half = 1 << uint(depth-3)
		} else {
			half = 1
		}
		return (i%4)*maxv/4 + half
	}
	i -= 64
	for k := 0; k < c; k++ {
		i /= 5
	}
	return (i % 5) * maxv / 4
}

// DeltaPalette is the table of implicit delta palette entries.
var DeltaPalette = [72][3]int32{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10},
	{-18, -18, -18}, {-27, -27, -27}, {-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37},
	{0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24}, {-24, -45, -45}, {0, -24, -24},
	{-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80},
	{64, 0, 0}, {0, 0, -64}, {0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0},
	{45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45}, {45, 45, -24}, {0, -32, 32},
	{24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36},
	{45, -24, -45}, {45, -45, -24}, {0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45},
	{-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64}, {64, -64, -64}, {96, 0, 96},
	{45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45},
}

// InversePalette expands an index channel into NumC value channels.
func InversePalette(pal, idx *Ch, t Tr, depth int, wp WP) []*Ch {
	out := make([]*Ch, t.NumC)
	for c := range out {
		o := NewCh(idx.W, idx.H)
		o.HS, o.VS = idx.HS, idx.VS
		st := newWP(wp, idx.W)
		for y := 0; y < o.H; y++ {
			for x := 0; x < o.W; x++ {
				i := int(idx.D[y][x])
				v := PaletteValue(pal, t.NbCol, i, c, depth)
				var wpred int64
				var nn nb
				nn = neigh(o, x, y)
				if t.DPred == 6 {
					wpred, _ = st.predict(x, y, nn.N, nn.W, nn.NE, nn.NW, nn.NN)
				}
				if i < t.NbDelta {
					v += predictWith(t.DPred, nn, wpred)
				}
				o.D[y][x] = int32(v)
				if t.DPred == 6 {
					st.update(x, y, v)
				}
			}
		}
		out[c] = o
	}
	return out
}

// Synthesise fills a channel so that its residuals under a single leaf are the
// values produced by res (which already includes the leaf multiplier).
func Synthesise(c *Ch, leaf *Node, p WP, res func() int32) {
	wp := newWP(p, c.W)
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			nn := neigh(c, x, y)
			wpred, _ := wp.predict(x, y, nn.N, nn.W, nn.NE, nn.NW, nn.NN)
			c.D[y][x] = int32(predictWith(leaf.Pred, nn, wpred)) + leaf.Off + res()
			wp.update(x, y, int64(c.D[y][x]))
		}
	}
}
