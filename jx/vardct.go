package jx

import "sort"

// Varblock types in bitstream order.
type VType struct {
	Name      string
	BW, BH    int // size in 8x8 blocks
	Order     int // coefficient order class
	Param     int // dequantisation matrix
	Transform int // 0 DCT 1 DCT2 2 DCT4 3 Hornuss 4 8x4 (two 4-wide halves) 5 4x8 (two 4-high halves) 6 AFV
	Flip      int // AFV corner: bit 0 = right, bit 1 = bottom
}

var VTypes = []VType{
	{"DCT8", 1, 1, 0, 0, 0, 0},
	{"Hornuss", 1, 1, 1, 1, 3, 0},
	{"DCT2", 1, 1, 1, 2, 1, 0},
	{"DCT4", 1, 1, 1, 3, 2, 0},
	{"DCT16", 2, 2, 2, 4, 0, 0},
	{"DCT32", 4, 4, 3, 5, 0, 0},
	{"DCT16x8", 1, 2, 4, 6, 0, 0},
	{"DCT8x16", 2, 1, 4, 6, 0, 0},
	{"DCT32x8", 1, 4, 5, 7, 0, 0},
	{"DCT8x32", 4, 1, 5, 7, 0, 0},
	{"DCT32x16", 2, 4, 6, 8, 0, 0},
	{"DCT16x32", 4, 2, 6, 8, 0, 0},
	{"DCT4x8", 1, 1, 1, 9, 5, 0},
	{"DCT8x4", 1, 1, 1, 9, 4, 0},
	{"AFV0", 1, 1, 1, 10, 6, 0},
	{"AFV1", 1, 1, 1, 10, 6, 1},
	{"AFV2", 1, 1, 1, 10, 6, 2},
	{"AFV3", 1, 1, 1, 10, 6, 3},
	{"DCT64", 8, 8, 7, 11, 0, 0},
	{"DCT64x32", 4, 8, 8, 12, 0, 0},
	{"DCT32x64", 8, 4, 8, 12, 0, 0},
	{"DCT128", 16, 16, 9, 13, 0, 0},
	{"DCT128x64", 8, 16, 10, 14, 0, 0},
	{"DCT64x128", 16, 8, 10, 14, 0, 0},
	{"DCT256", 32, 32, 11, 15, 0, 0},
	{"DCT256x128", 16, 32, 12, 16, 0, 0},
	{"DCT128x256", 32, 16, 12, 16, 0, 0},
}

// Cols and Rows of the coefficient array: the longer side is horizontal.
func (t VType) Cols() int { return 8 * max(t.BW, t.BH) }
func (t VType) Rows() int { return 8 * min(t.BW, t.BH) }
func (t VType) Cov() int  { return t.BW * t.BH }

// Transposed reports whether rows of the coefficient array are horizontal
// frequencies (square and tall DCTs).
func (t VType) Transposed() bool { return t.Transform == 0 && t.BH >= t.BW }

// OrderShape is the (rows, cols) of the coefficient arrays of an order class.
func OrderShape(o int) (rows, cols int) {
	for _, t := range VTypes {
		if t.Order == o {
			return t.Rows(), t.Cols()
		}
	}
	panic("order")
}

// NaturalOrder lists coefficient indices (row*cols+col) in coding order: the
// low-frequency corner first, then zig-zag over the array stretched to a square.
func NaturalOrder(o int) []int {
	rows, cols := OrderShape(o)
	cx, cy := cols/8, rows/8
	ratio := cx / cy
	out := make([]int, rows*cols)
	cur := cx * cy
	put := func(x, y int) {
		if y%ratio != 0 {
			return
		}
		y /= ratio
		idx := y*cols + x
		if x < cx && y < cy {
			out[y*cx+x] = idx
		} else {
			out[cur] = idx
			cur++
		}
	}
	n := cols
	for d := 0; d <= 2*(n-1); d++ {
		lo, hi := max(0, d-(n-1)), min(d, n-1)
		if d%2 == 0 {
			for x := lo; x <= hi; x++ {
				put(x, d-x)
			}
		} else {
			for x := hi; x >= lo; x-- {
				put(x, d-x)
			}
		}
	}
	return out
}

// VBlock is a varblock; X, Y in 8x8 blocks of the frame, QF is the HF
// multiplier (1..256), Coef[pass][channel] the quantised coefficients (nil = none).
type VBlock struct {
	X, Y, T, QF int
	Coef        [][3][]int32
}

// BlockCtx is the HF block context model.
type BlockCtx struct {
	LFT  [3][]int
	QFT  []int // thresholds: qf > t
	Map  []int
	Form ClusterForm
}

var defaultBlockMap = []int{
	0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6,
	7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14,
	7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14}

// CfL are the global chroma-from-luma parameters.
type CfL struct {
	Factor       int
	BaseX, BaseB float64
	XLF, BLF     int // 0..255, 128 = 0
}

// QMat is one dequantisation matrix specification.
type QMat struct {
	Mode  int // 0 library 1 Hornuss 2 DCT2 3 DCT4 4 DCT4x8 5 AFV 6 DCT 7 raw
	P     [3][]float64
	DCT   [3][]float64 // bands; first entry as coded (before *64)
	DCT44 [3][]float64
	Den   float64
	Raw   [3]*Ch
}

// HFPassHdr describes the coefficient orders and entropy code of a pass.
type HFPassHdr struct {
	Used  uint
	Perm  map[int][3][]int // order class -> permutation of coding positions (natural order indices)
	OCode Code
	Code  Code
	Sel   int // selector+1 for Used
}

// VarDCT is the payload of a VarDCT frame.
type VarDCT struct {
	GlobalScale, QuantLF int
	LFDequant            *[3]float64
	Ctx                  *BlockCtx
	Cfl                  *CfL
	ExtraPrec            int
	LF                   [3][][]int32 // quantised LF, X Y B
	XFromY, BFromY       [][]int32    // per 64x64 tile
	Sharp                [][]int32    // per block
	Blocks               []VBlock
	Mats                 []QMat // nil = all default
	Presets              int    // number of HF presets (>= 1)
	Preset               func(pass, group int) int
	Pass                 []HFPassHdr
	Mod                  Mod // extra channels, tree and codes for the modular parts
	st                   []*Stream
}

// Dims are the padded frame dimensions in blocks.
func (v *VarDCT) Dims(h *Hdr, f *FrameHdr) (bw, bh int) {
	w, hh := f.CodedSize(h)
	mx, my := 0, 0
	if f.YCbCr {
		for c := 0; c < 3; c++ {
			sx, sy := f.UpShift(c)
			mx, my = max(mx, sx), max(my, sy)
		}
	}
	r := func(n, s int) int { n = (n + 7) / 8; return (n + 1<<uint(s) - 1) >> uint(s) << uint(s) }
	return r(w, mx), r(hh, my)
}

// UpShift is the subsampling of channel c (0 = X/Cb, 1 = Y, 2 = B/Cr).
func (f *FrameHdr) UpShift(c int) (sx, sy int) {
	if !f.YCbCr {
		return 0, 0
	}
	one := func(c int) (int, int) {
		switch f.JpegUp[c] {
		case 1:
			return 1, 1
		case 2:
			return 1, 0
		case 3:
			return 0, 1
		}
		return 0, 0
	}
	mx, my := 0, 0
	for i := 0; i < 3; i++ {
		x, y := one(i)
		mx, my = max(mx, x), max(my, y)
	}
	x, y := one(c)
	return mx - x, my - y
}

var coefFreqCtx, coefNzCtx [64]int

func init() {
	for k := 1; k < 64; k++ {
		switch {
		case k < 16:
			coefFreqCtx[k] = k - 1
		case k < 32:
			coefFreqCtx[k] = 15 + (k-16)/2
		default:
			coefFreqCtx[k] = 23 + (k-32)/4
		}
	}
	for k := 1; k < 64; k++ {
		switch {
		case k == 1:
			coefNzCtx[k] = 0
		case k == 2:
			coefNzCtx[k] = 31
		case k < 5:
			coefNzCtx[k] = 62
		case k < 9:
			coefNzCtx[k] = 93
		case k < 13:
			coefNzCtx[k] = 123
		case k < 21:
			coefNzCtx[k] = 152
		case k < 33:
			coefNzCtx[k] = 180
		default:
			coefNzCtx[k] = 206
		}
	}
}

func (b *BlockCtx) clusters() int {
	n := 0
	for _, m := range b.Map {
		n = max(n, m+1)
	}
	return n
}

func subMatrix(c [][]int32, x0, y0, w, h int) *Ch {
	o := NewCh(w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			o.D[y][x] = c[y0+y][x0+x]
		}
	}
	return o
}

// VarDCTSections codes a VarDCT frame.
func VarDCTSections(h *Hdr, f *FrameHdr, v *VarDCT) []*BW {
	m := &v.Mod
	if m.Tree == nil {
		m.Tree = Leaf(5)
	}
	global, lfmod, pgmod, g := ModSubs(h, f, m)
	bw, bh := v.Dims(h, f)
	ctx := v.Ctx
	if ctx == nil {
		ctx = &BlockCtx{Map: defaultBlockMap}
	}
	ncl := ctx.clusters()
	presets := max(1, v.Presets)
	nctx := 495 * presets * ncl
	var sx, sy [3]int
	for c := 0; c < 3; c++ {
		sx[c], sy[c] = f.UpShift(c)
	}
	useLF := f.Flags&32 != 0

	mk := func(stream int, chs []*Ch) *Sub {
		s := &Sub{Stream: stream, Chans: chs, Tree: m.Tree, WP: DefaultWP(), Code: m.Code, TCode: m.TCode, Local: m.NoTree}
		if m.Group != nil {
			m.Group(s)
		}
		return s
	}
	for _, s := range lfmod {
		if m.Group != nil && len(s.Chans) > 0 {
			m.Group(s)
		}
	}
	for _, r := range pgmod {
		for _, s := range r {
			if m.Group != nil && len(s.Chans) > 0 {
				m.Group(s)
			}
		}
	}
	var all []*Sub
	all = append(all, global)
	all = append(all, lfmod...)
	for _, r := range pgmod {
		all = append(all, r...)
	}
	// LF groups
	cd := func(a, b int) int { return (a + b - 1) / b }
	type lfg struct {
		x0, y0, w, h int
		lf, meta     *Sub
		blocks       []*VBlock
	}
	lfgs := make([]*lfg, g.NumLF)
	for i := range lfgs {
		L := &lfg{x0: i % g.NLX * 256, y0: i / g.NLX * 256}
		L.w, L.h = min(256, bw-L.x0), min(256, bh-L.y0)
		for k := range v.Blocks {
			b := &v.Blocks[k]
			if b.X >= L.x0 && b.X < L.x0+L.w && b.Y >= L.y0 && b.Y < L.y0+L.h {
				L.blocks = append(L.blocks, b)
			}
		}
		sort.SliceStable(L.blocks, func(a, b int) bool {
			p, q := L.blocks[a], L.blocks[b]
			return p.Y < q.Y || p.Y == q.Y && p.X < q.X
		})
		if !useLF {
			var chs []*Ch
			for _, c := range []int{1, 0, 2} {
				ch := subMatrix(v.LF[c], L.x0>>uint(sx[c]), L.y0>>uint(sy[c]), L.w>>uint(sx[c]), L.h>>uint(sy[c]))
				ch.HS, ch.VS = sx[c], sy[c]
				chs = append(chs, ch)
			}
			L.lf = mk(1+i, chs)
			all = append(all, L.lf)
		}
		tw, th := cd(L.w, 8), cd(L.h, 8)
		info := NewCh(len(L.blocks), 2)
		for k, b := range L.blocks {
			info.D[0][k], info.D[1][k] = int32(b.T), int32(b.QF-1)
		}
		L.meta = mk(1+2*g.NumLF+i, []*Ch{
			subMatrix(v.XFromY, L.x0/8, L.y0/8, tw, th),
			subMatrix(v.BFromY, L.x0/8, L.y0/8, tw, th),
			info,
			subMatrix(v.Sharp, L.x0, L.y0, L.w, L.h),
		})
		all = append(all, L.meta)
		lfgs[i] = L
	}
	// raw quantisation tables
	raws := map[int]*Sub{}
	for i := range v.Mats {
		if v.Mats[i].Mode == 7 {
			raws[i] = mk(1+3*g.NumLF+i, v.Mats[i].Raw[:])
			all = append(all, raws[i])
		}
	}
	var gseqs [][]Tok
	for _, s := range all {
		if len(s.Chans) == 0 {
			continue
		}
		s.toks = s.Tokenise(nil)
		if m.LZ != nil {
			s.toks = m.LZ(s.Stream, s.toks, s.mult)
		}
		if !s.Local {
			gseqs = append(gseqs, s.toks)
		}
	}
	var gst *Stream
	if !m.NoTree {
		gst = Prepare(m.Code, m.Tree.Leaves(), gseqs...)
	}
	emit := func(w *BW, s *Sub) {
		if s == nil || len(s.Chans) == 0 {
			return
		}
		s.writeHeader(w, !s.Local)
		if s.coded == 0 {
			return
		}
		if s.Local {
			writeTree(w, s.Tree, s.TCode)
			Prepare(s.Code, s.Tree.Leaves(), s.toks).WriteAll(w, s.toks)
			return
		}
		gst.Write(w, s.toks)
	}

	// LF global
	lg := &BW{}
	writeLFDequant(lg, v.LFDequant)
	lg.U32(D(1, 11, 2049, 11, 4097, 12, 8193, 16), uint64(v.GlobalScale))
	lg.U32(D(16, 0, 1, 5, 1, 8, 1, 16), uint64(v.QuantLF))
	lg.Bool(v.Ctx == nil)
	if v.Ctx != nil {
		for i := 0; i < 3; i++ {
			lg.Bits(4, uint64(len(ctx.LFT[i])))
			for _, t := range ctx.LFT[i] {
				lg.U32(D(0, 4, 16, 8, 272, 16, 65808, 32), PackSigned(int64(t)))
			}
		}
		lg.Bits(4, uint64(len(ctx.QFT)))
		for _, t := range ctx.QFT {
			lg.U32(D(0, 2, 4, 3, 12, 5, 44, 8), uint64(t-1))
		}
		WriteClusterMap(lg, ctx.Map, ncl, ctx.Form)
	}
	lg.Bool(v.Cfl == nil)
	if c := v.Cfl; c != nil {
		lg.U32(D(84, 0, 256, 0, 2, 8, 258, 16), uint64(c.Factor))
		lg.F16(c.BaseX)
		lg.F16(c.BaseB)
		lg.Bits(8, uint64(c.XLF))
		lg.Bits(8, uint64(c.BLF))
	}
	lg.Bool(!m.NoTree)
	if !m.NoTree {
		writeTree(lg, m.Tree, m.TCode)
		gst.WriteHeaderFor(lg, gseqs...)
	}
	emit(lg, global)
	secs := []*BW{lg}

	for i, L := range lfgs {
		b := &BW{}
		if !useLF {
			b.Bits(2, uint64(v.ExtraPrec))
			emit(b, L.lf)
		}
		emit(b, lfmod[i])
		b.Bits(CeilLog2(uint64(L.w*L.h)), uint64(len(L.blocks)-1))
		emit(b, L.meta)
		secs = append(secs, b)
	}

	// HF global
	hg := &BW{}
	hg.Bool(v.Mats == nil)
	for i := range v.Mats {
		q := &v.Mats[i]
		hg.Bits(3, uint64(q.Mode))
		dct := func(p [3][]float64) {
			hg.Bits(4, uint64(len(p[0])-1))
			for c := 0; c < 3; c++ {
				for _, x := range p[c] {
					hg.F16(x)
				}
			}
		}
		if q.Mode >= 1 && q.Mode <= 5 {
			for c := 0; c < 3; c++ {
				for _, x := range q.P[c] {
					hg.F16(x)
				}
			}
		}
		if q.Mode >= 3 && q.Mode <= 6 {
			dct(q.DCT)
		}
		if q.Mode == 5 {
			dct(q.DCT44)
		}
		if q.Mode == 7 {
			hg.F16(q.Den)
			emit(hg, raws[i])
		}
	}
	hg.Bits(CeilLog2(uint64(g.NumGroups)), uint64(presets-1))

	// coefficient tokens per pass and group
	toks := make([][][]Tok, g.NumPasses)
	for p := range toks {
		hd := HFPassHdr{}
		if p < len(v.Pass) {
			hd = v.Pass[p]
		}
		orders := map[[2]int][]int{}
		order := func(o, c int) []int {
			if r, ok := orders[[2]int{o, c}]; ok {
				return r
			}
			nat := NaturalOrder(o)
			if pm, ok := hd.Perm[o]; ok && pm[c] != nil {
				r := make([]int, len(nat))
				for i := range r {
					r[i] = nat[pm[c][i]]
				}
				nat = r
			}
			orders[[2]int{o, c}] = nat
			return nat
		}
		toks[p] = make([][]Tok, g.NumGroups)
		for gi := 0; gi < g.NumGroups; gi++ {
			gx, gy := gi%g.NX*32, gi/g.NX*32
			preset := 0
			if v.Preset != nil {
				preset = v.Preset(p, gi)
			}
			base := 495 * ncl * preset
			L := lfgs[gy/256*g.NLX+gx/256]
			var nzs [3][32][32]int
			var out []Tok
			for _, b := range L.blocks {
				if b.X < gx || b.X >= gx+32 || b.Y < gy || b.Y >= gy+32 {
					continue
				}
				t := VTypes[b.T]
				cov := t.Cov()
				lfi := 0
				if v.Ctx != nil {
					var k [3]int
					for c := 0; c < 3; c++ {
						q := v.LF[c][b.Y>>uint(sy[c])][b.X>>uint(sx[c])]
						for _, th := range ctx.LFT[c] {
							if int(q) > th {
								k[c]++
							}
						}
					}
					lfi = (k[0]*(len(ctx.LFT[2])+1)+k[2])*(len(ctx.LFT[1])+1) + k[1]
				}
				qi := 0
				for _, th := range ctx.QFT {
					if b.QF > th {
						qi++
					}
				}
				nlf := (len(ctx.LFT[0]) + 1) * (len(ctx.LFT[1]) + 1) * (len(ctx.LFT[2]) + 1)
				for _, c := range []int{1, 0, 2} {
					lx, ly := b.X-gx, b.Y-gy
					if lx&(1<<uint(sx[c])-1) != 0 || ly&(1<<uint(sy[c])-1) != 0 {
						continue
					}
					lx, ly = lx>>uint(sx[c]), ly>>uint(sy[c])
					ci := []int{1, 0, 2}[c]
					bc := ctx.Map[((ci*13+t.Order)*(len(ctx.QFT)+1)+qi)*nlf+lfi]
					pred := 32
					switch {
					case lx == 0 && ly == 0:
					case lx == 0:
						pred = nzs[c][ly-1][0]
					case ly == 0:
						pred = nzs[c][0][lx-1]
					default:
						pred = (nzs[c][ly-1][lx] + nzs[c][ly][lx-1] + 1) / 2
					}
					var co []int32
					if p < len(b.Coef) {
						co = b.Coef[p][c]
					}
					od := order(t.Order, c)
					nz := 0
					if co != nil {
						for _, k := range od[cov:] {
							if co[k] != 0 {
								nz++
							}
						}
					}
					pc := min(pred, 64)
					if pc >= 8 {
						pc = 4 + pc/2
					}
					out = append(out, Tok{Ctx: base + bc + ncl*pc, Val: uint32(nz)})
					for y := 0; y < t.BH && ly+y < 32; y++ {
						for x := 0; x < t.BW && lx+x < 32; x++ {
							nzs[c][ly+y][lx+x] = (nz + cov - 1) / cov
						}
					}
					if nz == 0 {
						continue
					}
					prev := 1
					if nz > len(od)/16 {
						prev = 0
					}
					for k := cov; nz > 0; k++ {
						cc := base + 37*ncl + 458*bc + (coefNzCtx[(nz+cov-1)/cov]+coefFreqCtx[k/cov])*2 + prev
						val := co[od[k]]
						out = append(out, Tok{Ctx: cc, Val: uint32(PackSigned(int64(val)))})
						prev = 0
						if val != 0 {
							prev = 1
							nz--
						}
					}
				}
			}
			toks[p][gi] = out
		}
		// pass header
		used := D(0x5F, 0, 0x13, 0, 0, 0, 0, 13)
		if hd.Sel == 0 || !hg.U32Sel(used, hd.Sel-1, uint64(hd.Used)) {
			hg.U32(used, uint64(hd.Used))
		}
		if hd.Used != 0 {
			var ot []Tok
			for o := 0; o < 13; o++ {
				if hd.Used>>uint(o)&1 == 0 {
					continue
				}
				rows, cols := OrderShape(o)
				n := rows * cols
				for c := 0; c < 3; c++ {
					var pm []int
					if q, ok := hd.Perm[o]; ok {
						pm = q[c]
					}
					ot = append(ot, permTokens(n, n/64, pm)...)
				}
			}
			code := hd.OCode
			if code.LogAlpha == 0 && !code.Prefix {
				code.Prefix = true
			}
			Prepare(code, 8, ot).WriteAll(hg, ot)
		}
		code := hd.Code
		if code.LogAlpha == 0 && !code.Prefix {
			code.LogAlpha = 8
		}
		v.st = append(v.st[:p:p], Prepare(code, nctx, toks[p]...))
		v.st[p].WriteHeaderFor(hg, toks[p]...)
	}
	secs = append(secs, hg)
	for p := range toks {
		for gi := range toks[p] {
			b := &BW{}
			preset := 0
			if v.Preset != nil {
				preset = v.Preset(p, gi)
			}
			b.Bits(CeilLog2(uint64(presets)), uint64(preset))
			v.st[p].Write(b, toks[p][gi])
			emit(b, pgmod[p][gi])
			secs = append(secs, b)
		}
	}
	if g.Sections == 1 {
		one := &BW{}
		for _, s := range secs {
			one.Append(s)
		}
		secs = []*BW{one}
	}
	return secs
}

// permTokens codes a permutation of n elements whose first skip entries are fixed.
func permTokens(n, skip int, pm []int) []Tok {
	leh := make([]int, n)
	end := skip
	if pm != nil {
		// Lehmer code by a Fenwick tree
		tree := make([]int, n+1)
		add := func(i, d int) {
			for i++; i <= n; i += i & -i {
				tree[i] += d
			}
		}
		sum := func(i int) (s int) {
			for ; i > 0; i -= i & -i {
				s += tree[i]
			}
			return
		}
		for i := 0; i < n; i++ {
			add(i, 1)
		}
		for i := 0; i < n; i++ {
			leh[i] = sum(pm[i])
			add(pm[i], -1)
			if leh[i] != 0 {
				end = i + 1
			}
		}
	}
	out := []Tok{{Ctx: permCtx(n), Val: uint32(end - skip)}}
	prev := 0
	for i := skip; i < end; i++ {
		out = append(out, Tok{Ctx: permCtx(prev), Val: uint32(leh[i])})
		prev = leh[i]
	}
	return out
}
