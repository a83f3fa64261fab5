package jx

import (
	"fmt"
	"sort"
)

// Hyb is a hybrid integer configuration.
type Hyb struct{ Split, Msb, Lsb int }

func (h Hyb) Encode(v uint32) (tok int, nbits int, bits uint32) {
	split := uint32(1) << uint(h.Split)
	if v < split {
		return int(v), 0, 0
	}
	n := FloorLog2(uint64(v))
	m := v - 1<<uint(n)
	tok = int(split) + ((n - h.Split) << uint(h.Msb+h.Lsb)) + int(m>>uint(n-h.Msb)<<uint(h.Lsb)) + int(m&(1<<uint(h.Lsb)-1))
	nbits = n - h.Msb - h.Lsb
	bits = m >> uint(h.Lsb) & (1<<uint(nbits) - 1)
	return
}

func (h Hyb) write(w *BW, logAlpha int) {
	w.Bits(CeilLog2(uint64(logAlpha)+1), uint64(h.Split))
	if h.Split == logAlpha {
		return
	}
	w.Bits(CeilLog2(uint64(h.Split)+1), uint64(h.Msb))
	w.Bits(CeilLog2(uint64(h.Split-h.Msb)+1), uint64(h.Lsb))
}

// ClusterForm selects how a context map is written.
type ClusterForm int

const (
	ClusterSimple ClusterForm = iota
	ClusterEntropy
	ClusterEntropyMTF
)

// DistForm selects how ANS histograms / prefix codes are written.
type DistForm int

const (
	DistAuto    DistForm = iota // general form (ANS) / complex or simple prefix as needed
	DistFlat                    // ANS flat
	DistSimple                  // ANS simple (1 or 2 symbols) / prefix simple
	DistShift0                  // ANS general with low precision shift
	DistComplex                 // prefix: force complex code
	DistRLE                     // ANS general, use RLE for runs
	DistNoOmitTweak
	DistDual     // ANS simple with two symbols, the greater first; the first unused if there is only one
	DistRLEStart // ANS general, like DistRLE, and a run of unused symbols at the start
	DistRLEMulti // prefix: complex code, runs as sequences of repeat codes
)

// LZ configures LZ77.
type LZ struct {
	MinSymbol uint32 // 224, 512, 4096, 8+u(15)
	MinLength uint32
	LenHyb    Hyb
}

// Code describes how an entropy-coded stream is written.
type Code struct {
	Prefix   bool
	LogAlpha int   // ANS 5..8 (prefix uses 15)
	Map      []int // context -> cluster; nil = all zero
	CForm    ClusterForm
	Hyb      []Hyb // per cluster; nil = {4,1,1} clipped
	Form     []DistForm
	LZ       *LZ
	Freqs    [][]int // optional explicit ANS frequencies per cluster (sum 4096)
	Lens     [][]int // optional explicit prefix lengths per cluster
	AlphaPad int     // extra unused symbols in the alphabet
}

// Tok is one value (or one LZ77 copy) to encode.
type Tok struct {
	Ctx  int
	Val  uint32
	Copy bool   // LZ77 copy: Val = length (>= MinLength)
	Dist uint32 // the distance *value* as coded in the distance context
}

type sym struct {
	cl    int
	tok   int
	nbits int
	bits  uint32
}

// Stream is a prepared entropy stream: header + how to write token sequences.
type Stream struct {
	C     Code
	NCtx  int // including the LZ77 distance context
	NCl   int
	cmap  []int
	freqs [][]int
	lens  [][]int
	codes [][]uint32
	alias []*aliasTab
}

func (c *Code) hyb(cl int) Hyb {
	if cl < len(c.Hyb) {
		return c.Hyb[cl]
	}
	return Hyb{4, 1, 1}
}

func (c *Code) form(cl int) DistForm {
	if cl < len(c.Form) {
		return c.Form[cl]
	}
	return DistAuto
}

func (s *Stream) logAlpha() int {
	if s.C.Prefix {
		return 15
	}
	return s.C.LogAlpha
}

func (s *Stream) expand(toks []Tok) []sym {
	var out []sym
	for _, t := range toks {
		cl := s.cmap[t.Ctx]
		if t.Copy {
			lz := s.C.LZ
			tk, nb, b := lz.LenHyb.Encode(t.Val - lz.MinLength)
			out = append(out, sym{cl, tk + int(lz.MinSymbol), nb, b})
			dcl := s.cmap[s.NCtx-1]
			tk, nb, b = s.C.hyb(dcl).Encode(t.Dist)
			out = append(out, sym{dcl, tk, nb, b})
			continue
		}
		tk, nb, b := s.C.hyb(cl).Encode(t.Val)
		out = append(out, sym{cl, tk, nb, b})
	}
	return out
}

// Prepare computes the distributions covering all the token sequences given.
func Prepare(c Code, nctx int, seqs ...[]Tok) *Stream {
	s := &Stream{C: c, NCtx: nctx}
	if c.LZ != nil {
		s.NCtx++
	}
	s.cmap = make([]int, s.NCtx)
	copy(s.cmap, c.Map)
	for _, k := range s.cmap {
		if k+1 > s.NCl {
			s.NCl = k + 1
		}
	}
	if s.C.LogAlpha == 0 {
		s.C.LogAlpha = 8
	}
	hist := make([][]int, s.NCl)
	for _, q := range seqs {
		for _, y := range s.expand(q) {
			for len(hist[y.cl]) <= y.tok {
				hist[y.cl] = append(hist[y.cl], 0)
			}
			hist[y.cl][y.tok]++
		}
	}
	for i := range hist {
		if len(hist[i]) == 0 {
			hist[i] = []int{1}
		}
		for k := 0; k < c.AlphaPad; k++ {
			hist[i] = append(hist[i], 0)
		}
	}
	if c.Prefix {
		for i := range hist {
			var l []int
			if i < len(c.Lens) && c.Lens[i] != nil {
				l = c.Lens[i]
			} else {
				l = huffLens(hist[i], 15)
			}
			s.lens = append(s.lens, l)
			s.codes = append(s.codes, canon(l))
		}
	} else {
		for i := range hist {
			if len(hist[i]) > 1<<uint(s.C.LogAlpha) {
				panic(fmt.Sprintf("ANS alphabet too large %d", len(hist[i])))
			}
			var f []int
			switch {
			case i < len(c.Freqs) && c.Freqs[i] != nil:
				f = c.Freqs[i]
			case c.form(i) == DistFlat:
				n := len(hist[i])
				f = make([]int, n)
				for k := range f {
					f[k] = 4096 / n
					if k < 4096%n {
						f[k]++
					}
				}
			default:
				f = normalize(hist[i])
				if c.form(i) == DistShift0 {
					f = coarse(f, 0)
				}
			}
			s.freqs = append(s.freqs, f)
			s.alias = append(s.alias, newAlias(f, s.C.LogAlpha))
		}
	}
	return s
}

// normalize to sum 4096 keeping every used symbol >= 1.
func normalize(h []int) []int {
	tot := 0
	for _, v := range h {
		tot += v
	}
	f := make([]int, len(h))
	sum, best := 0, -1
	for i, v := range h {
		if v == 0 {
			continue
		}
		f[i] = v * 4096 / tot
		if f[i] == 0 {
			f[i] = 1
		}
		sum += f[i]
		if best < 0 || f[i] > f[best] {
			best = i
		}
	}
	for sum > 4096 {
		for i := range f {
			if f[i] > 1 && sum > 4096 && f[i] >= f[best]/2 {
				f[i]--
				sum--
			}
		}
	}
	f[best] += 4096 - sum
	return f
}

// omitPos is the position the decoder will infer: the first symbol whose
// log-count is strictly the largest.
func omitPos(f []int) int {
	om, pos := -1, -1
	for i, v := range f {
		lc := 0
		if v > 0 {
			lc = FloorLog2(uint64(v)) + 1
		}
		if lc > om {
			om, pos = lc, i
		}
	}
	return pos
}

func bitcount(shift, lc int) int {
	b := shift - ((12 - lc + 1) >> 1)
	if b < 0 {
		b = 0
	}
	if b > lc-1 {
		b = lc - 1
	}
	return b
}

// coarse rounds frequencies down to what the given shift can express.
func coarse(f []int, shift int) []int {
	g := append([]int{}, f...)
	for iter := 0; iter < 8; iter++ {
		p := omitPos(g)
		sum := 0
		for i, v := range g {
			if i == p || v == 0 {
				continue
			}
			lc := FloorLog2(uint64(v)) + 1
			if lc > 1 {
				drop := lc - 1 - bitcount(shift, lc)
				g[i] = v >> uint(drop) << uint(drop)
			}
			sum += g[i]
		}
		g[p] = 4096 - sum
		if omitPos(g) == p {
			return g
		}
	}
	return f
}

func expressible(f []int, shift int) bool {
	p := omitPos(f)
	for i, v := range f {
		if i == p || v <= 1 {
			continue
		}
		lc := FloorLog2(uint64(v)) + 1
		drop := lc - 1 - bitcount(shift, lc)
		if v>>uint(drop)<<uint(drop) != v {
			return false
		}
	}
	return true
}

var logCountLen = []int{5, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 6, 7, 7}
var logCountBits = []uint64{17, 11, 15, 3, 9, 7, 4, 2, 5, 6, 0, 33, 1, 65}

func (s *Stream) writeANSDist(w *BW, cl int) {
	f := s.freqs[cl]
	var used []int
	for i, v := range f {
		if v > 0 {
			used = append(used, i)
		}
	}
	form := s.C.form(cl)
	if form == DistSimple || form == DistAuto && len(used) <= 2 {
		if len(used) == 1 {
			w.Bits(1, 1)
			w.Bits(1, 0)
			w.U8(used[0])
			return
		}
		if len(used) == 2 {
			w.Bits(1, 1)
			w.Bits(1, 1)
			w.U8(used[0])
			w.U8(used[1])
			w.Bits(12, uint64(f[used[0]]))
			return
		}
	}
	if form == DistDual && len(used) <= 2 {
		v1, v2 := 0, used[0]
		if len(used) == 2 {
			v1 = used[1]
		} else if v2 == 0 {
			v1 = 1
		}
		w.Bits(1, 1)
		w.Bits(1, 1)
		w.U8(v1)
		w.U8(v2)
		w.Bits(12, uint64(4096-f[v2]))
		return
	}
	w.Bits(1, 0)
	if form == DistFlat {
		w.Bits(1, 1)
		w.U8(len(f) - 1)
		return
	}
	w.Bits(1, 0)
	shift := 13
	if form == DistShift0 {
		shift = 0
	}
	if !expressible(f, shift) {
		shift = 13
	}
	// shift = u(len) + (1<<len) - 1
	l := FloorLog2(uint64(shift + 1))
	for i := 0; i < l; i++ {
		w.Bits(1, 1)
	}
	if l < 3 {
		w.Bits(1, 0)
	}
	w.Bits(l, uint64(shift+1-1<<uint(l)))
	n := len(f)
	if n < 3 {
		n = 3
	}
	g := make([]int, n)
	copy(g, f)
	w.U8(n - 3)
	lcs := make([]int, n)
	for i, v := range g {
		if v > 0 {
			lcs[i] = min(FloorLog2(uint64(v))+1, 12) // 13 is the run marker
		}
	}
	// RLE plan: runs of identical frequency following position i-1
	skip := make([]bool, n)
	rle := make([]int, n)
	if form == DistRLE || form == DistRLEStart {
		om := omitPos(g)
		i := 1
		if form == DistRLEStart {
			i = 0
		}
		for i < n {
			j, before := i, 0
			if i > 0 {
				before = g[i-1]
			}
			for j < n && g[j] == before && j != om {
				j++
			}
			// the run may not contain/precede on the omitted symbol
			if i-1 != om && j-i >= 4 {
				rle[i] = j - i
				for k := i; k < j; k++ {
					skip[k] = true
				}
				i = j
			} else {
				i++
			}
		}
	}
	for i := 0; i < n; i++ {
		if rle[i] > 0 {
			w.Bits(logCountLen[13], logCountBits[13])
			w.U8(rle[i] - 4)
			i += rle[i] - 1
			continue
		}
		w.Bits(logCountLen[lcs[i]], logCountBits[lcs[i]])
	}
	om := omitPos(g)
	for i := 0; i < n; i++ {
		if skip[i] || i == om || lcs[i] <= 1 {
			continue
		}
		bc := bitcount(shift, lcs[i])
		w.Bits(bc, uint64(g[i]-1<<uint(lcs[i]-1))>>uint(lcs[i]-1-bc))
	}
}

// ---- alias table ----

type aliasTab struct {
	freq []int
	slot [][]int // symbol -> offset -> slot
}

func newAlias(f []int, logAlpha int) *aliasTab {
	ts := 1 << uint(logAlpha)
	bs := 4096 >> uint(logAlpha)
	D := make([]int, ts)
	copy(D, f)
	cut := make([]int, ts)
	symb := make([]int, ts)
	off := make([]int, ts)
	single := -1
	for i, v := range D {
		if v == 4096 {
			single = i
		}
	}
	if single >= 0 {
		for j := range symb {
			symb[j] = single
			off[j] = j * bs
			cut[j] = 0
		}
	} else {
		var over, under []int
		for i := range D {
			cut[i] = D[i]
			if cut[i] > bs {
				over = append(over, i)
			} else if cut[i] < bs {
				under = append(under, i)
			}
		}
		for len(over) > 0 {
			o := over[len(over)-1]
			over = over[:len(over)-1]
			u := under[len(under)-1]
			under = under[:len(under)-1]
			by := bs - cut[u]
			cut[o] -= by
			symb[u] = o
			off[u] = cut[o]
			if cut[o] < bs {
				under = append(under, o)
			} else if cut[o] > bs {
				over = append(over, o)
			}
		}
		for i := range D {
			if cut[i] == bs {
				symb[i] = i
				off[i] = 0
				cut[i] = 0
			} else {
				off[i] -= cut[i]
			}
		}
	}
	t := &aliasTab{freq: D, slot: make([][]int, ts)}
	for i := range D {
		t.slot[i] = make([]int, D[i])
	}
	for x := 0; x < 4096; x++ {
		i := x / bs
		pos := x % bs
		var s, o int
		if pos >= cut[i] {
			s, o = symb[i], off[i]+pos
		} else {
			s, o = i, pos
		}
		t.slot[s][o] = x
	}
	return t
}

// ---- prefix codes ----

func huffLens(h []int, max int) []int {
	type node struct {
		w    int
		syms []int
	}
	l := make([]int, len(h))
	var ns []node
	for i, v := range h {
		if v > 0 {
			ns = append(ns, node{v, []int{i}})
		}
	}
	if len(ns) == 0 {
		ns = append(ns, node{1, []int{0}})
	}
	if len(ns) == 1 {
		return l // single symbol: length 0 everywhere, symbol identified separately
	}
	if len(ns) > 1<<uint(max) {
		panic("alphabet")
	}
	for len(ns) > 1 {
		sort.SliceStable(ns, func(a, b int) bool { return ns[a].w < ns[b].w })
		m := node{ns[0].w + ns[1].w, append(append([]int{}, ns[0].syms...), ns[1].syms...)}
		for _, s := range m.syms {
			l[s]++
		}
		ns = append([]node{m}, ns[2:]...)
	}
	for _, v := range l {
		if v > max { // fall back to a balanced code
			var used []int
			for i, q := range h {
				if q > 0 {
					used = append(used, i)
				}
			}
			return balanced(len(h), used)
		}
	}
	return l
}

// balanced assigns floor/ceil log2 lengths (complete code).
func balanced(n int, used []int) []int {
	l := make([]int, n)
	k := len(used)
	if k == 1 {
		return l
	}
	b := FloorLog2(uint64(k))
	long := 2 * (k - 1<<uint(b))
	for i, s := range used {
		if i >= k-long {
			l[s] = b + 1
		} else {
			l[s] = b
		}
	}
	return l
}

func rev(v uint32, n int) uint32 {
	r := uint32(0)
	for i := 0; i < n; i++ {
		r = r<<1 | v>>uint(i)&1
	}
	return r
}

// canon returns bit-reversed canonical codes.
func canon(l []int) []uint32 {
	codes := make([]uint32, len(l))
	code := uint32(0)
	for n := 1; n <= 15; n++ {
		for i, v := range l {
			if v == n {
				codes[i] = rev(code, n)
				code++
			}
		}
		code <<= 1
	}
	return codes
}

var clOrder = []int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}

// writePrefix writes the code lengths of one cluster; alphabet size known (>1).
func (s *Stream) writePrefix(w *BW, cl int, hist1 int) {
	l := s.lens[cl]
	n := len(l)
	var used []int
	for i, v := range l {
		if v > 0 {
			used = append(used, i)
		}
	}
	form := s.C.form(cl)
	alphaBits := CeilLog2(uint64(n))
	if len(used) == 0 { // single symbol
		w.Bits(2, 1)
		w.Bits(2, 0)
		w.Bits(alphaBits, uint64(hist1))
		return
	}
	if len(used) <= 4 && form != DistComplex && form != DistRLEMulti {
		ok := true
		order := append([]int{}, used...)
		sort.SliceStable(order, func(a, b int) bool { return l[order[a]] < l[order[b]] })
		tree := 0
		ls := []int{}
		for _, u := range order {
			ls = append(ls, l[u])
		}
		switch fmt.Sprint(ls) {
		case "[1 1]", "[1 2 2]", "[2 2 2 2]":
		case "[1 2 3 3]":
			tree = 1
		default:
			ok = false
		}
		if ok {
			w.Bits(2, 1)
			w.Bits(2, uint64(len(order)-1))
			for _, u := range order {
				w.Bits(alphaBits, uint64(u))
			}
			if len(order) == 4 {
				w.Bits(1, uint64(tree))
			}
			return
		}
	}
	// complex
	type cs struct{ sym, extra, nb int }
	var seq []cs
	last := n
	for last > 0 && l[last-1] == 0 {
		last--
	}
	if form == DistRLE {
		i := 0
		prevNZ := 8
		for i < last {
			v := l[i]
			j := i
			for j < last && l[j] == v {
				j++
			}
			run := j - i
			if v == 0 && run >= 3 {
				if run > 10 {
					run = 10
				}
				seq = append(seq, cs{17, run - 3, 3})
				i += run
				if i < last && l[i] == 0 { // avoid consecutive 17 (they multiply)
					seq = append(seq, cs{0, 0, 0})
					i++
				}
				continue
			}
			if v != 0 && v == prevNZ && run >= 3 {
				if run > 6 {
					run = 6
				}
				seq = append(seq, cs{16, run - 3, 2})
				i += run
				if i < last && l[i] == v {
					seq = append(seq, cs{v, 0, 0})
					i++
				}
				continue
			}
			seq = append(seq, cs{v, 0, 0})
			if v != 0 {
				prevNZ = v
			}
			i++
		}
	} else if form == DistRLEMulti {
		prevNZ := 8
		for i := 0; i < last; {
			v := l[i]
			j := i
			for j < last && l[j] == v {
				j++
			}
			run := j - i
			i = j
			code, nb := 16, 2
			if v == 0 {
				code, nb = 17, 3
			} else if v != prevNZ {
				seq = append(seq, cs{v, 0, 0})
				run--
				prevNZ = v
			}
			if run < 3 {
				for ; run > 0; run-- {
					seq = append(seq, cs{v, 0, 0})
				}
				continue
			}
			var ext []int // least significant digit first
			for r := run - 3; ; r-- {
				ext = append(ext, r&(1<<uint(nb)-1))
				if r >>= uint(nb); r == 0 {
					break
				}
			}
			for k := len(ext) - 1; k >= 0; k-- {
				seq = append(seq, cs{code, ext[k], nb})
			}
		}
	} else {
		for i := 0; i < last; i++ {
			seq = append(seq, cs{l[i], 0, 0})
		}
	}
	h := make([]int, 18)
	for _, c := range seq {
		h[c.sym]++
	}
	cl18 := huffLens(h, 5)
	nz := 0
	for _, v := range cl18 {
		if v > 0 {
			nz++
		}
	}
	only := -1
	if nz == 0 {
		for i, v := range h {
			if v > 0 {
				only = i
			}
		}
		cl18[only] = 1 // single code length symbol: any nonzero length, zero bits used
	}
	hskip := 0
	if cl18[1] == 0 && cl18[2] == 0 {
		hskip = 2
		if cl18[3] == 0 {
			hskip = 3
		}
	}
	w.Bits(2, uint64(hskip))
	// static code for code-length-code lengths 0..5
	stLen := []int{2, 4, 3, 2, 2, 4}
	stBits := []uint64{0, 7, 3, 2, 1, 15}
	space := 32
	for i := hskip; i < 18; i++ {
		v := cl18[clOrder[i]]
		w.Bits(stLen[v], stBits[v])
		if v > 0 {
			space -= 32 >> uint(v)
			if space <= 0 {
				break
			}
		}
	}
	var cc []uint32
	if only < 0 {
		cc = canon(cl18)
	}
	for _, c := range seq {
		if only < 0 {
			w.Bits(cl18[c.sym], uint64(cc[c.sym]))
		}
		w.Bits(c.nb, uint64(c.extra))
	}
}

// WriteHeader writes the entropy code description.
func (s *Stream) WriteHeader(w *BW, sampleSyms map[int]int) {
	c := &s.C
	if c.LZ != nil {
		w.Bool(true)
		w.U32(D(224, 0, 512, 0, 4096, 0, 8, 15), uint64(c.LZ.MinSymbol))
		w.U32(D(3, 0, 4, 0, 5, 2, 9, 8), uint64(c.LZ.MinLength))
		c.LZ.LenHyb.write(w, 8)
	} else {
		w.Bool(false)
	}
	if s.NCtx > 1 {
		WriteClusterMap(w, s.cmap, s.NCl, c.CForm)
	}
	w.Bool(c.Prefix)
	if !c.Prefix {
		w.Bits(2, uint64(c.LogAlpha-5))
	}
	for i := 0; i < s.NCl; i++ {
		c.hyb(i).write(w, s.logAlpha())
	}
	if c.Prefix {
		for i := 0; i < s.NCl; i++ {
			n := len(s.lens[i])
			if n == 1 {
				w.Bits(1, 0)
				continue
			}
			w.Bits(1, 1)
			k := FloorLog2(uint64(n - 1))
			w.Bits(4, uint64(k))
			w.Bits(k, uint64(n-1-1<<uint(k)))
		}
		for i := 0; i < s.NCl; i++ {
			if len(s.lens[i]) > 1 {
				s.writePrefix(w, i, sampleSyms[i])
			}
		}
	} else {
		for i := 0; i < s.NCl; i++ {
			s.writeANSDist(w, i)
		}
	}
}

// WriteClusterMap writes a context map.
func WriteClusterMap(w *BW, cmap []int, ncl int, form ClusterForm) {
	if form == ClusterSimple && ncl <= 8 {
		w.Bool(true)
		nb := CeilLog2(uint64(ncl))
		w.Bits(2, uint64(nb))
		for _, v := range cmap {
			w.Bits(nb, uint64(v))
		}
		return
	}
	w.Bool(false)
	w.Bool(form == ClusterEntropyMTF)
	vals := append([]int{}, cmap...)
	if form == ClusterEntropyMTF {
		list := make([]int, 256)
		for i := range list {
			list[i] = i
		}
		for i, v := range cmap {
			p := 0
			for list[p] != v {
				p++
			}
			vals[i] = p
			copy(list[1:p+1], list[:p])
			list[0] = v
		}
	}
	var toks []Tok
	for _, v := range vals {
		toks = append(toks, Tok{Ctx: 0, Val: uint32(v)})
	}
	st := Prepare(Code{Prefix: true}, 1, toks)
	st.WriteAll(w, toks)
}

// Write writes one token sequence (with its own ANS state).
func (s *Stream) Write(w *BW, toks []Tok) {
	syms := s.expand(toks)
	if s.C.Prefix {
		for _, y := range syms {
			w.Bits(s.lens[y.cl][y.tok], uint64(s.codes[y.cl][y.tok]))
			w.Bits(y.nbits, uint64(y.bits))
		}
		return
	}
	type chunk struct {
		n int
		v uint64
	}
	var rv []chunk
	state := uint64(0x130000)
	for i := len(syms) - 1; i >= 0; i-- {
		y := syms[i]
		if y.nbits > 0 {
			rv = append(rv, chunk{y.nbits, uint64(y.bits)})
		}
		t := s.alias[y.cl]
		f := uint64(t.freq[y.tok])
		if f == 0 {
			panic("zero-frequency symbol")
		}
		if state>>20 >= f {
			rv = append(rv, chunk{16, state & 0xffff})
			state >>= 16
		}
		state = state/f<<12 + uint64(t.slot[y.tok][state%f])
	}
	w.Bits(32, state)
	for i := len(rv) - 1; i >= 0; i-- {
		w.Bits(rv[i].n, rv[i].v)
	}
}

// Single returns, for prefix clusters with a single symbol, that symbol.
func (s *Stream) singles(seqs ...[]Tok) map[int]int {
	m := map[int]int{}
	for _, q := range seqs {
		for _, y := range s.expand(q) {
			m[y.cl] = y.tok
		}
	}
	return m
}

// WriteAll = header + one sequence.
func (s *Stream) WriteAll(w *BW, toks []Tok) {
	s.WriteHeader(w, s.singles(toks))
	s.Write(w, toks)
}

// WriteHeaderFor writes the header given all sequences (for singleton symbols).
func (s *Stream) WriteHeaderFor(w *BW, seqs ...[]Tok) { s.WriteHeader(w, s.singles(seqs...)) }
