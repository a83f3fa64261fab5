package jx

import "math"

// BitDepth is a sample format.
type BitDepth struct {
	Float     bool
	Bits, Exp int
}

func (b BitDepth) write(w *BW) {
	w.Bool(b.Float)
	if b.Float {
		w.U32(D(32, 0, 16, 0, 24, 0, 1, 6), uint64(b.Bits))
		w.Bits(4, uint64(b.Exp-1))
	} else {
		w.U32(D(8, 0, 10, 0, 12, 0, 1, 6), uint64(b.Bits))
	}
}

// EC is an extra channel description.
type EC struct {
	Default  bool // d_alpha
	Type     int
	BD       BitDepth
	DimShift int
	Name     string
	Assoc    bool
	Spot     [4]float64
	Cfa      int
}

var nameLen = D(0, 0, 0, 4, 16, 5, 48, 10)

func writeName(w *BW, s string) {
	w.U32(nameLen, uint64(len(s)))
	w.Bytes([]byte(s))
}

func (e EC) write(w *BW) {
	w.Bool(e.Default)
	if e.Default {
		return
	}
	w.Enum(e.Type)
	e.BD.write(w)
	w.U32(D(0, 0, 3, 0, 4, 0, 1, 3), uint64(e.DimShift))
	writeName(w, e.Name)
	if e.Type == 0 {
		w.Bool(e.Assoc)
	}
	if e.Type == 2 {
		for _, v := range e.Spot {
			w.F16(v)
		}
	}
	if e.Type == 5 {
		w.U32(D(1, 0, 0, 2, 3, 4, 19, 8), uint64(e.Cfa))
	}
}

// Colour is the colour encoding bundle.
type Colour struct {
	Default bool
	ICC     bool
	Space   int // 0 RGB 1 gray 2 XYB 3 unknown
	White   int // 1 D65 2 custom 10 E 11 DCI
	WhiteXY [2]int32
	Prim    int // 1 sRGB 2 custom 9 2100 11 P3
	PrimXY  [6]int32
	Gamma   int // >0: use gamma
	TF      int // 1 709, 2 unknown, 8 linear, 13 sRGB, 16 PQ, 17 DCI, 18 HLG
	Intent  int
}

var xyDist = D(0, 19, 524288, 19, 1048576, 20, 2097152, 21)

func (c Colour) write(w *BW) {
	w.Bool(c.Default)
	if c.Default {
		return
	}
	w.Bool(c.ICC)
	w.Enum(c.Space)
	if !c.ICC && c.Space != 2 {
		w.Enum(c.White)
		if c.White == 2 {
			w.U32(xyDist, PackSigned(int64(c.WhiteXY[0])))
			w.U32(xyDist, PackSigned(int64(c.WhiteXY[1])))
		}
		if c.Space != 1 {
			w.Enum(c.Prim)
			if c.Prim == 2 {
				for _, v := range c.PrimXY {
					w.U32(xyDist, PackSigned(int64(v)))
				}
			}
		}
	}
	if !c.ICC {
		w.Bool(c.Gamma > 0)
		if c.Gamma > 0 {
			w.Bits(24, uint64(c.Gamma))
		} else {
			w.Enum(c.TF)
		}
		w.Enum(c.Intent)
	}
}

// GrayColour / RGBColour are explicit sRGB encodings.
func GrayColour() Colour { return Colour{Space: 1, White: 1, TF: 13, Intent: 1} }

// Tone is the tone mapping bundle (half floats).
type Tone struct {
	Default          bool
	Target, Min, Lin float64
	Relative         bool
}

// Hdr is an image header.
type Hdr struct {
	W, H        int
	SizeForm    int // 0 smallest explicit, 1 div8, 2 ratio (needs RatioNo)
	USel        int // selector+1 for explicit size U32s (0 = smallest)
	RatioNo     int
	AllDefault  bool
	ExtraFields bool
	Orientation int // 1..8
	Intrinsic   *[2]int
	Preview     *[2]int
	PrevDiv8    bool // sizes as multiples of 8
	PrevRatio   int
	Anim        bool
	BD          BitDepth
	Mod16       bool
	EC          []EC
	XYB         bool
	Colour      Colour
	Tone        Tone
	Ext         map[int][]byte // extension payloads (bytes; lengths in BYTES*8 bits per spec)
	DefaultM    bool
	Opsin       *Opsin
	Up2, Up4    []uint16
	Up8         []uint16
	ICCCode     *Code
	ICC         []byte            // *encoded* ICC stream (after ICC transform)
	ICCToks     func([]Tok) []Tok // rewrites the symbols, e.g. with copies
}

// Opsin is the custom opsin inverse matrix bundle (half floats).
type Opsin struct {
	M    [9]float64
	Bias [3]float64
	Q    [4]float64
}

// NewHdr is a minimal lossless header: 8-bit RGB, no extras.
func NewHdr(w, h int) *Hdr {
	return &Hdr{W: w, H: h, Orientation: 1, BD: BitDepth{Bits: 8}, Mod16: true,
		Colour: Colour{Default: true}, Tone: Tone{Default: true}, DefaultM: true}
}

var SizeDist = D(1, 9, 1, 13, 1, 18, 1, 30)

func ratioW(r, h int) int {
	switch r {
	case 1:
		return h
	case 2:
		return h * 6 / 5
	case 3:
		return h * 4 / 3
	case 4:
		return h * 3 / 2
	case 5:
		return h * 16 / 9
	case 6:
		return h * 5 / 4
	case 7:
		return h * 2
	}
	return 0
}

// RatioW returns the width implied by aspect ratio code r.
func RatioW(r, h int) int { return ratioW(r, h) }

func (h *Hdr) writeSize(w *BW, W, H int) {
	div8 := h.SizeForm == 1
	w.Bool(div8)
	one := func(v int) {
		if div8 {
			w.Bits(5, uint64(v/8-1))
		} else if h.USel > 0 {
			if !w.U32Sel(SizeDist, h.USel-1, uint64(v)) {
				panic("size not representable")
			}
		} else {
			w.U32(SizeDist, uint64(v))
		}
	}
	one(H)
	w.Bits(3, uint64(h.RatioNo))
	if h.RatioNo == 0 {
		one(W)
	}
}

// NColour returns the number of colour channels of the image.
func (h *Hdr) NColour() int {
	if !h.AllDefault && !h.Colour.Default && h.Colour.Space == 1 {
		return 1
	}
	return 3
}

func (h *Hdr) extraFields() bool {
	return h.ExtraFields || h.Orientation > 1 || h.Intrinsic != nil || h.Preview != nil || h.Anim || !h.Tone.Default
}

// Write emits signature + image header (up to and including ICC + padding).
func (h *Hdr) Write(w *BW) {
	w.Bits(16, 0x0AFF)
	h.writeSize(w, h.W, h.H)
	w.Bool(h.AllDefault)
	if !h.AllDefault {
		ef := h.extraFields()
		w.Bool(ef)
		if ef {
			w.Bits(3, uint64(h.Orientation-1))
			w.Bool(h.Intrinsic != nil)
			if h.Intrinsic != nil {
				(&Hdr{}).writeSize(w, h.Intrinsic[0], h.Intrinsic[1])
			}
			w.Bool(h.Preview != nil)
			if h.Preview != nil {
				w.Bool(h.PrevDiv8)
				d, q := D(1, 6, 65, 8, 321, 10, 1345, 12), 1
				if h.PrevDiv8 {
					d, q = D(16, 0, 32, 0, 1, 5, 33, 9), 8
				}
				w.U32(d, uint64(h.Preview[1]/q))
				w.Bits(3, uint64(h.PrevRatio))
				if h.PrevRatio == 0 {
					w.U32(d, uint64(h.Preview[0]/q))
				}
			}
			w.Bool(h.Anim)
			if h.Anim {
				w.Bits(2, 0) // 100 tps
				w.Bits(2, 0) // denom 1
				w.Bits(2, 0) // loops 0
				w.Bool(false)
			}
		}
		h.BD.write(w)
		w.Bool(h.Mod16)
		w.U32(D(0, 0, 1, 0, 2, 4, 1, 12), uint64(len(h.EC)))
		for _, e := range h.EC {
			e.write(w)
		}
		w.Bool(h.XYB)
		h.Colour.write(w)
		if ef {
			w.Bool(h.Tone.Default)
			if !h.Tone.Default {
				w.F16(h.Tone.Target)
				w.F16(h.Tone.Min)
				w.Bool(h.Tone.Relative)
				w.F16(h.Tone.Lin)
			}
		}
		writeExt(w, h.Ext)
	}
	w.Bool(h.DefaultM)
	if !h.DefaultM {
		if h.xyb() {
			w.Bool(h.Opsin == nil)
			if h.Opsin != nil {
				for _, v := range h.Opsin.M {
					w.F16(v)
				}
				for _, v := range h.Opsin.Bias {
					w.F16(v)
				}
				for _, v := range h.Opsin.Q {
					w.F16(v)
				}
			}
		}
		m := 0
		if h.Up2 != nil {
			m |= 1
		}
		if h.Up4 != nil {
			m |= 2
		}
		if h.Up8 != nil {
			m |= 4
		}
		w.Bits(3, uint64(m))
		for _, u := range [][]uint16{h.Up2, h.Up4, h.Up8} {
			for _, v := range u {
				w.F16Bits(v)
			}
		}
	}
	if !h.AllDefault && !h.Colour.Default && h.Colour.ICC {
		w.U64(uint64(len(h.ICC)))
		var toks []Tok
		for i := range h.ICC {
			toks = append(toks, Tok{Ctx: ICCContext(h.ICC, i), Val: uint32(h.ICC[i])})
		}
		c := Code{Prefix: true}
		if h.ICCCode != nil {
			c = *h.ICCCode
		}
		if h.ICCToks != nil {
			toks = h.ICCToks(toks)
		}
		Prepare(c, 41, toks).WriteAll(w, toks)
	}
	w.Pad()
}

func (h *Hdr) xyb() bool { return h.AllDefault || h.XYB }

// IsXYB reports whether the image is XYB encoded.
func (h *Hdr) IsXYB() bool { return h.xyb() }

// extension lengths are written in bits by the format.
func writeExt(w *BW, ext map[int][]byte) {
	var key uint64
	for k := range ext {
		key |= 1 << uint(k)
	}
	w.U64(key)
	for i := 0; i < 64; i++ {
		if b, ok := ext[i]; ok {
			w.U64(uint64(len(b)) * 8)
		}
	}
	for i := 0; i < 64; i++ {
		if b, ok := ext[i]; ok {
			w.Bytes(b)
		}
	}
}

// ICCContext is the context of byte i of an encoded ICC stream.
func ICCContext(b []byte, i int) int {
	if i <= 128 {
		return 0
	}
	letter := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' || c == '.' || c == ',' }
	b1, b2 := b[i-1], b[i-2]
	var p1, p2 int
	switch {
	case letter(b1):
		p1 = 0
	case digit(b1):
		p1 = 1
	case b1 <= 1:
		p1 = 2 + int(b1)
	case b1 < 16:
		p1 = 4
	case b1 > 240 && b1 < 255:
		p1 = 5
	case b1 == 255:
		p1 = 6
	default:
		p1 = 7
	}
	switch {
	case letter(b2):
		p2 = 0
	case digit(b2):
		p2 = 1
	case b2 < 16:
		p2 = 2
	case b2 > 240:
		p2 = 3
	default:
		p2 = 4
	}
	return 1 + p1 + 8*p2
}

// Blend is a blending info bundle.
type Blend struct {
	Mode   int // 0 replace 1 add 2 blend 3 muladd 4 mul
	Alpha  int
	Clamp  bool
	Source int
}

// RF is the restoration filter bundle.
type RF struct {
	Default      bool
	Gab          bool
	GabW         *[6]float64 // w1,w2 per channel
	EPF          int
	SharpLut     *[8]float64
	Weights      *[3]float64
	Sigma        *[4]float64 // quant_mul (vardct), pass0, pass2, border
	SigmaMod     float64     // sigma for modular
	NoSigmaMod   bool
	NoWeightFlag bool // leave out epf_weight_custom
	Ext          map[int][]byte
}

// Passes describes progressive passes.
type Passes struct {
	N     int
	Shift []int
	DS    []int
	Last  []int
}

// FrameHdr is a frame header.
type FrameHdr struct {
	AllDefault bool
	Type       int // 0 regular 1 LF 2 reference-only 3 skip-progressive
	Modular    bool
	Flags      uint64
	YCbCr      bool
	JpegUp     [3]int
	Up         int // log2
	EcUp       []int
	GroupShift int
	XQ, BQ     int
	Passes     *Passes
	LFLevel    int
	Crop       bool
	X0, Y0     int
	W, H       int
	Blend      Blend
	EcBlend    []Blend
	IsLast     bool
	SaveRef    int
	BeforeCT   bool
	Name       string
	RF         RF
	Ext        map[int][]byte
}

var cropDist = D(0, 8, 256, 11, 2304, 14, 18688, 30)

// BoundsSize is the frame's nominal (pre-upsampling-division) size.
func (f *FrameHdr) nominal(h *Hdr) (int, int) {
	if f.Crop {
		return f.W, f.H
	}
	return h.W, h.H
}

// CodedSize is the size of the coded frame.
func (f *FrameHdr) CodedSize(h *Hdr) (int, int) {
	w, hh := f.nominal(h)
	s := 1 << uint(f.Up+3*f.LFLevel)
	return (w + s - 1) / s, (hh + s - 1) / s
}

// Full reports whether the frame covers the whole image.
func (f *FrameHdr) Full(h *Hdr) bool {
	if !f.Crop {
		return true
	}
	x0, y0 := f.X0, f.Y0
	if f.Type == 2 {
		x0, y0 = 0, 0
	}
	return x0 <= 0 && y0 <= 0 && x0+f.W >= h.W && y0+f.H >= h.H
}

// Last reports whether decoding ends after the frame.
func (f *FrameHdr) Last() bool {
	return f.AllDefault || f.IsLast && (f.Type == 0 || f.Type == 3)
}

func (b Blend) write(w *BW, extra, full bool) {
	w.U32(D(0, 0, 1, 0, 2, 0, 3, 2), uint64(b.Mode))
	if extra && (b.Mode == 2 || b.Mode == 3) {
		w.U32(D(0, 0, 1, 0, 2, 0, 3, 3), uint64(b.Alpha))
	}
	if extra && (b.Mode == 2 || b.Mode == 3) || b.Mode == 4 {
		w.Bool(b.Clamp)
	}
	if b.Mode != 0 || !full {
		w.Bits(2, uint64(b.Source))
	}
}

func (r *RF) write(w *BW, modular bool) {
	w.Bool(r.Default)
	if r.Default {
		return
	}
	w.Bool(r.Gab)
	if r.Gab {
		w.Bool(r.GabW != nil)
		if r.GabW != nil {
			for _, v := range r.GabW {
				w.F16(v)
			}
		}
	}
	w.Bits(2, uint64(r.EPF))
	if r.EPF > 0 {
		if !modular {
			w.Bool(r.SharpLut != nil)
			if r.SharpLut != nil {
				for _, v := range r.SharpLut {
					w.F16(v)
				}
			}
		}
		if !r.NoWeightFlag {
			w.Bool(r.Weights != nil)
		}
		if r.Weights != nil {
			for _, v := range r.Weights {
				w.F16(v)
			}
			w.Bits(32, 0)
		}
		w.Bool(r.Sigma != nil)
		if r.Sigma != nil {
			if !modular {
				w.F16(r.Sigma[0])
			}
			w.F16(r.Sigma[1])
			w.F16(r.Sigma[2])
			w.F16(r.Sigma[3])
		}
		if modular {
			w.F16(r.SigmaMod)
		}
	}
	writeExt(w, r.Ext)
}

// Write emits the frame header.
func (f *FrameHdr) Write(w *BW, h *Hdr) {
	w.Bool(f.AllDefault)
	if f.AllDefault {
		return
	}
	w.Bits(2, uint64(f.Type))
	w.Bool(f.Modular)
	w.U64(f.Flags)
	if !h.xyb() {
		w.Bool(f.YCbCr)
	}
	useLF := f.Flags&32 != 0
	if f.YCbCr && !useLF {
		for _, v := range f.JpegUp {
			w.Bits(2, uint64(v))
		}
	}
	if !useLF {
		w.Bits(2, uint64(f.Up))
		for i := range h.EC {
			u := 0
			if i < len(f.EcUp) {
				u = f.EcUp[i]
			}
			w.Bits(2, uint64(u))
		}
	}
	if f.Modular {
		w.Bits(2, uint64(f.GroupShift))
	} else if h.xyb() {
		w.Bits(3, uint64(f.XQ))
		w.Bits(3, uint64(f.BQ))
	}
	if f.Type != 2 {
		p := f.Passes
		if p == nil {
			p = &Passes{N: 1}
		}
		w.U32(D(1, 0, 2, 0, 3, 0, 4, 3), uint64(p.N))
		if p.N > 1 {
			w.U32(D(0, 0, 1, 0, 2, 0, 3, 1), uint64(len(p.DS)))
			for i := 0; i < p.N-1; i++ {
				s := 0
				if i < len(p.Shift) {
					s = p.Shift[i]
				}
				w.Bits(2, uint64(s))
			}
			for _, d := range p.DS {
				w.Bits(2, uint64(FloorLog2(uint64(d))))
			}
			for _, l := range p.Last {
				w.U32(D(0, 0, 1, 0, 2, 0, 0, 3), uint64(l))
			}
		}
	}
	if f.Type == 1 {
		w.Bits(2, uint64(f.LFLevel-1))
	} else {
		w.Bool(f.Crop)
		if f.Crop {
			if f.Type != 2 {
				w.U32(cropDist, PackSigned(int64(f.X0)))
				w.U32(cropDist, PackSigned(int64(f.Y0)))
			}
			w.U32(cropDist, uint64(f.W))
			w.U32(cropDist, uint64(f.H))
		}
	}
	full := f.Full(h)
	normal := f.Type == 0 || f.Type == 3
	if normal {
		f.Blend.write(w, len(h.EC) > 0, full)
		for i := range h.EC {
			var b Blend
			if i < len(f.EcBlend) {
				b = f.EcBlend[i]
			}
			b.write(w, true, full)
		}
		w.Bool(f.IsLast)
	}
	last := f.IsLast && normal
	if f.Type != 1 && !last {
		w.Bits(2, uint64(f.SaveRef))
	}
	if f.Type == 2 || full && normal && !last && f.Blend.Mode == 0 {
		w.Bool(f.BeforeCT)
	}
	writeName(w, f.Name)
	f.RF.write(w, f.Modular)
	writeExt(w, f.Ext)
}

// TOC describes how the sections are laid out.
type TOC struct {
	Perm []int // Perm[i] = storage position of logical section i; nil = identity
	Code *Code // entropy code for the permutation
	Sel  int   // selector+1 for the sizes U32 (0 = smallest)
	End  int   // number of trailing zero Lehmer entries that are coded nevertheless
}

func permCtx(v int) int {
	c := CeilLog2(uint64(v) + 1)
	if c > 7 {
		c = 7
	}
	return c
}

var tocDist = D(0, 10, 1024, 14, 17408, 22, 4211712, 30)

// WriteSections emits the table of contents and the sections.
func WriteSections(w *BW, secs []*BW, t TOC) {
	if len(secs) == 0 {
		panic("no sections")
	}
	for _, s := range secs {
		s.Pad()
	}
	n := len(secs)
	order := make([]int, n) // storage position -> logical
	for i := range order {
		order[i] = i
	}
	w.Bool(t.Perm != nil)
	if t.Perm != nil {
		var toks []Tok
		avail := make([]int, n)
		for i := range avail {
			avail[i] = i
		}
		leh := make([]int, n)
		end := 0
		for i := 0; i < n; i++ {
			for k, v := range avail {
				if v == t.Perm[i] {
					leh[i] = k
					avail = append(avail[:k], avail[k+1:]...)
					break
				}
			}
			if leh[i] != 0 {
				end = i + 1
			}
		}
		end = min(n, end+t.End)
		toks = append(toks, Tok{Ctx: permCtx(n), Val: uint32(end)})
		prev := 0
		for i := 0; i < end; i++ {
			toks = append(toks, Tok{Ctx: permCtx(prev), Val: uint32(leh[i])})
			prev = leh[i]
		}
		c := Code{Prefix: true}
		if t.Code != nil {
			c = *t.Code
		}
		Prepare(c, 8, toks).WriteAll(w, toks)
		for i, p := range t.Perm {
			order[p] = i
		}
	}
	w.Pad()
	for _, l := range order {
		if t.Sel == 0 || !w.U32Sel(tocDist, t.Sel-1, uint64(len(secs[l].B))) {
			w.U32(tocDist, uint64(len(secs[l].B)))
		}
	}
	w.Pad()
	for _, l := range order {
		w.Bytes(secs[l].B)
	}
}

// Mod is the modular payload of a frame.
type Mod struct {
	Chans  []*Ch // coded channels after global transforms (meta first)
	NMeta  int
	Trs    []Tr // global transform headers
	Tree   *Node
	WP     WP // global stream WP parameters
	Code   Code
	TCode  Code // tree entropy code
	NoTree bool // no global tree: every sub-stream is local
	// Group customises a non-global sub-stream before it is coded: it may
	// apply local transforms (chans), set a local tree, other WP params.
	Group func(s *Sub)
	// LZ rewrites a token stream with LZ77 copies (mult = distance multiplier).
	LZ func(stream int, toks []Tok, mult int) []Tok
	// LFDequant: nil = default
	LFDequant *[3]float64
}

// Geo is the group geometry of a frame.
type Geo struct {
	GroupDim            int
	NX, NY, NLX, NLY    int
	NumGroups, NumLF    int
	NumPasses, Sections int
}

func Geometry(h *Hdr, f *FrameHdr) Geo {
	var g Geo
	w, hh := f.CodedSize(h)
	g.GroupDim = 256
	if f.Modular {
		g.GroupDim = 128 << uint(f.GroupShift)
	}
	cd := func(a, b int) int { return (a + b - 1) / b }
	g.NX, g.NY = cd(w, g.GroupDim), cd(hh, g.GroupDim)
	g.NLX, g.NLY = cd(w, g.GroupDim*8), cd(hh, g.GroupDim*8)
	g.NumGroups, g.NumLF = g.NX*g.NY, g.NLX*g.NLY
	g.NumPasses = 1
	if f.Passes != nil && f.Type != 2 {
		g.NumPasses = f.Passes.N
	}
	if g.NumGroups == 1 && g.NumPasses == 1 {
		g.Sections = 1
	} else {
		g.Sections = 2 + g.NumLF + g.NumGroups*g.NumPasses
	}
	return g
}

func bracket(p *Passes, pass int) (minS, maxS int) {
	n := 1
	if p != nil {
		n = p.N
	}
	maxS, minS = 2, 3
	for i := 0; ; i++ {
		if p != nil {
			for j := range p.DS {
				if i == p.Last[j] {
					minS = FloorLog2(uint64(p.DS[j]))
				}
			}
		}
		if i == n-1 {
			minS = 0
		}
		if i == pass {
			return
		}
		maxS = minS - 1
	}
}

// subHeader writes the per-sub-stream modular header.
func (s *Sub) writeHeader(w *BW, global bool) {
	w.Bool(global)
	s.WP.write(w)
	w.U32(D(0, 0, 1, 0, 2, 4, 18, 8), uint64(len(s.Trs)))
	for i := range s.Trs {
		s.Trs[i].write(w)
	}
}

func writeTree(w *BW, t *Node, c Code) {
	toks := t.tokens()
	Prepare(c, 6, toks).WriteAll(w, toks)
}

// ModSubs splits the channels into sub-streams: index 0 is the global one,
// then numLF LF-group streams, then pass groups.
func ModSubs(h *Hdr, f *FrameHdr, m *Mod) (global *Sub, lf []*Sub, pg [][]*Sub, g Geo) {
	g = Geometry(h, f)
	global = &Sub{Stream: 0, Chans: m.Chans, NMeta: m.NMeta, Tree: m.Tree, WP: m.WP, MaxDim: g.GroupDim, Trs: m.Trs, Local: m.NoTree, Code: m.Code, TCode: m.TCode}
	coded := global.Coded()
	cut := func(c *Ch, x0, y0, dim int) *Ch {
		px, py := x0>>uint(c.HS), y0>>uint(c.VS)
		w, hh := dim>>uint(c.HS), dim>>uint(c.VS)
		if px+w > c.W {
			w = c.W - px
		}
		if py+hh > c.H {
			hh = c.H - py
		}
		if w <= 0 || hh <= 0 {
			return nil
		}
		o := NewCh(w, hh)
		o.HS, o.VS = c.HS, c.VS
		for y := 0; y < hh; y++ {
			copy(o.D[y], c.D[py+y][px:px+w])
		}
		return o
	}
	for i := 0; i < g.NumLF; i++ {
		s := &Sub{Stream: 1 + g.NumLF + i, Tree: m.Tree, WP: DefaultWP(), Local: m.NoTree, Code: m.Code, TCode: m.TCode}
		for _, c := range m.Chans[coded:] {
			if min(c.HS, c.VS) < 3 {
				continue
			}
			if o := cut(c, i%g.NLX*g.GroupDim*8, i/g.NLX*g.GroupDim*8, g.GroupDim*8); o != nil {
				s.Chans = append(s.Chans, o)
			}
		}
		lf = append(lf, s)
	}
	for p := 0; p < g.NumPasses; p++ {
		mn, mx := bracket(f.Passes, p)
		if f.Type == 2 {
			mn, mx = bracket(nil, 0)
		}
		var row []*Sub
		for i := 0; i < g.NumGroups; i++ {
			s := &Sub{Stream: 1 + 3*g.NumLF + 17 + g.NumGroups*p + i, Tree: m.Tree, WP: DefaultWP(), Local: m.NoTree, Code: m.Code, TCode: m.TCode}
			for _, c := range m.Chans[coded:] {
				k := min(c.HS, c.VS)
				if k < mn || k > mx {
					continue
				}
				if o := cut(c, i%g.NX*g.GroupDim, i/g.NX*g.GroupDim, g.GroupDim); o != nil {
					s.Chans = append(s.Chans, o)
				}
			}
			row = append(row, s)
		}
		pg = append(pg, row)
	}
	return
}

// EncodeModular writes a whole modular frame (header, TOC, sections).
func EncodeModular(w *BW, h *Hdr, f *FrameHdr, m *Mod, t TOC) {
	f.Write(w, h)
	secs := ModularSections(h, f, m)
	WriteSections(w, secs, t)
}

// ModularSections builds the sections of a modular frame.
func ModularSections(h *Hdr, f *FrameHdr, m *Mod) []*BW {
	global, lf, pg, g := ModSubs(h, f, m)
	all := []*Sub{global}
	rest := append([]*Sub{}, lf...)
	for _, r := range pg {
		rest = append(rest, r...)
	}
	for _, s := range rest {
		if m.Group != nil && len(s.Chans) > 0 {
			m.Group(s)
		}
	}
	all = append(all, rest...)
	var gseqs [][]Tok
	for _, s := range all {
		if len(s.Chans) == 0 {
			continue
		}
		s.toks = s.Tokenise(nil)
		if m.LZ != nil {
			s.toks = m.LZ(s.Stream, s.toks, s.mult)
		}
		if !s.Local {
			gseqs = append(gseqs, s.toks)
		}
	}
	var gst *Stream
	if !m.NoTree {
		gst = Prepare(m.Code, m.Tree.Leaves(), gseqs...)
	}
	emit := func(w *BW, s *Sub) {
		if len(s.Chans) == 0 {
			return
		}
		s.writeHeader(w, !s.Local)
		if s.coded == 0 {
			return
		}
		if s.Local {
			writeTree(w, s.Tree, s.TCode)
			st := Prepare(s.Code, s.Tree.Leaves(), s.toks)
			st.WriteAll(w, s.toks)
			return
		}
		gst.Write(w, s.toks)
	}
	lfg := &BW{}
	writeLFDequant(lfg, m.LFDequant)
	lfg.Bool(!m.NoTree)
	if !m.NoTree {
		writeTree(lfg, m.Tree, m.TCode)
		gst.WriteHeaderFor(lfg, gseqs...)
	}
	emit(lfg, global)
	secs := []*BW{lfg}
	for _, s := range lf {
		b := &BW{}
		emit(b, s)
		secs = append(secs, b)
	}
	secs = append(secs, &BW{}) // HFGlobal: empty for modular frames
	for _, r := range pg {
		for _, s := range r {
			b := &BW{}
			emit(b, s)
			secs = append(secs, b)
		}
	}
	if g.Sections == 1 {
		one := &BW{}
		for _, s := range secs {
			one.Append(s)
		}
		secs = []*BW{one}
	}
	return secs
}

func writeLFDequant(w *BW, d *[3]float64) {
	w.Bool(d == nil)
	if d != nil {
		for _, v := range d {
			w.F16(v)
		}
	}
}

// Box makes a container box. form: 0 = 32-bit size, 1 = 64-bit size, 2 = to EOF.
func Box(typ string, payload []byte, form int) []byte {
	var b []byte
	n := len(payload)
	be32 := func(v int) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	switch form {
	case 0:
		be32(n + 8)
		b = append(b, typ...)
	case 1:
		be32(1)
		b = append(b, typ...)
		be32(0)
		be32(n + 16)
	case 2:
		be32(0)
		b = append(b, typ...)
	}
	return append(b, payload...)
}

// Signature box and ftyp box of the container.
func ContainerStart() []byte {
	b := Box("JXL ", []byte{0x0d, 0x0a, 0x87, 0x0a}, 0)
	return append(b, Box("ftyp", []byte("jxl \x00\x00\x00\x00jxl "), 0)...)
}

// F32 helper.
func F32(v float64) float32 { return float32(v) }

var _ = math.Pi
