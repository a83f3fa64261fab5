package jx

import "encoding/binary"

// ICCEnc builds the encoded form of an ICC profile: commands, data, and Out, the profile
// they stand for.
type ICCEnc struct {
	Cmd, Data, Out []byte
	Size           int // declared size of the profile
	prevStart      uint64
	prevSize       uint64
}

func Varint(b []byte, v uint64) []byte {
	for ; v > 127; v >>= 7 {
		b = append(b, byte(v)|128)
	}
	return append(b, byte(v))
}

// ICCPredictHeader is the predicted value of byte i of the header of a profile of n bytes
// that starts with b.
func ICCPredictHeader(b []byte, i, n int) byte {
	const tmpl = "\x00\x00\x00\x00\x00\x00\x00\x00\x04\x00\x00\x00mntrRGB XYZ \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00acsp"
	switch {
	case i < 4:
		return byte(n >> (24 - 8*i))
	case i < len(tmpl):
		return tmpl[i]
	case i >= 41 && i < 44 && b[40] == 'A':
		return "PPL"[i-41]
	case i >= 41 && i < 44 && b[40] == 'M':
		return "SFT"[i-41]
	case i >= 42 && i < 44 && b[40] == 'S' && b[41] == 'G':
		return "I "[i-42]
	case i >= 42 && i < 44 && b[40] == 'S' && b[41] == 'U':
		return "NW"[i-42]
	case i == 70:
		return 246
	case i == 71:
		return 214
	case i == 73:
		return 1
	case i == 78:
		return 211
	case i == 79:
		return 45
	case i >= 80 && i < 84:
		return b[i-76]
	}
	return 0
}

// Header encodes the first min(128, size) bytes of the profile.
func (e *ICCEnc) Header(h []byte) {
	for i := range h {
		e.Data = append(e.Data, h[i]-ICCPredictHeader(e.Out, i, e.Size))
		e.Out = append(e.Out, h[i])
	}
}

// Tags starts the tag table of n tags; n < 0 means there is none.
func (e *ICCEnc) Tags(n int) {
	e.Cmd = Varint(e.Cmd, uint64(n+1))
	if n >= 0 {
		e.Out = binary.BigEndian.AppendUint32(e.Out, uint32(n))
		e.prevStart = 128 + 12*uint64(n)
		e.prevSize = 0
	}
}

var ICCTagNames = []string{"cprt", "wtpt", "bkpt", "rXYZ", "gXYZ", "bXYZ", "kXYZ", "rTRC", "gTRC", "bTRC", "kTRC", "chad", "desc", "chrm", "dmnd", "dmdd", "lumi"}

func xyzTag(s string) bool {
	switch s {
	case "rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi":
		return true
	}
	return false
}

// Tag adds the entry (or, for codes 2 and 3, the three entries) of a tag command. start and
// size < 0 leave them to the defaults.
func (e *ICCEnc) Tag(code int, name string, start, size int64) {
	c := byte(code)
	if start >= 0 {
		c |= 0x40
	}
	if size >= 0 {
		c |= 0x80
	}
	e.Cmd = append(e.Cmd, c)
	switch {
	case code == 1:
		e.Data = append(e.Data, name...)
	case code == 2:
		name = "rTRC"
	case code == 3:
		name = "rXYZ"
	default:
		name = ICCTagNames[code-4]
	}
	st, sz := e.prevStart+e.prevSize, e.prevSize
	if xyzTag(name) {
		sz = 20
	}
	if start >= 0 {
		st = uint64(start)
		e.Cmd = Varint(e.Cmd, st)
	}
	if size >= 0 {
		sz = uint64(size)
		e.Cmd = Varint(e.Cmd, sz)
	}
	e.prevStart, e.prevSize = st, sz
	entry := func(n string, s uint64) {
		e.Out = append(e.Out, n...)
		e.Out = binary.BigEndian.AppendUint32(e.Out, uint32(s))
		e.Out = binary.BigEndian.AppendUint32(e.Out, uint32(sz))
	}
	entry(name, st)
	switch code {
	case 2:
		entry("gTRC", st)
		entry("bTRC", st)
	case 3:
		entry("gXYZ", st+sz)
		entry("bXYZ", st+2*sz)
	}
}

func (e *ICCEnc) EndTags() { e.Cmd = append(e.Cmd, 0) }

func (e *ICCEnc) Insert(b []byte) {
	e.Cmd = Varint(append(e.Cmd, 1), uint64(len(b)))
	e.Data = append(e.Data, b...)
	e.Out = append(e.Out, b...)
}

// ICCShuffleOpen tells lengths whose shuffling in planes of width is read differently by
// different implementations of the format.
func ICCShuffleOpen(n, width int) bool { return width == 4 && n > 2 && (n%4 == 1 || n%4 == 2) }

// iccOrder returns, for each position of the shuffled bytes, its position in the data.
func iccOrder(n, width int) []int {
	h := (n + width - 1) / width
	o := make([]int, n)
	s, j := 0, 0
	for i := range o {
		o[i] = j
		j += h
		if j >= n {
			s++
			j = s
		}
	}
	return o
}

func shuffled(b []byte, width int) []byte {
	r := make([]byte, len(b))
	for i, j := range iccOrder(len(b), width) {
		r[j] = b[i]
	}
	return r
}

// Shuffle inserts bytes stored as width (2 or 4) planes.
func (e *ICCEnc) Shuffle(width int, b []byte) {
	e.Cmd = Varint(append(e.Cmd, byte(1+width/2)), uint64(len(b)))
	e.Data = append(e.Data, shuffled(b, width)...)
	e.Out = append(e.Out, b...)
}

// iccPredict is the prediction of byte i of the bytes that start at start.
func iccPredict(out []byte, start, i, stride, width, order int) byte {
	p := start + i/width*width
	var v [3]uint32
	for j := 0; j <= order; j++ {
		for k := 0; k < width; k++ {
			v[j] = v[j]<<8 | uint32(out[p-stride*(j+1)+k])
		}
	}
	x := v[0]
	switch order {
	case 1:
		x = 2*v[0] - v[1]
	case 2:
		x = 3*v[0] - 3*v[1] + v[2]
	}
	return byte(x >> (8 * (width - 1 - i%width)))
}

// Predict inserts bytes as differences to a prediction; stride 0 leaves it to the default.
func (e *ICCEnc) Predict(width, order, stride int, b []byte) {
	f := byte(width - 1 | order<<2)
	if stride > 0 {
		f |= 16
	}
	e.Cmd = append(e.Cmd, 4, f)
	if stride > 0 {
		e.Cmd = Varint(e.Cmd, uint64(stride))
	} else {
		stride = width
	}
	e.Cmd = Varint(e.Cmd, uint64(len(b)))
	start := len(e.Out)
	d := make([]byte, len(b))
	for i := range b {
		d[i] = b[i] - iccPredict(e.Out, start, i, stride, width, order)
		e.Out = append(e.Out, b[i])
	}
	if width > 1 {
		d = shuffled(d, width)
	}
	e.Data = append(e.Data, d...)
}

func (e *ICCEnc) XYZ(b []byte) {
	e.Cmd = append(e.Cmd, 10)
	e.Data = append(e.Data, b[:12]...)
	e.Out = append(append(e.Out, "XYZ \x00\x00\x00\x00"...), b[:12]...)
}

var iccTypes = []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}

func (e *ICCEnc) Type(k int) {
	e.Cmd = append(e.Cmd, byte(16+k))
	e.Out = append(append(e.Out, iccTypes[k]...), 0, 0, 0, 0)
}

// Bytes is the encoded stream.
func (e *ICCEnc) Bytes() []byte {
	b := Varint(nil, uint64(e.Size))
	b = Varint(b, uint64(len(e.Cmd)))
	b = append(b, e.Cmd...)
	return append(b, e.Data...)
}

// ICCDecode interprets an encoded stream. ok is false for a malformed one; open is true
// where the format leaves room (overlong or oversized numbers), so nothing is to be
// concluded.
func ICCDecode(enc []byte) (out []byte, ok, open bool) {
	pos, end := 0, len(enc)
	bad := false
	varint := func() (v uint64) {
		for i := 0; ; i++ {
			if pos >= len(enc) || i > 8 {
				bad = true
				open = open || i > 8
				return 0
			}
			c := enc[pos]
			pos++
			v |= uint64(c&127) << (7 * i)
			if c < 128 {
				if i > 0 && c == 0 {
					open = true
				}
				if v >= 1<<32 {
					bad = true
				}
				return
			}
		}
	}
	size := varint()
	cs := varint()
	if bad || uint64(pos)+cs > uint64(len(enc)) {
		return nil, false, open
	}
	end = pos + int(cs)
	data := enc[end:]
	take := func(n uint64) []byte {
		if bad || n > uint64(len(data)) {
			bad = true
			return nil
		}
		b := data[:n]
		data = data[n:]
		return b
	}
	over := func() bool { return bad || pos > end || uint64(len(out)) > size }
	done := func() ([]byte, bool, bool) {
		good := !over() && pos == end && len(data) == 0 && uint64(len(out)) == size
		return out, good, open
	}
	for i, d := range take(min(128, size)) {
		out = append(out, d+ICCPredictHeader(out, i, int(size)))
	}
	if bad || uint64(len(out)) == size {
		return done()
	}
	if pos >= end {
		return nil, false, open
	}
	nt := varint()
	if over() {
		return nil, false, open
	}
	if nt > 0 {
		nt--
		out = binary.BigEndian.AppendUint32(out, uint32(nt))
		ps, pz := 128+12*nt, uint64(0)
		for pos < end && !over() {
			c := enc[pos]
			pos++
			code := c & 63
			if code == 0 {
				break
			}
			var name string
			switch {
			case code == 1:
				name = string(take(4))
			case code == 2:
				name = "rTRC"
			case code == 3:
				name = "rXYZ"
			case code < 21:
				name = ICCTagNames[code-4]
			default:
				return nil, false, open
			}
			st, sz := ps+pz, pz
			if xyzTag(name) {
				sz = 20
			}
			if c&0x40 != 0 {
				st = varint()
			}
			if c&0x80 != 0 {
				sz = varint()
			}
			if over() {
				return nil, false, open
			}
			ps, pz = st, sz
			n := []string{name}
			if code == 2 {
				n = []string{name, "gTRC", "bTRC"}
			}
			if code == 3 {
				n = []string{name, "gXYZ", "bXYZ"}
			}
			for i, s := range n {
				at := st
				if code == 3 {
					at += uint64(i) * sz
				}
				if at >= 1<<32 {
					return nil, false, open
				}
				out = append(out, s...)
				out = binary.BigEndian.AppendUint32(out, uint32(at))
				out = binary.BigEndian.AppendUint32(out, uint32(sz))
			}
		}
	}
	for pos < end && !over() {
		c := enc[pos]
		pos++
		switch {
		case c == 1:
			out = append(out, take(varint())...)
		case c == 2 || c == 3:
			w := 2 * (int(c) - 1)
			b := take(varint())
			open = open || ICCShuffleOpen(len(b), w)
			for _, j := range iccOrder(len(b), w) {
				out = append(out, b[j])
			}
		case c == 4:
			if pos >= end {
				return nil, false, open
			}
			f := enc[pos]
			pos++
			w, o := int(f&3)+1, int(f>>2&3)
			if w == 3 || o == 3 {
				return nil, false, open
			}
			if f > 31 {
				open = true
			}
			stride := uint64(w)
			if f&16 != 0 {
				stride = varint()
			}
			if bad || stride < uint64(w) || stride*4 >= uint64(len(out)) {
				return nil, false, open
			}
			b := take(varint())
			open = open || ICCShuffleOpen(len(b), w)
			var ord []int
			if w > 1 {
				ord = iccOrder(len(b), w)
			}
			start := len(out)
			for i := range b {
				d := b[i]
				if w > 1 {
					d = b[ord[i]]
				}
				out = append(out, d+iccPredict(out, start, i, int(stride), w, o))
			}
		case c == 10:
			out = append(out, "XYZ \x00\x00\x00\x00"...)
			out = append(out, take(12)...)
		case c >= 16 && c < 24:
			out = append(append(out, iccTypes[c-16]...), 0, 0, 0, 0)
		default:
			return nil, false, open
		}
	}
	return done()
}
