// Package jx is an independent, deliberately simple JPEG XL codestream writer
// plus reference semantics (the oracle). It shares no code with the decoder
// under test.
package jx

import (
	"math"
	"math/bits"
)

type BW struct {
	B []byte
	n uint // bits in last byte used
	N int  // total bits
}

func (w *BW) Bits(n int, v uint64) {
	for i := 0; i < n; i++ {
		if w.N%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.B[len(w.B)-1] |= 1 << uint(w.N%8)
		}
		w.N++
	}
}

func (w *BW) Bool(b bool) {
	if b {
		w.Bits(1, 1)
	} else {
		w.Bits(1, 0)
	}
}

func (w *BW) Pad() {
	for w.N%8 != 0 {
		w.Bits(1, 0)
	}
}

func (w *BW) Bytes(b []byte) {
	for _, c := range b {
		w.Bits(8, uint64(c))
	}
}

// Append copies all bits of o.
func (w *BW) Append(o *BW) {
	if w.N%8 == 0 {
		w.B = append(w.B, o.B...)
		w.N += o.N
		return
	}
	for i := 0; i < o.N; i++ {
		w.Bits(1, uint64(o.B[i/8]>>(uint(i)%8)&1))
	}
}

// UD is a U32 distribution: value = Off + u(Bits).
type UD struct {
	Off  uint64
	Bits int
}

// U32 writes v using the first distribution that can represent it.
// Wide makes the writers choose other representations of the same values:
// 0 the first selector that can represent it, 1 the last one, 2 the second one.
var Wide int

func (w *BW) U32(d [4]UD, v uint64) {
	var can []int
	for i := range d {
		if v >= d[i].Off && v-d[i].Off < 1<<uint(d[i].Bits) {
			can = append(can, i)
		}
	}
	if len(can) > 1 && Wide > 0 {
		i := can[1]
		if Wide == 1 {
			i = can[len(can)-1]
		}
		w.Bits(2, uint64(i))
		w.Bits(d[i].Bits, v-d[i].Off)
		return
	}
	for i := 0; i < 4; i++ {
		if v >= d[i].Off && v-d[i].Off < 1<<uint(d[i].Bits) {
			w.Bits(2, uint64(i))
			w.Bits(d[i].Bits, v-d[i].Off)
			return
		}
	}
	panic("U32 unrepresentable")
}

// U32Sel writes v with selector sel; returns false when not representable.
func (w *BW) U32Sel(d [4]UD, sel int, v uint64) bool {
	if v < d[sel].Off || v-d[sel].Off >= 1<<uint(d[sel].Bits) {
		return false
	}
	w.Bits(2, uint64(sel))
	w.Bits(d[sel].Bits, v-d[sel].Off)
	return true
}

func D(o0, b0, o1, b1, o2, b2, o3, b3 int) [4]UD {
	return [4]UD{{uint64(o0), b0}, {uint64(o1), b1}, {uint64(o2), b2}, {uint64(o3), b3}}
}

func (w *BW) U64(v uint64) {
	switch {
	case v == 0 && Wide == 0:
		w.Bits(2, 0)
	case v > 0 && v <= 16 && Wide == 0:
		w.Bits(2, 1)
		w.Bits(4, v-1)
	case v > 16 && v <= 272 && Wide != 1:
		w.Bits(2, 2)
		w.Bits(8, v-17)
	default:
		w.Bits(2, 3)
		w.Bits(12, v&0xfff)
		v >>= 12
		shift := 12
		for v > 0 && shift < 60 {
			w.Bits(1, 1)
			w.Bits(8, v&0xff)
			v >>= 8
			shift += 8
		}
		if v > 0 {
			w.Bits(1, 1)
			w.Bits(4, v&0xf)
		} else {
			w.Bits(1, 0)
		}
	}
}

// U8 is the entropy-coding U8() variable-length integer.
func (w *BW) U8(v int) {
	if v == 0 {
		w.Bits(1, 0)
		return
	}
	w.Bits(1, 1)
	n := FloorLog2(uint64(v))
	w.Bits(3, uint64(n))
	w.Bits(n, uint64(v-(1<<uint(n))))
}

var enumDist = D(0, 0, 1, 0, 2, 4, 18, 6)

func (w *BW) Enum(v int) { w.U32(enumDist, uint64(v)) }

func FloorLog2(v uint64) int { return bits.Len64(v) - 1 }
func CeilLog2(v uint64) int {
	if v <= 1 {
		return 0
	}
	return bits.Len64(v - 1)
}

// F16 writes the IEEE half bits.
func (w *BW) F16Bits(b uint16) { w.Bits(16, uint64(b)) }

// F16 converts exactly representable values only.
func (w *BW) F16(f float64) { w.F16Bits(HalfBits(f)) }

// HalfBits returns the half encoding of an exactly representable normal value
// or zero.
func HalfBits(f float64) uint16 {
	if f == 0 {
		return 0
	}
	s := uint16(0)
	if f < 0 {
		s = 0x8000
		f = -f
	}
	e := 0
	for f >= 2 {
		f /= 2
		e++
	}
	for f < 1 && e > -14 {
		f *= 2
		e--
	}
	if f < 1 { // subnormal
		m := f * 1024
		if m != float64(uint16(m)) {
			panic("not exact half")
		}
		return s | uint16(m)
	}
	m := (f - 1) * 1024
	if m != float64(uint16(m)) || e > 15 {
		panic("not exact half")
	}
	return s | uint16(e+15)<<10 | uint16(m)
}

// PackSigned maps a signed int to the unsigned zig-zag form.
func PackSigned(v int64) uint64 {
	if v >= 0 {
		return uint64(v) * 2
	}
	return uint64(-v)*2 - 1
}

// HalfValue is the value of a half-precision number.
func HalfValue(h uint16) float64 {
	s := 1.0
	if h&0x8000 != 0 {
		s = -1
	}
	e := int(h>>10) & 31
	m := float64(h & 1023)
	if e == 0 {
		return s * math.Ldexp(m, -24)
	}
	return s * math.Ldexp(1024+m, e-25)
}
