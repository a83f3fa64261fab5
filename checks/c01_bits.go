package checks

import (
	"bytes"
	"fmt"
	"math"

	"github.com/kpfaulkner/jxl-go/jxlio"

	"verif/jx"
	"verif/mc"
)

// ---- reference model of the bit reader: a bit array and a position ----

type bitModel struct {
	b   []byte
	pos int // bits
	cnt uint64
}

func (m *bitModel) left() int { return len(m.b)*8 - m.pos }

func (m *bitModel) peek(n int) (uint64, bool) {
	if n > m.left() {
		return 0, false
	}
	var v uint64
	for i := 0; i < n; i++ {
		p := m.pos + i
		v |= uint64(m.b[p/8]>>(uint(p)%8)&1) << uint(i)
	}
	return v, true
}

func (m *bitModel) read(n int) (uint64, bool) {
	v, ok := m.peek(n)
	if ok {
		m.pos += n
		m.cnt += uint64(n)
	}
	return v, ok
}

func (m *bitModel) u32(d [4]jx.UD) (uint64, bool) {
	s, ok := m.read(2)
	if !ok {
		return 0, false
	}
	v, ok := m.read(d[s].Bits)
	return uint64(uint32(d[s].Off + v)), ok
}

func (m *bitModel) u64() (uint64, bool) {
	s, ok := m.read(2)
	if !ok {
		return 0, false
	}
	switch s {
	case 0:
		return 0, true
	case 1:
		v, ok := m.read(4)
		return v + 1, ok
	case 2:
		v, ok := m.read(8)
		return v + 17, ok
	}
	v, ok := m.read(12)
	if !ok {
		return 0, false
	}
	for sh := 12; ; sh += 8 {
		c, ok := m.read(1)
		if !ok {
			return 0, false
		}
		if c == 0 {
			return v, true
		}
		if sh == 60 {
			x, ok := m.read(4)
			return v | x<<60, ok
		}
		x, ok := m.read(8)
		if !ok {
			return 0, false
		}
		v |= x << uint(sh)
	}
}

func (m *bitModel) u8() (uint64, bool) {
	c, ok := m.read(1)
	if !ok || c == 0 {
		return 0, ok
	}
	n, ok := m.read(3)
	if !ok {
		return 0, false
	}
	v, ok := m.read(int(n))
	return v + 1<<n, ok
}

func halfToFloat(h uint16) (float64, bool) {
	s := 1.0
	if h>>15 == 1 {
		s = -1
	}
	e, f := int(h>>10&31), float64(h&1023)
	if e == 31 {
		return 0, false
	}
	if e == 0 {
		return s * f * math.Pow(2, -24), true
	}
	return s * (1 + f/1024) * math.Pow(2, float64(e-15)), true
}

type brOp struct {
	name string
	// run applies the op to both; returns "" or a mismatch; stop: an error
	// was (rightly) reported and the position is no longer specified.
	run func(r *jxlio.BitStreamReader, m *bitModel) (msg string, stop bool)
}

func num(name string, real func(r *jxlio.BitStreamReader) (float64, uint64, error), model func(m *bitModel) (uint64, bool)) brOp {
	return brOp{name, func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
		_, v, err := real(r)
		w, ok := model(m)
		if ok != (err == nil) {
			return fmt.Sprintf("%s: error=%v, want ok=%v", name, err, ok), true
		}
		if !ok {
			return "", true
		}
		if v != w {
			return fmt.Sprintf("%s = %d, want %d", name, v, w), true
		}
		return "", false
	}}
}

func u(v uint64, err error) (float64, uint64, error) { return 0, v, err }

// upTo is lo..hi when all is set and few otherwise.
func upTo(all bool, lo, hi int, few ...int) []int {
	if !all {
		return few
	}
	few = nil
	for ; lo <= hi; lo++ {
		few = append(few, lo)
	}
	return few
}

// bitOps are the operations; all gives them with every parameter value.
func bitOps(all bool) []brOp {
	var ops []brOp
	for _, n := range upTo(all, 0, 64, 0, 1, 3, 5, 8, 9, 16, 31, 64) {
		ops = append(ops, num(fmt.Sprintf("ReadBits(%d)", n), func(r *jxlio.BitStreamReader) (float64, uint64, error) { return u(r.ReadBits(uint32(n))) },
			func(m *bitModel) (uint64, bool) { return m.read(n) }))
	}
	ops = append(ops, brOp{"ReadBits(65)", func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
		if _, err := r.ReadBits(65); err == nil {
			return "ReadBits(65) must be refused", true
		}
		return "", false
	}})
	for _, n := range upTo(all, 1, 32, 1, 4, 8, 13, 24) {
		ops = append(ops, brOp{fmt.Sprintf("ShowBits(%d)", n), func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			v, err := r.ShowBits(n)
			w, ok := m.peek(n)
			if !ok {
				if err == nil { // peeking past the end may pad with zeros
					k := m.left()
					w, _ = m.peek(k)
					if k == 0 || v != w {
						return fmt.Sprintf("ShowBits(%d) with %d bits left = %d, nil", n, k, v), true
					}
				}
				return "", false
			}
			if err != nil || v != w {
				return fmt.Sprintf("ShowBits(%d) = %d, %v; want %d", n, v, err, w), true
			}
			return "", false
		}})
	}
	for _, n := range upTo(all, 0, 110, 1, 7, 8, 11, 17) {
		ops = append(ops, num(fmt.Sprintf("SkipBits(%d)", n), func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			return u(0, r.SkipBits(uint32(n)))
		}, func(m *bitModel) (uint64, bool) { _, ok := m.read(n); return 0, ok }))
	}
	for _, n := range upTo(all, 0, 14, 0, 1, 2) {
		ops = append(ops, num(fmt.Sprintf("Skip(%d)", n), func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			k, err := r.Skip(uint32(n))
			return u(uint64(k), err)
		}, func(m *bitModel) (uint64, bool) { _, ok := m.read(8 * n); return uint64(n), ok }))
	}
	ops = append(ops,
		num("ReadBool", func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			b, err := r.ReadBool()
			if b {
				return u(1, err)
			}
			return u(0, err)
		}, func(m *bitModel) (uint64, bool) { return m.read(1) }),
		num("ReadByte", func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			b, err := r.ReadByte()
			return u(uint64(b), err)
		}, func(m *bitModel) (uint64, bool) { return m.read(8) }),
		num("ReadU64", func(r *jxlio.BitStreamReader) (float64, uint64, error) { return u(r.ReadU64()) }, (*bitModel).u64),
		num("ReadU8", func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			v, err := r.ReadU8()
			return u(uint64(v), err)
		}, (*bitModel).u8),
		num("ReadU32a", func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			v, err := r.ReadU32(1, 9, 1, 13, 1, 18, 1, 30)
			return u(uint64(v), err)
		}, func(m *bitModel) (uint64, bool) { return m.u32(jx.D(1, 9, 1, 13, 1, 18, 1, 30)) }),
		num("ReadU32b", func(r *jxlio.BitStreamReader) (float64, uint64, error) {
			v, err := r.ReadU32(0, 0, 3, 4, 19, 8, 7, 0)
			return u(uint64(v), err)
		}, func(m *bitModel) (uint64, bool) { return m.u32(jx.D(0, 0, 3, 4, 19, 8, 7, 0)) }),
		brOp{"ReadEnum", func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			v, err := r.ReadEnum()
			w, ok := m.u32(jx.D(0, 0, 1, 0, 2, 4, 18, 6))
			ok = ok && w <= 63
			if ok != (err == nil) || ok && uint64(v) != w {
				return fmt.Sprintf("ReadEnum = %d, %v; want %d ok=%v", v, err, w, ok), true
			}
			return "", !ok
		}},
		brOp{"ReadF16", func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			v, err := r.ReadF16()
			h, ok := m.read(16)
			w, fin := halfToFloat(uint16(h))
			ok = ok && fin
			if ok != (err == nil) || ok && float64(v) != w {
				return fmt.Sprintf("ReadF16(%04x) = %v, %v; want %v ok=%v", h, v, err, w, ok), true
			}
			return "", !ok
		}},
		num("ZeroPadToByte", func(r *jxlio.BitStreamReader) (float64, uint64, error) { return u(0, r.ZeroPadToByte()) },
			func(m *bitModel) (uint64, bool) { _, ok := m.read((8 - m.pos%8) % 8); return 0, ok }),
		brOp{"AtEnd", func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			if g, w := r.AtEnd(), m.left() == 0; g != w {
				return fmt.Sprintf("AtEnd = %v, want %v", g, w), true
			}
			return "", false
		}},
		brOp{"Reset", func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			if err := r.Reset(); err != nil {
				return "Reset: " + err.Error(), true
			}
			m.pos = 0
			m.cnt = r.BitsRead() // whether Reset rewinds the counter is unspecified
			return "", false
		}},
	)
	for _, n := range upTo(all, 1, 14, 1, 3) {
		ops = append(ops, brOp{fmt.Sprintf("ReadBytesToBuffer(%d)", n), func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			buf := make([]byte, n+1)
			buf[n] = 0xA5
			before := r.BitsRead()
			err := r.ReadBytesToBuffer(buf, uint32(n))
			if m.pos%8 != 0 {
				if err == nil {
					return "unaligned byte read must be refused", true
				}
				return "", false
			}
			if m.left() < 8*n {
				if err == nil {
					return "byte read past the end succeeded", true
				}
				return "", true
			}
			if err != nil || !bytes.Equal(buf[:n], m.b[m.pos/8:m.pos/8+n]) || buf[n] != 0xA5 {
				return fmt.Sprintf("ReadBytesToBuffer(%d) = %x, %v; want %x", n, buf, err, m.b[m.pos/8:m.pos/8+n]), true
			}
			m.pos += 8 * n
			m.cnt += r.BitsRead() - before // byte reads need not be counted
			return "", false
		}})
	}
	for _, n := range upTo(all, 1, 8, 2) {
		ops = append(ops, brOp{fmt.Sprintf("ReadBytesUint64(%d)", n), func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
			before := r.BitsRead()
			v, err := r.ReadBytesUint64(n)
			if m.pos%8 != 0 {
				if err == nil {
					return "unaligned ReadBytesUint64 must be refused", true
				}
				return "", false
			}
			w, ok := m.peek(8 * n)
			if ok != (err == nil) || ok && v != w {
				return fmt.Sprintf("ReadBytesUint64(%d) = %d,%v; want %d", n, v, err, w), true
			}
			if !ok {
				return "", true
			}
			m.pos += 8 * n
			m.cnt += r.BitsRead() - before
			return "", false
		}})
	}
	if all {
		for _, n := range []int{-1, 0, 9, 16} {
			ops = append(ops, brOp{fmt.Sprintf("ReadBytesUint64(%d)", n), func(r *jxlio.BitStreamReader, m *bitModel) (string, bool) {
				if v, err := r.ReadBytesUint64(n); err == nil {
					return fmt.Sprintf("ReadBytesUint64(%d) = %d, must be refused", n, v), true
				}
				return "", true
			}})
		}
	}
	return ops
}

func runOps(t *mc.T, content []byte, seq []brOp) {
	r := jxlio.NewBitStreamReader(bytes.NewReader(content))
	m := &bitModel{b: content}
	names := ""
	for _, op := range seq {
		names += " " + op.name
		t.Trans(1)
		msg, stop := op.run(r, m)
		if msg != "" {
			t.Fail("bits %x after%s (bit %d): %s", content, names, m.pos, msg)
			return
		}
		if stop {
			t.Outcome("error as specified")
			break
		}
		if r.BitsRead() != m.cnt || r.GetBitsCount() != m.cnt {
			t.Fail("bits %x after%s: BitsRead %d/%d, want %d", content, names, r.BitsRead(), r.GetBitsCount(), m.cnt)
			return
		}
		t.States(1)
	}
	t.Outcome("agree")
}

func init() {
	register(func() *mc.Check {
		contents := [][]byte{
			{}, {0xB6}, {0x5D, 0xE3},
			{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF},
			{0x93, 0x6C, 0xFE, 0x01, 0xC7, 0x3A, 0x55, 0x0F, 0xE8, 0x21, 0x7B, 0x94, 0xD6},
			{0x02, 0x5B, 0xA4, 0x7E, 0x11, 0x80, 0x3F, 0xC2, 0x69},
		}
		ops, allOps := bitOps(false), bitOps(true)
		return &mc.Check{
			ID: "C01", Level: "model_checking",
			Technique: "explicit-state enumeration of all bit-reader operation sequences against a bit-array model, replayed on the real reader",
			Bounds: func(tier string) string {
				d := 3
				if tier == "thorough" {
					d = 4
				}
				return fmt.Sprintf("%d contents (0..13 bytes) x all sequences of %d operations of depth %d; every operation with every parameter value at 18 bit offsets; all 65536 half floats; U64/U32/U8 codings over boundary values; UnpackSigned boundary set", len(contents), len(ops), d)
			},
			Rule: "every operation returns exactly the value, error status and position of the bit-array model",
			Spaces: []mc.Space{
				{Name: "parameters", Quick: true, Body: func(x *mc.X) {
					c := contents[x.Choose("content", len(contents))]
					before := x.Choose("bits before", 18)
					op := allOps[x.Choose("op", len(allOps))]
					after := x.Of("bits after", 1, 9)
					x.Do(func(t *mc.T) {
						skip := func(n int) brOp {
							return num(fmt.Sprintf("ReadBits(%d)", n), func(r *jxlio.BitStreamReader) (float64, uint64, error) { return u(r.ReadBits(uint32(n))) },
								func(m *bitModel) (uint64, bool) { return m.read(n) })
						}
						t.Input(c)
						t.Run()
						runOps(t, c, []brOp{skip(before), op, skip(after)})
					})
				}},
				{Name: "sequences", Quick: true, Body: func(x *mc.X) {
					ci := x.Choose("content", len(contents))
					var seq []brOp
					for i := 0; i < x.Pick(2, 3); i++ {
						seq = append(seq, ops[x.Choose("op", len(ops))])
					}
					x.Do(func(t *mc.T) {
						t.Input(contents[ci])
						for _, last := range ops {
							t.Run()
							runOps(t, contents[ci], append(seq[:len(seq):len(seq)], last))
							if t.Failed() {
								return
							}
						}
					})
				}},
				{Name: "half-floats", Quick: true, Body: func(x *mc.X) {
					hi := x.Choose("high byte", 256)
					x.Do(func(t *mc.T) {
						for lo := 0; lo < 256; lo++ {
							h := uint16(hi<<8 | lo)
							t.Run()
							v, err := jxlio.NewBitStreamReader(bytes.NewReader([]byte{byte(h), byte(h >> 8)})).ReadF16()
							w, ok := halfToFloat(h)
							if ok != (err == nil) || ok && (float64(v) != w) {
								t.Fail("half %04x = %v, %v; want %v", h, v, err, w)
								return
							}
						}
						t.Outcome("agree")
					})
				}},
				{Name: "u64", Quick: true, Body: func(x *mc.X) {
					off := x.Choose("bit offset", 8)
					k := x.Choose("exponent", 65)
					x.Do(func(t *mc.T) {
						for d := -2; d <= 2; d++ {
							var v uint64
							if k < 64 {
								v = 1 << uint(k)
							}
							v += uint64(int64(d))
							w := &jx.BW{}
							w.Bits(off, 0x2A)
							w.U64(v)
							w.Bits(11, 0x5C3)
							r := jxlio.NewBitStreamReader(bytes.NewReader(w.B))
							r.ReadBits(uint32(off))
							g, err := r.ReadU64()
							t.Run()
							if err != nil || g != v {
								t.Fail("U64 %d at bit %d read as %d, %v", v, off, g, err)
							}
							if tl, err := r.ReadBits(11); err != nil || tl != 0x5C3 {
								t.Fail("bits after U64 %d: %x %v", v, tl, err)
							}
							if g := jxlio.UnpackSigned(uint32(v)); int64(g) != unpackRef(uint64(uint32(v))) {
								t.Fail("UnpackSigned(%d) = %d", uint32(v), g)
							}
							if g := jxlio.UnpackSigned64(v); g != unpackRef(v) {
								t.Fail("UnpackSigned64(%d) = %d, want %d", v, g, unpackRef(v))
							}
						}
						t.Outcome("agree")
					})
				}},
			},
		}
	})
}

func unpackRef(v uint64) int64 {
	if v%2 == 0 {
		return int64(v / 2)
	}
	return -int64(v/2) - 1
}
