package checks

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math"

	"verif/jx"
)

// colourSpace is what a set of colour samples means. tf < 1<<20 is one of the
// enumerated transfer functions, otherwise 1<<20 + gamma.
type colourSpace struct {
	tf    int
	prim  [6]float64
	white [2]float64
}

var (
	primBT2100 = [6]float64{0.708, 0.292, 0.170, 0.797, 0.131, 0.046}
	primP3     = [6]float64{0.680, 0.320, 0.265, 0.690, 0.150, 0.060}
	spaceSRGB  = colourSpace{13, primSRGB, whiteD65}
)

func headerSpace(c jx.Colour) colourSpace {
	if c.Default || c.ICC || c.Space == 2 {
		return spaceSRGB
	}
	s := colourSpace{tf: c.TF, prim: primSRGB}
	if c.Gamma > 0 {
		s.tf = 1<<20 + c.Gamma
	}
	s.white = map[int][2]float64{1: whiteD65, 10: {1.0 / 3, 1.0 / 3}, 11: {0.314, 0.351},
		2: {float64(c.WhiteXY[0]) / 1e6, float64(c.WhiteXY[1]) / 1e6}}[c.White]
	if c.Space == 0 {
		var cp [6]float64
		for i, v := range c.PrimXY {
			cp[i] = float64(v) / 1e6
		}
		s.prim = map[int][6]float64{1: primSRGB, 2: cp, 9: primBT2100, 11: primP3}[c.Prim]
	}
	return s
}

// isHDR: images that the library writes as 16-bit BT.2100 PQ.
func isHDR(s colourSpace) bool {
	return s.tf == 16 || s.tf == 18 || s.tf == 8 || s.prim != primSRGB && s.prim != primP3
}

// linear converts a sample to light relative to the intensity target.
func (s colourSpace) linear(v, it float64) float64 {
	switch {
	case s.tf >= 1<<20:
		return math.Pow(math.Max(v, 0), 1e7/float64(s.tf-1<<20))
	case s.tf == 17:
		return math.Pow(math.Max(v, 0), 2.6)
	case s.tf == 8:
		return v
	case s.tf == 13:
		if v <= 0.0404482362771082 {
			return v / 12.92
		}
		return math.Pow((v+0.055)/1.055, 2.4)
	case s.tf == 1:
		if v < 0.081242858298635 {
			return v / 4.5
		}
		return math.Pow((v+0.0992968268094429)/1.0992968268094429, 1/0.45)
	case s.tf == 16:
		p := math.Pow(math.Max(v, 0), 32.0/2523)
		return math.Pow(math.Max(p-107.0/128, 0)/(2413.0/128-2392.0/128*p), 8192.0/1305) * 10000 / it
	}
	panic(fmt.Sprint("transfer function ", s.tf))
}

func (s colourSpace) encode(v, it float64) float64 {
	switch {
	case s.tf >= 1<<20:
		return math.Pow(math.Max(v, 0), float64(s.tf-1<<20)/1e7)
	case s.tf == 17:
		return math.Pow(math.Max(v, 0), 1/2.6)
	case s.tf == 8:
		return v
	case s.tf == 13:
		if v <= 0.00313066844250063 {
			return v * 12.92
		}
		return 1.055*math.Pow(v, 1/2.4) - 0.055
	case s.tf == 1:
		if v < 0.018053968510807 {
			return v * 4.5
		}
		return 1.0992968268094429*math.Pow(v, 0.45) - 0.0992968268094429
	case s.tf == 16:
		p := math.Pow(math.Max(v*it/10000, 0), 1305.0/8192)
		return math.Pow((107.0/128+2413.0/128*p)/(1+2392.0/128*p), 2523.0/32)
	}
	panic(fmt.Sprint("transfer function ", s.tf))
}

// outSample is an expected sample in units of the full scale, and its tolerance.
type outSample struct{ v, tol float64 }

// expectOutput gives the colour samples of decoded channels in another colour space, and
// the straight alpha (nil without).
func expectOutput(hd *jx.Hdr, im *Img, to colourSpace, asIs bool) (col [][][]outSample, alpha [][]outSample) {
	n := hd.NColour()
	tag := headerSpace(hd.Colour)
	if hd.AllDefault {
		tag = spaceSRGB
	}
	from := tag
	if hd.IsXYB() {
		from.tf = 8
	}
	it := 255.0
	if !hd.AllDefault && !hd.Tone.Default {
		it = hd.Tone.Target
	}
	ai := -1
	for i, e := range hd.EC {
		if e.Type == 0 && ai < 0 {
			ai = i
		}
	}
	mat := to.matrixFrom(from)
	bits := hd.BD.Bits
	if hd.AllDefault {
		bits = 8
	}
	col = make([][][]outSample, n)
	for c := range col {
		col[c] = make([][]outSample, im.H)
	}
	if ai >= 0 {
		alpha = make([][]outSample, im.H)
	}
	for y := 0; y < im.H; y++ {
		for c := range col {
			col[c][y] = make([]outSample, im.W)
		}
		if ai >= 0 {
			alpha[y] = make([]outSample, im.W)
		}
		for x := 0; x < im.W; x++ {
			a := 1.0
			if ai >= 0 {
				ab := hd.EC[ai].BD.Bits
				if hd.EC[ai].Default {
					ab = 8
				}
				a = im.Ch[n+ai].at(x, y, ab)
				alpha[y][x] = outSample{a, 1e-6}
			}
			var v [3]float64
			for c := 0; c < n; c++ {
				v[c] = im.Ch[c].at(x, y, bits)
			}
			src := from
			rel := 0.0
			if ai >= 0 && hd.EC[ai].Assoc {
				if src.tf != tag.tf {
					for c := range v {
						v[c] = tag.encode(v[c], it)
					}
					src = tag
				}
				for c := range v {
					v[c] /= a
				}
				rel = 2e-6
				if a <= 1e-4 {
					for c := range col {
						col[c][y][x] = outSample{0, math.Inf(1)}
					}
					continue
				}
			}
			if asIs || src == to {
				for c := range col {
					col[c][y][x] = outSample{v[c], 1e-6 + rel*math.Abs(v[c])}
				}
				continue
			}
			var lin, lo, hi [3]float64
			mag := 0.0
			for c := 0; c < n; c++ {
				lin[c] = src.linear(v[c], it)
				// how far rounding of the sample itself moves the light
				d := 3e-7*math.Abs(v[c]) + 1e-9
				mag = math.Max(mag, math.Abs(lin[c])*4e-6+math.Abs(src.linear(v[c]+d, it)-src.linear(v[c]-d, it)))
			}
			if n == 3 && (src.prim != to.prim || src.white != to.white) {
				lin = mat.vec(lin)
				mag *= 8
			}
			for c := range col {
				w := to.encode(lin[c], it)
				lo[c], hi[c] = to.encode(lin[c]-mag-1e-9, it), to.encode(lin[c]+mag+1e-9, it)
				col[c][y][x] = outSample{w, 2e-6 + math.Max(math.Abs(lo[c]-w), math.Abs(hi[c]-w))}
			}
		}
	}
	return
}

func (s colourSpace) matrixFrom(o colourSpace) m3 {
	return toXYZ(s.prim, s.white).inv().mul(adaptWhite(o.white, s.white)).mul(toXYZ(o.prim, o.white))
}

// near tells whether a sample of the given depth stands for the expected value.
func (o outSample) near(got, depth int) bool {
	max := float64(int(1)<<depth - 1)
	w := math.Min(math.Max(o.v, 0), 1) * max
	if math.IsNaN(w) {
		return true
	}
	return math.Abs(float64(got)-w) <= 0.501+o.tol*max
}

// pngFile is a parsed PNG.
type pngFile struct {
	w, h, depth, ctype int
	icc                []byte
	srgb               int // rendering intent, or -1
	cicp               []byte
	pix                [][][]int // y, x, channel
}

func (p *pngFile) channels() int { return map[int]int{0: 1, 2: 3, 4: 2, 6: 4}[p.ctype] }

// space is the colour space the file declares; ok is false for a profile.
func (p *pngFile) space() (s colourSpace, err error) {
	if p.cicp != nil {
		s = colourSpace{white: whiteD65, tf: int(p.cicp[1])}
		switch p.cicp[0] {
		case 1:
			s.prim = primSRGB
		case 9:
			s.prim = primBT2100
		case 12:
			s.prim = primP3
		case 11:
			s.prim, s.white = primP3, [2]float64{0.314, 0.351}
		default:
			return s, fmt.Errorf("cICP with primaries %d", p.cicp[0])
		}
		switch s.tf {
		case 6, 14, 15:
			s.tf = 1
		case 1, 8, 13, 16, 18:
		default:
			return s, fmt.Errorf("cICP with transfer function %d", s.tf)
		}
		if p.cicp[2] != 0 || p.cicp[3] != 1 {
			return s, fmt.Errorf("cICP %v", p.cicp)
		}
		return s, nil
	}
	return spaceSRGB, nil
}

// parsePNG reads a PNG strictly.
func parsePNG(b []byte) (*pngFile, error) {
	if !bytes.HasPrefix(b, []byte("\x89PNG\r\n\x1a\n")) {
		return nil, errors.New("no PNG signature")
	}
	p := &pngFile{srgb: -1}
	b = b[8:]
	var idat []byte
	seen := map[string]int{}
	prev := ""
	for {
		if len(b) < 12 {
			return nil, fmt.Errorf("the file ends after chunk %q", prev)
		}
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-12 {
			return nil, fmt.Errorf("chunk %q of %d bytes exceeds the file", b[4:8], n)
		}
		typ, data := string(b[4:8]), b[8:8+n]
		if crc32.ChecksumIEEE(b[4:8+n]) != binary.BigEndian.Uint32(b[8+n:]) {
			return nil, fmt.Errorf("chunk %q has a bad CRC", typ)
		}
		b = b[12+n:]
		if prev == "" && typ != "IHDR" {
			return nil, fmt.Errorf("first chunk is %q", typ)
		}
		seen[typ]++
		if seen[typ] > 1 && (typ != "IDAT" || prev != "IDAT") && typ != "tEXt" && typ != "iTXt" && typ != "zTXt" {
			return nil, fmt.Errorf("chunk %q repeated", typ)
		}
		early := seen["IDAT"] == 0
		switch typ {
		case "IHDR":
			if n != 13 || data[10] != 0 || data[11] != 0 || data[12] != 0 {
				return nil, fmt.Errorf("IHDR %v", data)
			}
			p.w, p.h = int(binary.BigEndian.Uint32(data)), int(binary.BigEndian.Uint32(data[4:]))
			p.depth, p.ctype = int(data[8]), int(data[9])
			if p.channels() == 0 || p.depth != 8 && p.depth != 16 {
				return nil, fmt.Errorf("colour type %d of depth %d", p.ctype, p.depth)
			}
		case "sRGB":
			if n != 1 || data[0] > 3 || !early {
				return nil, fmt.Errorf("sRGB %v", data)
			}
			p.srgb = int(data[0])
		case "cICP":
			if n != 4 || !early {
				return nil, fmt.Errorf("cICP %v", data)
			}
			p.cicp = data
		case "iCCP":
			k := bytes.IndexByte(data, 0)
			if k < 1 || k > 79 || len(data) < k+2 || data[k+1] != 0 || !early {
				return nil, errors.New("bad iCCP")
			}
			z, err := zlib.NewReader(bytes.NewReader(data[k+2:]))
			if err == nil {
				p.icc, err = io.ReadAll(z)
			}
			if err != nil {
				return nil, fmt.Errorf("iCCP: %v", err)
			}
			if len(p.icc) == 0 {
				return nil, errors.New("empty iCCP profile")
			}
		case "IDAT":
			idat = append(idat, data...)
		case "IEND":
			if n != 0 || len(b) != 0 {
				return nil, errors.New("data at or after IEND")
			}
		default:
			if typ[0] < 'a' {
				return nil, fmt.Errorf("unknown critical chunk %q", typ)
			}
		}
		prev = typ
		if typ == "IEND" {
			break
		}
	}
	if p.icc != nil && p.srgb >= 0 {
		return nil, errors.New("both iCCP and sRGB")
	}
	if seen["IDAT"] == 0 {
		return nil, errors.New("no IDAT")
	}
	zb := bytes.NewReader(idat)
	z, err := zlib.NewReader(zb)
	var raw []byte
	if err == nil {
		raw, err = io.ReadAll(z)
	}
	if err != nil {
		return nil, fmt.Errorf("IDAT: %v", err)
	}
	if zb.Len() != 0 {
		return nil, errors.New("data after the compressed image")
	}
	bpp := p.channels() * p.depth / 8
	if len(raw) != p.h*(1+p.w*bpp) {
		return nil, fmt.Errorf("%d bytes of image data, want %d", len(raw), p.h*(1+p.w*bpp))
	}
	up := make([]byte, p.w*bpp)
	for y := 0; y < p.h; y++ {
		f, row := raw[0], raw[1:1+p.w*bpp]
		raw = raw[1+p.w*bpp:]
		for i := range row {
			var l, ul byte
			if i >= bpp {
				l, ul = row[i-bpp], up[i-bpp]
			}
			switch f {
			case 0:
			case 1:
				row[i] += l
			case 2:
				row[i] += up[i]
			case 3:
				row[i] += byte((int(l) + int(up[i])) / 2)
			case 4:
				row[i] += paeth(l, up[i], ul)
			default:
				return nil, fmt.Errorf("filter %d", f)
			}
		}
		up = row
		var line [][]int
		for x := 0; x < p.w; x++ {
			var px []int
			for c := 0; c < p.channels(); c++ {
				if p.depth == 8 {
					px = append(px, int(row[x*bpp+c]))
				} else {
					px = append(px, int(row[x*bpp+2*c])<<8|int(row[x*bpp+2*c+1]))
				}
			}
			line = append(line, px)
		}
		p.pix = append(p.pix, line)
	}
	return p, nil
}

func paeth(a, b, c byte) byte {
	p := int(a) + int(b) - int(c)
	abs := func(v int) int { return max(v, -v) }
	pa, pb, pc := abs(p-int(a)), abs(p-int(b)), abs(p-int(c))
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}
