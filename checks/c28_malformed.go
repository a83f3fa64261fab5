package checks

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"strings"
	"sync"

	jxlgo "github.com/kpfaulkner/jxl-go"
	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"

	"verif/jx"
	"verif/mc"
)

// fBits and fBytes unpack and pack a codestream in reading order.
func fBits(b []byte) []byte {
	o := make([]byte, 0, 8*len(b))
	for _, v := range b {
		for i := 0; i < 8; i++ {
			o = append(o, v>>i&1)
		}
	}
	return o
}

func fBytes(s []byte) []byte {
	b := make([]byte, (len(s)+7)/8)
	for i, v := range s {
		b[i/8] |= v << (i % 8)
	}
	return b
}

var extraOnce sync.Once
var extraFiles []CFile

// malformedFiles are files with features that the shared corpus lacks.
func malformedFiles() []CFile {
	extraOnce.Do(func() {
		mod := func(name string, hd *jx.Hdr, f *jx.FrameHdr, m *jx.Mod, toc jx.TOC) {
			extraFiles = append(extraFiles, CFile{Name: name, B: encode(hd, f, m, toc), Hd: hd})
		}
		chs := func(n, w, h int, max int32) (c []*jx.Ch) {
			for i := 0; i < n; i++ {
				c = append(c, fill(jx.NewCh(w, h), 2+i%2, 50+i, max))
			}
			return
		}
		hd := rgbHdr(7, 5, 12)
		hd.ExtraFields, hd.Orientation, hd.Intrinsic = true, 6, &[2]int{40, 30}
		hd.Tone = jx.Tone{Target: 300, Min: 0.5, Lin: 10}
		hd.Colour = jx.Colour{White: 2, WhiteXY: [2]int32{312700, 329000}, Prim: 2, PrimXY: [6]int32{640000, 330000, 300000, 600000, 150000, 60000}, TF: 8, Intent: 1}
		hd.EC = []jx.EC{{Type: 2, BD: jx.BitDepth{Bits: 8}, Spot: [4]float64{0.5, 0.25, 1, 1}, Name: "spot"}}
		hd.Ext = map[int][]byte{0: {1, 2, 3}, 9: {7}}
		mod("x-header", hd, lossless(), simpleMod(chs(4, 7, 5, 4095)), jx.TOC{})

		hd = rgbHdr(6, 4, 8)
		hd.Colour = jx.Colour{ICC: true}
		e := iccBuild(0, func(e *jx.ICCEnc) {
			e.Tags(3)
			e.Tag(2, "", -1, -1)
			e.Tag(4, "", 300, 20)
			e.EndTags()
			e.XYZ(iccBytes(12, 0))
			e.Shuffle(2, iccBytes(10, 1))
			e.Predict(4, 1, 0, iccBytes(24, 0))
			e.Type(1)
			e.Insert(iccBytes(6, 2))
		})
		hd.ICC = e.Bytes()
		mod("x-icc", hd, lossless(), simpleMod(chs(3, 6, 4, 255)), jx.TOC{})

		hd = grayHdr(8, 8, 8)
		m := simpleMod(chs(1, 8, 8, 200))
		m.Tree = jx.Split(9, 3, jx.Split(2, 4, jx.LeafX(6, 3, 0, 0), jx.Leaf(5)), jx.Split(15, 0, jx.Leaf(13), jx.LeafX(4, -2, 0, 0)))
		m.Code = coderN(0, 4)
		mod("x-tree", hd, lossless(), m, jx.TOC{})

		hd = grayHdr(200, 4, 8)
		f := lossless()
		f.GroupShift = 0
		m = simpleMod(chs(1, 200, 4, 3))
		m.Group = func(s *jx.Sub) { s.Local = true }
		secs := jx.ModularSections(hd, f, m)
		perm := make([]int, len(secs))
		for i := range perm {
			perm[i] = len(secs) - 1 - i
		}
		mod("x-permuted", hd, f, m, jx.TOC{Perm: perm})

		hd = rgbHdr(9, 9, 8)
		m = simpleMod(nil)
		c := chs(3, 9, 9, 255)
		sq := []jx.Sq{{Horiz: true, InPlace: true, Begin: 0, Num: 2}, {Begin: 1, Num: 2}}
		m.Trs = []jx.Tr{{Kind: 2, Sq: sq}}
		m.Chans, m.NMeta = jx.ForwardSqueeze(c, 0, sq)
		mod("x-squeeze", hd, lossless(), m, jx.TOC{})

		hd = grayHdr(8, 8, 8)
		hd.Preview = &[2]int{8, 8}
		mod("x-preview", hd, lossless(), simpleMod(chs(1, 8, 8, 9)), jx.TOC{})
		hd = grayHdr(8, 8, 8)
		hd.ExtraFields, hd.Anim = true, true
		mod("x-animation", hd, lossless(), simpleMod(chs(1, 8, 8, 9)), jx.TOC{})

		hd = rgbHdr(8, 6, 8)
		f = lossless()
		f.YCbCr = true
		mod("x-ycbcr", hd, f, simpleMod(chs(3, 8, 6, 255)), jx.TOC{})

		g := corpusFile("m-gray").B
		add := func(name string, b []byte) {
			extraFiles = append(extraFiles, CFile{Name: name, B: b})
		}
		add("x-jxlc", container([]boxSpec{{"Exif", []byte("\x00\x00\x00\x00MM\x00*"), 0}, {"jxlc", g, 0}}))
		add("x-jxlp", container(append(split(g, 3), boxSpec{"xml ", []byte("<x/>"), 1})))
		add("x-open", container([]boxSpec{{"jxll", []byte{5}, 0}, {"jxlc", g, 2}}))
	})
	return extraFiles
}

// damageKinds are the ways to damage a file, each at a position.
var damageKinds = []string{"flipped bit", "removed bit", "inserted bit", "cut and filled", "run of bits", "byte value", "two flips"}

// damages is the number of damaged versions of a kind, damage the k-th.
func damages(kind int, b []byte, thorough bool) int {
	n := 8 * len(b)
	w := min(n, headBits(thorough))
	return []int{n, n, 2 * n, fillTails(thorough) * n, 12 * n, 256 * len(b), w * (w - 1) / 2}[kind]
}

func headBits(thorough bool) int {
	if thorough {
		return 260
	}
	return 64
}

// fillTails is the number of ways a cut file is continued; the last is not at all.
func fillTails(thorough bool) int {
	if thorough {
		return 5
	}
	return 3
}

func damage(kind int, b []byte, k int, thorough bool) []byte {
	if kind == 5 {
		c := bytes.Clone(b)
		c[k/256] = byte(k)
		return c
	}
	s := fBits(b)
	switch kind {
	case 0:
		s[k] ^= 1
	case 1:
		s = append(s[:k], s[k+1:]...)
	case 2:
		s = append(append(s[:k/2:k/2], byte(k&1)), s[k/2:]...)
	case 3:
		n := fillTails(thorough)
		p := k / n
		if k%n == n-1 {
			s = s[:p]
		}
		for i := p; i < len(s); i++ {
			s[i] = []byte{0, 1, byte(i & 1), byte((i >> 1) & 1)}[k%n]
		}
	case 4:
		p, l := k/12, []int{2, 3, 4, 5, 6, 8}[k%6]
		for i := p; i < p+l && i < len(s); i++ {
			s[i] = byte(k / 6 % 2)
		}
	case 6:
		i := 1
		for ; k >= i; i++ {
			k -= i
		}
		s[i] ^= 1
		s[k] ^= 1
	}
	return fBytes(s)
}

// survive decodes b and uses whatever comes out. Crashes, hangs and memory
// beyond the limit of the process are noticed by the driver.
func survive(t *mc.T, b []byte, n int, outputs bool) {
	t.Input(b)
	t.Run()
	var res string
	err := guard(func() error {
		img, err := core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{MaxGoroutines: n}).Decode()
		switch {
		case err != nil:
			res = "error"
			if img != nil {
				return fmt.Errorf("both an image and an error: %w", err)
			}
			return nil
		case img == nil:
			return errNil
		}
		res = "image"
		if outputs {
			return useImage(img)
		}
		return nil
	})
	if err != nil {
		t.Fail("%v", err)
		return
	}
	t.Outcome(res)
}

func useImage(img *core.JXLImage) error {
	img.HasAlpha()
	img.HasICCProfile()
	for c := range img.Buffer {
		if img.Buffer[c].IsFloat() {
			img.GetFloatChannelData(c)
		} else {
			img.GetIntChannelData(c)
		}
	}
	for c := 0; c < img.NumExtraChannels(); c++ {
		img.GetExtraChannelType(c)
	}
	core.WritePFM(img, io.Discard)
	(&core.PNGWriter{}).WritePNG(img, io.Discard)
	im, err := img.ToImage()
	if err == nil && im != nil {
		r := im.Bounds()
		im.At(r.Min.X, r.Min.Y).RGBA()
		im.At(r.Max.X-1, r.Max.Y-1).RGBA()
	}
	for c := range img.Buffer {
		img.ChannelToImage(c)
	}
	return nil
}

// useAPI are the other ways to read a file.
var useAPI = []struct {
	name string
	do   func(b []byte) error
}{
	{"GetImageHeader", func(b []byte) error {
		d := core.NewJXLDecoder(bytes.NewReader(b), nil)
		h, err := d.GetImageHeader()
		if err == nil {
			if h == nil {
				return fmt.Errorf("neither header nor error")
			}
			h.GetDecodedICC()
			core.OutputColorModel(h)
			h.GetSize()
			h.GetColourChannelCount()
			h.GetTotalChannelCount()
		}
		d.Decode()
		return nil
	}},
	{"parse only", func(b []byte) error {
		core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{ParseOnly: true}).Decode()
		return nil
	}},
	{"Decode twice", func(b []byte) error {
		d := core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{MaxGoroutines: 2})
		d.Decode()
		d.Decode()
		d.GetImageHeader()
		return nil
	}},
	{"image.Decode", func(b []byte) error {
		_ = jxlgo.Decode
		c, _, err := image.DecodeConfig(bytes.NewReader(b))
		if err == nil && c.ColorModel == nil {
			return fmt.Errorf("config without colour model")
		}
		image.Decode(bytes.NewReader(b))
		return nil
	}},
	{"render varblocks", func(b []byte) error {
		core.NewJXLDecoder(bytes.NewReader(b), &options.JXLOptions{RenderVarblocks: true, MaxGoroutines: 1}).Decode()
		return nil
	}},
}

// headStart is the bit at which the image header (0) or the frame header (1) of a file starts.
func headStart(f CFile, part int) int {
	if part == 0 {
		return 16
	}
	w := &jx.BW{}
	f.Hd.Write(w)
	w.Pad()
	return 8 * len(w.B)
}

func init() {
	filesOf := func(names ...string) (fs []CFile) {
		for _, f := range append(corpus(), malformedFiles()...) {
			for _, n := range names {
				if f.Name == n || strings.HasSuffix(n, "*") && strings.HasPrefix(f.Name, n[:len(n)-1]) {
					fs = append(fs, f)
					break
				}
			}
		}
		return
	}
	pick := func(x *mc.X, fs []CFile) CFile {
		var names []string
		for _, f := range fs {
			names = append(names, f.Name)
		}
		k := x.Choose("file", len(fs))
		x.Label("file %s", names[k])
		return fs[k]
	}
	mutants := func(x *mc.X, f CFile, kinds ...int) {
		kind := kinds[x.Choose("damage", len(kinds))]
		th := x.Thorough()
		k := x.Choose("at", damages(kind, f.B, th))
		n := 1 + k%2
		x.Do(func(t *mc.T) { survive(t, damage(kind, f.B, k, th), n, true) })
	}
	small := []string{"m-gray", "m-palette", "m-float", "m-extra", "m-lz", "m-blend", "m-upsample", "m-filter", "m-xyb", "m-squeeze", "x-*"}
	mc.Register(&mc.Check{
		ID: "C28", Level: "fault_enumeration", HangS: 25, LimitMB: 6000,
		Technique: "model checking by exhaustive enumeration of the damaged versions of generated files, each executed on the real decoder and its outputs in a process of limited memory and time",
		Bounds: func(tier string) string {
			s := "20 small modular files and containers: every flipped, removed and inserted bit, every cut with 3 tails, all pairs of flips of the first 64 bits; all values of the first 11 bits of image and frame header with 4 tails; VarDCT: every flipped bit of the smallest file, one flipped bit of every byte of 4 others; 5 other ways to read 4 files with every flipped bit"
			if tier == "thorough" {
				s = "20 small modular files and containers and 2 of several groups: every flipped, removed and inserted bit, every cut with 5 tails, every run of 2..8 equal bits at every bit, every value of every byte, all pairs of flips of the first 260 bits; all values of the first 15 bits of image and frame header with 4 tails; VarDCT: every flipped bit of 8 files, also removed, inserted bits, cuts with 5 tails and runs of the smallest; 5 other ways to read with every flipped bit"
			}
			return s
		},
		Rule:   "decoding, reading the channels, the outputs and the other entry points return an image or an error, not both, without a panic in any goroutine, within 25 s and 6 GB of address space",
		Assume: []string{"the time and memory limits are those of the worker process; files that declare large images legitimately need memory in proportion, but none of the enumerated ones reaches the limit"},
		Spaces: []mc.Space{
			{Name: "modular", Quick: true, Body: func(x *mc.X) {
				fs := filesOf(small...)
				if x.Thorough() {
					fs = filesOf(append(small, "m-groups", "m-lfgroups")...)
				}
				f := pick(x, fs)
				switch {
				case x.Thorough() && len(f.B) < 1000:
					mutants(x, f, 0, 1, 2, 3, 4, 5, 6)
				case len(f.B) > 300:
					mutants(x, f, 0, 1, 3, 6)
				default:
					mutants(x, f, 0, 1, 2, 3, 6)
				}
			}},
			{Name: "header values", Quick: true, Body: func(x *mc.X) {
				f := pick(x, filesOf("m-gray", "m-extra", "m-filter"))
				part := x.Choose("header", 2)
				n := x.Pick(11, 15)
				v := x.Choose("value", 1<<n)
				tail := x.Choose("tail", 4)
				x.Do(func(t *mc.T) {
					s := fBits(f.B)
					at := headStart(f, part)
					for i := 0; i < n; i++ {
						s[at+i] = byte(v >> i & 1)
					}
					for i := at + n; i < len(s) && tail > 0; i++ {
						s[i] = []byte{0, 0, 1, byte(i & 1)}[tail]
					}
					survive(t, fBytes(s), 1, true)
				})
			}},
			{Name: "other ways to read", Quick: true, Body: func(x *mc.X) {
				fs := filesOf("m-gray", "x-header", "x-icc", "x-jxlp")
				if x.Thorough() {
					fs = filesOf(small...)
				}
				f := pick(x, fs)
				a := x.Choose("way", len(useAPI))
				x.Label("way %s", useAPI[a].name)
				k := x.Choose("flipped bit", 8*len(f.B))
				x.Do(func(t *mc.T) {
					b := damage(0, f.B, k, false)
					t.Input(b)
					t.Run()
					if err := guard(func() error { return useAPI[a].do(b) }); err != nil {
						t.Fail("%s: %v", useAPI[a].name, err)
						return
					}
					t.Outcome("survived")
				})
			}},
			{Name: "VarDCT", Quick: true, Body: func(x *mc.X) {
				if !x.Thorough() {
					f := pick(x, filesOf("v-8", "v-420", "v-mats", "v-alpha", "v-filter"))
					if f.Name == "v-8" {
						mutants(x, f, 0)
						return
					}
					k := 8 * x.Choose("byte", len(f.B))
					x.Do(func(t *mc.T) { survive(t, damage(0, f.B, k+(k/8)%8, false), 1+k/8%2, true) })
					return
				}
				f := pick(x, filesOf("v-8", "v-420", "v-mats", "v-alpha", "v-filter", "v-2pass", "v-32", "v-luma-sub"))
				if f.Name == "v-8" {
					mutants(x, f, 0, 1, 2, 3, 4)
				} else {
					mutants(x, f, 0)
				}
			}},
		},
	})
}
