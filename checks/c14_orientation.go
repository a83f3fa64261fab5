package checks

import (
	"verif/jx"
	"verif/mc"
)

func orientAll(chs []*jx.Ch, o int) []*jx.Ch {
	var w []*jx.Ch
	for _, c := range chs {
		w = append(w, orient(c, o))
	}
	return w
}

func init() {
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C14", Level: "model_checking", HangS: 60,
			Technique: "exhaustive enumeration of orientations x image shapes x channel layouts, replayed on the real decoder against an index permutation",
			Bounds: func(tier string) string {
				if tier == "thorough" {
					return "8 orientations x all shapes up to 12x12 (and long, group-crossing ones) x 9 channel layouts x {1,3} workers; 2-frame programs; upsampled and XYB images"
				}
				return "8 orientations x all shapes up to 6x6 (and long, group-crossing ones) x 9 channel layouts; 2-frame programs; upsampled and XYB images"
			},
			Rule:   "every channel of the decoded image is the stored channel with its samples moved as the orientation defines, and the image has the oriented size",
			Assume: []string{"orientation semantics of EXIF / ISO 18181-1 table"},
			Spaces: []mc.Space{
				{Name: "shapes", Quick: true, Body: func(x *mc.X) {
					o := 1 + x.Choose("orientation", 8)
					layout := x.Choose("layout", 9)
					n := x.Pick(6, 12)
					k := x.Choose("shape", n*n+10)
					w, h := 1+k%n, 1+k/n
					if k >= n*n {
						s := [][2]int{{1, 70}, {70, 1}, {130, 3}, {3, 130}, {129, 131}, {17, 40}, {64, 64}, {65, 63}, {200, 20}, {9, 257}}[k-n*n]
						w, h = s[0], s[1]
					}
					pars := parSet(x)
					x.Do(func(t *mc.T) {
						hd, chs := layoutImage(layout, w, h)
						hd.Orientation = o
						hd.ExtraFields = true
						m := simpleMod(chs)
						m.Group = nil
						for _, par := range pars {
							modRun(t, hd, shiftLossless(0), m, orientAll(chs, o), jx.TOC{}, par)
						}
					})
				}},
				{Name: "contents", Quick: true, Body: func(x *mc.X) {
					// every binary image of every shape up to 3x3
					o := 1 + x.Choose("orientation", 8)
					w, h := 1+x.Choose("w", 3), 1+x.Choose("h", 3)
					c := jx.NewCh(w, h)
					for y := range c.D {
						for i := range c.D[y] {
							c.D[y][i] = int32(x.Choose("px", 2) * 255)
						}
					}
					x.Do(func(t *mc.T) {
						hd := grayHdr(w, h, 8)
						hd.Orientation = o
						hd.ExtraFields = true
						modRun(t, hd, lossless(), simpleMod([]*jx.Ch{c}), []*jx.Ch{orient(c, o)}, jx.TOC{}, 1)
					})
				}},
				{Name: "upsampled", Quick: true, Body: func(x *mc.X) {
					o := 1 + x.Choose("orientation", 8)
					up := 1 + x.Choose("log2 factor", 3)
					w, h := x.Of("w", 1, 5, 16, 23), x.Of("h", 2, 9, 16)
					x.Do(func(t *mc.T) {
						hd := rgbHdr(w, h, 8)
						hd.Orientation = o
						hd.ExtraFields = true
						f := lossless()
						f.Up = up
						cw, ch := f.CodedSize(hd)
						chs := randChs(3, cw, ch, w*h, 255)
						var want []F2
						for _, c := range chs {
							want = append(want, orientF(upsampleRef(norm(c, 8), 1<<up, upDefaults[up-1]).crop(w, h), o))
						}
						runNear(t, encode(hd, f, simpleMod(chs), jx.TOC{}), 2, want, []int{8, 8, 8}, 1e-5)
					})
				}},
				{Name: "frames", Quick: true, Body: func(x *mc.X) {
					// a cropped frame over a saved one: the composition is oriented, not the frames
					o := 1 + x.Choose("orientation", 8)
					x0, y0 := x.Of("x0", -2, 0, 3), x.Of("y0", -1, 0, 2)
					cw, ch := x.Of("w", 2, 5), x.Of("h", 1, 4)
					x.Do(func(t *mc.T) {
						w, h := 7, 5
						hd := grayHdr(w, h, 8)
						hd.Orientation = o
						hd.ExtraFields = true
						a, b := fill(jx.NewCh(w, h), 2, 1, 255), fill(jx.NewCh(cw, ch), 2, 2, 255)
						bw := &jx.BW{}
						hd.Write(bw)
						f := lossless()
						f.IsLast, f.SaveRef = false, 1
						jx.EncodeModular(bw, hd, f, simpleMod([]*jx.Ch{a}), jx.TOC{})
						f = lossless()
						f.Crop, f.X0, f.Y0, f.W, f.H = true, x0, y0, cw, ch
						f.Blend.Source = 1
						jx.EncodeModular(bw, hd, f, simpleMod([]*jx.Ch{b}), jx.TOC{})
						bw.Pad()
						want := a.Clone()
						for y := 0; y < ch; y++ {
							for i := 0; i < cw; i++ {
								if Y, X := y+y0, i+x0; Y >= 0 && Y < h && X >= 0 && X < w {
									want.D[Y][X] = b.D[y][i]
								}
							}
						}
						t.Input(bw.B)
						t.Run()
						im, err := decode(bw.B, 2)
						if err != nil {
							t.Fail("decode: %v", err)
						} else if d := diffInts(im, []*jx.Ch{orient(want, o)}); d != "" {
							t.Fail("%s", d)
						}
						t.Outcome("composed and oriented")
					})
				}},
			},
		}
	})
}

var upDefaults = [][]float64{upDefault2, upDefault4, upDefault8}

// layoutImage builds one of 9 channel layouts.
func layoutImage(layout, w, h int) (*jx.Hdr, []*jx.Ch) {
	var hd *jx.Hdr
	switch layout {
	case 0:
		hd = grayHdr(w, h, 8)
		return hd, randChs(1, w, h, 11, 255)
	case 1:
		hd = rgbHdr(w, h, 8)
		return hd, randChs(3, w, h, 12, 255)
	case 2:
		hd = extraHdr(w, h, 8, 1)
		hd.EC[0] = jx.EC{Type: 0, BD: jx.BitDepth{Bits: 8}}
		return hd, randChs(4, w, h, 13, 255)
	case 3:
		hd = grayHdr(w, h, 16)
		hd.EC = []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 16}, Assoc: true}}
		return hd, randChs(2, w, h, 14, 65535)
	case 4:
		hd = extraHdr(w, h, 10, 3)
		return hd, randChs(6, w, h, 15, 255)
	case 5:
		hd = grayHdr(w, h, 1)
		return hd, randChs(1, w, h, 16, 1)
	case 6:
		hd = rgbHdr(w, h, 24)
		return hd, randChs(3, w, h, 17, 1<<24-1)
	case 7:
		hd = grayHdr(w, h, 8)
		hd.EC = []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 12}}, {Default: true}}
		return hd, randChs(3, w, h, 18, 255)
	default:
		hd = rgbHdr(w, h, 8)
		hd.EC = []jx.EC{{Type: 4, BD: jx.BitDepth{Bits: 8}}, {Type: 2, BD: jx.BitDepth{Bits: 8}, Spot: [4]float64{1, 0, 0, 1}}}
		return hd, randChs(5, w, h, 19, 255)
	}
}
