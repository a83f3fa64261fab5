package checks

import (
	"fmt"
	"math"

	"github.com/kpfaulkner/jxl-go/core"

	"verif/jx"
	"verif/mc"
)

// imgKinds are the images whose accessors are explored.
var imgKinds = []outKind{
	{col: jx.GrayColour(), bd: jx.BitDepth{Bits: 8}, w: 3, h: 2},
	{col: jx.Colour{Default: true}, bd: jx.BitDepth{Bits: 8}, ecs: []jx.EC{{Type: 0, BD: jx.BitDepth{Bits: 8}, Assoc: true}}, w: 2, h: 3},
	{col: jx.GrayColour(), bd: jx.BitDepth{Bits: 12}, ecs: []jx.EC{{Type: 1, BD: jx.BitDepth{Bits: 5}}, {Type: 0, BD: jx.BitDepth{Bits: 12}}}, w: 4, h: 1},
	{col: jx.Colour{White: 1, Prim: 9, TF: 16}, bd: jx.BitDepth{Bits: 16}, w: 2, h: 2},
	{col: jx.Colour{Default: true}, bd: jx.BitDepth{Float: true, Bits: 32, Exp: 8}, w: 3, h: 3},
	{col: jx.Colour{ICC: true}, bd: jx.BitDepth{Bits: 9}, w: 2, h: 2},
}

// samplesOf gives the coded form of the planes of an image.
func samplesOf(im *Img) []*jx.Ch {
	var chs []*jx.Ch
	for _, p := range im.Ch {
		ch := jx.NewCh(p.W, p.H)
		for y := range ch.D {
			for x := range ch.D[y] {
				if p.Float {
					ch.D[y][x] = int32(math.Float32bits(p.F[y][x]))
				} else {
					ch.D[y][x] = p.I[y][x]
				}
			}
		}
		chs = append(chs, ch)
	}
	return chs
}

// newPlane is a matrix of the form of p with other samples.
func newPlane(p Plane, kind, max int) Plane {
	q := Plane{Float: p.Float, W: p.W, H: p.H}
	for y := 0; y < p.H; y++ {
		if p.Float {
			r := make([]float32, p.W)
			for x := range r {
				r[x] = float32((y*7+x*3+kind*5)%11) / 10
			}
			q.F = append(q.F, r)
		} else {
			r := make([]int32, p.W)
			for x := range r {
				r[x] = int32((y*91 + x*57 + kind*131) % (max + 1))
			}
			q.I = append(q.I, r)
		}
	}
	return q
}

type imgModel struct {
	j    *core.JXLImage
	want *Img // the samples it must have
}

func imageHistory(t *mc.T, k outKind, ops [][4]int) {
	hd, b := k.build()
	im, before := decodeFor(t, b)
	if im == nil {
		return
	}
	objs := []*imgModel{{im.J, before}}
	depth := func(c int) int {
		if n := hd.NColour(); c >= n {
			return hd.EC[c-n].BD.Bits
		}
		return hd.BD.Bits
	}
	var wrong string
	err := guard(func() error {
		for i, op := range ops {
			o := objs[op[1]%len(objs)]
			c := op[2] * (len(o.want.Ch) - 1)
			t.Trans(1)
			switch op[0] {
			case 0, 1: // copies, with the samples or without
				j, err := core.NewJXLImageFromJXLImage(o.j, op[0] == 0)
				if err != nil {
					return err
				}
				w := o.want.snap()
				if op[0] == 1 {
					for c := range w.Ch {
						for _, r := range w.Ch[c].I {
							clear(r)
						}
						for _, r := range w.Ch[c].F {
							clear(r)
						}
					}
				}
				objs = append(objs, &imgModel{j, w})
			case 2: // other samples
				p := newPlane(o.want.Ch[c], op[3]+i, 1<<uint(min(depth(c), 20))-1)
				w := (&Img{Ch: []Plane{p}}).snap().Ch[0]
				var err error
				if p.Float {
					err = o.j.SetFloatChannelData(c, p.F)
				} else {
					err = o.j.SetIntChannelData(c, p.I)
				}
				if err != nil {
					return err
				}
				o.want.Ch[c] = w
			case 3: // one sample in place
				p := &o.want.Ch[c]
				y, x := p.H-1, p.W/2
				if p.Float {
					d, err := o.j.GetFloatChannelData(c)
					if err != nil {
						return err
					}
					d[y][x] = 0.625
					p.F[y][x] = 0.625
				} else {
					d, err := o.j.GetIntChannelData(c)
					if err != nil {
						return err
					}
					d[y][x] = 13
					p.I[y][x] = 13
				}
			case 4: // an output must be that of a decoded image with these samples
				t.Runs(2)
				m := simpleMod(samplesOf(o.want))
				m.Tree = jx.Leaf(0)
				f, err := decode(encode(hd, lossless(), m, jx.TOC{}), 1)
				if err != nil {
					return fmt.Errorf("decode of the same samples: %w", err)
				}
				out := outputs[op[3]%len(outputs)]
				got, err := out.run(o.j)
				want, werr := out.run(f.J)
				if fmt.Sprint(err) != fmt.Sprint(werr) {
					wrong = fmt.Sprintf("%s fails with %v, on a decoded image with the same samples %v", out.name, err, werr)
					return nil
				}
				if got != want {
					wrong = fmt.Sprintf("%s differs from that of a decoded image with the same samples", out.name)
					return nil
				}
			}
			for n, o := range objs {
				t.States(1)
				if int(o.j.Width) != o.want.W || int(o.j.Height) != o.want.H || o.j.HasAlpha() != im.J.HasAlpha() || o.j.NumExtraChannels() != len(hd.EC) ||
					o.j.HasICCProfile() != im.J.HasICCProfile() || o.j.IsIntBased() == hd.BD.Float || o.j.IsFloatBased() != hd.BD.Float || o.j.ColorEncoding != im.J.ColorEncoding {
					wrong = fmt.Sprintf("operation %d changed the properties of image %d", i+1, n)
					return nil
				}
				if d := diffImg(o.want, neutral(o.j)); d != "" {
					wrong = fmt.Sprintf("after operation %d image %d: %s", i+1, n, d)
					return nil
				}
			}
		}
		return nil
	})
	if err != nil {
		t.Fail("%v", err)
		return
	}
	if wrong != "" {
		t.Fail("%s", wrong)
		return
	}
	t.Outcome("as the model")
}

func init() {
	imgKinds[len(imgKinds)-1].icc = iccSamples()[0].Bytes()
	register(func() *mc.Check {
		return &mc.Check{
			ID: "C33", Level: "model_checking",
			Technique: "explicit-state enumeration of all histories of accessor, copy and output operations on a decoded image and its copies against a plain model, replayed on the real image type",
			Bounds: func(tier string) string {
				n := 3
				if tier == "thorough" {
					n = 4
				}
				return fmt.Sprintf("6 kinds of images x all sequences of %d operations (copy with or without samples, set a channel, change a sample in place, 4 outputs) over the image and its copies; every accessor with out-of-range indices", n)
			},
			Rule:   "after every operation each image has exactly the samples and properties of the model; outputs equal those of a decoded image with these samples; bad indices are errors and change nothing",
			Assume: []string{"samples are set in the sample format and size of the channel"},
			Spaces: []mc.Space{
				{Name: "histories", Quick: true, Body: func(x *mc.X) {
					k := imgKinds[x.Choose("image", len(imgKinds))]
					n := x.Pick(3, 4)
					objs := 1
					var ops [][4]int
					for i := 0; i < n; i++ {
						op := x.Choose("operation", 5)
						o := [4]int{op}
						if objs > 1 {
							o[1] = x.Choose("on", objs)
						}
						switch op {
						case 0, 1:
							objs++
						case 2, 3:
							o[2] = x.Choose("channel", 2)
						case 4:
							o[3] = x.Choose("output", len(outputs))
						}
						ops = append(ops, o)
					}
					x.Do(func(t *mc.T) { imageHistory(t, k, ops) })
				}},
				{Name: "indices", Quick: true, Body: func(x *mc.X) {
					k := imgKinds[x.Choose("image", len(imgKinds))]
					op := x.Choose("operation", 6)
					at := x.Choose("index", 9)
					x.Do(func(t *mc.T) {
						hd, b := k.build()
						im, before := decodeFor(t, b)
						if im == nil {
							return
						}
						n := len(im.Ch)
						if op == 5 {
							n = len(hd.EC)
						}
						c := []int{0, n - 1, n, n + 1, 1000, math.MaxInt, -1, -2, math.MinInt}[at]
						ok := c >= 0 && c < n
						err := guard(func() (e error) {
							switch op {
							case 0:
								_, e = im.J.GetIntChannelData(c)
							case 1:
								_, e = im.J.GetFloatChannelData(c)
							case 2:
								if ok {
									return nil
								}
								e = im.J.SetIntChannelData(c, nil)
							case 3:
								if ok {
									return nil
								}
								e = im.J.SetFloatChannelData(c, nil)
							case 4:
								_, e = im.J.ChannelToImage(c)
							case 5:
								var ty int32
								ty, e = im.J.GetExtraChannelType(c)
								if e == nil && ty != int32(hd.EC[c].Type) {
									return fmt.Errorf("extra channel %d is reported as type %d, want %d", c, ty, hd.EC[c].Type)
								}
							}
							return
						})
						if isPanic(err) || ok != (err == nil) {
							t.Fail("operation %d with index %d of %d: %v", op, c, n, err)
							return
						}
						if d := diffImg(before, neutral(im.J)); d != "" {
							t.Fail("operation %d with index %d changed the image: %s", op, c, d)
							return
						}
						t.Outcome("index handled")
					})
				}},
			},
		}
	})
}
