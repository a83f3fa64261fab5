// Package checks holds the property harnesses.
package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/kpfaulkner/jxl-go/core"
	"github.com/kpfaulkner/jxl-go/options"
	log "github.com/sirupsen/logrus"

	"verif/jx"
	"verif/mc"
)

// Init registers every check.
func Init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	for _, f := range registry {
		mc.Register(addWide(f()))
	}
}

var registry []func() *mc.Check

func register(f func() *mc.Check) { registry = append(registry, f) }

// Img is a decoded image in a neutral form.
type Img struct {
	W, H int
	Ch   []Plane
	J    *core.JXLImage
}

// Plane is one decoded channel.
type Plane struct {
	Float bool
	W, H  int
	I     [][]int32
	F     [][]float32
}

type panicErr struct {
	v     any
	stack string
}

func (p *panicErr) Error() string { return fmt.Sprintf("panic: %v [%s]", p.v, p.stack) }

func isPanic(err error) bool {
	var p *panicErr
	return errors.As(err, &p)
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			err = &panicErr{r, shortStack(string(buf[:n]))}
		}
	}()
	return f()
}

func shortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "jxl-go/") || strings.HasPrefix(l, "\t/repo/") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +"); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// decode decodes bytes with n goroutines.
func decode(b []byte, n int) (*Img, error) { return decodeFrom(bytes.NewReader(b), n) }

func decodeFrom(r io.ReadSeeker, n int) (im *Img, err error) {
	err = guard(func() error {
		d := core.NewJXLDecoder(r, &options.JXLOptions{MaxGoroutines: n})
		j, e := d.Decode()
		if e != nil {
			return e
		}
		if j == nil {
			return errNil
		}
		im = neutral(j)
		return nil
	})
	if err != nil {
		im = nil
	}
	return
}

var errNil = errors.New("decoder returned neither image nor error")

func neutral(j *core.JXLImage) *Img {
	im := &Img{W: int(j.Width), H: int(j.Height), J: j}
	for i := range j.Buffer {
		b := &j.Buffer[i]
		p := Plane{Float: b.IsFloat()}
		if p.Float {
			p.F, _ = j.GetFloatChannelData(i)
			p.H = len(p.F)
			if p.H > 0 {
				p.W = len(p.F[0])
			}
		} else {
			p.I, _ = j.GetIntChannelData(i)
			p.H = len(p.I)
			if p.H > 0 {
				p.W = len(p.I[0])
			}
		}
		im.Ch = append(im.Ch, p)
	}
	return im
}

// snap deep-copies the samples of an image.
func (im *Img) snap() *Img {
	o := &Img{W: im.W, H: im.H}
	for _, p := range im.Ch {
		q := Plane{Float: p.Float, W: p.W, H: p.H}
		for _, r := range p.I {
			q.I = append(q.I, append([]int32{}, r...))
		}
		for _, r := range p.F {
			q.F = append(q.F, append([]float32{}, r...))
		}
		if p.Float {
			q.I = nil
		} else {
			q.F = nil
		}
		o.Ch = append(o.Ch, q)
	}
	return o
}

// diffInts compares the image with expected integer channels.
func diffInts(im *Img, want []*jx.Ch) string {
	if len(im.Ch) != len(want) {
		return fmt.Sprintf("channel count %d, want %d", len(im.Ch), len(want))
	}
	for c, w := range want {
		p := im.Ch[c]
		if p.Float {
			return fmt.Sprintf("channel %d is float, want int", c)
		}
		if p.W != w.W || p.H != w.H {
			return fmt.Sprintf("channel %d is %dx%d, want %dx%d", c, p.W, p.H, w.W, w.H)
		}
		for y := 0; y < w.H; y++ {
			for x := 0; x < w.W; x++ {
				if p.I[y][x] != w.D[y][x] {
					return fmt.Sprintf("channel %d (%d,%d) = %d, want %d", c, x, y, p.I[y][x], w.D[y][x])
				}
			}
		}
	}
	return ""
}

// diffImg compares two decodes bit for bit.
func diffImg(a, b *Img) string {
	if a.W != b.W || a.H != b.H {
		return fmt.Sprintf("size %dx%d vs %dx%d", a.W, a.H, b.W, b.H)
	}
	if len(a.Ch) != len(b.Ch) {
		return fmt.Sprintf("channels %d vs %d", len(a.Ch), len(b.Ch))
	}
	for c := range a.Ch {
		p, q := a.Ch[c], b.Ch[c]
		if p.Float != q.Float || p.W != q.W || p.H != q.H {
			return fmt.Sprintf("channel %d shape differs", c)
		}
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				if p.Float {
					if p.F[y][x] != q.F[y][x] && !(p.F[y][x] != p.F[y][x] && q.F[y][x] != q.F[y][x]) {
						return fmt.Sprintf("channel %d (%d,%d): %v vs %v", c, x, y, p.F[y][x], q.F[y][x])
					}
				} else if p.I[y][x] != q.I[y][x] {
					return fmt.Sprintf("channel %d (%d,%d): %d vs %d", c, x, y, p.I[y][x], q.I[y][x])
				}
			}
		}
	}
	return ""
}

// rng is a tiny deterministic generator for content (not for choosing cases).
type rng uint32

func (r *rng) next() uint32 {
	*r = *r*1664525 + 1013904223
	return uint32(*r) >> 8
}

// fill makes channel content: kind 0 zero, 1 gradient, 2 noise of given
// magnitude, 3 constant, 4 sparse, 5 mixed.
func fill(c *jx.Ch, kind, seed int, max int32) *jx.Ch {
	r := rng(seed*7919 + kind*104729 + 12345)
	for y := range c.D {
		for x := range c.D[y] {
			var v int64
			switch kind {
			case 1:
				v = int64(x*3+y*5+seed*7) % (int64(max) + 1)
			case 2:
				v = int64(r.next()) % (int64(max) + 1)
			case 3:
				v = int64(max) / 2
			case 4:
				if r.next()%7 == 0 {
					v = int64(max)
				}
			case 5:
				v = (int64(x*x+y*3)/2 + int64(r.next()%4)) % (int64(max) + 1)
			}
			c.D[y][x] = int32(v)
		}
	}
	return c
}

// simple returns a plain modular codestream for the given colour/extra planes.
func simpleMod(chs []*jx.Ch) *jx.Mod {
	return &jx.Mod{Chans: chs, Tree: jx.Leaf(5), WP: jx.DefaultWP(), Code: jx.Code{LogAlpha: 8}, TCode: jx.Code{LogAlpha: 8}}
}

func encode(h *jx.Hdr, f *jx.FrameHdr, m *jx.Mod, t jx.TOC) []byte {
	w := &jx.BW{}
	h.Write(w)
	jx.EncodeModular(w, h, f, m, t)
	w.Pad()
	return w.B
}

func cloneChs(c []*jx.Ch) []*jx.Ch {
	var o []*jx.Ch
	for _, x := range c {
		o = append(o, x.Clone())
	}
	return o
}

func lossless() *jx.FrameHdr { return &jx.FrameHdr{Modular: true, IsLast: true, GroupShift: 1} }
