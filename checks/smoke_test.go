package checks

import (
	"testing"
	"verif/jx"
)

func TestSmoke(t *testing.T) {
	for _, pre := range []bool{true, false} {
		for _, sz := range [][2]int{{1, 1}, {7, 5}, {17, 33}, {300, 200}, {257, 257}, {2100, 20}} {
			for _, k := range []int{0, 1, 2, 4} {
				h := jx.NewHdr(sz[0], sz[1])
				var chs []*jx.Ch
				for c := 0; c < 3; c++ {
					chs = append(chs, fill(jx.NewCh(sz[0], sz[1]), k, c, 255))
				}
				m := simpleMod(chs)
				m.Code.Prefix = pre
				m.TCode.Prefix = pre
				b := encode(h, lossless(), m, jx.TOC{})
				im, err := decode(b, 1)
				if err != nil {
					t.Errorf("%v %v %v: %v", pre, sz, k, err)
					continue
				}
				if d := diffInts(im, chs); d != "" {
					t.Errorf("%v %v %v: %v", pre, sz, k, d)
				}
			}
		}
	}
}
