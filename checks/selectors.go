package checks

import (
	"verif/jx"
	"verif/mc"
)

// wideSpaces lists the spaces which are explored a second time with every
// variable-size field written in another of its representations.
var wideSpaces = map[string][]string{
	"C06": {"many-clusters", "cluster-maps"},
	"C07": {"special-distances"},
	"C10": {"rct", "palette", "implicit-colours", "squeeze-explicit", "meta-channels"},
	"C12": {"two-frames"},
	"C13": {"fields", "all-default", "decode", "colour", "many-extra"},
	"C15": {"two-frames", "different-sources", "upsampled-frames", "far-crops", "names-and-extensions"},
	"C16": {"single", "many"},
	"C17": {"extra-channels", "cropped-frames"},
	"C18": {"whole file"},
	"C29": {"contexts", "orders", "matrices", "params", "presets", "passes"},
	"C30": {"default", "custom-weights"},
	"C32": {"structures"},
}

func addWide(c *mc.Check) *mc.Check {
	for _, name := range wideSpaces[c.ID] {
		for _, sp := range c.Spaces {
			if sp.Name != name {
				continue
			}
			body := sp.Body
			sp.Name += ", other selectors"
			sp.Body = func(x *mc.X) {
				k := 1
				if x.Thorough() {
					k += x.Choose("selectors", 2)
				}
				x.Wrap = func(f func(t *mc.T)) func(t *mc.T) {
					return func(t *mc.T) {
						jx.Wide = k
						defer func() { jx.Wide = 0 }()
						f(t)
					}
				}
				body(x)
			}
			c.Spaces = append(c.Spaces, sp)
			break
		}
	}
	return c
}
