package checks

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/jx"
	"verif/mc"
)

// toolRun is one run of the converter in a directory of its own.
type toolRun struct {
	dir    string
	code   int
	text   string
	killed bool
}

// tool runs the converter; limit (when not negative) is the number of bytes a
// file may grow to.
func tool(dir string, limit int, args ...string) (r toolRun) {
	r.dir = dir
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	exe := os.Getenv("JXLMC_TOOL")
	cmd := exec.CommandContext(ctx, exe, args...)
	if limit >= 0 {
		cmd = exec.CommandContext(ctx, "prlimit", append([]string{fmt.Sprintf("--fsize=%d", limit), exe}, args...)...)
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	b, err := cmd.CombinedOutput()
	r.text = string(b)
	r.code = cmd.ProcessState.ExitCode()
	r.killed = err != nil && r.code < 0
	return
}

// pngPixels reads a PNG: samples and profile.
func pngPixels(b []byte) (m image.Image, icc []byte, err error) {
	p, err := parsePNG(b)
	if err != nil {
		return nil, nil, err
	}
	m, err = png.Decode(bytes.NewReader(b))
	return m, p.icc, err
}

func samePixels(a, b image.Image) string {
	if a.Bounds().Size() != b.Bounds().Size() {
		return fmt.Sprintf("size %v, want %v", a.Bounds().Size(), b.Bounds().Size())
	}
	for y := 0; y < a.Bounds().Dy(); y++ {
		for x := 0; x < a.Bounds().Dx(); x++ {
			r, g, bl, al := a.At(a.Bounds().Min.X+x, a.Bounds().Min.Y+y).RGBA()
			r2, g2, b2, a2 := b.At(b.Bounds().Min.X+x, b.Bounds().Min.Y+y).RGBA()
			if r != r2 || g != g2 || bl != b2 || al != a2 {
				return fmt.Sprintf("pixel (%d,%d) is %v, want %v", x, y, [4]uint32{r, g, bl, al}, [4]uint32{r2, g2, b2, a2})
			}
		}
	}
	return ""
}

// libraryPNG is the PNG of a file according to the library: by the PNG writer
// when the image has a profile, by image/png from the Go image otherwise.
func libraryPNG(b []byte) (out []byte, err error) {
	im, err := decode(b, 1)
	if err != nil {
		return nil, err
	}
	var w bytes.Buffer
	if im.J.HasICCProfile() {
		err = writePNG(im.J, &w)
		return w.Bytes(), err
	}
	m, err := toImage(im.J)
	if err != nil {
		return nil, err
	}
	err = png.Encode(&w, m)
	return w.Bytes(), err
}

type toolInput struct {
	name string
	b    []byte
}

func toolInputs() (o []toolInput) {
	for _, f := range corpus() {
		if f.Name != "v-lfgroups" {
			o = append(o, toolInput{f.Name, f.B})
		}
	}
	add := func(name string, k outKind) {
		_, b := k.build()
		o = append(o, toolInput{name, b})
	}
	for _, bits := range []int{1, 8, 10, 16} {
		for a := range alphaSets {
			for _, gray := range []bool{false, true} {
				k := outKind{bd: jx.BitDepth{Bits: bits}, col: jx.Colour{Default: true}, ecs: alphaSets[a].ecs(bits)}
				if gray {
					k.col = jx.GrayColour()
				}
				add(fmt.Sprintf("%d bits, %s, gray %v", bits, alphaSets[a].name, gray), k)
			}
		}
	}
	for i, s := range iccSamples() {
		for _, bits := range []int{8, 16} {
			for space := 0; space < 2; space++ {
				add(fmt.Sprintf("profile %d, %d bits, space %d", i, bits, space), outKind{bd: jx.BitDepth{Bits: bits}, col: jx.Colour{ICC: true, Space: space}, icc: s.Bytes()})
			}
		}
	}
	for _, tf := range []int{1, 8, 16, 17, 18} {
		for _, xyb := range []bool{false, true} {
			add(fmt.Sprintf("transfer function %d, XYB %v", tf, xyb), outKind{bd: jx.BitDepth{Bits: 8}, col: jx.Colour{White: 1, Prim: 9, TF: tf}, xyb: xyb})
		}
	}
	o = append(o, toolInput{"nothing", nil}, toolInput{"text", []byte("this is no image")})
	return
}

// toolCase runs the converter on an input and judges exit status and output.
func toolCase(t *mc.T, in toolInput, state, limit int, debug bool) {
	t.Input(in.b)
	want, werr := libraryPNG(in.b)
	if isPanic(werr) {
		t.Outcome("library panics")
		return
	}
	dir, err := os.MkdirTemp(os.Getenv("JXLMC_TMP"), "tool")
	if err != nil {
		t.Cap("no scratch directory: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	src, dst := filepath.Join(dir, "in.jxl"), filepath.Join(dir, "out.png")
	os.WriteFile(src, in.b, 0666)
	old := bytes.Repeat([]byte("previous contents "), 1+(len(want)+100)/10)
	name := "out.png"
	fail := werr != nil
	switch state {
	case 1: // a longer file exists
		os.WriteFile(dst, old, 0666)
	case 2:
		name, fail = "missing/out.png", true
	case 3:
		name, fail = ".", true
	case 4:
		name, fail = "/dev/full", true
	}
	if limit >= 0 && limit < len(want) {
		fail = true
	}
	args := []string{"-i", "in.jxl", "-o", name}
	if debug {
		args = append(args, "-d")
	}
	r := tool(dir, limit, args...)
	t.Runs(1)
	in2, _ := os.ReadFile(src)
	out, oerr := os.ReadFile(dst)
	what := fmt.Sprintf("%s, output state %d, limit %d", in.name, state, limit)
	switch {
	case !bytes.Equal(in2, in.b):
		t.Fail("%s: the input file was changed", what)
	case r.killed:
		t.Fail("%s: the converter was killed: %.200s", what, r.text)
	case fail && r.code == 0:
		t.Fail("%s: the conversion failed (%v) with exit status 0: %.200s", what, werr, r.text)
	case fail && limit < 0 && strings.Contains(r.text, "panic:"):
		t.Fail("%s: panic: %.300s", what, r.text)
	case fail && strings.TrimSpace(r.text) == "":
		t.Fail("%s: the conversion failed without a message", what)
	case werr != nil && state == 1 && !bytes.Equal(out, old):
		t.Fail("%s: the input cannot be decoded, but the existing output was changed", what)
	case werr != nil && state == 0 && oerr == nil && len(out) > 0:
		t.Fail("%s: the input cannot be decoded, but there is an output of %d bytes", what, len(out))
	case !fail && r.code != 0:
		t.Fail("%s: exit status %d: %.200s", what, r.code, r.text)
	case !fail:
		if oerr != nil {
			t.Fail("%s: exit status 0 without an output: %v", what, oerr)
			return
		}
		wm, wicc, err := pngPixels(want)
		if err != nil {
			t.Outcome("library PNG invalid") // C24 and C26 judge that
			return
		}
		m, icc, err := pngPixels(out)
		if err != nil {
			t.Fail("%s: exit status 0, but the output is no PNG: %v", what, err)
			return
		}
		if !bytes.Equal(icc, wicc) {
			t.Fail("%s: profile of %d bytes, want %d", what, len(icc), len(wicc))
			return
		}
		if s := samePixels(m, wm); s != "" {
			t.Fail("%s: %s", what, s)
			return
		}
		t.Outcome("converted")
	default:
		t.Outcome("failed as it should")
	}
}

func init() {
	register(func() *mc.Check {
		var ins []toolInput
		inputs := func() []toolInput {
			if ins == nil {
				ins = toolInputs()
			}
			return ins
		}
		small := func() (o []toolInput) {
			for _, in := range inputs() {
				switch in.name {
				case "m-gray", "8 bits, alpha, gray false", "10 bits, no extra channel, gray true", "profile 0, 8 bits, space 0", "profile 0, 16 bits, space 1":
					o = append(o, in)
				}
			}
			return
		}
		return &mc.Check{ID: "C35", Level: "fault_enumeration", Technique: "exhaustive enumeration of inputs, states of the output path and write faults (every size at which a write can fail), each run with the real command line converter in a scratch directory",
			Bounds: func(tier string) string {
				step := "every 7th size"
				if tier == "thorough" {
					step = "every size"
				}
				return "the corpus, damaged files included, and 100 image kinds x output absent, existing, in a missing directory, a directory, a full device x debug; 5 images: write fault at " + step + ", every truncation of the input; all combinations of arguments"
			},
			Rule:   "exit status 0 exactly when the output is a complete PNG with the pixels and the profile that the library gives; the input and, if it cannot be decoded, an existing output stay as they were",
			Assume: []string{"the PNG of the library is judged by C24 and C26"}, HangS: 120,
			Spaces: []mc.Space{
				{Name: "images", Quick: true, Body: func(x *mc.X) {
					in := inputs()[x.Choose("input", len(inputs()))]
					state := x.Choose("output", x.Pick(2, 5))
					debug := state == 0 && x.Choose("debug", 2) == 1
					x.Do(func(t *mc.T) { toolCase(t, in, state, -1, debug) })
				}},
				{Name: "output paths", Quick: true, Body: func(x *mc.X) {
					in := small()[x.Choose("input", len(small()))]
					state := x.Choose("output", 5)
					x.Do(func(t *mc.T) { toolCase(t, in, state, -1, false) })
				}},
				{Name: "write faults", Quick: true, Body: func(x *mc.X) {
					in := small()[x.Choose("input", len(small()))]
					want, err := libraryPNG(in.b)
					if err != nil || len(want) == 0 {
						x.Prune()
					}
					step := x.Pick(7, 1)
					limit := step * x.Choose("limit", len(want)/step+2)
					state := x.Choose("existing output", 2)
					x.Do(func(t *mc.T) { toolCase(t, in, state, limit, false) })
				}},
				{Name: "truncated input", Quick: true, Body: func(x *mc.X) {
					in := small()[x.Choose("input", len(small()))]
					step := x.Pick(5, 1)
					n := step * x.Choose("length", (len(in.b)-1)/step+1)
					x.Do(func(t *mc.T) {
						toolCase(t, toolInput{fmt.Sprintf("%s cut to %d", in.name, n), in.b[:n]}, 1, -1, false)
					})
				}},
				{Name: "arguments", Quick: true, Body: func(x *mc.X) {
					ins := []string{"", "-i=", "-i=in.jxl", "-i=missing.jxl", "-i=."}[x.Choose("input", 5)]
					outs := []string{"", "-o=", "-o=out.png"}[x.Choose("output", 3)]
					more := []string{"", "-d", "-unknown"}[x.Choose("more", 3)]
					x.Do(func(t *mc.T) {
						dir, err := os.MkdirTemp(os.Getenv("JXLMC_TMP"), "tool")
						if err != nil {
							t.Cap("no scratch directory: %v", err)
							return
						}
						defer os.RemoveAll(dir)
						os.WriteFile(filepath.Join(dir, "in.jxl"), corpusFile("m-gray").B, 0666)
						var args []string
						for _, a := range []string{more, outs, ins} {
							if a != "" {
								args = append(args, a)
							}
						}
						r := tool(dir, -1, args...)
						good := ins == "-i=in.jxl" && outs == "-o=out.png" && more != "-unknown"
						_, serr := os.Stat(filepath.Join(dir, "out.png"))
						switch {
						case good != (r.code == 0):
							t.Fail("%q: exit status %d: %.200s", args, r.code, r.text)
						case good != (serr == nil):
							t.Fail("%q: output exists: %v", args, serr == nil)
						case strings.Contains(r.text, "panic:"):
							t.Fail("%q: panic: %.300s", args, r.text)
						case !good && strings.TrimSpace(r.text) == "":
							t.Fail("%q: no message", args)
						default:
							t.Outcome("as expected")
						}
					})
				}},
			}}
	})
}
