// instr rewrites the synchronisation of the code under test onto the controlled
// scheduler (package mcrt) and writes a build overlay; the sources themselves
// are not touched.
//
// usage: instr OUTDIR
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Module                  *struct{ Path string }
	Error                   *struct{ Err string }
}

const target = "github.com/kpfaulkner/jxl-go"

func main() {
	if err := run(os.Args[1]); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(out string) error {
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module,Error", "./cmd/jxlmc"}
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var pkgs []pkg
	for dec := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == target {
			pkgs = append(pkgs, p)
		}
	}
	replace := map[string]string{}
	for _, p := range pkgs {
		if p.Error != nil {
			return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		if err := rewrite(p, exports, out, replace); err != nil {
			return err
		}
	}
	root, err := os.Getwd()
	if err != nil {
		return err
	}
	gen := filepath.Join(out, "instrumented.go")
	if err := os.WriteFile(gen, []byte("package mcrt\n\nfunc init() { Instrumented = true }\n"), 0o644); err != nil {
		return err
	}
	replace[filepath.Join(root, "mcrt", "zz_instrumented.go")] = gen
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

type edit struct {
	from, to int
	f        func() string
}

type file struct {
	fset  *token.FileSet
	src   []byte
	base  int
	info  *types.Info
	edits []edit
	used  bool
	err   error
	n     int
	tail  string
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

// text is the rewritten source between two offsets.
func (f *file) text(from, to int) string {
	var sb strings.Builder
	for from < to {
		best := -1
		for i, e := range f.edits {
			if e.from >= from && e.to <= to && (best < 0 || e.from < f.edits[best].from || e.from == f.edits[best].from && e.to > f.edits[best].to) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		e := f.edits[best]
		sb.Write(f.src[from:e.from])
		// the edit itself is hidden while its parts are rewritten
		f.edits[best].from, f.edits[best].to = -1, -2
		sb.WriteString(e.f())
		f.edits[best] = e
		from = e.to
	}
	if from < to {
		sb.Write(f.src[from:to])
	}
	return sb.String()
}

func (f *file) node(n ast.Node) string { return f.text(f.off(n.Pos()), f.off(n.End())) }

func (f *file) add(n ast.Node, g func() string) {
	f.edits = append(f.edits, edit{f.off(n.Pos()), f.off(n.End()), g})
}

func (f *file) fail(n ast.Node, msg string) {
	if f.err == nil {
		f.err = fmt.Errorf("%s: %s", f.fset.Position(n.Pos()), msg)
	}
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := types.Unalias(t).(*types.Chan)
	return ok
}

func rewrite(p pkg, exports map[string]string, out string, replace map[string]string) error {
	fset := token.NewFileSet()
	var asts []*ast.File
	var srcs [][]byte
	for _, g := range p.GoFiles {
		path := filepath.Join(p.Dir, g)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		asts = append(asts, a)
		srcs = append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	if _, err := conf.Check(p.ImportPath, fset, asts, info); err != nil {
		return err
	}
	for i, a := range asts {
		f := &file{fset: fset, src: srcs[i], info: info}
		f.scan(a)
		if f.err != nil {
			return f.err
		}
		if len(f.edits) == 0 {
			continue
		}
		if f.used {
			name := a.Name.Name
			f.add(a.Name, func() string { return name + "; import mcrt \"verif/mcrt\"" })
		}
		res := f.text(0, len(f.src))
		res += f.tail
		if f.err != nil {
			return f.err
		}
		if _, err := format.Source([]byte(res)); err != nil {
			return fmt.Errorf("%s: %v", p.GoFiles[i], err)
		}
		path := filepath.Join(p.Dir, p.GoFiles[i])
		name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, target), "/", "_")+"_"+p.GoFiles[i])
		if err := os.WriteFile(name, []byte(res), 0o644); err != nil {
			return err
		}
		replace[path] = name
	}
	return nil
}

func (f *file) pkgFunc(e ast.Expr, path, name string) bool {
	s, ok := e.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != name {
		return false
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := f.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (f *file) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := f.info.Uses[id].(*types.Builtin)
	return ok && b.Name() == name
}

func (f *file) typ(e ast.Expr) types.Type { return f.info.Types[e].Type }

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *file) scan(a *ast.File) {
	for _, im := range a.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to, name := "", ""
		switch path {
		case "sync":
			to, name = "verif/mcrt/msync", "sync"
		case "sync/atomic":
			to, name = "verif/mcrt/matomic", "atomic"
		case "context", "os/signal":
			continue
		default:
			continue
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		f.add(im, func() string { return name + " " + strconv.Quote(to) })
	}
	two := map[ast.Expr]bool{} // receives with two results
	comm := map[ast.Node]bool{}
	labeled := map[ast.Stmt]bool{}
	ast.Inspect(a, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			labeled[n.Stmt] = true
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[unparen(n.Values[0])] = true
			}
		case *ast.CommClause:
			if n.Comm != nil {
				comm[n.Comm] = true
				switch c := n.Comm.(type) {
				case *ast.ExprStmt:
					comm[unparen(c.X)] = true
				case *ast.AssignStmt:
					comm[unparen(c.Rhs[0])] = true
				}
			}
		case *ast.ChanType:
			f.used = true
			f.add(n, func() string { return "*mcrt.Chan[" + f.node(n.Value) + "]" })
		case *ast.CallExpr:
			f.call(n)
		case *ast.SendStmt:
			if comm[n] {
				return true
			}
			f.add(n, func() string { return "(" + f.node(n.Chan) + ").Send(" + f.node(n.Value) + ")" })
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || comm[n] {
				return true
			}
			m := "Recv"
			if two[n] {
				m = "Recv2"
			}
			f.add(n, func() string { return "(" + f.node(n.X) + ")." + m + "()" })
		case *ast.RangeStmt:
			if isChan(f.typ(n.X)) {
				f.rangeChan(n)
			} else if t := f.typ(n.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					f.fail(n, "range over a named channel type")
				}
			}
		case *ast.SelectStmt:
			if labeled[n] {
				f.fail(n, "labelled select")
			}
			f.sel(n)
		case *ast.GoStmt:
			f.gostmt(n)
		case *ast.TypeSpec:
			if _, ok := n.Type.(*ast.ChanType); ok && !n.Assign.IsValid() {
				f.fail(n, "named channel type")
			}
		}
		return true
	})
}

func (f *file) call(n *ast.CallExpr) {
	switch {
	case f.builtin(n.Fun, "make") && isChan(f.typ(n.Args[0])):
		f.used = true
		f.add(n, func() string {
			ct, ok := n.Args[0].(*ast.ChanType)
			if !ok {
				f.fail(n, "make of a named channel type")
				return ""
			}
			size := "0"
			if len(n.Args) > 1 {
				size = "mcrt.IntOf(" + f.node(n.Args[1]) + ")"
			}
			return "mcrt.MakeChan[" + f.node(ct.Value) + "](" + size + ")"
		})
	case f.builtin(n.Fun, "close"):
		f.add(n, func() string { return "(" + f.node(n.Args[0]) + ").Close()" })
	case f.builtin(n.Fun, "len") && isChan(f.typ(n.Args[0])):
		f.add(n, func() string { return "(" + f.node(n.Args[0]) + ").Len()" })
	case f.builtin(n.Fun, "cap") && isChan(f.typ(n.Args[0])):
		f.add(n, func() string { return "(" + f.node(n.Args[0]) + ").Cap()" })
	case f.pkgFunc(n.Fun, "time", "Sleep"), f.pkgFunc(n.Fun, "runtime", "Gosched"):
		f.used = true
		f.add(n, func() string { return "mcrt.Yield()" })
		s := n.Fun.(*ast.SelectorExpr)
		f.tail += "\nvar _ = " + s.X.(*ast.Ident).Name + "." + s.Sel.Name + "\n"
	}
}

func (f *file) rangeChan(n *ast.RangeStmt) {
	f.add(n, func() string {
		v := "_"
		decl := ""
		if n.Key != nil {
			v = f.node(n.Key)
		}
		op := ":="
		if n.Key != nil && n.Tok == token.ASSIGN {
			op, decl = "=", "var mcrtok bool; "
		}
		use := ""
		if v != "_" && op == ":=" {
			use = "_ = " + v + "; "
		}
		return "for mcrtc := " + f.node(n.X) + "; ; { " + decl + v + ", mcrtok " + op + " mcrtc.Recv2(); if !mcrtok { break }; " + use + f.node(n.Body) + " }"
	})
}

func (f *file) gostmt(n *ast.GoStmt) {
	f.used = true
	f.add(n, func() string {
		c := n.Call
		f.n++
		id := strconv.Itoa(f.n)
		var sb strings.Builder
		sb.WriteString("{ ")
		fn := f.node(c.Fun)
		if tv := f.info.Types[c.Fun]; !tv.IsBuiltin() {
			fmt.Fprintf(&sb, "mcrtf%s := %s; ", id, fn)
			fn = "mcrtf" + id
		}
		var as []string
		for i, a := range c.Args {
			tv := f.info.Types[a]
			if tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() || tv.IsType() {
				as = append(as, f.node(a))
				continue
			}
			nm := fmt.Sprintf("mcrta%s_%d", id, i)
			fmt.Fprintf(&sb, "%s := %s; ", nm, f.node(a))
			as = append(as, nm)
		}
		dots := ""
		if c.Ellipsis.IsValid() {
			dots = "..."
		}
		fmt.Fprintf(&sb, "mcrt.Go(func() { %s(%s%s) }) }", fn, strings.Join(as, ", "), dots)
		return sb.String()
	})
}

func (f *file) sel(n *ast.SelectStmt) {
	f.used = true
	f.add(n, func() string {
		var pre, body strings.Builder
		var cases []string
		def := false
		idx := 0
		for _, s := range n.Body.List {
			c := s.(*ast.CommClause)
			from := f.off(c.Colon) + 1
			to := from
			if k := len(c.Body); k > 0 {
				to = f.off(c.Body[k-1].End())
			}
			inner := f.text(from, to)
			if c.Comm == nil {
				def = true
				body.WriteString("default: " + inner + "\n")
				continue
			}
			ch := fmt.Sprintf("mcrtc%d", idx)
			bind := ""
			switch k := c.Comm.(type) {
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "%s := %s; ", ch, f.node(k.Chan))
				cases = append(cases, fmt.Sprintf("%s.SendCase(%s)", ch, f.node(k.Value)))
			case *ast.ExprStmt:
				fmt.Fprintf(&pre, "%s := %s; ", ch, f.node(unparen(k.X).(*ast.UnaryExpr).X))
				cases = append(cases, ch+".RecvCase()")
			case *ast.AssignStmt:
				fmt.Fprintf(&pre, "%s := %s; ", ch, f.node(unparen(k.Rhs[0]).(*ast.UnaryExpr).X))
				cases = append(cases, ch+".RecvCase()")
				l := f.node(k.Lhs[0])
				r := ch + ".As(mcrtv)"
				if len(k.Lhs) == 2 {
					l += ", " + f.node(k.Lhs[1])
					r += ", mcrtok"
				}
				bind = l + " " + k.Tok.String() + " " + r + "; "
			}
			fmt.Fprintf(&body, "case %d: %s%s\n", idx, bind, inner)
			idx++
		}
		if !def {
			body.WriteString("default: panic(\"select\")\n")
		}
		return fmt.Sprintf("{ %smcrti, mcrtv, mcrtok := mcrt.Select(%v%s); _, _ = mcrtv, mcrtok; switch mcrti { %s } }",
			pre.String(), def, strings.Join(append([]string{""}, cases...), ", "), body.String())
	})
}
