// Command instr rewrites the library sources so that goroutines, channels,
// locks, atomics, timers and sockets go through the controlled scheduler, and
// writes a build overlay that maps the original files to the rewritten ones.
//
//	instr -out DIR [-pkgs pattern] [-stmt pattern,...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shim = "verif.local/mc/shim/"

var shims = map[string][2]string{
	"sync":                       {"vsync", "sync"},
	"sync/atomic":                {"vatomic", "atomic"},
	"time":                       {"vtime", "time"},
	"net":                        {"vnet", "net"},
	"context":                    {"vctx", "context"},
	"runtime":                    {"vruntime", "runtime"},
	"github.com/tevino/abool":    {"vabool", "abool"},
	"github.com/tevino/abool/v2": {"vabool", "abool"},
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func main() {
	out := flag.String("out", "", "output directory")
	mod := flag.String("module", "github.com/sttp/goapi", "module to instrument")
	flag.Parse()
	if err := run(*out, *mod); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(out, mod string) error {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module,Error", mod+"/sttp", mod+"/sttp/hashset")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	var pkgs []listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Path == mod {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(out, 0755); err != nil {
		return err
	}
	for _, p := range pkgs {
		if strings.HasSuffix(p.ImportPath, "/parser") {
			continue
		}
		if err := pkg(p, mod, exports, out, overlay); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644)
}

func pkg(p listPkg, mod string, exports map[string]string, out string, overlay map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	src := map[string][]byte{}
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		data, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, name, data, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, name)
		src[name] = data
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, FakeImportC: true}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	rel := strings.TrimPrefix(p.ImportPath, mod+"/")
	stmt := rel == "sttp" || rel == "sttp/transport" || rel == "sttp/thread" || !strings.Contains(strings.TrimPrefix(rel, "sttp/"), "/") && rel != "sttp/data" && rel != "sttp/hashset" && rel != "sttp/xml" && rel != "sttp/format" && rel != "sttp/guid" && rel != "sttp/ticks" && rel != "sttp/metadata"
	point := "Stmt"
	if rel == "sttp/data" {
		stmt, point = true, "DataStmt"
	}
	mutable := assigned(pkg, files, info)
	for i, af := range files {
		w := &rw{fset: fset, src: src[names[i]], info: info, stmt: stmt, point: point, mutable: mutable, base: fset.File(af.Pos()).Base()}
		text := w.file(af)
		if !w.changed {
			continue
		}
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"_"+filepath.Base(names[i]))
		if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
			return err
		}
		overlay[names[i]] = dst
	}
	return nil
}

type rw struct {
	fset    *token.FileSet
	src     []byte
	info    *types.Info
	stmt    bool
	point   string // what is called at points between statements
	mutable map[types.Object]bool
	base    int
	changed bool
	n       int
}

type edit struct {
	from, to int
	text     string
}

func (w *rw) off(p token.Pos) int { return int(p) - w.base }

func (w *rw) id(s string) string {
	w.n++
	return fmt.Sprintf("_v%s%d", s, w.n)
}

func (w *rw) file(f *ast.File) string {
	var edits []edit
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		s, ok := shims[path]
		if !ok {
			continue
		}
		name := s[1]
		if is.Name != nil {
			name = is.Name.Name
		}
		edits = append(edits, edit{w.off(is.Pos()), w.off(is.End()), fmt.Sprintf("%s %q", name, shim+s[0])})
		w.changed = true
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		edits = append(edits, edit{w.off(d.Pos()), w.off(d.End()), w.text(d)})
	}
	body := w.apply(0, len(w.src), edits)
	// add the runtime import on the package line to keep line numbers
	at := w.off(f.Name.End())
	return body[:at] + "; import vrt__ \"" + shim + "vrt\"" + body[at:] + "\nvar _ = vrt__.Stmt\n"
}

func (w *rw) apply(from, to int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	pos := from
	for _, e := range edits {
		if e.from < pos {
			panic(fmt.Sprintf("overlapping edits at %d", e.from))
		}
		b.Write(w.src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(w.src[pos:to])
	return b.String()
}

// text renders a node with all rewrites applied to it and its descendants.
func (w *rw) text(n ast.Node) string {
	if s, ok := w.rewrite(n); ok {
		w.changed = true
		return s
	}
	return w.children(n)
}

// children renders a node whose own syntax is unchanged.
func (w *rw) children(n ast.Node) string {
	var edits []edit
	first := true
	var visit func(x ast.Node) bool
	visit = func(x ast.Node) bool {
		if x == nil {
			return false
		}
		if first {
			first = false
			w.stmtPoints(x, &edits)
			return true
		}
		if s, ok := w.rewrite(x); ok {
			w.changed = true
			edits = append(edits, edit{w.off(x.Pos()), w.off(x.End()), s})
			return false
		}
		w.stmtPoints(x, &edits)
		return true
	}
	ast.Inspect(n, visit)
	return w.apply(w.off(n.Pos()), w.off(n.End()), edits)
}

func (w *rw) stmtPoints(x ast.Node, edits *[]edit) {
	if !w.stmt {
		return
	}
	var list []ast.Stmt
	switch x := x.(type) {
	case *ast.BlockStmt:
		list = x.List
	case *ast.CaseClause:
		list = x.Body
	case *ast.CommClause:
		list = x.Body
	}
	for _, s := range list {
		if _, ok := s.(*ast.CaseClause); ok {
			continue
		}
		if _, ok := s.(*ast.CommClause); ok {
			continue
		}
		if w.point == "DataStmt" && !w.touches(s) {
			continue
		}
		*edits = append(*edits, edit{w.off(s.Pos()), w.off(s.Pos()), "vrt__." + w.point + "(); "})
		w.changed = true
	}
}

func (w *rw) isChan(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

func (w *rw) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := w.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

// assigned collects the fields and package variables that are assigned, updated,
// have their address taken or hold an object of another package whose methods
// are called anywhere in the package.
func assigned(pkg *types.Package, files []*ast.File, info *types.Info) map[types.Object]bool {
	out := map[types.Object]bool{}
	var mark func(e ast.Expr)
	mark = func(e ast.Expr) {
		switch e := ast.Unparen(e).(type) {
		case *ast.Ident:
			if o := info.Uses[e]; o != nil {
				out[o] = true
			}
		case *ast.SelectorExpr:
			mark(e.Sel)
			mark(e.X)
		case *ast.IndexExpr:
			mark(e.X)
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.CallExpr:
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && len(n.Args) > 0 {
					if _, ok := info.Uses[id].(*types.Builtin); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") {
						mark(n.Args[0])
					}
				}
			case *ast.SelectorExpr:
				sel := info.Selections[n]
				if sel == nil || sel.Kind() != types.MethodVal {
					break
				}
				sig, _ := sel.Obj().Type().(*types.Signature)
				if sig == nil || sig.Recv() == nil {
					break
				}
				_, byPointer := sig.Recv().Type().(*types.Pointer)
				_, isPointer := sel.Recv().Underlying().(*types.Pointer)
				if byPointer && (!isPointer || sel.Obj().Pkg() != pkg) {
					mark(n.X)
				}
			}
			return true
		})
	}
	return out
}

// touches tells whether a statement, apart from the blocks in it and the
// functions it calls, reads or writes memory that may change under it.
func (w *rw) touches(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.IndexExpr:
			if tv, ok := w.info.Types[x.X]; ok && tv.IsValue() {
				found = true
			}
		case *ast.StarExpr:
			if tv, ok := w.info.Types[x]; ok && tv.IsValue() {
				found = true
			}
		case *ast.RangeStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			found = true
		case *ast.Ident:
			if v, ok := w.info.Uses[x].(*types.Var); ok && (v.IsField() || v.Pkg() != nil && v.Parent() == v.Pkg().Scope()) && w.mutable[v] {
				found = true
			}
		}
		return !found
	})
	return found
}

// shared tells whether an expression names a place that other threads may
// reach and that can be named twice.
func (w *rw) shared(e ast.Expr) bool {
	local := true
	pure := true
	ast.Inspect(e, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
			local = false
		case *ast.Ident:
			if v, ok := w.info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				local = false
			}
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			pure = false
		}
		return true
	})
	return pure && !local
}

// update writes an updating assignment as reading, a point and writing.
func (w *rw) update(e ast.Expr, op, by string) string {
	x := w.text(e)
	w.changed = true
	return x + " = vrt__." + map[string]string{"Stmt": "Fetched", "DataStmt": "DataFetched"}[w.point] + "(" + x + ") " + op + " " + by
}

func (w *rw) rewrite(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.GoStmt:
		return w.goStmt(n), true
	case *ast.SendStmt:
		return "vrt__.SendTo(" + w.text(n.Chan) + ")(" + w.text(n.Value) + ")", true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return "vrt__.Recv(" + w.text(n.X) + ")", true
		}
	case *ast.IncDecStmt:
		if w.stmt && w.shared(n.X) {
			return w.update(n.X, n.Tok.String()[:1], "1"), true
		}
	case *ast.AssignStmt:
		if op := strings.TrimSuffix(n.Tok.String(), "="); w.stmt && op != "" && op != ":" && w.shared(n.Lhs[0]) {
			return w.update(n.Lhs[0], op, "("+w.text(n.Rhs[0])+")"), true
		}
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u, ok := isRecv(n.Rhs[0]); ok {
				return w.text(n.Lhs[0]) + ", " + w.text(n.Lhs[1]) + " " + n.Tok.String() + " vrt__.Recv2(" + w.text(u.X) + ")", true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u, ok := isRecv(n.Values[0]); ok {
				t := ""
				if n.Type != nil {
					t = " " + w.text(n.Type)
				}
				return n.Names[0].Name + ", " + n.Names[1].Name + t + " = vrt__.Recv2(" + w.text(u.X) + ")", true
			}
		}
	case *ast.CallExpr:
		if len(n.Args) == 1 && w.isChan(n.Args[0]) {
			switch w.builtin(n.Fun) {
			case "close":
				return "vrt__.Close(" + w.text(n.Args[0]) + ")", true
			case "len":
				return "vrt__.Len(" + w.text(n.Args[0]) + ")", true
			}
		}
	case *ast.RangeStmt:
		if w.isChan(n.X) {
			return w.rangeStmt(n), true
		}
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(s, n.Label.Name), true
		}
	case *ast.SelectStmt:
		return w.selectStmt(n, ""), true
	}
	return "", false
}

func (w *rw) goStmt(g *ast.GoStmt) string {
	c := g.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return "vrt__.Go(func() { (" + w.text(fl) + ")() })"
	}
	if w.builtin(c.Fun) != "" {
		return "vrt__.Go(func() { " + w.text(c) + " })"
	}
	var b strings.Builder
	b.WriteString("{ ")
	fn := ""
	if generic(w.info, c.Fun) {
		fn = w.text(c.Fun)
	} else {
		fn = w.id("f")
		b.WriteString(fn + " := " + w.text(c.Fun) + "; ")
	}
	var args []string
	for _, a := range c.Args {
		tv := w.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, w.text(a))
			continue
		}
		if bt, ok := tv.Type.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
			args = append(args, w.text(a))
			continue
		}
		v := w.id("a")
		b.WriteString(v + " := " + w.text(a) + "; ")
		args = append(args, v)
	}
	call := strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	b.WriteString("vrt__.Go(func() { " + fn + "(" + call + ") }) }")
	return b.String()
}

func generic(info *types.Info, e ast.Expr) bool {
	var id *ast.Ident
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	}
	if id == nil {
		return false
	}
	_, ok := info.Instances[id]
	return ok
}

func (w *rw) rangeStmt(r *ast.RangeStmt) string {
	rc, ok := w.id("rc"), w.id("ok")
	bind := "_, " + ok + " := vrt__.Recv2(" + rc + ")"
	if r.Key != nil {
		k := w.text(r.Key)
		if r.Tok == token.DEFINE {
			bind = k + ", " + ok + " := vrt__.Recv2(" + rc + "); _ = " + k
			if k == "_" {
				bind = "_, " + ok + " := vrt__.Recv2(" + rc + ")"
			}
		} else {
			bind = "var " + ok + " bool; " + k + ", " + ok + " = vrt__.Recv2(" + rc + ")"
		}
	}
	body := w.text(r.Body)
	// the iteration variable of the original loop is not assigned when the
	// channel is closed; assigning the zero value is only visible for "=" form
	return "for " + rc + " := " + w.text(r.X) + "; ; { " + bind + "; if !" + ok + " { break }; " + strings.TrimPrefix(body, "{")
}

func (w *rw) selectStmt(s *ast.SelectStmt, label string) string {
	var pre, out strings.Builder
	sel := w.id("sel")
	var cases []string
	hasDefault := false
	idx := 0
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		head := ""
		switch c := cc.Comm.(type) {
		case nil:
			hasDefault = true
			head = "default: "
		case *ast.SendStmt:
			ch, v := w.id("c"), w.id("s")
			pre.WriteString(ch + " := " + w.text(c.Chan) + "; " + v + " := vrt__.SendCaseTo(" + ch + ")(" + w.text(c.Value) + "); ")
			cases = append(cases, v)
			head = fmt.Sprintf("case %d: ", idx)
			idx++
		default:
			var rx ast.Expr
			bind := ""
			ch := w.id("c")
			switch c := c.(type) {
			case *ast.ExprStmt:
				rx = c.X
			case *ast.AssignStmt:
				rx = c.Rhs[0]
				l0 := w.text(c.Lhs[0])
				if len(c.Lhs) == 2 {
					bind = l0 + ", " + w.text(c.Lhs[1]) + " " + c.Tok.String() + " vrt__.SelVal(" + ch + ", " + sel + "), " + sel + ".Ok; "
				} else {
					bind = l0 + " " + c.Tok.String() + " vrt__.SelVal(" + ch + ", " + sel + "); "
				}
			}
			u, _ := isRecv(rx)
			pre.WriteString(ch + " := " + w.text(u.X) + "; ")
			cases = append(cases, "vrt__.RecvCase("+ch+")")
			head = fmt.Sprintf("case %d: ", idx) + bind
			idx++
		}
		out.WriteString(head)
		end := int(cc.Colon) + 1 - w.base
		var edits []edit
		w.stmtPoints(cc, &edits)
		for _, b := range cc.Body {
			edits = append(edits, edit{w.off(b.Pos()), w.off(b.End()), w.text(b)})
		}
		stop := w.off(cc.End())
		if stop < end {
			stop = end
		}
		out.WriteString(w.apply(end, stop, edits))
		out.WriteString("\n")
	}
	if !hasDefault {
		out.WriteString("default: panic(\"unreachable\")\n")
	}
	lab := ""
	if label != "" {
		lab = label + ": "
	}
	args := ""
	if len(cases) > 0 {
		args = ", " + strings.Join(cases, ", ")
	}
	return "{ " + pre.String() + lab + "switch " + sel + " := vrt__.Select(" + strconv.FormatBool(hasDefault) + args + "); " + sel + ".Index {\n" + out.String() + "} }"
}
