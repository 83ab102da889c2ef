// Command genshim writes re-export files for the shim packages: everything the
// standard package exports that the shim does not define itself.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	for _, p := range [][2]string{{"sync", "vsync"}, {"sync/atomic", "vatomic"}, {"time", "vtime"}, {"net", "vnet"}, {"context", "vctx"}, {"runtime", "vruntime"}} {
		gen(p[0], filepath.Join("shim", p[1]), p[1])
	}
}

func gen(path, dir, name string) {
	own := map[string]bool{}
	fset := token.NewFileSet()
	pk, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "reexport.go" }, 0)
	if err != nil {
		panic(err)
	}
	for _, p := range pk {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	imp := importer.ForCompiler(fset, "source", nil)
	pkg, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by cmd/genshim; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	cnt := 0
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		cnt++
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				var tp []string
				for i := 0; i < nt.TypeParams().Len(); i++ {
					tp = append(tp, fmt.Sprintf("T%d", i))
				}
				fmt.Fprintf(&b, "type %s[%s any] = real.%s[%s]\n", n, strings.Join(tp, ","), n, strings.Join(tp, ","))
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "skip generic", path, n)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		}
	}
	if cnt == 0 {
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "reexport.go"), src, 0644); err != nil {
		panic(err)
	}
}
