// genmirror writes alias files for the mirrored standard packages: every
// exported identifier of the original that the mirror does not define itself.
// Run by hand with the pinned toolchain; its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	root := os.Args[1]
	for _, p := range []string{"time", "sync", "sync/atomic", "net", "net/http", "runtime", "runtime/debug", "context"} {
		dir := filepath.Join(root, p)
		own := map[string]bool{}
		fset := token.NewFileSet()
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || e.Name() == "aliases.go" {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := importer.ForCompiler(fset, "source", nil).Import(p)
		if err != nil {
			panic(err)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genmirror. DO NOT EDIT.\n\npackage %s\n\nimport o_ %q\n\n", pkg.Name(), p)
		n := 0
		for _, name := range pkg.Scope().Names() {
			if !token.IsExported(name) || own[name] {
				continue
			}
			switch o := pkg.Scope().Lookup(name).(type) {
			case *types.TypeName:
				if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic type %s.%s\n", p, name)
					continue
				}
				fmt.Fprintf(&b, "type %s = o_.%s\n", name, name)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = o_.%s\n", name, name)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = o_.%s\n", name, name)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic func %s.%s\n", p, name)
					continue
				}
				fmt.Fprintf(&b, "var %s = o_.%s\n", name, name)
			}
			n++
		}
		if n == 0 {
			os.Remove(filepath.Join(dir, "aliases.go"))
			continue
		}
		src, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "aliases.go"), src, 0o644); err != nil {
			panic(err)
		}
	}
}
