package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// renameTop gives every top-level name of the harness files a prefix, so that they
// cannot clash with names of the package they are overlaid into. Harnesses (Cdd_) keep theirs.
func renameTop(dirs ...string) [][]byte {
	type file struct {
		src []byte
		f   *ast.File
		set *token.FileSet
	}
	var files []file
	top := map[string]bool{}
	for _, d := range dirs {
		names, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, n := range names {
			b, err := os.ReadFile(n)
			if err != nil {
				fatal("%v", err)
			}
			set := token.NewFileSet()
			f, err := parser.ParseFile(set, n, b, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, file{b, f, set})
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.Name != "init" && !reHarness.MatchString(d.Name.Name) {
						top[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							top[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, i := range s.Names {
								if i.Name != "_" {
									top[i.Name] = true
								}
							}
						}
					}
				}
			}
		}
	}
	var out [][]byte
	for _, f := range files {
		skip := map[*ast.Ident]bool{}
		var at []int
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				skip[n.Sel] = true
			case *ast.StructType:
				for _, fl := range n.Fields.List {
					for _, i := range fl.Names {
						skip[i] = true
					}
				}
			case *ast.KeyValueExpr:
				if i, ok := n.Key.(*ast.Ident); ok && !strings.HasPrefix(i.Name, "c") {
					skip[i] = true
				}
			case *ast.FuncDecl:
				if n.Recv != nil {
					skip[n.Name] = true
				}
			case *ast.Ident:
				if top[n.Name] && !skip[n] {
					at = append(at, f.set.Position(n.Pos()).Offset)
				}
			}
			return true
		})
		sort.Ints(at)
		var b []byte
		last := 0
		for _, p := range at {
			b = append(append(b, f.src[last:p]...), "vz_"...)
			last = p
		}
		out = append(out, append(b, f.src[last:]...))
	}
	return out
}
