package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hPrefix = "zzh_"

// prefixed writes copies of the harness files in which every package-level
// name (other than the entry points H_*) carries a prefix, so that no name a
// change adds to the repository's main package can collide with them.
func prefixed(hdir, out string) error {
	fs, err := filepath.Glob(filepath.Join(hdir, "main", "*.go"))
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	files := make([]*ast.File, len(fs))
	src := make([][]byte, len(fs))
	names := map[string]bool{}
	add := func(n string) {
		if n != "_" && n != "init" && !strings.HasPrefix(n, "H_") {
			names[n] = true
		}
	}
	for i, f := range fs {
		if src[i], err = os.ReadFile(f); err != nil {
			return err
		}
		if files[i], err = parser.ParseFile(fset, f, src[i], 0); err != nil {
			return err
		}
		for _, d := range files[i].Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					add(d.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						add(s.Name.Name)
					case *ast.ValueSpec:
						for _, n := range s.Names {
							add(n.Name)
						}
					}
				}
			}
		}
	}
	for i, f := range files {
		var at []int
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		pkgObj := map[*ast.Object]bool{}
		for _, o := range f.Scope.Objects {
			pkgObj[o] = true
		}
		skip := map[*ast.Ident]bool{}
		keyIn := map[*ast.Ident]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SelectorExpr:
				skip[n.Sel] = true
			case *ast.CompositeLit:
				// keys of struct literals are field names; of map/slice literals expressions
				switch n.Type.(type) {
				case *ast.MapType, *ast.ArrayType:
				default:
					for _, e := range n.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							if id, ok := kv.Key.(*ast.Ident); ok {
								keyIn[id] = true
							}
						}
					}
				}
			}
			return true
		})
		un := map[*ast.Ident]bool{}
		for _, id := range f.Unresolved {
			un[id] = true
		}
		ast.Inspect(f, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok || !names[id.Name] || skip[id] || keyIn[id] {
				return true
			}
			if un[id] || id.Obj != nil && pkgObj[id.Obj] {
				at = append(at, off(id.Pos()))
			}
			return true
		})
		sort.Ints(at)
		var sb strings.Builder
		last := 0
		for k, p := range at {
			if k > 0 && at[k-1] == p {
				continue
			}
			sb.Write(src[i][last:p])
			sb.WriteString(hPrefix)
			last = p
		}
		sb.Write(src[i][last:])
		if err := os.WriteFile(filepath.Join(out, filepath.Base(fs[i])), []byte(sb.String()), 0644); err != nil {
			return err
		}
	}
	return nil
}
