// mutate lists single-edit mutants of Go files as JSON lines
// {file, line, off, len, text, desc}. Used with mutants.py to look for blind
// spots of the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	Text string `json:"text"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(from, to token.Pos, text, desc string) {
			o := fs.Position(from).Offset
			n := fs.Position(to).Offset - o
			was, now := string(src[o:o+n]), text
			if len(was) > 60 {
				was, now = was[:20]+"...", "..."
			}
			enc.Encode(mut{f, fs.Position(from).Line, o, n, text, fmt.Sprintf("%s: %s: %q -> %q", fn, desc, was, now)})
		}
		str := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
			token.LAND: {"||"}, token.LOR: {"&&"},
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
				if x.Body != nil {
					r := strings.NewReplacer(".Lock(", ".RLock(", ".UnLock(", ".RUnLock(", ".MLock(", ".MRLock(", ".MUnLock(", ".MRUnLock(", ".Unlock(", ".RUnlock(")
					if t := r.Replace(str(x.Body)); t != str(x.Body) {
						emit(x.Body.Pos(), x.Body.End(), t, "read locks")
					}
					r = strings.NewReplacer(".Lock(", ".GetKeyPos(", ".UnLock(", ".GetKeyPos(", ".RLock(", ".GetKeyPos(", ".RUnLock(", ".GetKeyPos(")
					if t := r.Replace(str(x.Body)); t != str(x.Body) && strings.HasPrefix(f, "memdb/") {
						emit(x.Body.Pos(), x.Body.End(), t, "no locks")
					}
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), str(x.X), "left only")
					emit(x.Pos(), x.End(), str(x.Y), "right only")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "const")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "const")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+str(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+str(x.Cond)+") && false", "never")
			case *ast.BranchStmt:
				if x.Label == nil {
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
					}
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "delete")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.DeferStmt:
						emit(y.Pos(), y.End(), "", "delete")
					case *ast.AssignStmt:
						if y.Tok == token.ASSIGN {
							emit(y.Pos(), y.End(), "", "delete")
						}
						if y.Tok == token.ADD_ASSIGN {
							emit(y.TokPos, y.TokPos+2, "-=", "assign")
						}
					}
				}
			case *ast.SelectorExpr:
				m := map[string]string{"ToLower": "ToUpper", "LPush": "RPush", "RPush": "LPush"}
				if t := m[x.Sel.Name]; t != "" {
					emit(x.Sel.Pos(), x.Sel.End(), t, "name")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			}
			return true
		})
	}
}
