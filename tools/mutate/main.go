// Command mutate lists small source changes of Go files as JSON lines: byte
// range, replacement and description. A development aid, not a check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string `json:"file"`
	Start, End int
	New        string
	Line       int
	What       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(a, b token.Pos, new, what string) {
			enc.Encode(mutant{f, off(a), off(b), new, fs.Position(a).Line, what})
		}
		swap := map[token.Token][]token.Token{
			token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
			token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
			token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND, token.XOR},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), fmt.Sprintf("%s: %s -> %s", text(n), n.Op, t))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						put(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							put(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					put(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					put(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					put(n.Pos(), n.Pos()+1, "", "drop ! of "+text(n))
				}
			case *ast.IfStmt:
				put(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never: if "+text(n.Cond))
				put(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always: if "+text(n.Cond))
			case *ast.ExprStmt:
				put(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.IncDecStmt:
				put(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.DeferStmt:
				put(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					put(n.Pos(), n.End(), "", "drop "+text(n))
				}
			case *ast.BranchStmt:
				if n.Tok == token.BREAK && n.Label == nil {
					put(n.Pos(), n.End(), "continue", "break -> continue")
				}
				if n.Tok == token.CONTINUE && n.Label == nil {
					put(n.Pos(), n.End(), "break", "continue -> break")
					put(n.Pos(), n.End(), "", "drop continue")
				}
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					l := n.Results[k-1]
					switch e := l.(type) {
					case *ast.Ident:
						if e.Name == "err" || len(e.Name) > 3 && e.Name[:3] == "Err" {
							put(l.Pos(), l.End(), "nil", "return "+e.Name+" -> nil")
						}
					case *ast.CallExpr:
						if text(e.Fun) == "fmt.Errorf" || text(e.Fun) == "errors.New" {
							put(l.Pos(), l.End(), "nil", "return error -> nil: "+text(e))
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					put(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", "slice low +1 "+text(n))
				}
				if n.High != nil {
					put(n.High.Pos(), n.High.End(), text(n.High)+"-1", "slice high -1 "+text(n))
				}
			case *ast.CaseClause:
				if len(n.Body) > 0 {
					put(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case body")
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					put(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments of "+text(n))
				}
			}
			return true
		})
	}
}
