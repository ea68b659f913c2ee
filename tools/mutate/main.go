// Command mutate lists small changes of Go files (development only).
// usage: mutate FILE.go... -> one JSON object per line: file, line, op, start, end, text
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Old   string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(op string, a, b token.Pos, s string) {
			old := string(src[off(a):off(b)])
			if old == s {
				return
			}
			_ = enc.Encode(mut{f, fs.Position(a).Line, op, off(a), off(b), s, old})
		}
		del := func(op string, n ast.Node) { put(op, n.Pos(), n.End(), "") }
		var fn *ast.FuncDecl
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					del("del-call", x)
				case *ast.DeferStmt:
					del("del-defer", x)
				case *ast.GoStmt:
					put("go-inline", x.Pos(), x.Call.Pos(), "")
				case *ast.SendStmt:
					del("del-send", x)
				case *ast.IncDecStmt:
					del("del-inc", x)
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						if len(x.Lhs) == 1 {
							put("del-assign", x.Pos(), x.End(), "_ = "+txt(x.Rhs[0]))
						} else {
							del("del-assign", x)
						}
					}
				case *ast.BranchStmt:
					del("del-branch", x)
				case *ast.IfStmt:
					if x.Init == nil {
						c := txt(x.Cond)
						put("if-true", x.Cond.Pos(), x.Cond.End(), "true || "+c)
						put("if-false", x.Cond.Pos(), x.Cond.End(), "false && "+c)
					} else {
						c := txt(x.Cond)
						put("if-true", x.Cond.Pos(), x.Cond.End(), "true || "+c)
						put("if-false", x.Cond.Pos(), x.Cond.End(), "false && "+c)
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || strings.HasPrefix(id.Name, "Err")) {
							put("ret-nil", r.Pos(), r.End(), "nil")
						}
					}
				}
				// swap with the following statement
				if i+1 < len(l) {
					_, a := l[i].(*ast.ExprStmt)
					_, b := l[i+1].(*ast.ExprStmt)
					as, c := l[i].(*ast.AssignStmt)
					at, d := l[i+1].(*ast.AssignStmt)
					c = c && as.Tok != token.DEFINE
					d = d && at.Tok != token.DEFINE
					if (a || c) && (b || d) {
						put("swap", l[i].Pos(), l[i+1].End(), txt(l[i+1])+"\n"+txt(l[i]))
					}
				}
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if x.List != nil {
					del("del-case", x)
				}
			case *ast.CommClause:
				stmts(x.Body)
				if x.Comm != nil {
					del("del-comm", x)
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op]
				for _, s := range alt {
					put("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put("drop-left", x.X.Pos(), x.Y.Pos(), "")
					put("drop-right", x.X.End(), x.Y.End(), "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					put("int+1", x.Pos(), x.End(), "("+x.Value+"+1)")
					put("int-1", x.Pos(), x.End(), "("+x.Value+"-1)")
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					put("bool", x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put("not", x.Pos(), x.X.Pos(), "")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put("slice-low", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					put("slice-high", x.High.Pos(), x.High.End(), "")
				}
			}
			return true
		})
		_ = fn
		fmt.Fprintln(os.Stderr, f)
	}
}
