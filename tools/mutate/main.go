// Command mutate lists small changes of Go files, for trying out the checks.
// mutate FILE... prints one JSON value per line: {file, off, end, new, what}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(a, b token.Pos, s, what string) {
			old := string(src[at(a):at(b)])
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mutant{f, at(a), at(b), s, what + ": " + old + " -> " + s, fs.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		swaps := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="},
			token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					put(s.Pos(), s.End(), "", "drop call")
				case *ast.DeferStmt:
					put(s.Pos(), s.End(), "", "drop defer")
				case *ast.IncDecStmt:
					put(s.Pos(), s.End(), "", "drop incdec")
				case *ast.SendStmt:
					put(s.Pos(), s.End(), "", "drop send")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						r := ""
						for j := range x.Lhs {
							r += "_ = " + text(x.Lhs[j]) + "; "
						}
						for j := range x.Rhs {
							if len(x.Rhs) == len(x.Lhs) {
								r += "_ = " + text(x.Rhs[j]) + "; "
							}
						}
						put(s.Pos(), s.End(), r, "drop assignment")
					}
				case *ast.BranchStmt:
					if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
						put(s.Pos(), s.End(), "", "drop branch")
						if x.Tok == token.CONTINUE {
							put(s.Pos(), s.End(), "break", "branch")
						} else {
							put(s.Pos(), s.End(), "continue", "branch")
						}
					}
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						// two in the other order
						if i+1 < len(l) {
							if y, ok := l[i+1].(*ast.IfStmt); ok && y.Init == nil && y.Else == nil {
								put(x.Pos(), y.End(), text(y)+"\n"+text(x), "reorder")
							}
						}
					}
				}
				if i+1 < len(l) {
					a, ok1 := s.(*ast.AssignStmt)
					b, ok2 := l[i+1].(*ast.AssignStmt)
					if ok1 && ok2 && a.Tok != token.DEFINE && b.Tok != token.DEFINE {
						put(a.Pos(), b.End(), text(b)+"\n"+text(a), "reorder")
					}
				}
			}
		}
		ast.Inspect(t, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator in "+text(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), text(x.X), "left only")
					put(x.Pos(), x.End(), text(x.Y), "right only")
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), "number")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), "number")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x.Pos(), x.End(), "false", "bool")
				}
				if x.Name == "false" {
					put(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x.Pos(), x.End(), text(x.X), "not")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low")
				}
				if x.High != nil {
					put(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high")
				}
			}
			return true
		})
	}
}
