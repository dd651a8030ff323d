// Command instr writes copies of Go files with a scheduling point before every
// statement, and an overlay that puts them in place of the originals.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/hound-search/hound/vsched"

func fail(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"HARNESS-ERROR:"}, a...)...)
	os.Exit(3)
}

func main() {
	// instr REPO OUT VSCHED.GO GLOB...
	repo, out, vs := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{filepath.Join(repo, "vsched", "vsched.go"): vs}
	n := 0
	first := 0
	for gi, g := range os.Args[4:] {
		if gi == 1 {
			first = n
		}
		var files []string
		for _, g := range strings.Split(g, ",") {
			fs, err := filepath.Glob(filepath.Join(repo, g))
			if err != nil {
				fail(err)
			}
			files = append(files, fs...)
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, src, 0)
			if err != nil {
				fail(err) // the repository does not compile
			}
			at := map[int]bool{}
			add := func(list []ast.Stmt) {
				for _, s := range list {
					at[fs.Position(s.Pos()).Offset] = true
				}
			}
			ast.Inspect(af, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.FuncDecl:
					if b.Name.Name == "init" {
						return false
					}
				case *ast.BlockStmt:
					add(b.List)
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					// their bodies hold clauses, not statements
					var body *ast.BlockStmt
					switch y := b.(type) {
					case *ast.SwitchStmt:
						body = y.Body
					case *ast.TypeSwitchStmt:
						body = y.Body
					case *ast.SelectStmt:
						body = y.Body
					}
					for _, c := range body.List {
						switch z := c.(type) {
						case *ast.CaseClause:
							add(z.Body)
							for _, s := range z.Body {
								ast.Inspect(s, func(q ast.Node) bool { return visit(q, add) })
							}
						case *ast.CommClause:
							add(z.Body)
							for _, s := range z.Body {
								ast.Inspect(s, func(q ast.Node) bool { return visit(q, add) })
							}
						}
					}
					return false
				}
				return true
			})
			var offs []int
			for o := range at {
				offs = append(offs, o)
			}
			if len(offs) == 0 {
				continue
			}
			sort.Ints(offs)
			var b strings.Builder
			last := 0
			end := fs.Position(af.Name.End()).Offset
			b.Write(src[:end])
			b.WriteString("; import vsched_ \"" + pkg + "\"")
			last = end
			for _, o := range offs {
				b.Write(src[last:o])
				fmt.Fprintf(&b, "vsched_.P(%d); ", n)
				n++
				last = o
			}
			b.Write(src[last:])
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "__"))
			if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
				fail(err)
			}
			replace[f] = dst
		}
	}
	b, err := os.ReadFile(vs)
	if err != nil {
		fail(err)
	}
	b = []byte(strings.Replace(string(b), "first = 0", fmt.Sprintf("first = %d", first), 1))
	if err := os.WriteFile(vs, b, 0644); err != nil {
		fail(err)
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		fail(err)
	}
	fmt.Println(n, "points")
}

// visit handles what is nested in a clause body.
func visit(x ast.Node, add func([]ast.Stmt)) bool {
	switch b := x.(type) {
	case *ast.BlockStmt:
		for _, s := range b.List {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				return true
			}
		}
		add(b.List)
	case *ast.CaseClause:
		add(b.Body)
	case *ast.CommClause:
		add(b.Body)
	}
	return true
}
