// mutate lists small changes of the non-test Go files of a directory as JSON:
// one object per change with file, function, line, byte range and replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type Mut struct {
	File, Func, Desc string
	Line, Off, End   int
	Repl             string
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
}

func main() {
	root := os.Args[1]
	var out []Mut
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != root {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fs := token.NewFileSet()
		src, _ := os.ReadFile(p)
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				name = string(src[off(t.Pos()):off(t.End())]) + "." + name
			}
			add := func(a, b token.Pos, repl, desc string) {
				out = append(out, Mut{rel, name, desc, fs.Position(a).Line, off(a), off(b), repl})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" + 1")
							if v > 0 {
								add(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" - 1")
							}
						}
					}
				case *ast.IfStmt:
					add(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						u := ""
						for _, r := range x.Rhs {
							u += "; _ = " + text(r)
						}
						add(x.Pos(), x.End(), strings.TrimPrefix(u, "; "), "drop "+text(x))
						if x.Tok == token.ADD_ASSIGN {
							add(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
						}
						if x.Tok == token.SUB_ASSIGN {
							add(x.TokPos, x.TokPos+2, "+=", "-= -> +=")
						}
					}
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						add(x.Pos(), x.End(), "continue", "break -> continue")
					}
					if x.Tok == token.CONTINUE {
						add(x.Pos(), x.End(), "break", "continue -> break")
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x.Pos(), x.End(), "false", "true -> false")
					}
					if x.Name == "false" {
						add(x.Pos(), x.End(), "true", "false -> true")
					}
				}
				return true
			})
		}
		return nil
	})
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}
