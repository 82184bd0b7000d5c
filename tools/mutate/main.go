// mutate lists the mutants of a Go file as JSON lines: byte range, replacement, description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	Start, End int
	New, Desc  string
	Line       int
	Func       string
}

func main() {
	path := os.Args[1]
	src, _ := os.ReadFile(path)
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	enc := json.NewEncoder(os.Stdout)
	fn := ""
	out := func(n ast.Node, s, e token.Pos, new, desc string) {
		enc.Encode(mutant{off(s), off(e), new, desc, fs.Position(n.Pos()).Line, fn})
	}
	isLog := func(s string) bool {
		return strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "fmt.Print") || strings.Contains(s, "Debugln") || strings.Contains(s, "Infoln")
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn = fd.Name.Name
		if fn == "String" || fn == "Error" {
			continue
		}
		errRes := false
		if fd.Type.Results != nil {
			if l := fd.Type.Results.List; len(l) > 0 {
				if id, ok := l[len(l)-1].Type.(*ast.Ident); ok && id.Name == "error" {
					errRes = true
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit:
				return true
			case *ast.ExprStmt:
				if isLog(text(x)) {
					return false
				}
				if _, ok := x.X.(*ast.CallExpr); ok {
					out(x, x.Pos(), x.End(), "", "drop: "+text(x))
				}
			case *ast.DeferStmt:
				out(x, x.Pos(), x.End(), "", "drop: "+text(x))
			case *ast.IncDecStmt:
				out(x, x.Pos(), x.End(), "", "drop: "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && len(x.Lhs) == 1 {
					if id, ok := x.Lhs[0].(*ast.Ident); !ok || id.Name != "err" {
						out(x, x.Pos(), x.End(), "_ = "+text(x.Rhs[0]), "drop: "+text(x))
					}
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				out(x, x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate: "+c)
				if c != "err != nil" {
					out(x, x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never: "+c)
				} else if len(x.Body.List) > 0 {
					out(x, x.Cond.Pos(), x.Cond.End(), "false && "+c, "ignored error at line "+strconv.Itoa(fs.Position(x.Pos()).Line))
				}
			case *ast.BinaryExpr:
				alt := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.AND: "|", token.OR: "&", token.SHL: ">>", token.SHR: "<<", token.MUL: "+", token.QUO: "*", token.REM: "/"}
				if a, ok := alt[x.Op]; ok && !(x.Op == token.ADD && (strings.Contains(text(x), `"`))) {
					out(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "operator "+x.Op.String()+" to "+a+": "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					out(x, x.Pos(), x.End(), "("+x.Value+"+1)", "literal "+x.Value+" plus one")
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					out(x, x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "flip "+x.Name)
				}
			case *ast.ReturnStmt:
				if errRes && len(x.Results) > 0 {
					r := x.Results[len(x.Results)-1]
					if id, ok := r.(*ast.Ident); !ok || id.Name != "nil" {
						out(x, r.Pos(), r.End(), "nil", "no error: "+text(x))
					}
				}
			case *ast.CallExpr:
				if isLog(text(x)) {
					return false
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE {
					out(x, x.Pos(), x.End(), "", "drop continue")
				}
				if x.Tok == token.BREAK {
					out(x, x.Pos(), x.End(), "", "drop break")
				}
			case *ast.KeyValueExpr:
				if k, ok := x.Key.(*ast.Ident); ok {
					out(x, x.Pos(), x.End(), "", "drop field "+k.Name)
				}
			}
			return true
		})
	}
	fmt.Fprint(os.Stderr, "")
}
