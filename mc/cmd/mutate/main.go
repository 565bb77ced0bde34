// Command mutate lists small changes of Go source files: one JSON line {file, off, len, new, what, line} per change.
// It is a development tool (see DESIGN.md, "Mutation sweep"); no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

var binary = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.AND_NOT: {"&"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() && info.Name() == ".git" {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{rel, off(a), off(b) - off(a), s, what, fset.Position(a).Line})
		}
		var imports = map[*ast.BasicLit]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				imports[x.Path] = true
			case *ast.BinaryExpr:
				for _, o := range binary[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
				}
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.SHL:
					for _, t := range []string{"uint8", "uint16", "uint32"} {
						emit(x.Pos(), x.End(), "uint64("+t+"("+text(x)+"))", "truncate "+text(x)+" to "+t)
					}
				case token.LAND, token.LOR:
					emit(x.Pos(), x.End(), text(x.X), "only left of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), "only right of "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT && !imports[x] {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
						if v > 1 {
							emit(x.Pos(), x.End(), "0", x.Value+" -> 0")
						}
					}
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false: "+text(x.Cond))
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true: "+text(x.Cond))
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "loop never: "+text(x.Cond))
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "uint64" {
					for _, t := range []string{"uint8", "uint16", "uint32"} {
						emit(x.Pos(), x.End(), "uint64("+t+"("+text(x.Args[0])+"))", "truncate "+text(x)+" to "+t)
					}
				}
				for i := range x.Args {
					for j := i + 1; j < len(x.Args); j++ {
						emit(x.Args[i].Pos(), x.Args[j].End(), text(x.Args[j])+string(src[off(x.Args[i].End()):off(x.Args[j].Pos())])+text(x.Args[i]), "swap arguments in "+text(x))
					}
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
				emit(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "delete "+text(x))
					if x.Tok != token.ASSIGN {
						emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), "=", "assign instead of "+text(x))
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue", "continue for break")
				} else if x.Tok == token.CONTINUE && x.Label == nil {
					emit(x.Pos(), x.End(), "break", "break for continue")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					s := text(r)
					switch {
					case s == "true":
						emit(r.Pos(), r.End(), "false", "return false for true")
					case s == "false":
						emit(r.Pos(), r.End(), "true", "return true for false")
					case s == "nil":
					default:
						emit(r.Pos(), r.End(), "nil", "return nil for "+s)
						emit(r.Pos(), r.End(), "0", "return 0 for "+s)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop ! of "+text(x))
				}
			case *ast.SliceExpr:
				if x.High != nil && x.Max == nil {
					emit(x.High.Pos(), x.High.End(), "", "drop high bound of "+text(x))
				}
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "", "drop low bound of "+text(x))
				}
			case *ast.SelectorExpr:
				for _, pr := range [][2]string{{"MinLen", "MaxLen"}, {"FuzzMinLen", "FuzzMaxLen"}, {"FixedLen", "MinLen"}, {"fuzzMinLen", "fuzzMaxLen"}, {"minLen", "maxLen"}, {"fixedLen", "minLen"}, {"GetBytesSpan", "Max"}, {"Index", "Max"}} {
					if x.Sel.Name == pr[0] {
						emit(x.Sel.Pos(), x.Sel.End(), pr[1], pr[0]+" -> "+pr[1])
					} else if x.Sel.Name == pr[1] {
						emit(x.Sel.Pos(), x.Sel.End(), pr[0], pr[1]+" -> "+pr[0])
					}
				}
			}
			return true
		})
		return nil
	})
}
