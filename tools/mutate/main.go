// Command mutate prints the mutants of a Go file as JSON lines: offset, end,
// replacement, operator and line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Off, End int
	New, Op  string
	Line     int
	Func     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, repl, op string) {
			enc.Encode(mutant{file, off(a), off(b), repl, op, fs.Position(a).Line, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok {
				fn = fd.Name.Name
			} else {
				fn = ""
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "remove "+text(x))
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
				case *ast.BranchStmt:
					emit(x.Pos(), x.End(), "", "remove "+text(x))
					if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "break -> continue")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue -> break")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.X.Pos(), "", "remove !")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "slice low+1")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "slice high-1")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						switch t := text(x.Results[0]); t {
						case "true":
							emit(x.Results[0].Pos(), x.Results[0].End(), "false", "true -> false")
						case "false":
							emit(x.Results[0].Pos(), x.Results[0].End(), "true", "false -> true")
						}
					}
				}
				return true
			})
		}
	}
}
