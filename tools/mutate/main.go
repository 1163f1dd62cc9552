// Command mutate lists small changes of Go files, one JSON object a line:
// {"File","From","To","New","What"} replaces bytes From..To of File with New.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File     string
	From, To int
	New      string
	What     string
	Line     int
	Func     string
}

var bin = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"}, token.XOR: {"|"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		out := func(from, to int, repl, what string) {
			if from < 0 || string(src[from:to]) == repl {
				return
			}
			enc.Encode(change{file, from, to, repl, what, fset.Position(token.Pos(f.FileStart) + token.Pos(from)).Line, fn})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			fn = ""
			if ok {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, r := range bin[x.Op] {
						p := off(x.OpPos)
						out(p, p+len(x.Op.String()), r, x.Op.String()+" -> "+r+" in "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						out(off(x.Pos()), off(x.End()), text(x.X), "only "+text(x.X)+" of "+text(x))
						out(off(x.Pos()), off(x.End()), text(x.Y), "only "+text(x.Y)+" of "+text(x))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							out(off(x.Pos()), off(x.End()), fmt.Sprint(v+1), x.Value+" -> +1")
							out(off(x.Pos()), off(x.End()), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
					if x.Kind == token.CHAR && x.Value != "' '" {
						out(off(x.Pos()), off(x.End()), "'\\x07'", x.Value+" -> bell")
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(off(x.Pos()), off(x.End()), "false", "true -> false")
					}
					if x.Name == "false" {
						out(off(x.Pos()), off(x.End()), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						out(off(x.Pos()), off(x.End()), text(x.X), "no "+x.Op.String()+" in "+text(x))
					}
				case *ast.IfStmt:
					out(off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")", "negated "+text(x.Cond))
					if x.Init == nil {
						out(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")", "always "+text(x.Cond))
					}
					out(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
				case *ast.ForStmt:
					if x.Cond != nil {
						out(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", "never loop "+text(x.Cond))
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							var l []string
							for j, e := range x.List {
								if j != i {
									l = append(l, text(e))
								}
							}
							out(off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(l, ", "), "no case "+text(x.List[i]))
						}
					}
					if len(x.Body) > 0 {
						out(off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), "", "empty case "+text(x.Body[0]))
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						out(off(x.Pos()), off(x.End()), "", "no return")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						out(off(x.Pos()), off(x.End()), "continue", "break -> continue")
						out(off(x.Pos()), off(x.End()), "", "no break")
					}
					if x.Tok == token.CONTINUE {
						out(off(x.Pos()), off(x.End()), "break", "continue -> break")
						out(off(x.Pos()), off(x.End()), "", "no continue")
					}
					if x.Tok == token.FALLTHROUGH {
						out(off(x.Pos()), off(x.End()), "", "no fallthrough")
					}
				case *ast.ExprStmt:
					out(off(x.Pos()), off(x.End()), "", "no "+text(x))
				case *ast.DeferStmt:
					out(off(x.Pos()), off(x.End()), "", "no defer")
				case *ast.IncDecStmt:
					out(off(x.Pos()), off(x.End()), "", "no "+text(x))
					if x.Tok == token.INC {
						out(off(x.TokPos), off(x.TokPos)+2, "--", "++ -> --")
					} else {
						out(off(x.TokPos), off(x.TokPos)+2, "++", "-- -> ++")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						u := ""
						for _, r := range x.Rhs {
							if id, ok := r.(*ast.Ident); ok && id.Obj != nil {
								u += "_ = " + id.Name + ";"
							}
						}
						out(off(x.Pos()), off(x.End()), strings.TrimSuffix(u, ";"), "no "+text(x))
					}
				case *ast.SliceExpr:
					if x.Low != nil && x.High != nil {
						out(off(x.Low.Pos()), off(x.Low.End()), "", "no low in "+text(x))
						out(off(x.High.Pos()), off(x.High.End()), "", "no high in "+text(x))
					}
				}
				return true
			})
		}
	}
}
