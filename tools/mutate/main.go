// mutate lists small changes of the Go files named on the command line, one JSON object a line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Kind string
	Line, Off, End   int
	Old, New         string
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range t.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(kind string, from, to token.Pos, repl string) {
				a, b := fs.Position(from), fs.Position(to)
				old := string(src[a.Offset:b.Offset])
				if old == repl || strings.Contains(old, "Print") || strings.Contains(old, "log.") {
					return
				}
				out.Encode(mutant{f, fd.Name.Name, kind, a.Line, a.Offset, b.Offset, old, repl})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					var alt []string
					switch x.Op {
					case token.LSS:
						alt = []string{"<=", ">"}
					case token.LEQ:
						alt = []string{"<"}
					case token.GTR:
						alt = []string{">=", "<"}
					case token.GEQ:
						alt = []string{">"}
					case token.EQL:
						alt = []string{"!="}
					case token.NEQ:
						alt = []string{"=="}
					case token.LAND:
						alt = []string{"||"}
					case token.LOR:
						alt = []string{"&&"}
					case token.ADD:
						alt = []string{"-"}
					case token.SUB:
						alt = []string{"+"}
					case token.MUL:
						alt = []string{"/"}
					case token.QUO:
						alt = []string{"*"}
					case token.SHL:
						alt = []string{">>"}
					case token.SHR:
						alt = []string{"<<"}
					case token.AND:
						alt = []string{"|"}
					case token.OR:
						alt = []string{"&"}
					case token.REM:
						alt = []string{"*"}
					}
					for _, a := range alt {
						emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("literal", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("literal", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.IfStmt:
					c := string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])
					emit("never", x.Cond.Pos(), x.Cond.End(), "false && ("+c+")")
					emit("always", x.Cond.Pos(), x.Cond.End(), "true || ("+c+")")
				case *ast.ExprStmt:
					emit("drop", x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					emit("drop", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("drop", x.Pos(), x.End(), "")
					}
				case *ast.DeferStmt, *ast.GoStmt:
					emit("drop", n.Pos(), n.End(), "")
				case *ast.BranchStmt:
					emit("drop", n.Pos(), n.End(), "")
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit("drop", n.Pos(), n.End(), "")
					}
				}
				return true
			})
		}
	}
}
