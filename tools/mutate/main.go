// mutate lists simple mutants of a Go file: one JSON object per line with
// the byte range, the replacement and the enclosing function.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutant struct {
	File       string
	Start, End int
	New        string
	Func, Op   string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				name = string(src[off(t.Pos()):off(t.End())]) + "." + name
			}
			emit := func(a, b token.Pos, s, op string) {
				enc.Encode(mutant{file, off(a), off(b), s, name, op, fset.Position(a).Line})
			}
			var params []string
			if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
				params = append(params, fd.Recv.List[0].Names[0].Name)
			}
			for _, p := range fd.Type.Params.List {
				for _, n := range p.Names {
					params = append(params, n.Name)
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					var alts []string
					switch n.Op {
					case token.LSS:
						alts = []string{"<=", ">"}
					case token.LEQ:
						alts = []string{"<", ">="}
					case token.GTR:
						alts = []string{">=", "<"}
					case token.GEQ:
						alts = []string{">", "<="}
					case token.EQL:
						alts = []string{"!="}
					case token.NEQ:
						alts = []string{"=="}
					case token.ADD:
						alts = []string{"-"}
					case token.SUB:
						alts = []string{"+"}
					case token.MUL:
						alts = []string{"+"}
					case token.QUO:
						alts = []string{"*", "%"}
					case token.REM:
						alts = []string{"/"}
					case token.LAND:
						alts = []string{"||"}
					case token.LOR:
						alts = []string{"&&"}
					case token.SHL:
						alts = []string{">>"}
					case token.SHR:
						alts = []string{"<<"}
					case token.AND:
						alts = []string{"|"}
					case token.OR:
						alts = []string{"&", "^"}
					case token.XOR:
						alts = []string{"|"}
					}
					for _, a := range alts {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, "op")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						emit(n.Pos(), n.End(), "("+n.Value+"+1)", "lit")
						if n.Value != "0" {
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", "lit")
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "not")
				case *ast.IncDecStmt:
					if n.Tok == token.INC {
						emit(n.TokPos, n.TokPos+2, "--", "incdec")
					} else {
						emit(n.TokPos, n.TokPos+2, "++", "incdec")
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "bool")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "bool")
					}
					for i, p := range params {
						if n.Name == p && n.Obj != nil && n.Obj.Kind == ast.Var {
							for j, q := range params {
								if i != j {
									emit(n.Pos(), n.End(), q, "param")
								}
							}
						}
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
							emit(s.Pos(), s.End(), "_ = 0", "del")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "_ = 0", "del")
							}
							if s.Tok == token.ADD_ASSIGN {
								emit(s.TokPos, s.TokPos+2, "-=", "op")
							} else if s.Tok == token.SUB_ASSIGN {
								emit(s.TokPos, s.TokPos+2, "+=", "op")
							}
						case *ast.IfStmt:
							if s.Else == nil {
								emit(s.Pos(), s.End(), "_ = 0", "del")
							}
						case *ast.BranchStmt:
							if s.Tok == token.CONTINUE {
								emit(s.Pos(), s.End(), "break", "branch")
							} else if s.Tok == token.BREAK {
								emit(s.Pos(), s.End(), "continue", "branch")
							}
						}
					}
				}
				return true
			})
		}
	}
}
