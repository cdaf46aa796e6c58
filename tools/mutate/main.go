// mutate lists small changes of Go source files as JSON lines, for measuring the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type M struct {
	File, Fn, What string
	From, To, Line int
	New            string
}

var out = json.NewEncoder(os.Stdout)

func main() {
	repo := os.Args[1]
	for _, name := range os.Args[2:] {
		fset := token.NewFileSet()
		path := filepath.Join(repo, name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fn := ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			emit := func(n ast.Node, what, new string) {
				out.Encode(M{name, fn, what, off(n.Pos()), off(n.End()), fset.Position(n.Pos()).Line, new})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n, "int+1", fmt.Sprint(v+1))
							if v > 0 {
								emit(n, "int-1", fmt.Sprint(v-1))
							}
						}
					case token.FLOAT:
						if v, err := strconv.ParseFloat(n.Value, 64); err == nil {
							emit(n, "float", fmt.Sprintf("%g", v*1.01+0.5))
						}
					case token.STRING:
						if len(n.Value) > 2 && n.Value[0] == '"' {
							emit(n, "string", n.Value[:len(n.Value)-1]+`x"`)
							emit(n, "string empty", `""`)
						}
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
						token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}}
					for _, a := range alt[n.Op] {
						p := off(n.OpPos)
						out.Encode(M{name, fn, "op " + n.Op.String() + " to " + a, p, p + len(n.Op.String()), fset.Position(n.OpPos).Line, a})
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n, "left only", text(n.X))
						emit(n, "right only", text(n.Y))
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n, "drop "+n.Op.String(), text(n.X))
					}
				case *ast.IfStmt:
					emit(n.Cond, "cond true", "(true || ("+text(n.Cond)+"))")
					emit(n.Cond, "cond false", "(false && ("+text(n.Cond)+"))")
					if n.Else != nil {
						emit(n.Else, "drop else", "{}")
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
					emit(n, "drop statement", ";")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						emit(n, "drop assignment", ";")
					}
					if n.Tok == token.ADD_ASSIGN {
						p := off(n.TokPos)
						out.Encode(M{name, fn, "+= to -=", p, p + 2, fset.Position(n.TokPos).Line, "-="})
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 1 {
						t := text(n.Results[0])
						emit(n.Results[0], "return !", "!("+t+")")
						emit(n.Results[0], "return +1", "("+t+") + 1")
					}
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
						emit(n, "drop call "+s.Sel.Name, text(s.X))
					}
					for i := 0; i+1 < len(n.Args); i++ {
						out.Encode(M{name, fn, "swap arguments", off(n.Args[i].Pos()), off(n.Args[i+1].End()), fset.Position(n.Pos()).Line, text(n.Args[i+1]) + ", " + text(n.Args[i])})
					}
					if len(n.Args) == 1 {
						emit(n, "argument for call", text(n.Args[0]))
					}
				case *ast.SelectorExpr:
					alts := map[string][]string{"Before": {"After"}, "After": {"Before"}, "HasWaxingMoon": {"HasWaningMoon"}, "Year": {"Day"}, "Month": {"Day"}, "Day": {"Year"}, "Floor": {"Ceil"}, "Sin": {"Cos"}}
					for _, a := range alts[n.Sel.Name] {
						emit(n.Sel, n.Sel.Name+" to "+a, a)
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						emit(n.Cond, "loop cond false", "false && ("+text(n.Cond)+")")
					}
				case *ast.KeyValueExpr:
					emit(n, "drop key", "")
				case *ast.Ident:
					if n.Name == "true" {
						emit(n, "true to false", "false")
					} else if n.Name == "false" {
						emit(n, "false to true", "true")
					}
				case *ast.CaseClause:
					if len(n.List) > 0 && len(n.Body) > 0 {
						out.Encode(M{name, fn, "empty case", off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), fset.Position(n.Pos()).Line, ";"})
					}
				}
				return true
			})
		}
	}
}
