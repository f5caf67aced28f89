// Command mutate lists small changes of the repository's sources, one per line
// of JSON: a development tool for finding blind spots of the checks.
//
//	mutate FILE... > list.jsonl
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(kind string, p, e token.Pos, s string) {
			_ = enc.Encode(edit{f, fset.Position(p).Line, kind, off(p), off(e), s, string(src[off(p):off(e)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					m := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
					for _, o := range m[n.Op] {
						add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						add("left", n.Pos(), n.End(), text(n.X))
						add("right", n.Pos(), n.End(), text(n.Y))
					}
				case *ast.IfStmt:
					add("never", n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
					add("always", n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
				case *ast.ForStmt:
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							add("int", n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								add("int", n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					case token.CHAR:
						add("char", n.Pos(), n.End(), `'\x02'`)
					case token.STRING:
						if len(n.Value) > 2 {
							add("string", n.Pos(), n.End(), `"\x7f"`)
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						add("not", n.Pos(), n.End(), text(n.X))
					}
				case *ast.BranchStmt:
					if n.Label == nil {
						switch n.Tok {
						case token.BREAK:
							add("branch", n.Pos(), n.End(), "continue")
						case token.CONTINUE:
							add("branch", n.Pos(), n.End(), "break")
						}
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i, e := range n.List {
							if i+1 < len(n.List) {
								add("case", e.Pos(), n.List[i+1].Pos(), "")
							} else {
								add("case", n.List[i-1].End(), e.End(), "")
							}
						}
					}
					for _, s := range n.Body {
						stmt(s, add)
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						stmt(s, add)
					}
				}
				return true
			})
		}
	}
}

func stmt(s ast.Stmt, add func(string, token.Pos, token.Pos, string)) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add("drop", s.Pos(), s.End(), "{}")
		}
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add("drop", s.Pos(), s.End(), "{}")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add("drop", s.Pos(), s.End(), "{}")
		}
	}
}
