// Package instr makes the instrumented copy of the repository's packages that
// the controlled scheduler runs: a file for `go build -overlay`.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	off int
	end int // replaced up to here
	s   string
}

// Stats counts what was instrumented.
type Stats struct {
	Packages, Files, Fine, Coarse, Vars int
}

// Make writes the overlay for the repository into dir and returns the path of
// the overlay file. With fine, every statement gets a scheduling point. It fails with an explanation if the code uses goroutines or
// channels, which the scheduler does not control.
func Make(repo, dir, harness string, fine bool) (string, *Stats, error) {
	st := &Stats{}
	replace := map[string]string{}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, err
	}
	n := 0
	put := func(orig string, content []byte) error {
		p := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(orig)))
		n++
		replace[orig] = p
		return os.WriteFile(p, content, 0o644)
	}
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return err
		}
		b := d.Name()
		if path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "examples") {
			return filepath.SkipDir
		}
		pkg, err := build.ImportDir(path, 0)
		if err != nil || pkg.Name == "main" || len(pkg.GoFiles) == 0 {
			return nil
		}
		return onePackage(path, pkg, put, st, fine)
	})
	if err != nil {
		return "", nil, err
	}
	on := "package sched\n\nfunc init() { Instrumented = true }\n"
	if err := put(filepath.Join(harness, "sched", "zz_on.go"), []byte(on)); err != nil {
		return "", nil, err
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	of := filepath.Join(dir, "overlay.json")
	return of, st, os.WriteFile(of, b, 0o644)
}

func onePackage(dir string, pkg *build.Package, put func(string, []byte) error, st *Stats, fine bool) error {
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	var names []string
	vars, own := map[string]bool{}, map[string]bool{}
	for _, f := range pkg.GoFiles {
		p := filepath.Join(dir, f)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, p, b, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files[p], src[p] = a, b
		names = append(names, p)
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars[id.Name] = true
							if isSync(s.(*ast.ValueSpec)) {
								own[id.Name] = true
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(names)
	for _, p := range names {
		var bad error
		ast.Inspect(files[p], func(x ast.Node) bool {
			switch x.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				bad = fmt.Errorf("%s uses goroutines or channels", fset.Position(x.Pos()))
			}
			return bad == nil
		})
		if bad != nil {
			return bad
		}
	}
	changed := changedVars(files, vars)
	for v := range own {
		delete(changed, v)
	}
	st.Packages++
	for _, p := range names {
		a, b := files[p], src[p]
		var ins []insertion
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		points := 0
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				if mentions(s, changed) {
					points++
					st.Coarse++
					ins = append(ins, insertion{off(s.Pos()), off(s.Pos()), "mcsched.G(); "})
				} else if fine {
					points++
					st.Fine++
					ins = append(ins, insertion{off(s.Pos()), off(s.Pos()), "mcsched.P(); "})
				}
			}
		}
		ast.Inspect(a, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				// The body of a switch holds clauses, not statements.
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			}
			return true
		})
		for _, im := range a.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to, name := "", ""
			switch path {
			case "sync":
				to, name = "verifmc/sched", "sync"
			case "sync/atomic":
				to, name = "verifmc/satomic", "atomic"
			default:
				continue
			}
			s := strconv.Quote(to)
			if im.Name == nil {
				s = name + " " + s
			}
			ins = append(ins, insertion{off(im.Path.Pos()), off(im.Path.End()), s})
		}
		if points > 0 {
			e := off(a.Name.End())
			ins = append(ins, insertion{e, e, `; import mcsched "verifmc/sched"`})
		}
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
		var out []byte
		at := 0
		for _, i := range ins {
			out = append(out, b[at:i.off]...)
			out = append(out, i.s...)
			at = i.end
		}
		out = append(out, b[at:]...)
		st.Files++
		if err := put(p, out); err != nil {
			return err
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport mcsched \"verifmc/sched\"\n\nfunc init() {\n", pkg.Name)
	for _, v := range sortedKeys(vars) {
		fmt.Fprintf(&sb, "\tmcsched.Reg(%q, &%s)\n", pkg.Name+"."+v, v)
		st.Vars++
	}
	sb.WriteString("\tmcsched.Cold()\n}\n")
	return put(filepath.Join(dir, "zz_mcsched.go"), []byte(sb.String()))
}

// isSync reports whether the variable is of a type of package sync.
func isSync(s *ast.ValueSpec) bool {
	t := s.Type
	if t == nil && len(s.Values) == 1 {
		if c, ok := s.Values[0].(*ast.CompositeLit); ok {
			t = c.Type
		}
	}
	sel, ok := t.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && (id.Name == "sync" || id.Name == "atomic")
}

// changedVars are the package-level variables that some function may change:
// assigned to, incremented, addressed, cleared, or with a method called. The
// stand-ins of package sync have scheduling points of their own.
func changedVars(files map[string]*ast.File, vars map[string]bool) map[string]bool {
	out := map[string]bool{}
	root := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				if vars[x.Name] {
					out[x.Name] = true
				}
				return
			case *ast.IndexExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			default:
				return
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							root(l)
						}
					}
				case *ast.IncDecStmt:
					root(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						root(x.X)
					}
				case *ast.CallExpr:
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
						root(sel.X)
					}
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
						root(x.Args[0])
					}
				}
				return true
			})
		}
	}
	return out
}

// mentions reports whether the statement, without the blocks in it, names one
// of the variables.
func mentions(s ast.Stmt, vars map[string]bool) bool {
	found := false
	ast.Inspect(s, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if vars[x.Name] {
				found = true
			}
		}
		return !found
	})
	return found
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
