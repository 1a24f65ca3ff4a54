// Command instr prepares a build overlay for the packages under test, from their current sources:
//
//	instr -out DIR [-points] PKGDIR...
//
// Every non-test Go file of each PKGDIR is copied to DIR with its import of "sync" redirected to verifmc/vsync and,
// with -points, a call of the scheduler before every statement. DIR/overlay.json maps the files for go build -overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
}

var noChan = flag.Bool("nochan", false, "leave channels alone")

func main() {
	out := flag.String("out", "", "output directory")
	points := flag.Bool("points", false, "insert scheduling points")
	merge := flag.String("merge", "", "another overlay.json to start from (its replacements are instrumented too)")
	flag.Parse()
	replace := map[string]string{}
	if *merge != "" {
		b, err := os.ReadFile(*merge)
		check(err)
		var o struct{ Replace map[string]string }
		check(json.Unmarshal(b, &o))
		replace = o.Replace
	}
	for _, dir := range flag.Args() {
		names, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		sort.Strings(names)
		for _, name := range names {
			base := filepath.Base(name)
			if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") {
				continue
			}
			from := name
			if r, ok := replace[name]; ok {
				from = r
			}
			src, err := os.ReadFile(from)
			check(err)
			res, changed, err := instrument(name, src, *points)
			check(err)
			if !changed {
				continue
			}
			to := filepath.Join(*out, strings.ReplaceAll(strings.Trim(dir, "/"), "/", "_")+"_"+base)
			check(os.WriteFile(to, res, 0o644))
			replace[name] = to
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func instrument(name string, src []byte, points bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var edits []edit
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"verifmc/vsync"`
			if im.Name == nil {
				t = `sync ` + t
			}
			edits = append(edits, edit{off(im.Path.Pos()), len(im.Path.Value), t})
		}
	}
	n := 0
	if points {
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, edit{off(s.Pos()), 0, "vsched__.P(); "})
				n++
				for {
					l, ok := s.(*ast.LabeledStmt)
					if !ok {
						break
					}
					s = l.Stmt
					switch s.(type) {
					case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
					default:
						edits = append(edits, edit{off(s.Pos()), 0, "vsched__.P(); "})
						n++
					}
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
	}
	// a go statement, its function and arguments evaluated at once as they are there
	ast.Inspect(f, func(x ast.Node) bool {
		g, ok := x.(*ast.GoStmt)
		if !ok {
			return true
		}
		n++
		pre, call := "", ""
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		if _, ok := g.Call.Fun.(*ast.FuncLit); !ok {
			pre = "goFunc__ := " + text(g.Call.Fun) + "; "
			call = "goFunc__"
		}
		for i, a := range g.Call.Args {
			switch a.(type) {
			case *ast.BasicLit, *ast.FuncLit:
				continue
			}
			v := fmt.Sprintf("goArg%d__", i)
			pre += v + " := " + text(a) + "; "
			edits = append(edits, edit{off(a.Pos()), off(a.End()) - off(a.Pos()), v})
		}
		edits = append(edits, edit{off(g.Pos()), off(g.Call.Pos()) - off(g.Pos()), "{ " + pre + "vsched__.Go(func() { "})
		if call != "" {
			edits = append(edits, edit{off(g.Call.Fun.Pos()), off(g.Call.Fun.End()) - off(g.Call.Fun.Pos()), call})
		}
		edits = append(edits, edit{off(g.End()), 0, " }) }"})
		return true
	})
	if c := channels(fset, f, src, off); len(c) > 0 {
		edits = append(edits, c...)
		n++
		if !strings.Contains(string(src[:off(f.Package)]), "//go:build") {
			edits = append([]edit{{0, 0, "//go:build go1.21\n\n"}}, edits...) // for the generic functions
		}
	}
	if n > 0 {
		edits = append(edits, edit{off(f.Name.End()), 0, `; import vsched__ "verifmc/vsched"`})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // inside of something that was replaced
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	return b.Bytes(), true, nil
}

// channels redirects what is done with channels to the scheduler. A file that uses select is left as it is.
func channels(fset *token.FileSet, f *ast.File, src []byte, off func(token.Pos) int) []edit {
	var edits []edit
	used, leave := false, false
	made := map[string]bool{} // names of channels
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SelectStmt:
			leave = true
		case *ast.ChanType:
			used = true
		case *ast.Field:
			if _, ok := x.Type.(*ast.ChanType); ok {
				for _, n := range x.Names {
					made[n.Name] = true
				}
			}
		case *ast.ValueSpec:
			if _, ok := x.Type.(*ast.ChanType); ok {
				for _, n := range x.Names {
					made[n.Name] = true
				}
			}
			for i, v := range x.Values {
				if makesChan(v) && i < len(x.Names) {
					made[x.Names[i].Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, v := range x.Rhs {
				if makesChan(v) && len(x.Lhs) == len(x.Rhs) {
					made[lastName(x.Lhs[i])] = true
				}
			}
		}
		return true
	})
	if !used || leave || *noChan {
		return nil
	}
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SendStmt:
			edits = append(edits, edit{off(x.Pos()), 0, "vsched__.Send("}, edit{off(x.Chan.End()), off(x.Value.Pos()) - off(x.Chan.End()), ")("}, edit{off(x.End()), 0, ")"})
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					edits = append(edits, edit{off(u.Pos()), 2, "vsched__.Recv2("}, edit{off(u.End()), 0, ")"})
					u.Op = token.ADD // done
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				edits = append(edits, edit{off(x.Pos()), 2, "vsched__.Recv("}, edit{off(x.End()), 0, ")"})
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				edits = append(edits, edit{off(id.Pos()), len("close"), "vsched__.Close"})
			}
		case *ast.RangeStmt:
			if !made[lastName(x.X)] || x.Value != nil || x.Tok == token.ASSIGN {
				break
			}
			n++
			v, ok := "_", fmt.Sprintf("ok%d__", n)
			if x.Key != nil {
				v = string(src[off(x.Key.Pos()):off(x.Key.End())])
			}
			ch := string(src[off(x.X.Pos()):off(x.X.End())])
			t := fmt.Sprintf("for %s, %s := vsched__.Recv2(%s); %s; %s, %s = vsched__.Recv2(%s) ", v, ok, ch, ok, v, ok, ch)
			edits = append(edits, edit{off(x.Pos()), off(x.Body.Pos()) - off(x.Pos()), t})
		}
		return true
	})
	return edits
}

func makesChan(x ast.Expr) bool {
	c, ok := x.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "make" {
		return false
	}
	_, ok = c.Args[0].(*ast.ChanType)
	return ok
}

func lastName(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.ParenExpr:
		return lastName(x.X)
	}
	return ""
}
