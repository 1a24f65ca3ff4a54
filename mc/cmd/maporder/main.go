// Command maporder rewrites the Go package in a directory (a copy) so that the order in which it sees the keys of a map
// with string keys, and the files of a directory, is chosen by the environment instead of by chance:
//
//	maporder DIR
//
// VERIF_ORDER holds the numbers of the permutations to take, in the order in which the program asks for them ("2,0,1");
// beyond its end the sorted order is taken. Every question is printed as "verif-order N" (N possible orders).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, del int
	text     string
}

type none struct{}

func (none) Import(path string) (*types.Package, error) { return nil, fmt.Errorf("not imported") }

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "maporder:", err)
		os.Exit(3)
	}
}

func main() {
	dir := os.Args[1]
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	fset := token.NewFileSet()
	var files []*ast.File
	src := map[string][]byte{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasPrefix(filepath.Base(n), "_") {
			continue
		}
		b, err := os.ReadFile(n)
		check(err)
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		check(err)
		src[n] = b
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, Importer: none{}, DisableUnusedImportCheck: true}
	_, _ = conf.Check("main", fset, files, info)

	maps, dirs := 0, 0
	for _, f := range files {
		name := fset.File(f.Pos()).Name()
		off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
		var edits []edit
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.RangeStmt:
				if e := rangeEdit(fset, info, x); e != "" {
					edits = append(edits, edit{off(x.For), off(x.Body.Lbrace) + 1 - off(x.For), e})
					maps++
				}
			case *ast.CallExpr:
				s, ok := x.Fun.(*ast.SelectorExpr)
				if !ok || len(x.Args) != 1 {
					return true
				}
				if id, ok := s.X.(*ast.Ident); ok && (id.Name == "os" || id.Name == "ioutil" || id.Name == "fs") {
					return true // these sort
				}
				if h := map[string]string{"Readdir": "verifInfos__", "Readdirnames": "verifNames__", "ReadDir": "verifEntries__"}[s.Sel.Name]; h != "" {
					edits = append(edits, edit{off(x.Pos()), 0, h + "("}, edit{off(x.End()), 0, ")"})
					dirs++
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b bytes.Buffer
		pos := 0
		for _, e := range edits {
			if e.off < pos {
				continue
			}
			b.Write(src[name][pos:e.off])
			b.WriteString(e.text)
			pos = e.off + e.del
		}
		b.Write(src[name][pos:])
		check(os.WriteFile(name, b.Bytes(), 0o644))
	}
	check(os.WriteFile(filepath.Join(dir, "verif_order.go"), []byte(helper), 0o644))
	fmt.Printf("maporder: %d loops over maps, %d directory listings\n", maps, dirs)
}

func text(fset *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	check(printer.Fprint(&b, fset, e))
	return b.String()
}

func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.ParenExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	}
	return false
}

// rangeEdit returns the new head of a loop over a map with string keys, up to and including the brace.
func rangeEdit(fset *token.FileSet, info *types.Info, x *ast.RangeStmt) string {
	t := info.Types[x.X].Type
	if t == nil || !simple(x.X) {
		return ""
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || !types.Identical(m.Key(), types.Typ[types.String]) {
		return ""
	}
	e := text(fset, x.X)
	key, val := "", ""
	if x.Key != nil {
		key = text(fset, x.Key)
	}
	if x.Value != nil {
		val = text(fset, x.Value)
	}
	tok := x.Tok.String()
	r := "for _, verifKey__ := range verifStrings__(" + e + ") { verifValue__, verifHave__ := " + e + "[verifKey__]; _ = verifValue__; if !verifHave__ { continue }; "
	if key != "" && key != "_" {
		r += key + " " + tok + " verifKey__; "
	}
	if val != "" && val != "_" {
		r += val + " " + tok + " verifValue__; "
	}
	return r
}

const helper = `package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

var verifAsked__ int

func verifPermutation__(n int) []int {
	p := make([]int, 0, n)
	orders := 1
	for i := 0; i < n; i++ {
		p = append(p, i)
		if i < 8 {
			orders *= i + 1
		}
	}
	if n < 2 {
		return p
	}
	fmt.Fprintln(os.Stderr, "verif-order", orders)
	choice := 0
	if l := strings.Split(os.Getenv("VERIF_ORDER"), ","); verifAsked__ < len(l) {
		choice, _ = strconv.Atoi(l[verifAsked__])
	}
	verifAsked__++
	// the first eight are permuted
	k := n
	if k > 8 {
		k = 8
	}
	rest := append([]int{}, p[:k]...)
	for i := 0; i < k; i++ {
		f := 1
		for j := 2; j < k-i; j++ {
			f *= j
		}
		d := choice / f
		choice %= f
		p[i] = rest[d]
		rest = append(rest[:d], rest[d+1:]...)
	}
	return p
}

func verifStrings__(m interface{}) []string {
	var keys []string
	for _, k := range reflect.ValueOf(m).MapKeys() {
		keys = append(keys, k.String())
	}
	sort.Strings(keys)
	var out []string
	for _, i := range verifPermutation__(len(keys)) {
		out = append(out, keys[i])
	}
	return out
}

func verifInfos__(l []os.FileInfo, err error) ([]os.FileInfo, error) {
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	var out []os.FileInfo
	for _, i := range verifPermutation__(len(l)) {
		out = append(out, l[i])
	}
	return out, err
}

func verifEntries__(l []os.DirEntry, err error) ([]os.DirEntry, error) {
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	var out []os.DirEntry
	for _, i := range verifPermutation__(len(l)) {
		out = append(out, l[i])
	}
	return out, err
}

func verifNames__(l []string, err error) ([]string, error) {
	sort.Strings(l)
	var out []string
	for _, i := range verifPermutation__(len(l)) {
		out = append(out, l[i])
	}
	return out, err
}
`
