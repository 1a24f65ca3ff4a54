// Command gen17 prepares what the check of the generator needs: it runs the generator on v3's templates and on
// templates with directives in other contexts, compiles what comes out, and writes adapters for the packages.
//
//	gen17 -gen GENERATOR -repo REPO -out DIR -adapters adapters_gen.go -impl IMPLDIR
//
// It writes DIR/k/ (a module verifregen/k per regenerated package), DIR/overlay.json (adapters added to package impl),
// DIR/modules (one directory per line) and DIR/report.json.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verifmc/genrun"
)

// Report is read by the check.
type Report struct {
	Failures   []Failure `json:"failures"`
	Runs       int64     `json:"runs"`
	Directives int       `json:"directives"`
	Invalid    int       `json:"invalid_directives"`
	Contexts   int       `json:"contexts"`
	Variants   []string  `json:"variants"` // why each regenerated package exists
}

// Failure is a violation found while preparing.
type Failure struct {
	What  string   `json:"what"`
	Steps []string `json:"steps"`
}

var (
	gen, repo, out, adapters, implDir string
	mu                                sync.Mutex
	rep                               Report
	runs                              int64
)

func fail(what string, steps ...string) {
	mu.Lock()
	defer mu.Unlock()
	if len(rep.Failures) < 20 {
		rep.Failures = append(rep.Failures, Failure{what, steps})
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gen17:", err)
		os.Exit(3)
	}
}

type directive struct{ recv, rw, sn, is, en string }

func (d directive) text() string {
	return fmt.Sprintf("//generator:complex %s %s %s %s %s", d.recv, d.rw, d.sn, d.is, d.en)
}

func (d directive) name() string { return d.rw + d.sn + d.is + d.en }

func main() {
	flag.StringVar(&gen, "gen", "", "generator")
	flag.StringVar(&repo, "repo", "", "repository")
	flag.StringVar(&out, "out", "", "output")
	flag.StringVar(&adapters, "adapters", "", "adapters_gen.go")
	flag.StringVar(&implDir, "impl", "", "directory of package impl")
	flag.Parse()
	check(os.MkdirAll(out, 0o755))

	var valid, invalid []directive
	recv := []string{"Buffer", "MiniBuffer", "buffer", "Minibuffer", "MiniBuf", "Buffers", "B", "_"}
	rw := []string{"Read", "Write", "read", "Writes", "ReadWrite", "R"}
	sn := []string{"U", "I", "F", "u", "UI", "C", "f", "S"}
	is := []string{"16", "32", "64", "8", "128", "24", "0", "016", "1"}
	en := []string{"LE", "BE", "le", "B", "ME", "LEBE"}
	for i, r := range recv {
		for j, w := range rw {
			for k, s := range sn {
				for l, n := range is {
					for m, e := range en {
						d := directive{r, w, s, n, e}
						if i < 2 && j < 2 && k < 3 && l < 3 && m < 2 && !(s == "F" && n == "16") {
							valid = append(valid, d)
						} else {
							invalid = append(invalid, d)
						}
					}
				}
			}
		}
	}
	rep.Directives, rep.Invalid = len(valid), len(invalid)

	base := regenerate()
	if base != nil {
		variants := []map[string]string{}
		seen := map[string]bool{}
		addVariant := func(context string, m map[string]string) {
			diff := map[string]string{}
			for k, v := range m {
				if tokens(v) != tokens(base[k]) {
					diff[k] = v
				}
			}
			if len(diff) == 0 {
				return
			}
			key := fmt.Sprint(diff)
			mu.Lock()
			defer mu.Unlock()
			if seen[key] || len(variants) >= 3 {
				return
			}
			seen[key] = true
			variants = append(variants, diff)
			rep.Variants = append(rep.Variants, context)
		}
		contexts(valid, invalid, base, addVariant)
		for i, v := range variants {
			buildVariant(i+2, base, v)
		}
	}
	rep.Runs = runs
	b, err := json.MarshalIndent(rep, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "report.json"), b, 0o644))
	overlay()
}

// generate runs the generator in a fresh directory with the templates and returns what it wrote.
func generate(files map[string]string) (map[string]string, error) {
	atomic.AddInt64(&runs, 1)
	return genrun.Fresh(gen, out, files)
}

var packages []int

// regenerate builds the v3 package from its templates; it returns the methods that the directives gave.
func regenerate() map[string]string {
	names, err := filepath.Glob(filepath.Join(repo, "v3", "*.go"))
	check(err)
	tmpl := map[string]string{}
	rest := map[string]string{}
	for _, n := range names {
		b, err := os.ReadFile(n)
		check(err)
		f := filepath.Base(n)
		switch {
		case strings.HasPrefix(f, "_"):
			tmpl[f] = string(b)
		case strings.HasSuffix(f, "_test.go"), strings.HasSuffix(f, ".generated.go"):
		default:
			rest[f] = string(b)
		}
	}
	res, err := generate(tmpl)
	if err != nil {
		fail("the generator fails on v3's templates: "+err.Error(), "v3's templates")
		return nil
	}
	for f := range tmpl {
		o := genrun.OutputName(f)
		if _, ok := res[o]; !ok {
			fail(fmt.Sprintf("the generator wrote no %s for %s", o, f), "v3's templates")
			return nil
		}
	}
	for f, s := range rest {
		res[f] = s
	}
	dir := filepath.Join(out, "1")
	if !writePackage(dir, 1, res) {
		return nil
	}
	packages = append(packages, 1)
	rep.Variants = append(rep.Variants, "v3 regenerated from its templates")
	m := map[string]string{}
	for f, s := range res {
		ms, _, err := methods(f, s)
		if err != nil {
			fail("the regenerated "+f+" does not parse: "+err.Error(), "v3's templates")
			return nil
		}
		for k, v := range ms {
			m[k] = v
		}
	}
	return m
}

// writePackage writes and compiles a regenerated package.
func writePackage(dir string, k int, files map[string]string) bool {
	check(os.MkdirAll(dir, 0o755))
	for f, s := range files {
		check(os.WriteFile(filepath.Join(dir, f), []byte(s), 0o644))
	}
	check(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(fmt.Sprintf("module verifregen/%d\n\ngo 1.17\n", k)), 0o644))
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=mod")
	b, err := cmd.CombinedOutput()
	if err != nil {
		fail("the generated package does not compile:\n"+string(b), fmt.Sprintf("package %d", k))
		return false
	}
	return true
}

// methods returns the functions of a file by receiver and name, and whether there is nothing else but the package clause,
// imports and comments.
func methods(name, src string) (m map[string]string, only bool, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	m, only = map[string]string{}, true
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			if g, ok := d.(*ast.GenDecl); !ok || g.Tok != token.IMPORT {
				only = false
			}
			continue
		}
		fd.Doc = nil
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, fd); err != nil {
			return nil, false, err
		}
		r := ""
		if fd.Recv != nil && len(fd.Recv.List) == 1 {
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				r = id.Name
			}
		}
		k := r + "." + fd.Name.Name
		if _, dup := m[k]; dup {
			return nil, false, fmt.Errorf("%s is declared twice", k)
		}
		m[k] = b.String()
	}
	return m, only, nil
}

// tokens reduces a function to its tokens.
func tokens(src string) string {
	var s scanner.Scanner
	fset := token.NewFileSet()
	b := []byte(src)
	s.Init(fset.AddFile("", fset.Base(), len(b)), b, nil, 0)
	var out strings.Builder
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return out.String()
		}
		fmt.Fprintf(&out, "%s %s;", t, lit)
	}
}

// parallel runs f(0..n-1) on 8 goroutines.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

const header = "package v3\n\n"

// expect runs the generator on one template and compares the methods in the output with the directives.
func expect(context, tmpl string, want []directive, base map[string]string, addVariant func(string, map[string]string)) {
	res, err := generate(map[string]string{"_t.go": tmpl})
	mu.Lock()
	rep.Contexts++
	mu.Unlock()
	show := tmpl
	if len(show) > 600 {
		show = show[:600] + "..."
	}
	if err != nil {
		fail(fmt.Sprintf("%s: the generator fails: %v", context, err), "template _t.go:\n"+show)
		return
	}
	src, ok := res["t.generated.go"]
	if !ok {
		fail(context+": no output was written", "template _t.go:\n"+show)
		return
	}
	m, only, err := methods("t.generated.go", src)
	if err != nil {
		fail(fmt.Sprintf("%s: the output does not parse: %v", context, err), "template _t.go:\n"+show)
		return
	}
	need := map[string]bool{}
	for _, d := range want {
		need[d.recv+"."+d.name()] = true
		need[d.recv+"."+d.name()+"Next"] = true
	}
	var missing, extra []string
	for k := range need {
		if _, ok := m[k]; !ok {
			missing = append(missing, k)
		}
	}
	for k := range m {
		if !need[k] {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	if len(missing) > 0 {
		fail(fmt.Sprintf("%s: methods missing from the output: %s", context, strings.Join(missing, ", ")), "template _t.go:\n"+show)
		return
	}
	if len(want) == 0 && (len(extra) > 0 || !only) {
		fail(fmt.Sprintf("%s: an unacceptable directive yields more than a comment: %s", context, strings.Join(extra, ", ")), "template _t.go:\n"+show)
		return
	}
	if base != nil {
		addVariant(context, m)
	}
}

func contexts(valid, invalid []directive, base map[string]string, addVariant func(string, map[string]string)) {
	// the regenerated package must have the methods of the directives in v3's templates
	for _, d := range templateDirectives() {
		for _, n := range []string{"", "Next"} {
			if _, ok := base[d.recv+"."+d.name()+n]; !ok {
				fail("the regenerated package lacks "+d.recv+"."+d.name()+n, d.text()+" in v3's templates")
			}
		}
	}
	// each alone
	parallel(len(valid), func(i int) {
		expect("the only directive", header+valid[i].text()+"\n", valid[i:i+1], base, addVariant)
		expect("the only directive, at the end of a file without newline", header+"var a int\n"+valid[i].text(), valid[i:i+1], base, addVariant)
	})
	// all in one template, forwards and backwards
	for _, sep := range []string{"\n", "\n\n"} {
		var f, b []string
		for i := range valid {
			f = append(f, valid[i].text())
			b = append(b, valid[len(valid)-1-i].text())
		}
		expect("all directives in one template", header+strings.Join(f, sep)+"\n", valid, base, addVariant)
		expect("all directives in one template, in reverse", header+strings.Join(b, sep)+"\n", valid, base, addVariant)
	}
	// every ordered pair
	parallel(len(valid)*len(valid), func(k int) {
		i, j := k/len(valid), k%len(valid)
		if i == j {
			return
		}
		expect("two directives", header+valid[i].text()+"\n\n// between\n\n"+valid[j].text()+"\n", []directive{valid[i], valid[j]}, base, addVariant)
	})
	// unacceptable ones, together and each mixed with acceptable ones
	var all, mixed []string
	for i := range invalid {
		all = append(all, invalid[i].text())
	}
	expect("unacceptable directives", header+strings.Join(all, "\n\n")+"\n", nil, base, addVariant)
	step := len(invalid) / len(valid)
	for i := range valid {
		for k := i * step; k < (i+1)*step; k++ {
			mixed = append(mixed, invalid[k].text())
		}
		mixed = append(mixed, valid[i].text())
	}
	expect("acceptable directives among unacceptable ones", header+strings.Join(mixed, "\n\n")+"\n", valid, base, addVariant)
	// every kind of wrong argument alone in its file, next to each other and before an acceptable directive
	var few []directive
	v := directive{"Buffer", "Read", "U", "32", "LE"}
	for _, d := range invalid {
		wrong := 0
		for _, x := range [][2]string{{d.recv, v.recv}, {d.rw, v.rw}, {d.sn, v.sn}, {d.is, v.is}, {d.en, v.en}} {
			if x[0] != x[1] {
				wrong++
			}
		}
		if wrong <= 1 || d.sn == "F" && d.is == "16" && (d.recv == "Buffer" || d.recv == "MiniBuffer") && (d.rw == "Read" || d.rw == "Write") && (d.en == "LE" || d.en == "BE") {
			few = append(few, d)
		}
	}
	parallel(len(few), func(i int) {
		expect("an unacceptable directive", header+few[i].text()+"\n", nil, base, addVariant)
		for j := range few {
			expect("two unacceptable directives", header+few[i].text()+"\n\n"+few[j].text()+"\n", nil, base, addVariant)
		}
		for _, w := range []directive{v, {"MiniBuffer", "Write", "F", "64", "BE"}} {
			expect("an acceptable directive after an unacceptable one", header+few[i].text()+"\n\n"+w.text()+"\n", []directive{w}, base, addVariant)
			expect("an acceptable directive before an unacceptable one", header+w.text()+"\n\n"+few[i].text()+"\n", []directive{w}, base, addVariant)
		}
	})
}

var directiveLine = regexp.MustCompile(`(?m)^//generator:complex (Buffer|MiniBuffer) (Read|Write) (U|I|F) (16|32|64) (BE|LE)$`)

func templateDirectives() []directive {
	var ds []directive
	names, _ := filepath.Glob(filepath.Join(repo, "v3", "_*.go"))
	for _, n := range names {
		b, err := os.ReadFile(n)
		check(err)
		for _, m := range directiveLine.FindAllStringSubmatch(string(b), -1) {
			if m[3] != "F" || m[4] != "16" {
				ds = append(ds, directive{m[1], m[2], m[3], m[4], m[5]})
			}
		}
	}
	return ds
}

// buildVariant makes a package in which methods are those that the generator emitted in another context.
func buildVariant(k int, base, diff map[string]string) {
	files := map[string]string{}
	names, err := filepath.Glob(filepath.Join(out, "1", "*.go"))
	check(err)
	for _, n := range names {
		b, err := os.ReadFile(n)
		check(err)
		files[filepath.Base(n)] = string(b)
	}
	for name, src := range files {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		check(err)
		type cut struct{ from, to int }
		var cuts []cut
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil {
				continue
			}
			t := fd.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if id, ok := t.(*ast.Ident); ok {
				if _, ok := diff[id.Name+"."+fd.Name.Name]; ok {
					cuts = append(cuts, cut{fset.Position(fd.Pos()).Offset, fset.Position(fd.End()).Offset})
				}
			}
		}
		for i := len(cuts) - 1; i >= 0; i-- {
			src = src[:cuts[i].from] + src[cuts[i].to:]
		}
		files[name] = src
	}
	imports := ""
	var b strings.Builder
	for _, v := range diff {
		if strings.Contains(v, "unsafe.") {
			imports = "import \"unsafe\"\n\n"
		}
		b.WriteString(v + "\n\n")
	}
	files["verif_variant.go"] = "package v3\n\n" + imports + b.String()
	for n, src := range files {
		if n != "verif_variant.go" && strings.Contains(src, "\"unsafe\"") {
			files[n] += "\n\nvar _ unsafe.Pointer\n"
		}
	}
	if writePackage(filepath.Join(out, fmt.Sprint(k)), k, files) {
		packages = append(packages, k)
	}
}

// overlay adds adapters for the packages to package impl.
func overlay() {
	replace := map[string]string{}
	var mods strings.Builder
	src, err := os.ReadFile(adapters)
	check(err)
	s := string(src)
	body := s[strings.Index(s, "// V3B adapts"):strings.Index(s, "// New builds a buffer")]
	cls := s[strings.LastIndex(s, "\tcase v3.Error:\n\t\tswitch e {"):]
	cls = cls[:strings.Index(cls, "\n\t\t}\n")+5]
	for _, k := range packages {
		a := fmt.Sprintf("A%d", k)
		t := strings.NewReplacer("V3B", "V3B"+a, "V3M", "V3M"+a, "Desc{Ver: 3", fmt.Sprintf("Desc{Alt: %d, Ver: 3", k)).Replace(body)
		code := fmt.Sprintf(`package impl

import (
	"fmt"

	v3 "verifregen/%d"
)

%s

func init() {
	RegisterAlt(%d, func(d Desc, slices ...[]byte) Inst {
		if !d.Mini {
			return V3B%s{v3.NewBuffer(slices...)}
		}
		var m *v3.MiniBuffer
		v3.NewMiniBuffer(&m, slices...)
		return V3M%s{m}
	}, func(p any) string {
		switch e := p.(type) {
%s
		}
		return ""
	})
}
`, k, t, k, a, a, cls)
		f := filepath.Join(out, fmt.Sprintf("alt%d.go", k))
		check(os.WriteFile(f, []byte(code), 0o644))
		replace[filepath.Join(implDir, fmt.Sprintf("zz_alt%d.go", k))] = f
		fmt.Fprintln(&mods, filepath.Join(out, fmt.Sprint(k)))
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	check(os.WriteFile(filepath.Join(out, "modules"), []byte(mods.String()), 0o644))
}
