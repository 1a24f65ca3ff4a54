package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verifmc/engine"
	"verifmc/genrun"
)

func init() {
	register(engine.Check{Prop: "C18",
		Bounds: "the generator's binary, run as an unprivileged user in scratch directories: every template of up to 4 (quick: 3) lines from 9 kinds of line, with and without a final newline, alone and many in one directory, and long, binary and large ones, under 9 file names; every prior state of the output from 12 (absent, empty, shorter, longer, the same, code, other bytes), for 1 to 3 runs, on 8 templates; every history of up to 5 (quick: 4) of 9 actions (run, change, shorten, lengthen, remove or add a template, spoil or remove an output, add a bystander) followed by a run; every set of up to 3 of 5 templates in every order of creation; 25 kinds of bystander (templates that cannot be read and outputs that cannot be written among them) alone and in pairs; 26 ways to name the directory, from 3 working directories that hold templates of their own, through 6 kinds of directory name; every order of directory listing and of map iteration, for up to 3 templates, by depth-first search on a build whose orders are chosen by the explorer; 10 environments",
		Assume: []string{"a directive is a line //generator:complex with five words; what it turns into is what the generator makes of it between two lines of text (whether that is right is C17)", "the file system behaves as specified (crashes of the machine are not considered)"},
		Units:  c18Units})
}

// line kinds of the enumerated templates
var c18Lines = []string{
	"",
	"var x = \"é $1 ${1} \\\\1 %d %s\" // text",
	"//generator:complex Buffer Read U 16 LE",
	"//generator:complex MiniBuffer Write F 64 BE",
	"//generator:complex Buffer Sideways U 16 LE",
	"\t//generator:complex Buffer Read U 16 LE",
	"// generator:complex Buffer Read U 16 LE",
	"s := `a` //generator:complex Buffer Read U 16 LE",
	"crlf \t \r",
}

type c18Env struct {
	c    *Ctx
	gen  string
	base string
	env  []string
	exp  map[string]string
}

func c18New(c *Ctx) *c18Env {
	t := os.Getenv("MC_TMP")
	return &c18Env{c: c, gen: filepath.Join(t, "generation"), base: filepath.Join(t, "gen"), exp: map[string]string{}}
}

func c18Must(err error) {
	if err != nil {
		panic(err)
	}
}

func short(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q… (%d bytes)", s[:400], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// diffAt describes where two strings differ.
func diffAt(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	from := max(0, i-40)
	return fmt.Sprintf("differs at byte %d (lengths %d and %d): …%s instead of …%s", i, len(got), len(want), short(got[from:min(len(got), i+80)]), short(want[from:min(len(want), i+80)]))
}

func isDirective(line string) bool { return strings.HasPrefix(line, "//generator:complex") }

// expansion returns what a directive turns into, between two lines of text in a directory of its own.
func (e *c18Env) expansion(line string) string {
	if x, ok := e.exp[line]; ok {
		return x
	}
	const before, after = "package p // one\n", "\nvar last int // two\n"
	out, err := genrun.Fresh(e.gen, e.base, map[string]string{"_only.go": before + line + after})
	e.c.Trans++
	if err != nil {
		e.c.Fail("the generator fails: "+err.Error(), line)
	}
	got, ok := out["only.generated.go"]
	if !ok || len(out) != 1 {
		e.c.Fail(fmt.Sprintf("the outputs are %v instead of only.generated.go", keys(out)), before+line+after)
	}
	if len(got) < len(before)+len(after) || !strings.HasPrefix(got, before) || !strings.HasSuffix(got, after) {
		e.c.Fail("the text around a directive is not passed through: "+short(got), before+line+after)
	}
	x := got[len(before) : len(got)-len(after)]
	e.exp[line] = x
	return x
}

func keys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// expected returns the output for a template.
func (e *c18Env) expected(tmpl string) string {
	var b strings.Builder
	for i, l := range strings.Split(tmpl, "\n") {
		if i > 0 {
			b.WriteByte('\n')
		}
		if isDirective(l) {
			b.WriteString(e.expansion(l))
		} else {
			b.WriteString(l)
		}
	}
	return b.String()
}

func isTemplate(name string) bool {
	return strings.HasPrefix(name, "_") && strings.HasSuffix(name, ".go")
}

// world is a scratch directory with everything in it that the generator could reach, and what should be there.
type world struct {
	e    *c18Env
	root string
	want genrun.Tree
	dir  string // the generator's directory, relative to root
	log  []string

	outputs map[string]bool
	lenient bool // there is something to complain about
}

func (e *c18Env) world(dir string) *world {
	root, err := genrun.Scratch(e.base)
	c18Must(err)
	w := &world{e: e, root: root, want: genrun.Tree{}, dir: dir, outputs: map[string]bool{}}
	if dir != "" {
		p := ""
		for _, s := range strings.Split(dir, "/") {
			p = strings.TrimPrefix(p+"/"+s, "/")
			w.put(p, genrun.Node{Kind: 'd', Mode: 0o755})
		}
	}
	return w
}

func (w *world) close() { c18Must(os.RemoveAll(w.root)) }

// in returns a path in the generator's directory.
func (w *world) in(name string) string { return strings.TrimPrefix(w.dir+"/"+name, "/") }

// put creates or replaces a node.
func (w *world) put(path string, n genrun.Node) {
	if old, ok := w.want[path]; ok && old.Kind != 'd' {
		c18Must(os.Remove(filepath.Join(w.root, path)))
	}
	c18Must(genrun.Put(w.root, path, n))
	if n.Kind == 'l' {
		n.Mode = 0
	}
	w.want[path] = n
	w.log = append(w.log, fmt.Sprintf("create %s %q: %s", map[byte]string{'f': "file", 'd': "directory", 'l': "link"}[n.Kind], path, short(n.Content)))
}

// spoil overwrites a file in place.
func (w *world) spoil(path, s string) {
	c18Must(os.WriteFile(filepath.Join(w.root, path), []byte(s), 0o644))
	n := w.want[path]
	n.Content = s
	w.want[path] = n
	w.log = append(w.log, fmt.Sprintf("overwrite %q: %s", path, short(s)))
}

func (w *world) remove(path string) {
	c18Must(os.Remove(filepath.Join(w.root, path)))
	delete(w.want, path)
	w.log = append(w.log, fmt.Sprintf("remove %q", path))
}

// run runs the generator and compares everything.
func (w *world) run(gen, cwd string, env []string, args ...string) genrun.Result {
	e := w.e
	for p, n := range w.want.Clone() {
		d, f := filepath.Split(p)
		if strings.TrimSuffix(d, "/") != w.dir || n.Kind != 'f' || !isTemplate(f) || n.Mode&0o444 == 0 {
			continue
		}
		o := w.in(genrun.OutputName(f))
		m := w.want[o]
		if m.Kind == 'd' { // it cannot be written
			continue
		}
		if m.Kind == 0 {
			m = genrun.Node{Kind: 'f', Mode: 0o644}
		}
		m.Content = e.expected(n.Content)
		w.want[o] = m
		w.outputs[o] = true
	}
	w.log = append(w.log, fmt.Sprintf("run the generator in %q with %v %q", cwd, env, args))
	e.c.Trans++
	r := genrun.Run(gen, cwd, env, args...)
	if _, exited := r.Err.(*exec.ExitError); r.Err != nil && !(exited && w.lenient) {
		e.c.Fail(fmt.Sprintf("the generator fails: %v\n%.2000s", r.Err, r.Output), w.log...)
	}
	w.compare()
	return r
}

func (w *world) compare() {
	got, err := genrun.Snapshot(w.root)
	c18Must(err)
	fail := func(f string, a ...any) { w.e.c.Fail(fmt.Sprintf(f, a...), w.log...) }
	for _, p := range got.Names() {
		g := got[p]
		n, ok := w.want[p]
		switch {
		case !ok:
			fail("%q was created: %s", p, short(g.Content))
		case g.Kind != n.Kind:
			fail("%q is a %c instead of a %c", p, g.Kind, n.Kind)
		case g.Content != n.Content:
			fail("%q %s", p, diffAt(g.Content, n.Content))
		case g.Mode != n.Mode && !w.outputs[p]: // nothing is said about the mode of an output
			fail("%q has mode %v instead of %v", p, g.Mode, n.Mode)
		}
	}
	for _, p := range w.want.Names() {
		if _, ok := got[p]; !ok {
			fail("%q is missing", p)
		}
	}
}

// plain runs the generator on the directory in the plainest way.
func (w *world) plain() {
	d := filepath.Join(w.root, w.dir)
	w.run(w.e.gen, d, nil, "-directory", d, "-generation", "complex")
}

func (w *world) trace() { w.e.c.Trace(func() string { return strings.Join(w.log, "; ") }) }

func (w *world) state(kind, a, b int) { w.e.c.StateOf(kind, nil, int64(a), int64(b)) }

func c18Templates() []string {
	d, m, bad := c18Lines[2], c18Lines[3], c18Lines[4]
	return []string{
		"package p\n\n" + d + "\n\nfunc f() {}\n",
		"package p\n",
		"",
		"package p\n\n" + m + "\n\n" + d + "\n" + d + "\n",
		d,
		bad + "\nx",
		"a\r\nb\r\n\r\n" + m + "\nc\r\n",
		"package p\n" + strings.Repeat("// padding\n", 300) + m + "\n// end",
	}
}

// c18Odd lists unusual contents.
func c18Odd() []string {
	d := "\n//generator:complex MiniBuffer Read I 32 BE\n"
	var all strings.Builder
	for _, r := range []string{"Buffer", "MiniBuffer"} {
		for _, rw := range []string{"Read", "Write"} {
			for _, n := range []string{"U 16", "U 32", "U 64", "I 16", "I 32", "I 64", "F 32", "F 64"} {
				for _, e := range []string{"LE", "BE"} {
					fmt.Fprintf(&all, "//generator:complex %s %s %s %s\n", r, rw, n, e)
				}
			}
		}
	}
	l := []string{
		"\xef\xbb\xbfpackage p" + d, "\xff\xfe\x00\x80" + d + "\xc3", "\x00" + d + "\x00", "\n", "\n\n\n", "\r", "\r\n", " ", "\t\n\t",
		"not go at all {{{" + d + ")))", "\u2028" + d + "\u2029\u0085\v\f", d, d + d, d + "\n" + d, strings.Trim(d, "\n"), strings.TrimLeft(d, "\n"), strings.TrimRight(d, "\n"),
		"/*" + d + "*/", "const c = `" + d + "`", "  indented" + d + "  trailing  \n", "x" + d + "x", "// a" + d + "// b", "}\n}" + d + "}\n\n\n\n",
		all.String(), strings.Repeat(all.String(), 3), "package p\n" + strings.ReplaceAll(all.String(), "\n", "\n\nvar _ = 1\n\n"),
		"import \"fmt\"\nimport \"os\"\n" + d, "package p;var a=1;;" + d + "func  f( ){ }\nvar   b  =  2", "// Code generated; DO NOT EDIT.\n" + d,
		"//go:build ignore\n// +build ignore\n\npackage p\n" + d, "//go:generate x\n" + d, "//generator:simple Buffer Read U 16 LE\n", "//GENERATOR:COMPLEX Buffer Read U 16 LE\n", "//generator\n//generator:\n",
		"//generator:complex\n", "//generator:complex \n//generator:complex Buffer\n", "//generator:complex Buffer Read U 16 LE extra\n", "//generator:complex Buffer Read U 16 LE \n", "//generator:complex  Buffer Read U 16 LE\n", "//generator:complex Buffer Read U 16 LE\r\nx\r\n", "//generator:complexBuffer Read U 16 LE\n",
		"//generator:complex Buffer Read U 8 LE" + d + "//generator:complex Buffer Read F 16 LE" + d + "//generator:complex Other Read U 16 LE" + d + "//generator:complex Buffer Read X 16 LE" + d + "//generator:complex Buffer Read U 16 XE" + d,
	}
	for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20} {
		l = append(l, strings.Repeat("x", n), strings.Repeat("y", n)+d+strings.Repeat("z", n), strings.Repeat("line\n", n/5)+d[1:])
	}
	l = append(l, strings.Repeat("w\n", 40)+strings.Repeat(d, 200), strings.Repeat("\n", 5000)+d+strings.Repeat("\n", 5000))
	return l
}

func c18Units(tier string) []engine.Unit {
	var u []engine.Unit
	unit := func(name string, f func(e *c18Env)) {
		u = append(u, engine.Unit{Name: name, Run: func(c *Ctx) { f(c18New(c)) }})
	}
	lines, depth := 3, 4
	if tier == "thorough" {
		lines, depth = 4, 5
	}
	for i := range c18Lines {
		i := i
		unit(fmt.Sprintf("alone, from line kind %d", i), func(e *c18Env) { c18Alone(e, i) })
		unit(fmt.Sprintf("many at once, from line kind %d", i), func(e *c18Env) { c18Many(e, i, lines) })
	}
	for part := 0; part < 8; part++ {
		part := part
		unit(fmt.Sprintf("unusual contents %d", part), func(e *c18Env) { c18OddRun(e, part) })
		unit(fmt.Sprintf("prior outputs of template %d", part), func(e *c18Env) { c18Prior(e, part) })
	}
	unit("names", c18Names)
	unit("unusual contents together", c18OddTogether)
	for i := 0; i < c18Actions; i++ {
		for j := 0; j < c18Actions; j++ {
			i, j := i, j
			unit(fmt.Sprintf("histories from %d, %d", i, j), func(e *c18Env) { c18History(e, depth, i, j) })
		}
	}
	for i := 0; i < 5; i++ {
		i := i
		unit(fmt.Sprintf("sets from %d", i), func(e *c18Env) { c18Sets(e, i) })
	}
	for i := range c18Bystanders() {
		i := i
		unit(fmt.Sprintf("bystander %d", i), func(e *c18Env) { c18Bystander(e, i) })
	}
	for i := range c18Dirs {
		i := i
		unit(fmt.Sprintf("directory %q", c18Dirs[i]), func(e *c18Env) { c18Naming(e, c18Dirs[i]) })
	}
	unit("no directory", c18NoDirectory)
	unit("crowded directory", c18Crowd)
	unit("environments", c18Environments)
	for i := range c18OrderSets {
		i := i
		for variant := 0; variant < 3; variant++ {
			variant := variant
			unit(fmt.Sprintf("orders %d, contents %d", i, variant), func(e *c18Env) { c18Orders(e, i, variant, tier == "thorough") })
		}
	}
	return u
}

func c18Text(idx []int, final bool) string {
	var l []string
	for _, i := range idx {
		l = append(l, c18Lines[i])
	}
	s := strings.Join(l, "\n")
	if final {
		s += "\n"
	}
	return s
}

// c18Alone runs every template of up to two lines in a directory of its own.
func c18Alone(e *c18Env, first int) {
	for n := 1; n <= 2; n++ {
		sequences(len(c18Lines), n, []int{first}, func(idx []int) {
			for f := 0; f < 2; f++ {
				w := e.world("")
				w.put("_t.go", genrun.File(c18Text(idx, f == 1)))
				w.plain()
				w.state(1, int(engine.Hash(fmt.Sprint(idx))), f)
				w.trace()
				w.close()
			}
		})
	}
}

// c18Many runs every template of up to n lines, many in one directory, twice.
func c18Many(e *c18Env, first, n int) {
	w, held := e.world(""), 0
	flush := func() {
		if held > 0 {
			w.plain()
			w.plain()
			e.c.Traces += int64(held)
		}
		w.close()
		w, held = e.world(""), 0
	}
	for k := 1; k <= n; k++ {
		sequences(len(c18Lines), k, []int{first}, func(idx []int) {
			for f := 0; f < 2; f++ {
				w.put(fmt.Sprintf("_t%d.go", held), genrun.File(c18Text(idx, f == 1)))
				held++
				w.state(2, int(engine.Hash(fmt.Sprint(idx))), f)
				if held == 150 {
					flush()
				}
			}
		})
	}
	flush()
	w.close()
}

func c18OddRun(e *c18Env, part int) {
	for i, s := range c18Odd() {
		if i%8 != part {
			continue
		}
		w := e.world("")
		w.put("_odd.go", genrun.File(s))
		w.plain()
		w.plain()
		w.state(3, i, 0)
		w.trace()
		w.close()
	}
}

func c18OddTogether(e *c18Env) {
	w := e.world("")
	for i, s := range c18Odd() {
		w.put(fmt.Sprintf("_o%d.go", i), genrun.File(s))
	}
	w.plain()
	w.plain()
	w.trace()
	w.close()
}

func c18Names(e *c18Env) {
	names := []string{"_a.go", "_a.b.go", "_a_b.go", "_go.go", "_a_test.go", "_x.go.go", "_A.go", "_é.go", "_generated.go", "_a b.go", "_-.go", "_.a.go", "_x.generated.go", "_a_linux.go", "_" + strings.Repeat("n", 120) + ".go", "_1.go", "_go_.go", "_a_.go", "_main.go", "_x.tmpl.go", "_$a.go", "_%d.go", "_*.go", "_[a].go", "_\\.go"}
	for i, n := range names {
		for j, t := range c18Templates() {
			w := e.world("")
			w.put(n, genrun.File(t))
			w.plain()
			w.plain()
			w.state(4, i, j)
			w.trace()
			w.close()
		}
	}
	w := e.world("")
	for i, n := range names {
		w.put(n, genrun.File(c18Templates()[i%8]))
	}
	w.plain()
	w.plain()
	w.trace()
	w.close()
}

func c18Prior(e *c18Env, which int) {
	t := c18Templates()[which]
	out := e.expected(t)
	cut := func(n int) string { return out[:max(0, len(out)-n)] }
	prior := []string{"", "x", out, cut(1), out + "\n", out + out, out + strings.Repeat("// left over\n", 1000), cut(len(out) / 2), strings.Repeat("\x00", len(out)), strings.Repeat("g", len(out)+1), "package p\n\nfunc broken( {\n", t}
	for runs := 1; runs <= 3; runs++ {
		for i := -1; i < len(prior); i++ {
			for mode := 0; mode < 2; mode++ {
				w := e.world("")
				n := genrun.Node{Kind: 'f', Mode: []os.FileMode{0o644, 0o600}[mode]}
				if i >= 0 && mode == 0 {
					n.Content = prior[i]
					w.put("t.generated.go", n)
				}
				w.put("_t.go", genrun.File(t))
				if i >= 0 && mode == 1 {
					n.Content = prior[i]
					w.put("t.generated.go", n)
				}
				for r := 0; r < runs; r++ {
					if i >= 0 && r > 0 && mode == 1 {
						w.spoil("t.generated.go", prior[i])
					}
					w.plain()
				}
				w.state(5, i, runs*2+mode)
				w.trace()
				w.close()
			}
		}
	}
}

const c18Actions = 9

func c18History(e *c18Env, depth, i, j int) {
	ts := c18Templates()
	sequences(c18Actions, depth, []int{i, j}, func(idx []int) {
		// an action at the end that is followed by its own run is covered by the shorter history; runs are not repeated thrice
		w := e.world("")
		w.put("_one.go", genrun.File(ts[0]))
		w.plain()
		ok := true
		has := func(p string) bool { _, h := w.want[p]; return h }
		for _, a := range idx {
			switch a {
			case 0:
				w.plain()
			case 1:
				w.put("_one.go", genrun.File(ts[3]))
			case 2:
				w.put("_one.go", genrun.File(ts[1]))
			case 3:
				w.put("_one.go", genrun.File(ts[7]))
			case 4:
				if ok = has("_one.go"); ok {
					w.remove("_one.go")
				}
			case 5:
				if ok = !has("_two.go"); ok {
					w.put("_two.go", genrun.File(ts[6]))
				}
			case 6:
				if ok = has("one.generated.go"); ok {
					w.spoil("one.generated.go", w.want["one.generated.go"].Content+"// spoiled\n"+strings.Repeat("x", 50))
				}
			case 7:
				if ok = has("one.generated.go"); ok {
					w.remove("one.generated.go")
				}
			case 8:
				if ok = !has("one.go"); ok {
					w.put("one.go", genrun.File("package p\n\n"+c18Lines[2]+"\n"))
				}
			}
			if !ok {
				w.close()
				return
			}
		}
		w.plain()
		w.state(6, int(engine.Hash(fmt.Sprint(idx))), 0)
		w.trace()
		w.close()
	})
}

// c18Sets runs all sets of up to three templates in all orders of creation.
func c18Sets(e *c18Env, first int) {
	ts := c18Templates()
	names := []string{"_a.go", "_b.go", "_ab.go", "_a_b.go", "_b.a.go"}
	for n := 1; n <= 3; n++ {
		sequences(len(names), n, []int{first}, func(idx []int) {
			for i := range idx {
				for j := 0; j < i; j++ {
					if idx[i] == idx[j] {
						return
					}
				}
			}
			for same := 0; same < 3; same++ {
				w := e.world("")
				for k, i := range idx {
					t := ts[i+same]
					if same == 2 {
						t = ts[0]
					}
					if same == 1 && k > 0 { // an old output that another template's would fit in
						w.put(genrun.OutputName(names[i]), genrun.File(strings.Repeat("// old\n", 400*k)))
					}
					w.put(names[i], genrun.File(t))
				}
				w.plain()
				w.plain()
				w.state(7, int(engine.Hash(fmt.Sprint(idx))), same)
				w.trace()
				w.close()
			}
		})
	}
}

func c18Bystanders() []map[string]genrun.Node {
	d := "package p\n\n" + c18Lines[2] + "\n"
	f := genrun.File(d)
	dir := genrun.Node{Kind: 'd', Mode: 0o755}
	return []map[string]genrun.Node{
		{"a.go": f}, {"x.generated.go": f}, {"_dir.go": dir}, {"_dir.go": dir, "_dir.go/_in.go": f}, {"_notes.txt": f}, {"_t.go.bak": f},
		{"sub": dir, "sub/_t.go": f}, {"sub": dir, "sub/t.go": f, "sub/t.generated.go": f}, {".hidden.go": f}, {"._t.go": f}, {"t_.go": f}, {"t.go": f, "t_test.go": f}, {"_go": f}, {"_t": f, "_t.gox": f},
		{"t.generated.go.tmp": f, "t.generated": f, "generated.go": f}, {"a_b.go": f, "x_t.go": f}, {"ro.go": genrun.Node{Kind: 'f', Mode: 0o444, Content: d}, "exec.go": genrun.Node{Kind: 'f', Mode: 0o755, Content: d}}, {"_t.Go": f, "_T.GO": f, "_t.mod": f, "go.mod": genrun.File("module m\n"), "README.md": f},
		{"empty.go": genrun.File(""), "sub": dir, "sub/_deep": dir, "sub/_deep/_x.go": f},
		// templates that cannot be read, and outputs that cannot be written
		{"_l.go": {Kind: 'l', Content: "nowhere"}}, {"_u.go": {Kind: 'l', Content: "."}}, {"_0.go": {Kind: 'l', Content: "_0.go"}, "_zz.go": {Kind: 'l', Content: "/nonexistent/x"}}, {"_z.go": f, "z.generated.go": dir}, {"_a.go": f, "a.generated.go": dir}, {"_n.go": {Kind: 'f', Content: d}},
	}
}

// c18Complaints is the number of bystanders at the end of the list that the generator may complain about.
const c18Complaints = 6

func c18Bystander(e *c18Env, i int) {
	all := c18Bystanders()
	for j := range all {
		for order := 0; order < 3; order++ {
			if !genrun.Unprivileged() && (i == len(all)-1 || j == len(all)-1) {
				continue
			}
			for _, t := range []int{0, 7} {
				w := e.world("")
				w.lenient = i >= len(all)-c18Complaints || j >= len(all)-c18Complaints
				put := func(m map[string]genrun.Node) {
					for _, p := range genrun.Tree(m).Names() {
						if _, ok := w.want[p]; !ok {
							w.put(p, m[p])
						}
					}
				}
				if order < 2 {
					put(all[i])
				}
				if order > 0 {
					w.put("_t.go", genrun.File(c18Templates()[t]))
				}
				if i != j {
					put(all[j])
				}
				if order == 2 {
					put(all[i])
				}
				w.plain()
				w.plain()
				w.state(8, i*100+j, order*8+t)
				w.trace()
				w.close()
			}
		}
	}
}

var c18Dirs = []string{"w", "a b", "_d", "d.go", "_d.go", "é", "-d", "x/y/_z/w.go", "gen.generated.go", strings.Repeat("long/", 20) + "end"}

// c18Naming names one directory in every way.
func c18Naming(e *c18Env, dir string) {
	t := "package p\n\n" + c18Lines[2] + "\n"
	decoy := genrun.File("decoy\n" + c18Lines[3] + "\n")
	base, parent := filepath.Base(dir), filepath.Dir(dir)
	up := strings.Repeat("../", strings.Count(dir, "/"))
	type way struct {
		cwd  string
		args []string // %R is the root
	}
	ways := []way{{dir, nil}, {dir, []string{"."}}, {dir, []string{"./"}}, {dir, []string{"../" + base}}, {dir, []string{""}},
		{parent, []string{base}}, {parent, []string{"./" + base}}, {parent, []string{base + "/"}}, {parent, []string{base + "/."}}, {parent, []string{base + "//"}}, {parent, []string{base + "/../" + base}}, {parent, []string{"./" + base + "/./"}},
		{"other", []string{"../" + dir}}, {"other", []string{"../" + dir + "/"}}, {"other", []string{"%R/" + dir}}, {"other", []string{"%R/" + dir + "/"}}, {"other", []string{"%R//" + dir}}, {"other", []string{"%R/other/../" + dir}}, {"other", []string{"link"}}, {"other", []string{"link/"}}, {"other", []string{"%R/other/link"}}, {"other", []string{"./link/."}},
		{".", []string{dir}}, {".", []string{dir + "/"}}, {".", []string{"%R/" + dir}}, {"other/link", nil}, {"other/link", []string{"."}}}
	_ = up
	for i, y := range ways {
		for form := 0; form < 4; form++ {
			if len(y.args) == 0 && form > 0 {
				continue
			}
			for prior := 0; prior < 2; prior++ {
				w := e.world(dir)
				w.put("other", genrun.Node{Kind: 'd', Mode: 0o755})
				w.put("other/link", genrun.Node{Kind: 'l', Content: filepath.Join(w.root, dir)})
				for _, p := range []string{"other/_t.go", "other/_u.go", "_t.go", "_v.go"} {
					w.put(p, decoy)
				}
				if parent != "." {
					w.put(parent+"/_t.go", decoy)
				}
				w.put(w.in("_t.go"), genrun.File(t))
				if prior == 1 {
					w.put(w.in("t.generated.go"), genrun.File(strings.Repeat("// older and longer\n", 300)))
				}
				var args []string
				kind := [][]string{{"-generation", "complex"}, {"-generation=complex"}, {"--generation", "complex"}}[(form+i)%3]
				if len(y.args) > 0 {
					d := strings.ReplaceAll(y.args[0], "%R", w.root)
					if d == "" && form == 0 {
						d = "." // the empty name is only asked for with =
					}
					switch form {
					case 0:
						args = append([]string{"-directory", d}, kind...)
					case 1:
						args = append(kind, "-directory="+d)
					case 2:
						args = append([]string{"--directory=" + d}, kind...)
					case 3:
						args = append(kind, "--directory", d)
					}
					if d == "" {
						w.close()
						continue
					}
				} else {
					args = kind
				}
				cwd := filepath.Join(w.root, y.cwd)
				if strings.HasPrefix(y.cwd, "other/link") {
					cwd = w.root + "/" + y.cwd
				}
				w.run(e.gen, cwd, []string{"PWD=" + cwd}, args...)
				w.run(e.gen, cwd, nil, args...)
				w.state(9, int(engine.Hash(dir)), i*8+form*2+prior)
				w.trace()
				w.close()
			}
		}
	}
}

// c18NoDirectory names what is not a directory: nothing may be written anywhere.
func c18NoDirectory(e *c18Env) {
	for i, d := range []string{"missing", "./missing", "missing/x", "_t.go", "file", "../missing", "t.generated.go", "_t.go/x", "%R/missing", "%R/d/_t.go"} {
		w := e.world("")
		w.put("d", genrun.Node{Kind: 'd', Mode: 0o755})
		for _, p := range []string{"d/_t.go", "d/file", "_t.go"} {
			w.put(p, genrun.File(c18Templates()[0]))
		}
		cwd := filepath.Join(w.root, "d")
		e.c.Trans++
		args := []string{"-directory", strings.ReplaceAll(d, "%R", w.root), "-generation", "complex"}
		w.log = append(w.log, fmt.Sprintf("run the generator in %q with %q", cwd, args))
		genrun.Run(e.gen, cwd, nil, args...)
		w.compare()
		w.state(14, i, 0)
		w.trace()
		w.close()
	}
}

// c18Crowd puts a few templates among many other files.
func c18Crowd(e *c18Env) {
	for _, n := range []int{10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1025} {
		w := e.world("")
		ts := c18Templates()
		for i := 0; i < n; i++ {
			if i%97 == 3 {
				w.put(fmt.Sprintf("_t%d.go", i), genrun.File(ts[i%8]))
			}
			w.put(fmt.Sprintf("f%d.go", i), genrun.File(ts[3]))
		}
		w.put("_z.go", genrun.File(ts[0]))
		w.plain()
		w.state(10, n, 0)
		w.trace()
		w.close()
	}
	for _, n := range []int{2, 9, 17, 40, 128, 300} {
		w := e.world("")
		ts := c18Templates()
		for i := 0; i < n; i++ {
			w.put(fmt.Sprintf("_t%d.go", i), genrun.File(fmt.Sprintf("// %d\n", i)+ts[i%8]))
		}
		w.plain()
		w.plain()
		w.state(11, n, 0)
		w.trace()
		w.close()
	}
}

func c18Environments(e *c18Env) {
	envs := [][]string{nil, {"GOFILE=_t.go", "GOPACKAGE=crunch", "GOLINE=3"}, {"LANG=de_DE.UTF-8", "LC_ALL=C"}, {"GOPATH=/nonexistent", "GOROOT=/nonexistent"}, {"TZ=Asia/Tokyo"}, {"GOMAXPROCS=1"}, {"GOMAXPROCS=7", "GOGC=1"}, {"GODEBUG=randautoseed=0"}, {"USER=someone", "HOME=/"}, {"PWD=/"}}
	for i, env := range envs {
		for j, t := range c18Templates() {
			w := e.world("d")
			w.put("d/_t.go", genrun.File(t))
			w.put("d/_u.go", genrun.File(c18Templates()[(j+3)%8]))
			d := filepath.Join(w.root, "d")
			w.run(e.gen, d, env, "-generation", "complex")
			w.run(e.gen, w.root, env, "-directory", d, "-generation", "complex")
			w.state(12, i, j)
			w.trace()
			w.close()
		}
	}
}

var c18OrderSets = [][]string{{"_a.go", "_b.go"}, {"_a.go", "_b.go", "x.go"}, {"_a.go", "_b.go", "_c.go"}, {"_a.go", "_a_b.go", "a.generated.go", "a.go"}, {"_a.go", "_b.go", "_c.go", "c.generated.go"}, {"_a.go", "_b.go", "_c.go", "_d.go"}}

var c18Asked = regexp.MustCompile(`verif-order (\d+)`)

// c18Orders searches all orders of listing and iteration, depth first.
func c18Orders(e *c18Env, set, variant int, thorough bool) {
	if set == len(c18OrderSets)-1 && !thorough {
		return
	}
	gen := filepath.Join(os.Getenv("MC_TMP"), "generation-ordered")
	if _, err := os.Stat(gen); err != nil {
		e.c.Notes = append(e.c.Notes, "the generator could not be built with chosen orders")
		return
	}
	d, m := c18Lines[2], c18Lines[3]
	{
		contents := [][]string{
			{"package a\n\n" + d + "\n", "package b\n\n" + m + "\n// more\n\n" + d + "\n", "package c\n", d + "\n" + d},
			{"package a\n\n" + d + "\n", "package a\n\n" + d + "\n", "package a\n\n" + d + "\n", "package a\n\n" + d + "\n"},
			{"", "package b\n" + strings.Repeat("// long\n", 700) + m, c18Lines[4] + "\nx", "package d\n"},
		}[variant]
		var prefix []int
		for n := 0; ; n++ {
			w := e.world("")
			t := 0
			for _, f := range c18OrderSets[set] {
				if isTemplate(f) {
					w.put(f, genrun.File(contents[t]))
					t++
				} else {
					w.put(f, genrun.File("other\n\n"+d+"\n"))
				}
			}
			var l []string
			for _, p := range prefix {
				l = append(l, strconv.Itoa(p))
			}
			r := w.run(gen, w.root, []string{"VERIF_ORDER=" + strings.Join(l, ",")}, "-generation", "complex")
			e.c.Schedules++
			w.state(13, set*10+variant, n)
			w.trace()
			w.close()
			var asked []int
			for _, q := range c18Asked.FindAllStringSubmatch(r.Output, -1) {
				k, _ := strconv.Atoi(q[1])
				asked = append(asked, k)
			}
			for len(prefix) < len(asked) {
				prefix = append(prefix, 0)
			}
			i := len(prefix) - 1
			for ; i >= 0; i-- {
				if prefix[i]+1 < asked[i] {
					prefix[i]++
					prefix = prefix[:i+1]
					break
				}
			}
			if i < 0 {
				break
			}
			if n&63 == 0 {
				e.c.CheckDeadline()
			}
		}
	}
}
