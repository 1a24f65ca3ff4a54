package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C17",
		Bounds: "every acceptable directive (2 kinds of buffer, 2 directions, 8 number types, 2 byte orders) alone, at the end of a file, in one template with all others in both orders, in every ordered pair and beside unacceptable ones; every combination of 8 receivers, 6 directions, 8 kinds, 9 widths and 6 byte orders that is not acceptable (20672), together, next to acceptable ones and, for a single wrong argument, alone and in ordered pairs; v3 regenerated from its templates and compiled; every generated method (of the regenerated package, and of any other context that gave different code) run on the positions, counts, sizes and values of C01 and on all ranges from -3 to 3 past the end and 64-bit extremes on capacities 0 to 9 and 17 against the model; the regenerated package in lockstep with the committed one: every access at every position and count on those capacities, refusals included, counts around powers of two, all histories of depth 3 over every operation",
		Assume: []string{"code emitted in different contexts that is the same but for comments and spacing behaves the same", "the generated code is compiled with the installed Go toolchain"},
		Units:  c17Units})
}

type c17Report struct {
	Failures []struct {
		What  string   `json:"what"`
		Steps []string `json:"steps"`
	} `json:"failures"`
	Runs       int64    `json:"runs"`
	Directives int64    `json:"directives"`
	Invalid    int64    `json:"invalid_directives"`
	Contexts   int64    `json:"contexts"`
	Variants   []string `json:"variants"`
}

func c17Units(tier string) []engine.Unit {
	u := []engine.Unit{{Name: "generation and compilation", Run: func(c *Ctx) {
		b, err := os.ReadFile(filepath.Join(os.Getenv("MC_TMP"), "gen", "report.json"))
		if err != nil {
			panic(err)
		}
		var r c17Report
		if err := json.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		c.States += r.Directives + r.Invalid
		c.Trans += r.Runs
		c.Traces += r.Contexts
		for _, v := range r.Variants {
			c.Notes = append(c.Notes, "package: "+v)
		}
		if len(r.Failures) > 0 {
			c.Fail(r.Failures[0].What, r.Failures[0].Steps...)
		}
		if impl.Alts() == 0 {
			panic("harness: there is no regenerated package and no failure")
		}
	}}}
	caps := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17}
	for k := 1; k <= impl.Alts(); k++ {
		for _, mini := range []bool{false, true} {
			d := impl.Desc{Ver: 3, Mini: mini, Alt: k}
			for _, n := range d.Nums() {
				n := n
				name := fmt.Sprintf("%s %s", d, n)
				rd, wr := Op{K: impl.KReadNum, Num: n}, Op{K: impl.KWriteNum, Num: n}
				u = append(u,
					engine.Unit{Name: name + " counts", Run: func(c *Ctx) { c01Counts(c, d, rd, wr, n.W) }},
					engine.Unit{Name: name + " geometry", Run: func(c *Ctx) { c01Geometry(c, d, rd, wr, n.W) }},
					engine.Unit{Name: name + " values", Run: func(c *Ctx) { c01Values(c, d, n) }},
					engine.Unit{Name: name + " ranges", Run: func(c *Ctx) { c17Ranges(c, d, rd, wr, n.W, caps) }})
			}
			if k > 1 {
				continue
			}
			old := impl.Desc{Ver: 3, Mini: mini}
			for _, cap := range caps {
				cap := cap
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s and committed, capacity %d", d, cap), Run: func(c *Ctx) { c17Single(c, old, d, cap) }})
			}
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s and committed, counts", d), Run: func(c *Ctx) { c10Counts(c, old, d) }},
				engine.Unit{Name: fmt.Sprintf("%s and committed, construction", d), Run: func(c *Ctx) { c10New(c, old, d) }})
			alpha := everyOp(d, 3)
			depth := 3
			if tier != "thorough" {
				alpha = c17Mix(d)
			}
			for i := range alpha {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s and committed, histories from #%d", d, i), Run: func(c *Ctx) { c17Hist(c, old, d, alpha, depth, i) }})
			}
		}
	}
	return u
}

// c17Mix lists everyOp without what differs only in number type between reads (the others stay).
func c17Mix(d impl.Desc) []Op {
	var out []Op
	for _, o := range everyOp(d, 3) {
		if o.K == impl.KReadNum && !o.Next || o.K == impl.KWriteNum && o.Num.K == 'I' && o.Num.BE {
			continue
		}
		out = append(out, o)
	}
	if !d.Mini {
		out = append(out, filter(d, Op{K: impl.KGrow, N: -1}, Op{K: impl.KTruncL, N: 99}, Op{K: impl.KReadBits, N: -1}, Op{K: impl.KSetBits, Off: 1, N: 900}, Op{K: impl.KWriteByte, Off: -1})...)
	}
	return out
}

// c17Ranges runs one number type on all ranges around the capacity.
func c17Ranges(c *Ctx, d impl.Desc, rd, wr Op, w int, caps []int) {
	for _, cap := range caps {
		b := fill(cap, 3)
		offs := []int64{minI, minI + 1, maxI, maxI - 1, maxI - 7, 1 << 32, -(1 << 32), maxI / 8, minI / 8}
		for p := int64(-3); p <= int64(cap)+3; p++ {
			offs = append(offs, p)
		}
		for _, off := range offs {
			ns := []int64{-2, -1, minI, maxI, maxI / int64(w), maxI/int64(w) + 1, 1 << 61, 1 << 62, minI + 1, 1 << 62 / int64(w)}
			for n := int64(0); n <= int64(cap/w)+3; n++ {
				ns = append(ns, n)
			}
			for _, n := range ns {
				r := sized(rd, n, 0)
				r.Off = off
				ops := []Op{r}
				if n >= 0 && n < 100 {
					wo := sized(wr, n, 5)
					wo.Off = off
					ops = append(ops, wo)
				}
				for _, o := range ops {
					single(c, d, b, 1, 3, &o, pAll)
					o.Next = true
					o.Off = 0
					single(c, d, b, off, 3, &o, pAll)
				}
			}
		}
	}
}

// lock runs o on both buffers and compares everything, refusals included; it is false if nothing is specified about it.
func (p *pairRun) lock(o *Op) bool {
	c := p.c
	st := c.Obs(p.x)
	m := model.S{B: clone(st.B), Off: st.Off, Boff: st.Boff}
	if out := model.Apply(p.x.Desc(), &m, o); out.V == model.Unspec || out.Loose {
		return false
	}
	p.h.ops = append(p.h.ops, *o)
	var r, s impl.Ret
	c.DoR(p.x, o, &r)
	r.B = clone(r.B)
	c.DoR(p.y, o, &s)
	if d := impl.RetDiff(&r, &s); d != "" {
		c.Fail(fmt.Sprintf("%s: %s (%s vs %s)", o, d, p.x.Desc(), p.y.Desc()), p.h.steps()...)
	}
	if d := same2(c, p.x, p.y, o); d != "" {
		c.Fail(fmt.Sprintf("%s (%s vs %s)", d, p.x.Desc(), p.y.Desc()), p.h.steps()...)
	}
	return true
}

func c17Single(c *Ctx, a, b impl.Desc, cap int) {
	run := func(o Op, off, boff int64) {
		p := newPair(c, a, b, cap, cap%3)
		place(p.x, off, boff)
		place(p.y, off, boff)
		c.StateOf(cap, nil, off, boff)
		p.h.start += fmt.Sprintf(", byte cursor %d, bit cursor %d", off, boff)
		if p.lock(&o) {
			c.Trace(p.h.String)
		}
	}
	for _, t := range accessKinds(a) {
		end, w := int64(cap), int64(1)
		rg := model.Range(&t)
		if rg.Bits {
			end *= 8
		} else if t.Num.W > 0 {
			w = int64(t.Num.W)
		}
		pos := []int64{minI, maxI, maxI - 7, 1 << 40}
		for k := int64(-3); k <= end+3; k++ {
			pos = append(pos, k)
		}
		for _, k := range pos {
			ns := []int64{1}
			if counted(t.K) {
				ns = nil
				for n := int64(0); n*w <= end-max(k, 0)+3*w && n < 70; n++ {
					ns = append(ns, n)
				}
				if !bySlice(t.K) {
					ns = append(ns, -1, minI, maxI, maxI/w+1)
				}
			}
			for _, n := range ns {
				o := t
				if counted(t.K) {
					o = sized(t, n, 3)
				}
				o.Off = k
				run(o, 1, 2)
				o.Next, o.Off = true, 0
				if rg.Bits {
					run(o, 1, k)
				} else {
					run(o, k, 2)
				}
			}
		}
	}
	for _, o := range append(everyOp(a, 3), c17Mix(a)...) {
		if model.Range(&o).Is {
			continue
		}
		for off := int64(-2); off <= int64(cap)+2; off++ {
			for boff := int64(0); boff <= int64(cap)*8+2; boff += 3 {
				run(o, off, boff)
			}
		}
	}
}

func c17Hist(c *Ctx, a, b impl.Desc, alpha []Op, depth, first int) {
	for _, n := range []int{3, 8} {
		sequences(len(alpha), depth, []int{first}, func(idx []int) {
			p := newPair(c, a, b, n, n%2*5)
			for _, i := range idx {
				if !p.lock(&alpha[i]) {
					return
				}
			}
			c.Trace(p.h.String)
		})
	}
}
