package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C11",
		Bounds: "every pair of versions, for the checked and for the mini buffers, over their common operations (under any name): every access kind and number type in both forms at every position from -3 to 3 past the end and at 64-bit extremes with all counts around the fitting ones, on capacities 0 to 9 and 17, error texts included; counts 31 to 300 and around powers of two and ten to 2^16; every growth and cursor move on those capacities; all special values (as in C01) of every common number type, byte values, bits that differ in one from zeros or ones; positions around powers of two up to 2^32; pairs of 100 byte and 100 bit cursors, 64-bit extremes included, before operations on cursors and size; all histories of depth 3 over every common operation, refused ones included, and of depth 4 (thorough 5) over a mix of accesses, cursor moves and growth",
		Assume: []string{"error texts are compared when exactly one condition is violated, as stated"},
		Units:  c11Units})
}

// crossRun runs the same history on two versions.
type crossRun struct {
	pairRun
	a, b impl.Desc
}

func newCross(c *Ctx, a, b impl.Desc, n, room int) *crossRun {
	return &crossRun{*newPair(c, a, b, n, room), a, b}
}

// shared lists the operations of a's form that b offers too.
func shared(a, b impl.Desc, ops []Op) []Op {
	var out []Op
	for _, o := range ops {
		if a.Has(&o) {
			if _, ok := b.Translate(o); ok {
				out = append(out, o)
			}
		}
	}
	return out
}

// do runs o on both; it is false if nothing is specified about o.
func (p *crossRun) do(o *Op) bool {
	c := p.c
	q, ok := p.b.Translate(*o)
	if !ok {
		return false
	}
	st := c.Obs(p.x)
	m := model.S{B: st.B, Off: st.Off, Boff: st.Boff}
	single := false
	a := model.Range(o)
	if a.Is {
		pos := o.Off
		if o.Next {
			pos = m.Off
			if a.Bits {
				pos = m.Boff
			}
		}
		v := model.Violated(a, pos, int64(len(m.B)))
		if o.K == impl.KPutBit && o.Data > 1 {
			v = append(v, "InvalidBit")
		}
		if v != nil && p.a.Mini {
			return false
		}
		single = len(v) == 1
	} else {
		switch o.K {
		case impl.KGrow, impl.KTruncL, impl.KTruncR:
			if o.N < 0 || o.K != impl.KGrow && o.N > int64(len(m.B)) {
				if p.a.Mini {
					return false
				}
				single = true
			}
		}
	}
	p.h.ops = append(p.h.ops, *o)
	var r, s impl.Ret
	c.DoR(p.x, o, &r)
	r.B = clone(r.B)
	c.DoR(p.y, &q, &s)
	what := ""
	switch {
	case r.Panicked != s.Panicked:
		what = fmt.Sprintf("panic %s vs %s", impl.PanicText(&r), impl.PanicText(&s))
	case r.Panicked:
		if x, y := impl.ErrText(r.Panic), impl.ErrText(s.Panic); single && x != y {
			what = fmt.Sprintf("error text %q (%s) vs %q (%s)", x, impl.PanicText(&r), y, impl.PanicText(&s))
		}
	default:
		what = impl.RetDiff(&r, &s)
	}
	if what != "" {
		c.Fail(fmt.Sprintf("%s: %s (%s vs %s)", o, what, p.a, p.b), p.h.steps()...)
	}
	if d := same2(c, p.x, p.y, o); d != "" {
		c.Fail(fmt.Sprintf("%s (%s vs %s)", d, p.a, p.b), p.h.steps()...)
	}
	return true
}

func c11Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth, caps := 4, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17}
	if tier == "thorough" {
		depth = 5
		caps = append(caps, 10, 11, 12, 13, 14, 15, 16, 18, 19, 20, 31, 32, 33)
	}
	for _, mini := range []bool{false, true} {
		for _, vv := range [][2]int{{1, 2}, {1, 3}, {2, 3}} {
			a, b := impl.Desc{Ver: vv[0], Mini: mini}, impl.Desc{Ver: vv[1], Mini: mini}
			name := fmt.Sprintf("%s/%s ", a, b)
			for _, cap := range caps {
				cap := cap
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s capacity %d", name, cap), Run: func(c *Ctx) { c11Single(c, a, b, cap) }})
			}
			u = append(u, valueUnits(a, name, func(c *Ctx, mem []byte, o *Op) {
				if _, ok := b.Translate(*o); !ok {
					return
				}
				n, off, boff := cursorOf(o)
				for _, q := range []*Op{o, &n} {
					if q == &n && !model.Range(o).Is {
						break
					}
					p := &crossRun{*newPairOver(c, a, b, clone(mem)), a, b}
					p.cursors(off, boff)
					c.StateOf(1, mem, off, boff)
					if p.do(q) {
						c.Trace(p.h.String)
					}
				}
			})...)
			u = append(u, engine.Unit{Name: name + "cursors", Run: func(c *Ctx) {
				gridPairs(shared(a, b, cursorOps), func(n int, off, boff int64, o *Op) {
					p := newCross(c, a, b, n, 0)
					p.cursors(off, boff)
					c.StateOf(n, nil, off, boff)
					if p.do(o) {
						c.Trace(p.h.String)
					}
				})
			}})
			u = append(u, engine.Unit{Name: name + "large positions", Run: func(c *Ctx) { largeTwins(c, a, b, b.Translate) }}, engine.Unit{Name: name + "counts", Run: func(c *Ctx) { c11Counts(c, a, b) }})
			mix, every := c11Mix(a, b), c11Every(a, b)
			for i := range mix {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%smixed histories of depth %d from #%d", name, depth, i), Run: func(c *Ctx) { c11Hist(c, a, b, mix, depth, i) }})
			}
			for i := range every {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%shistories of depth 3 from #%d", name, i), Run: func(c *Ctx) { c11Hist(c, a, b, every, 3, i) }})
			}
		}
	}
	return u
}

func c11Every(a, b impl.Desc) []Op {
	var out []Op
	for _, o := range everyOp(a, 3) {
		switch o.K {
		case impl.KBytes, impl.KByteCap, impl.KBitCap, impl.KByteOff, impl.KBitOff:
			continue
		}
		out = append(out, o)
	}
	if !a.Mini { // some that are refused
		out = append(out, Op{K: impl.KReadByte, Off: 99}, Op{K: impl.KWriteByte, Off: -1}, Op{K: impl.KReadBits, Off: 1, N: -1}, Op{K: impl.KGrow, N: -1}, Op{K: impl.KTruncL, N: 99}, Op{K: impl.KPutBit, Data: 2, Off: 1},
			sized(Op{K: impl.KReadNum, Num: num(a, 8, false), Off: 2}, 1, 0), Op{K: impl.KSeekByte, Off: -1}, Op{K: impl.KSeekBit, Off: 70})
	}
	return shared(a, b, out)
}

func c11Mix(a, b impl.Desc) []Op {
	out := []Op{
		{K: impl.KSeekByte, Off: 3}, {K: impl.KSeekByte, Off: -2, Rel: true}, {K: impl.KSeekBit, Off: 11}, {K: impl.KSeekBit, Off: -5, Rel: true}, {K: impl.KAlignBit}, {K: impl.KAlignByte},
		{K: impl.KGrow}, {K: impl.KGrow, N: 2}, {K: impl.KGrow, N: 9}, {K: impl.KReset}, {K: impl.KRefresh},
		{K: impl.KSetAll}, {K: impl.KFlipAll},
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 9), sized(Op{K: impl.KWriteBytes, Off: 1}, 3, 8), sized(Op{K: impl.KReadBytes, Next: true}, 3, 0), sized(Op{K: impl.KReadBytes, Next: true}, 0, 0),
		sized(Op{K: impl.KWriteNum, Num: num(a, 2, true), Next: true}, 2, 4), sized(Op{K: impl.KReadNum, Num: num(a, 4, false), Next: true}, 1, 0),
		sized(Op{K: impl.KReadNum, Num: num(a, 2, false), Off: 1}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(a, 8, true)}, 1, 4),
		{K: impl.KSetBits, Data: 0x2C5, N: 11, Next: true}, {K: impl.KReadBits, N: 13, Next: true}, {K: impl.KReadBits, N: 24}, {K: impl.KReadBits, N: 67, Off: 1}, {K: impl.KSetBits, N: 66, Data: 5, Next: true}, {K: impl.KFlipBit, Next: true}, {K: impl.KClearBit, Off: 9}, {K: impl.KSetBits, Data: 5, N: 3, Off: 22},
		{K: impl.KPutBit, Data: 1, Next: true}, {K: impl.KReadByte, Next: true}, {K: impl.KWriteByte, Data: 0x81, Off: 4}}
	if !a.Mini {
		out = append(out, Op{K: impl.KReadBits, N: 5, Off: 70}, Op{K: impl.KGrow, N: -3}, sized(Op{K: impl.KWriteNum, Num: num(a, 8, true), Off: 1}, 2, 4))
	}
	return shared(a, b, out)
}

func c11Hist(c *Ctx, a, b impl.Desc, alpha []Op, depth, first int) {
	for _, n := range []int{5, 9} {
		if depth > 4 && n == 9 {
			continue
		}
		sequences(len(alpha), depth, []int{first}, func(idx []int) {
			p := newCross(c, a, b, n, 3*(idx[0]&1))
			for _, i := range idx {
				if !p.do(&alpha[i]) {
					return
				}
			}
			st := c.Obs(p.x)
			c.StateOf(n, st.B, st.Off, st.Boff)
			c.Trace(p.h.String)
		})
	}
}

func c11Single(c *Ctx, a, b impl.Desc, cap int) {
	run := func(off, boff int64, o *Op) {
		p := newCross(c, a, b, cap, cap&3)
		p.cursors(off, boff)
		c.StateOf(cap, nil, off, boff)
		if p.do(o) {
			c.Trace(p.h.String)
		}
	}
	ext := []int64{minI, minI + 1, -1 << 62, -1 << 32, 1 << 31, 1 << 32, 1 << 60, 1 << 61, 1<<61 + 1, 1 << 62, maxI - 8, maxI - 1, maxI}
	for _, t := range shared(a, b, accessKinds(a)) {
		r := model.Range(&t)
		limit := int64(cap)
		if r.Bits {
			limit *= 8
		}
		w := r.W
		if w < 1 {
			w = 1
		}
		var poss []int64
		for p := int64(-3); p <= limit+3; p++ {
			poss = append(poss, p)
		}
		for _, pos := range append(poss, ext...) {
			ns := []int64{1}
			if counted(t.K) {
				ns = nil
				fit := (limit - pos) / w
				if pos < 0 || pos > limit {
					fit = 2
				}
				for n := int64(-1); n <= fit+2 && n <= 80; n++ {
					if n >= 0 || !bySlice(t.K) {
						ns = append(ns, n)
					}
				}
				if !bySlice(t.K) {
					for _, e := range ext {
						if e < 0 || e >= 1<<60 {
							ns = append(ns, e)
						}
					}
				}
			}
			for _, n := range ns {
				o := t
				if counted(t.K) {
					o = sized(t, n, uint64(n)+3)
				}
				o.Off = pos
				run(1, 3, &o)
				o.Off, o.Next = 0, true
				if r.Bits {
					run(-4, pos, &o)
				} else {
					run(pos, -4, &o)
				}
			}
		}
	}
	if !a.Mini {
		for _, v := range []uint64{2, 7, 255} {
			for p := int64(-1); p <= int64(cap)*8; p++ {
				for _, o := range shared(a, b, []Op{{K: impl.KPutBit, Data: v, Off: p}, {K: impl.KPutBit, Data: v, Next: true}}) {
					run(0, p, &o)
				}
			}
		}
	}
	curs := []int64{-100, -9, -8, -1, 0, 1, 2, 7, 8, 9, int64(cap) - 1, int64(cap), int64(cap) + 1, int64(cap)*8 - 1, int64(cap) * 8, 1 << 31, 1 << 32, 1 << 40}
	var ops []Op
	for _, p := range curs {
		ops = append(ops, Op{K: impl.KSeekByte, Off: p}, Op{K: impl.KSeekByte, Off: p, Rel: true}, Op{K: impl.KSeekBit, Off: p}, Op{K: impl.KSeekBit, Off: p, Rel: true}, Op{K: impl.KAfterByte, Off: p}, Op{K: impl.KAfterBit, Off: p})
	}
	for n := int64(0); n <= int64(cap)+3; n++ {
		ops = append(ops, Op{K: impl.KGrow, N: n})
	}
	for _, n := range []int64{-1, -2, -int64(cap), -int64(cap) - 1, minI, minI + 1, -1 << 40} {
		ops = append(ops, Op{K: impl.KGrow, N: n})
	}
	for _, k := range []impl.Kind{impl.KAlignBit, impl.KAlignByte, impl.KAfterByte, impl.KAfterBit, impl.KByteOff, impl.KBitOff, impl.KByteCap, impl.KBitCap, impl.KBytes, impl.KRefresh, impl.KReset, impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
		ops = append(ops, Op{K: k, Rel: true})
	}
	ops = shared(a, b, ops)
	for _, off := range curs {
		for _, boff := range curs {
			for i := range ops {
				run(off, boff, &ops[i])
			}
		}
	}
}

func c11Counts(c *Ctx, a, b impl.Desc) {
	for _, n := range thresholds {
		for _, t := range shared(a, b, accessKinds(a)) {
			r := model.Range(&t)
			if !counted(t.K) || r.Bits {
				continue
			}
			w := int(r.W)
			for _, next := range []bool{false, true} {
				p := newCross(c, a, b, n*w+3, 0)
				o := sized(t, int64(n), 7)
				o.Off, o.Next = 2, next
				if next {
					o.Off = 0
				}
				p.do(&o)
				c.Trace(func() string { return p.h.start + ": " + o.String()[:20] })
			}
		}
		for _, m := range []int{0, 1, 9, n} {
			for _, k := range []impl.Kind{impl.KGrow, impl.KFlipAll, impl.KSetAll, impl.KClearAll, impl.KReset} {
				ops := shared(a, b, []Op{{K: k, N: int64(m)}})
				if len(ops) == 0 {
					continue
				}
				p := newCross(c, a, b, n, n/2)
				o := ops[0]
				if p.do(&o) && p.do(&Op{K: impl.KGrow, N: int64(n)}) {
					p.do(&Op{K: impl.KFlipAll})
					p.do(&o)
				}
				c.StateOf(m, nil, int64(n), int64(k))
				c.Trace(p.h.String)
			}
		}
	}
}
