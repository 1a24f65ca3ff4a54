package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C05",
		Bounds: "every implementation, access kind and number type: all byte and bit cursors from -2 to capacity+2 (and 64-bit extremes) on capacities 0 to 9 and 17, all counts around the fitting ones; counts 31 to 300 and around powers of two and ten up to 2^16; cursors around powers of two up to 2^32 bytes; all special values (as in C01) of every number type, byte values, bits that differ in one from zeros or ones; every sequence of 4 (thorough 5) cursor-relative calls, seeks and other operations; every other operation from a grid of cursors",
		Units:  c05Units})
}

func c05Units(tier string) []engine.Unit {
	var u []engine.Unit
	caps := []int64{0, 1, 2, 3, 5, 8, 9, 17}
	depth := 4
	if tier == "thorough" {
		caps = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 23, 24, 25, 31, 33}
		depth = 5
	}
	for _, d := range impl.All {
		d := d
		for _, cap := range caps {
			cap := cap
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s capacity %d", d, cap), Run: func(c *Ctx) { c05Each(c, d, cap); c05Others(c, d, cap) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " counts", Run: func(c *Ctx) { c05Counts(c, d) }},
			engine.Unit{Name: d.String() + " large cursors", Run: func(c *Ctx) { c05Large(c, d) }})
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			if !model.Range(o).Is {
				return
			}
			_, off, boff := cursorOf(o)
			c.StateOf(1, b, off, boff)
			nextTwin(c, mk(d, b, off, boff), mk(d, b, off, boff), *o, func() []string { return []string{desc(d, b, off, boff)} })
		})...)
		for i := range c05Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s sequences of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c05Seq(c, d, depth, i) }})
		}
	}
	return u
}

// nextTwin compares a cursor-relative operation on x with its positioned counterpart on y (same contents and
// cursors). t is the operation with its count; it must be in range if d is a mini buffer.
func nextTwin(c *Ctx, x, y impl.Inst, t Op, ctx func() []string) {
	a := model.Range(&t)
	pre := c.Obs(x).Copy()
	n, p := t, t
	n.Next, n.Off = true, 0
	p.Next, p.Off = false, pre.Off
	if a.Bits {
		p.Off = pre.Boff
	}
	var r, s impl.Ret
	c.DoR(x, &n, &r)
	r.B = clone(r.B)
	c.DoR(y, &p, &s)
	fail := func(what string) {
		c.Fail(what, append(ctx(), fmt.Sprintf("byte cursor %d, bit cursor %d: %s; counterpart %s", pre.Off, pre.Boff, &n, &p))...)
	}
	if e := impl.RetDiff(&r, &s); e != "" {
		fail(fmt.Sprintf("%s with byte cursor %d and bit cursor %d vs %s: %s", &n, pre.Off, pre.Boff, &p, e))
	}
	px, py := c.Obs(x), c.Obs(y)
	if string(px.B) != string(py.B) || px.Cap != py.Cap || px.BCap != py.BCap {
		fail(fmt.Sprintf("%s vs %s: %s", &n, &p, stateDiff(&px, &py, pBytes|pCaps)))
	}
	wo, wb := pre.Off, pre.Boff
	if py.Off != wo || py.Boff != wb {
		fail(fmt.Sprintf("the positioned %s moved a cursor: byte cursor %d to %d, bit cursor %d to %d", &p, wo, py.Off, wb, py.Boff))
	}
	if !r.Panicked {
		if a.Bits {
			wb += a.N
		} else {
			wo += a.N * a.W
		}
	}
	if px.Off != wo || px.Boff != wb {
		w := "succeeded"
		if r.Panicked {
			w = "was refused"
		}
		fail(fmt.Sprintf("%s %s and left byte cursor %d, bit cursor %d; specified %d and %d", &n, w, px.Off, px.Boff, wo, wb))
	}
	c.Trace(func() string { return fmt.Sprint(ctx(), ": ", &n) })
}

func c05Each(c *Ctx, d impl.Desc, cap int64) {
	mem := fill(int(cap), 3)
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		limit := cap
		if a.Bits {
			limit *= 8
		}
		if a.W < 1 {
			a.W = 1
		}
		var curs []int64
		for p := int64(-2); p <= limit+2; p++ {
			curs = append(curs, p)
		}
		curs = append(curs, minI, minI+1, maxI, maxI-1, maxI-8, 1<<31, 1<<32, 1<<32+1, 1<<35, -1<<31, -1<<32)
		for _, p := range curs {
			for _, other := range []int64{0, 5, -3} {
				off, boff := p, other
				if a.Bits {
					off, boff = other, p
				}
				var ns []int64
				if counted(t.K) {
					fit := limit - p
					if p < 0 || p > limit {
						fit = 2 * a.W
					}
					fit /= a.W
					if a.Bits && fit > 66 {
						fit = 66
					}
					for n := int64(-1); n <= fit+2; n++ {
						if n >= 0 || !bySlice(t.K) {
							ns = append(ns, n)
						}
					}
				} else {
					ns = []int64{1}
				}
				for _, n := range ns {
					o := t
					if counted(t.K) {
						o = sized(t, n, 2)
					}
					aa := model.Range(&o)
					if d.Mini && model.Violated(aa, p, cap) != nil {
						continue
					}
					c.StateOf(0, mem, off, boff)
					x, y := mk(d, mem, off, boff), mk(d, mem, off, boff)
					nextTwin(c, x, y, o, func() []string { return []string{desc(d, mem, off, boff)} })
				}
			}
		}
	}
	// an invalid bit value must not advance the cursor
	for _, v := range []uint64{2, 3, 255} {
		o := Op{K: impl.KPutBit, Data: v}
		if d.Mini || !d.Has(&o) {
			continue
		}
		for p := int64(-1); p <= cap*8; p++ {
			x, y := mk(d, mem, 2, p), mk(d, mem, 2, p)
			nextTwin(c, x, y, o, func() []string { return []string{desc(d, mem, 2, p)} })
		}
	}
	if d.Ver == 1 && !d.Mini {
		for _, w := range []int{0, 3, 5, 16, -1} {
			for p := int64(-1); p <= cap+1; p++ {
				for n := int64(0); n < 3; n++ {
					for _, k := range []impl.Kind{impl.KReadNum, impl.KWriteNum} {
						x, y := mk(d, mem, p, 2), mk(d, mem, p, 2)
						nextTwin(c, x, y, sized(Op{K: k, Num: impl.Num{K: 'C', W: w}}, n, 1), func() []string { return []string{desc(d, mem, p, 2)} })
					}
				}
			}
		}
		for _, w := range []int{1, 2, 4, 8} {
			for data := uint64(0); data < 3; data++ {
				o := Op{K: impl.KComplexBad, Num: impl.Num{K: 'C', W: w}, Data: data, Next: true}
				x := mk(d, mem, 1, 2)
				c.Do(x, &o)
				if s := c.Obs(x); s.Off != 1 || s.Boff != 2 {
					c.Fail(fmt.Sprintf("%s moved a cursor", &o), desc(d, mem, 1, 2), o.String())
				}
			}
		}
	}
}

// c05Others: positioned operations, whole-buffer operations, queries and capacity changes move no cursor.
func c05Others(c *Ctx, d impl.Desc, cap int64) {
	mem := fill(int(cap), 3)
	var ops []Op
	for _, o := range everyOp(d, 1) {
		switch o.K {
		case impl.KSeekByte, impl.KSeekBit, impl.KAlignBit, impl.KAlignByte, impl.KReset:
			continue
		}
		if !o.Next {
			ops = append(ops, o)
		}
	}
	for _, t := range accessKinds(d) {
		if counted(t.K) {
			ops = append(ops, sized(t, 0, 1), sized(t, 3, 1))
		}
		t.Off = 1
		ops = append(ops, sized(t, 1, 1))
	}
	ops = append(ops, filter(d, Op{K: impl.KGrow}, Op{K: impl.KGrow, N: 40}, Op{K: impl.KTruncL}, Op{K: impl.KTruncR}, Op{K: impl.KTruncL, N: cap}, Op{K: impl.KTruncR, N: cap}, Op{K: impl.KAfterByte, Off: -5}, Op{K: impl.KAfterBit, Off: 100})...)
	curs := []int64{minI, -9, -1, 0, 1, 2, 3, cap - 1, cap, cap + 1, 8*cap - 1, 8 * cap, 8*cap + 1, 1 << 31, 1 << 32, maxI}
	for _, off := range curs {
		for _, boff := range curs {
			for i := range ops {
				o := &ops[i]
				m := model.S{B: clone(mem), Off: off, Boff: boff}
				if out := model.Apply(d, &m, o); out.V == model.Unspec && d.Mini {
					continue
				}
				c.StateOf(1, mem, off, boff)
				x := mk(d, mem, off, boff)
				c.Do(x, o)
				if s := c.Obs(x); s.Off != off || s.Boff != boff {
					c.Fail(fmt.Sprintf("%s moved a cursor: byte cursor %d to %d, bit cursor %d to %d", o, off, s.Off, boff, s.Boff), desc(d, mem, off, boff), o.String())
				}
				c.Trace(func() string { return desc(d, mem, off, boff) + ": " + o.String() })
			}
		}
	}
}

func c05Counts(c *Ctx, d impl.Desc) {
	for _, t := range accessKinds(d) {
		if !counted(t.K) {
			continue
		}
		a := model.Range(&t)
		if a.Bits {
			continue
		}
		for _, n := range thresholds {
			for _, off := range []int64{0, 3} {
				o := sized(t, int64(n), 2)
				mem := fill(n*int(a.W)+5, 2)
				c.StateOf(2, mem[:4], off, int64(n))
				x, y := mk(d, mem, off, 9), mk(d, mem, off, 9)
				nextTwin(c, x, y, o, func() []string { return []string{desc(d, mem, off, 9)} })
			}
		}
	}
	// many small steps add up
	mem := fill(4096, 5)
	for _, t := range accessKinds(d) {
		x, y := mk(d, mem, 0, 0), mk(d, mem, 0, 0)
		o := t
		if counted(t.K) {
			o = sized(t, 3, 1)
		}
		a := model.Range(&o)
		step := a.N * a.W
		limit := int64(4096)
		if a.Bits {
			limit *= 8
		}
		for pos := int64(0); pos+step <= limit; pos += step {
			nextTwin(c, x, y, o, func() []string { return []string{desc(d, mem, 0, 0), fmt.Sprintf("repeated from 0 to %d", pos)} })
			if a.Bits {
				c.Do(y, &Op{K: impl.KSeekBit, Off: pos + step})
			} else {
				c.Do(y, &Op{K: impl.KSeekByte, Off: pos + step})
			}
		}
	}
}

func c05Large(c *Ctx, d impl.Desc) {
	mem := big()
	if mem == nil {
		c.Notes = append(c.Notes, "no address space for the large-cursor unit: skipped")
		return
	}
	x := impl.New(d, mem)
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		for _, k := range []uint{8, 15, 16, 24, 31, 32} {
			for delta := int64(-9); delta <= 1; delta++ {
				base := int64(1)<<k + delta
				pos := base
				o := t
				if counted(t.K) {
					o = sized(t, 2, uint64(delta+20))
					if a.Bits {
						o.N = 11
					}
				}
				a := model.Range(&o)
				if a.Bits {
					pos *= 8
				}
				ws := bigWindows(base)
				snap := func() (s []byte) {
					for _, w := range ws {
						s = append(s, mem[w[0]:w[1]]...)
					}
					return
				}
				set := func() {
					for i, w := range ws {
						copy(mem[w[0]:w[1]], fill(int(w[1]-w[0]), uint64(i)+uint64(pos)))
					}
				}
				place := func(p, q int64) {
					c.Do(x, &Op{K: impl.KSeekByte, Off: p})
					c.Do(x, &Op{K: impl.KSeekBit, Off: q})
				}
				off, boff := pos, int64(7)
				if a.Bits {
					off, boff = 7, pos
				}
				c.State()
				set()
				place(off, boff)
				n, p := o, o
				n.Next, p.Off = true, pos
				var r, s impl.Ret
				c.DoR(x, &n, &r)
				r.B = clone(r.B)
				after := snap()
				var q1, q2 impl.Ret
				c.DoR(x, &Op{K: impl.KByteOff}, &q1)
				c.DoR(x, &Op{K: impl.KBitOff}, &q2)
				set()
				place(0, 0)
				c.DoR(x, &p, &s)
				start := fmt.Sprintf("%s of %d bytes", d, len(mem))
				if e := impl.RetDiff(&r, &s); e != "" {
					c.Fail(fmt.Sprintf("%s at cursor %d vs %s: %s", &n, pos, &p, e), start)
				}
				if string(after) != string(snap()) {
					c.Fail(fmt.Sprintf("%s at cursor %d and %s have different effects", &n, pos, &p), start)
				}
				wo, wb := off, boff
				if !r.Panicked {
					if a.Bits {
						wb += a.N
					} else {
						wo += a.N * a.W
					}
				}
				if q1.I != wo || q2.I != wb {
					c.Fail(fmt.Sprintf("%s at byte cursor %d, bit cursor %d left them at %d and %d, specified %d and %d", &n, off, boff, q1.I, q2.I, wo, wb), start)
				}
				c.Trace(func() string { return fmt.Sprintf("%s: %s at %d", start, &n, pos) })
			}
		}
	}
}

func c05Alphabet(d impl.Desc) []Op {
	out := filter(d,
		Op{K: impl.KSeekByte, Off: 4}, Op{K: impl.KSeekByte, Off: -1, Rel: true}, Op{K: impl.KSeekBit, Off: 45}, Op{K: impl.KSeekBit, Off: 7, Rel: true},
		Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KFlipAll}, Op{K: impl.KReset})
	for _, o := range accessKinds(d) {
		if o.Num.BE && o.Num.W != 4 || o.Num.K == 'I' && o.Num.W != 8 {
			continue
		}
		o.Next = true
		switch {
		case model.Range(&o).Bits && counted(o.K):
			out = append(out, sized(o, 11, 1))
		case counted(o.K):
			out = append(out, sized(o, 1, 1), sized(o, 2, 1))
			if o.K == impl.KReadBytes {
				out = append(out, sized(o, 0, 1))
			}
		default:
			out = append(out, o)
		}
	}
	return out
}

// c05Seq: in every sequence, each cursor-relative call agrees with the positioned call at the tracked cursor.
func c05Seq(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c05Alphabet(d)
	sequences(len(alpha), depth, []int{first}, func(idx []int) {
		x, y := mk(d, fill(9, 1), 0, 0), mk(d, fill(9, 1), 0, 0)
		h := hist{d: d, start: d.String() + " over 9 bytes"}
		c.State()
		for _, i := range idx {
			o := alpha[i]
			a := model.Range(&o)
			st := c.Obs(x)
			if d.Mini {
				m := model.S{B: st.B, Off: st.Off, Boff: st.Boff}
				if a.Is {
					p := m.Off
					if a.Bits {
						p = m.Boff
					}
					if model.Violated(a, p, st.Cap) != nil {
						return
					}
				} else if (o.K == impl.KTruncL || o.K == impl.KTruncR) && o.N > st.Cap || o.K == impl.KAlignByte && st.Boff < 0 {
					return
				}
			}
			if !a.Is {
				if s := twins(c, x, y, &o); s != "" {
					c.Fail(s+" (after cursor-relative calls vs after positioned calls and seeks)", append(h.steps(), o.String())...)
				}
				h.ops = append(h.ops, o)
				continue
			}
			nextTwin(c, x, y, o, h.steps)
			st = c.Obs(x)
			c.Do(y, &Op{K: impl.KSeekByte, Off: st.Off})
			c.Do(y, &Op{K: impl.KSeekBit, Off: st.Boff})
			h.ops = append(h.ops, o)
		}
		c.Trace(h.String)
	})
}
