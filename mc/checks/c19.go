package checks

import (
	"fmt"
	"strings"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C19",
		Bounds: "every implementation: every positioned read and query (accepted, and on the checked buffers refused too; all number types, counts up to 9, positions inside, at the edges and at extremes) inserted twice in a row after every history of up to 2 (thorough 3) other operations, followed by every sequence of up to 2 operations and by every single query or read, compared with the same history without the insertion (whose state nobody looked at before); every pair of inserted reads; from pairs of 100 byte and 100 bit cursors, 64-bit extremes included; long runs of up to 5000 (thorough 70000) insertions of each; reads of all special values (as in C01) of every number type, byte values, bits that differ in one from zeros or ones; counts 31 to 300 and around powers of two and ten to 2^16",
		Units:  c19Units})
}

// pureOps lists reads and queries for a buffer of about 6 bytes.
func pureOps(d impl.Desc) []Op {
	out := filter(d, Op{K: impl.KBytes}, Op{K: impl.KByteCap}, Op{K: impl.KBitCap}, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterBit, Rel: true},
		Op{K: impl.KAfterByte, Off: 2}, Op{K: impl.KAfterByte, Off: -7}, Op{K: impl.KAfterByte, Off: 100}, Op{K: impl.KAfterBit, Off: 9}, Op{K: impl.KAfterBit, Off: -7}, Op{K: impl.KAfterBit, Off: 1000})
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		if a.Write {
			continue
		}
		ns := []int64{1}
		if counted(t.K) {
			ns = []int64{0, 1, 2, 3, -1, 1 << 62}
			if t.K != impl.KReadNum {
				ns = append(ns, 5, 6, 7, 9, 33, 48, 64, 65, 71)
			}
		}
		offs := []int64{0, 1, 3, 5, 6, 7, -1, maxI, minI}
		if a.Bits {
			offs = append(offs, 40, 47, 48, 49)
		}
		for _, n := range ns {
			for _, off := range offs {
				if d.Mini && (n < 0 || n > 100 || off < 0 || off > 100) {
					continue
				}
				o := t
				o.N, o.Off = n, off
				if !counted(t.K) {
					o.N = 0
				}
				out = append(out, o)
			}
		}
	}
	return out
}

func c19Others(d impl.Desc) []Op {
	return filter(d,
		Op{K: impl.KSeekByte, Off: 2}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KSeekBit, Off: 11}, Op{K: impl.KSeekBit, Off: -3, Rel: true}, Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte},
		Op{K: impl.KGrow, N: 2}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 2}, Op{K: impl.KReset}, Op{K: impl.KRefresh}, Op{K: impl.KSetAll}, Op{K: impl.KFlipAll},
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), sized(Op{K: impl.KWriteBytes, Off: 1}, 3, 4), sized(Op{K: impl.KReadBytes, Next: true}, 2, 0), Op{K: impl.KReadByte, Next: true},
		sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Next: true}, 1, 5),
		Op{K: impl.KReadBits, N: 5, Next: true}, Op{K: impl.KSetBits, N: 9, Data: 0x133, Off: 3}, Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KReadBit, Next: true},
		Op{K: impl.KWriteByte, Off: 77}, Op{K: impl.KGrow, N: -1})
}

// probes are the single observations made after an insertion.
func c19Probes(d impl.Desc) []Op {
	return filter(d, Op{K: impl.KBytes}, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KByteCap}, Op{K: impl.KBitCap}, Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterBit, Rel: true}, Op{K: impl.KAfterByte, Off: 1}, Op{K: impl.KAfterBit, Off: 1},
		sized(Op{K: impl.KReadBytes, Off: 1}, 2, 0), Op{K: impl.KReadByte, Off: 1}, Op{K: impl.KReadBit, Off: 13}, Op{K: impl.KReadBits, N: 13, Off: 2}, sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Off: 1}, 1, 0))
}

func c19Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	for _, d := range impl.All {
		d := d
		for i := range c19Others(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s insertions after histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c19Hist(c, d, depth, i) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " insertions in fresh buffers", Run: func(c *Ctx) { c19Fresh(c, d) }},
			engine.Unit{Name: d.String() + " pairs of insertions", Run: func(c *Ctx) { c19Pairs(c, d) }},
			engine.Unit{Name: d.String() + " long runs", Run: func(c *Ctx) { c19Runs(c, d) }},
			engine.Unit{Name: d.String() + " counts", Run: func(c *Ctx) { c19Counts(c, d) }})
		u = append(u, engine.Unit{Name: d.String() + " cursors", Run: func(c *Ctx) { c19Cursors(c, d) }})
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			if a := model.Range(o); !a.Is || a.Write {
				return
			}
			mem := clone(b)
			x := impl.New(d, mem)
			place(x, 2, 5)
			var r, s impl.Ret
			c.DoR(x, o, &r)
			r.B = clone(r.B)
			c.DoR(x, o, &s)
			start := desc(d, b, 2, 5)
			if e := impl.RetDiff(&r, &s); e != "" {
				c.Fail(fmt.Sprintf("%s repeated at once: %s", o, e), start)
			}
			if st := c.Obs(x); string(st.B) != string(b) || string(mem) != string(b) || st.Off != 2 || st.Boff != 5 || st.Cap != int64(len(b)) {
				c.Fail(fmt.Sprintf("%s changed the buffer: it holds %x now, with cursors %d and %d", o, st.B, st.Off, st.Boff), start)
			}
			c.StateOf(1, b, 2, 5)
			c.Trace(func() string { return start + ": " + o.String() })
		})...)
	}
	return u
}

// c19Ok says whether something is specified about o on a buffer of d in the given state (mini buffers accept only what
// is in range).
func c19Ok(d impl.Desc, s *model.S, o *Op) bool {
	if o.K == impl.KAlignByte && s.Boff < 0 {
		return false
	}
	if !d.Mini {
		return true
	}
	a := model.Range(o)
	if a.Is {
		pos := o.Off
		if o.Next {
			pos = s.Off
			if a.Bits {
				pos = s.Boff
			}
		}
		return model.Violated(a, pos, int64(len(s.B))) == nil
	}
	switch o.K {
	case impl.KGrow:
		return o.N >= 0
	case impl.KTruncL, impl.KTruncR:
		return o.N >= 0 && o.N <= int64(len(s.B))
	}
	return true
}

// c19Base is a history whose state nobody has looked at.
type c19Base struct {
	d   impl.Desc
	n   int
	ops []Op
}

func (b *c19Base) mk(c *Ctx) impl.Inst {
	x := impl.New(b.d, fill(b.n, 1))
	for i := range b.ops {
		c.Do(x, &b.ops[i])
	}
	return x
}

func (b *c19Base) steps() []string { return opsText(fmt.Sprintf("%s over %d bytes", b.d, b.n), b.ops) }

// state returns a copy of the state after the history, seen through another buffer with the same history.
func (b *c19Base) state(c *Ctx) model.S {
	st := c.Obs(b.mk(c)).Copy()
	return model.S{B: st.B, Off: st.Off, Boff: st.Boff}
}

// insert runs the base history with the reads inserted, and later without them, each followed by tail, and compares.
func (b *c19Base) insert(c *Ctx, ins []Op, tail []Op, without []impl.Ret, end *impl.State) {
	x := b.mk(c)
	fail := func(what string, upto int) {
		s := b.steps()
		for i := range ins {
			s = append(s, "inserted: "+ins[i].String())
		}
		for i := 0; i < upto; i++ {
			s = append(s, tail[i].String())
		}
		c.Fail(what, s...)
	}
	for i := range ins {
		var r, s impl.Ret
		c.DoR(x, &ins[i], &r)
		r.B = clone(r.B)
		c.DoR(x, &ins[i], &s)
		if e := impl.RetDiff(&r, &s); e != "" {
			fail(fmt.Sprintf("%s repeated at once: %s", &ins[i], e), 0)
		}
	}
	for i := range tail {
		var r impl.Ret
		c.DoR(x, &tail[i], &r)
		if e := impl.RetDiff(&r, &without[i]); e != "" {
			fail(fmt.Sprintf("%s: %s (with the reads inserted vs without)", &tail[i], e), i+1)
		}
	}
	if end != nil {
		st := c.Obs(x)
		if !st.Same(end) {
			fail("the state afterwards: "+st.Diff(*end)+" (with the reads inserted vs without)", len(tail))
		}
	}
	c.Trace(func() string { return fmt.Sprint(strings.Join(b.steps(), "; "), " inserted ", ins, " then ", tail) })
}

// plain runs base and tail without an insertion.
func (b *c19Base) plain(c *Ctx, tail []Op) (rets []impl.Ret, end impl.State) {
	x := b.mk(c)
	for i := range tail {
		var r impl.Ret
		c.DoR(x, &tail[i], &r)
		r.B = clone(r.B)
		rets = append(rets, r)
	}
	return rets, c.Obs(x).Copy()
}

// all runs every insertion after the base with every tail.
func (b *c19Base) all(c *Ctx, pure []Op, tails [][]Op) {
	s := b.state(c)
	c.StateOf(b.n, s.B, s.Off, s.Boff)
	var ok []Op
	for i := range pure {
		if c19Ok(b.d, &s, &pure[i]) {
			ok = append(ok, pure[i])
		}
	}
	for _, t := range tails {
		m := s.Clone()
		good := true
		for i := range t {
			if !c19Ok(b.d, &m, &t[i]) {
				good = false
				break
			}
			model.Apply(b.d, &m, &t[i])
		}
		if !good {
			continue
		}
		rets, end := b.plain(c, t)
		for i := range ok {
			b.insert(c, ok[i:i+1], t, rets, &end)
		}
	}
}

func c19Tails(d impl.Desc, two bool) [][]Op {
	var out [][]Op
	for _, p := range c19Probes(d) {
		out = append(out, []Op{p})
	}
	o := c19Others(d)
	for i := range o {
		out = append(out, []Op{o[i]})
		if two {
			for j := range o {
				out = append(out, []Op{o[i], o[j]})
			}
		}
	}
	return out
}

func c19Fresh(c *Ctx, d impl.Desc) {
	for _, n := range []int{0, 1, 6} {
		b := &c19Base{d: d, n: n}
		b.all(c, pureOps(d), c19Tails(d, true))
	}
}

func c19Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c19Others(d)
	pure := pureOps(d)
	for k := 1; k <= depth; k++ {
		tails := c19Tails(d, k == 1)
		if k > 1 { // fewer positions and one tail that looks at everything
			var p []Op
			for i := range pure {
				if o := &pure[i]; (o.Off == 0 || o.Off == 1 || o.Off == 7 || o.Off == -1) && (o.N <= 2 || o.N == 9) && (!o.Num.BE || o.Num.W == 4) {
					p = append(p, *o)
				}
			}
			pure = p
			if k > 2 {
				tails = [][]Op{c19Tail(d)}
			} else {
				tails = append([][]Op{c19Tail(d)}, tails...)
			}
		}
		sequences(len(alpha), k, []int{first}, func(idx []int) {
			b := &c19Base{d: d, n: 6}
			m := model.S{B: fill(6, 1)}
			for _, i := range idx {
				if !c19Ok(d, &m, &alpha[i]) {
					return
				}
				model.Apply(d, &m, &alpha[i])
				b.ops = append(b.ops, alpha[i])
			}
			b.all(c, pure, tails)
		})
	}
}

// c19Tail is one long tail of operations that fit any buffer.
func c19Tail(d impl.Desc) []Op {
	return filter(d, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KBytes}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KByteCap}, Op{K: impl.KSetAll}, Op{K: impl.KGrow, N: 9}, Op{K: impl.KBytes}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KFlipAll}, Op{K: impl.KAlignBit}, Op{K: impl.KBitCap})
}

// c19Pairs: two different reads inserted one after the other.
func c19Pairs(c *Ctx, d impl.Desc) {
	var pure []Op
	for _, o := range pureOps(d) {
		if (o.Off == 0 || o.Off == 1 || o.Off == 47 || o.Off == -1) && (o.N <= 2 || o.N == 9) {
			pure = append(pure, o)
		}
	}
	b := &c19Base{d: d, n: 6, ops: []Op{{K: impl.KSeekByte, Off: 1}, {K: impl.KSeekBit, Off: 5}}}
	s := b.state(c)
	tail := append(filter(d, sized(Op{K: impl.KReadBytes, Next: true}, 1, 0), Op{K: impl.KReadBits, N: 9, Next: true}), c19Tail(d)...)
	rets, end := b.plain(c, tail)
	for i := range pure {
		if !c19Ok(d, &s, &pure[i]) {
			continue
		}
		for j := range pure {
			if c19Ok(d, &s, &pure[j]) {
				b.insert(c, []Op{pure[i], pure[j]}, tail, rets, &end)
			}
		}
		c.State()
	}
}

// c19Runs: one read or query many times in a row.
func c19Runs(c *Ctx, d impl.Desc) {
	counts := []int{3, 10, 130, 260, 1100, 5000}
	if c.Thorough() {
		counts = append(counts, 70000)
	}
	b := &c19Base{d: d, n: 6, ops: []Op{{K: impl.KSeekByte, Off: 1}, {K: impl.KSeekBit, Off: 5}}}
	s := b.state(c)
	tail := append(filter(d, sized(Op{K: impl.KReadBytes, Next: true}, 1, 0), Op{K: impl.KReadBits, N: 9, Next: true}), c19Tail(d)...)
	rets, end := b.plain(c, tail)
	for _, o := range pureOps(d) {
		if !c19Ok(d, &s, &o) || o.Off != 1 && o.Off != -1 && o.Off != 0 {
			continue
		}
		for _, n := range counts {
			x := b.mk(c)
			var r0, r impl.Ret
			steps := append(b.steps(), fmt.Sprintf("%d times %s", n, &o))
			for i := 0; i < n; i++ {
				c.DoR(x, &o, &r)
				if i == 0 {
					r0 = r
					r0.B = clone(r.B)
				} else if e := impl.RetDiff(&r0, &r); e != "" {
					c.Fail(fmt.Sprintf("the first time vs time %d: %s", i+1, e), steps...)
				}
			}
			for i := range tail {
				c.DoR(x, &tail[i], &r)
				if e := impl.RetDiff(&r, &rets[i]); e != "" {
					c.Fail(fmt.Sprintf("%s: %s (with the reads inserted vs without)", &tail[i], e), append(steps, tail[i].String())...)
				}
			}
			if st := c.Obs(x); !st.Same(&end) {
				c.Fail("the state afterwards: "+st.Diff(end)+" (with the reads inserted vs without)", steps...)
			}
			c.State()
			c.Trace(func() string { return strings.Join(steps, "; ") })
		}
	}
}

// c19Cursors: reads and queries with the cursors anywhere.
func c19Cursors(c *Ctx, d impl.Desc) {
	pure := pureOps(d)
	for _, n := range []int{0, 1, 6, 17} {
		mem := fill(n, 1)
		for _, off := range cursorGrid(int64(n)) {
			for _, boff := range cursorGrid(8 * int64(n)) {
				if off != 0 && boff != 0 && (off^boff)%5 != 0 && off*8 != boff {
					continue
				}
				s := model.S{B: mem, Off: off, Boff: boff}
				c.StateOf(n, nil, off, boff)
				for i := range pure {
					o := &pure[i]
					if !c19Ok(d, &s, o) || o.N > 9 && o.N < 1000 || (i+int(off^boff))%3 != 0 && !c.Thorough() && model.Range(o).Is {
						continue
					}
					x := mk(d, mem, off, boff)
					var r, q impl.Ret
					c.DoR(x, o, &r)
					r.B = clone(r.B)
					c.DoR(x, o, &q)
					start := desc(d, mem, off, boff)
					if e := impl.RetDiff(&r, &q); e != "" {
						c.Fail(fmt.Sprintf("%s repeated at once: %s", o, e), start)
					}
					if st := c.Obs(x); string(st.B) != string(mem) || st.Off != off || st.Boff != boff || st.Cap != int64(n) || st.BCap != 8*int64(n) {
						c.Fail(fmt.Sprintf("%s changed the buffer: it holds %x now, with cursors %d and %d", o, st.B, st.Off, st.Boff), start)
					}
					c.Trace(func() string { return start + ": " + o.String() })
				}
			}
		}
	}
}

// c19Counts: long reads, on buffers with room behind them.
func c19Counts(c *Ctx, d impl.Desc) {
	for _, n := range thresholds {
		for _, t := range accessKinds(d) {
			a := model.Range(&t)
			if a.Write || a.Bits || !counted(t.K) {
				continue
			}
			o := t
			o.N = int64(n)
			for _, off := range []int64{0, 1, 3} {
				o.Off = off
				if d.Mini && off == 3 {
					continue
				}
				mem := fill(n*int(a.W)+2+16, 2)
				ref := clone(mem)
				x := impl.New(d, mem[:n*int(a.W)+2])
				place(x, 5, 13)
				var r, s impl.Ret
				c.DoR(x, &o, &r)
				r.B = clone(r.B)
				c.DoR(x, &o, &s)
				start := fmt.Sprintf("%s over %d bytes, byte cursor 5, bit cursor 13", d, n*int(a.W)+2)
				if e := impl.RetDiff(&r, &s); e != "" {
					c.Fail(fmt.Sprintf("%s repeated at once: %s", &o, e), start)
				}
				st := c.Obs(x)
				if string(mem) != string(ref) || string(st.B) != string(ref[:len(ref)-16]) || st.Off != 5 || st.Boff != 13 {
					c.Fail(fmt.Sprintf("%s changed the buffer or its cursors (%d, %d)", &o, st.Off, st.Boff), start)
				}
				c.StateOf(n, nil, off, int64(o.Num.W))
				c.Trace(func() string { return start + ": " + o.String() })
			}
		}
	}
}
