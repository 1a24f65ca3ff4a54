package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C12",
		Bounds: "every implementation: every operation that takes a length, with length zero (nil and empty slices), in both forms, at every position from 0 to the end, on capacities 0 to 300 and around powers of two and ten to 2^16 with and without room behind, with the other cursor anywhere, 64-bit extremes included, from every way of construction; whole-buffer operations on empty buffers, growing and truncating by zero; the same from every state reached by up to 4 (thorough 5) other operations",
		Units:  c12Units})
}

// zeroOps lists the zero-length transfers of d.
func zeroOps(d impl.Desc) []Op {
	var out []Op
	for _, t := range accessKinds(d) {
		if !counted(t.K) {
			continue
		}
		o := t
		o.N = 0
		switch t.K {
		case impl.KWriteBytes:
			out = append(out, o)
			o.D = []byte{}
			out = append(out, o)
			o.D = fill(3, 1)[:0]
		case impl.KWriteNum:
			out = append(out, o)
			o.V = []uint64{}
		case impl.KSetBits:
			o.Data = 0
			out = append(out, o)
			o.Data = ^uint64(0)
		case impl.KReadNum:
			if d.Mini && d.Ver > 1 {
				out = append(out, o)
				o.Pre, o.Extra = 0x11, 2 // a longer output slice is left alone
			}
		}
		out = append(out, o)
	}
	return out
}

// nothing runs o, which must do nothing, on x.
func nothing(c *Ctx, x impl.Inst, o *Op, steps func() []string) {
	before := c.Obs(x).Copy()
	var r impl.Ret
	c.DoR(x, o, &r)
	d := x.Desc()
	fail := func(what string) { c.Fail(fmt.Sprintf("%s: %s", o, what), append(steps(), o.String())...) }
	if r.Panicked {
		fail("panicked with " + impl.PanicText(&r))
	}
	want := 0
	if o.K == impl.KReadNum && d.Mini && d.Ver > 1 {
		want = o.Extra
	}
	if len(r.B) != 0 || len(r.U) != want || r.I != 0 {
		fail(fmt.Sprintf("returned %d bytes, %d numbers, value %d", len(r.B), len(r.U), r.I))
	}
	for _, v := range r.U {
		if v != o.Pre&impl.Mask(o.Num.W) {
			fail("changed an element of the output")
		}
	}
	after := c.Obs(x)
	if !before.Same(&after) {
		fail("changed the buffer: " + after.Diff(before))
	}
}

func c12Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	for _, d := range impl.All {
		d := d
		u = append(u, engine.Unit{Name: d.String() + " positions", Run: func(c *Ctx) { c12Positions(c, d) }},
			engine.Unit{Name: d.String() + " sizes", Run: func(c *Ctx) { c12Sizes(c, d) }})
		for i := range c12Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s after histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c12Hist(c, d, depth, i) }})
		}
	}
	return u
}

// c12Here runs every zero-length operation at the given position (in bytes or in bits as the operation has it).
func c12Here(c *Ctx, x impl.Inst, ops []Op, pos int64, bits bool, steps func() []string) {
	for i := range ops {
		if model.Range(&ops[i]).Bits != bits {
			continue
		}
		o := ops[i]
		o.Off = pos
		nothing(c, x, &o, steps)
		o.Off, o.Next = 0, true
		var r impl.Ret
		k := impl.KSeekByte
		if bits {
			k = impl.KSeekBit
		}
		c.DoR(x, &Op{K: k, Off: pos}, &r)
		nothing(c, x, &o, func() []string { return append(steps(), fmt.Sprint("cursor to ", pos)) })
		c.Trace(func() string { return fmt.Sprint(steps(), " ", &o) })
	}
}

func emptyOps(d impl.Desc) []Op {
	return filter(d, Op{K: impl.KClearAll}, Op{K: impl.KSetAll}, Op{K: impl.KFlipAll})
}

func zeroSizeOps(d impl.Desc) []Op {
	return filter(d, Op{K: impl.KGrow}, Op{K: impl.KTruncL}, Op{K: impl.KTruncR})
}

func c12Positions(c *Ctx, d impl.Desc) {
	ops := zeroOps(d)
	for n := 0; n <= 40; n++ {
		for _, room := range []int{0, 9} {
			mem := fill(n+room, 1)
			x := impl.New(d, mem[:n:n+room])
			start := func() []string { return []string{fmt.Sprintf("%s over %d bytes with room for %d", d, n, room)} }
			for pos := int64(0); pos <= int64(n); pos++ {
				for _, boff := range []int64{0, 7, -3, int64(n) * 8} {
					place(x, 0, boff)
					c.StateOf(n, nil, pos, boff)
					c12Here(c, x, ops, pos, false, start)
				}
			}
			for pos := int64(0); pos <= int64(n)*8; pos++ {
				for _, off := range []int64{0, 5, -1, int64(n)} {
					var r impl.Ret
					x.Do(&Op{K: impl.KSeekByte, Off: off}, &r)
					c.StateOf(n+100, nil, off, pos)
					c12Here(c, x, ops, pos, true, start)
				}
			}
			if string(mem) != string(fill(n+room, 1)) {
				c.Fail("a transfer of zero length changed memory behind the buffer", start()...)
			}
			// transfers with the other cursor anywhere
			if n < 4 || n == 9 || n == 17 {
				for _, far := range cursorGrid(int64(n)) {
					for _, pos := range []int64{0, 1, int64(n) / 2, int64(n)} {
						if pos > int64(n) {
							continue
						}
						place(x, 0, far)
						c12Here(c, x, ops, pos, false, start)
						place(x, far, 0)
						c12Here(c, x, ops, 8*pos, true, start)
						if pos < int64(n) {
							c12Here(c, x, ops, 8*pos+3, true, start)
						}
					}
				}
			}
			// mixed cursors
			offs, boffs := cursorGrid(int64(n)), cursorGrid(int64(n)*8)
			if n > 9 {
				offs, boffs = []int64{-1 << 40, -2, -1, 0, 1, int64(n), int64(n) + 1, 1 << 40}, []int64{-1 << 40, -2, -1, 0, 1, int64(n) * 8, int64(n)*8 + 1, 1 << 40}
			}
			for _, off := range offs {
				for _, boff := range boffs {
					place(x, off, boff)
					for _, o := range zeroSizeOps(d) {
						nothing(c, x, &o, start)
					}
					if n == 0 {
						for _, o := range emptyOps(d) {
							nothing(c, x, &o, start)
						}
					}
				}
			}
		}
	}
}

func c12Sizes(c *Ctx, d impl.Desc) {
	ops := zeroOps(d)
	for _, n := range thresholds {
		for _, room := range []int{0, 1, n} {
			mem := fill(n+room, 1)
			x := impl.New(d, mem[:n:n+room])
			start := func() []string { return []string{fmt.Sprintf("%s over %d bytes with room for %d", d, n, room)} }
			step := n/3 + 1
			for pos := int64(n); pos > 0; pos -= int64(step) {
				c.StateOf(n, nil, pos, int64(room))
				c12Here(c, x, ops, pos, false, start)
				c12Here(c, x, ops, 8*pos, true, start)
				c12Here(c, x, ops, 8*pos-3, true, start)
			}
			for _, o := range zeroSizeOps(d) {
				nothing(c, x, &o, start)
			}
		}
	}
	// every way to have an empty buffer
	for k, x := range []impl.Inst{impl.New(d), impl.New(d, nil), impl.New(d, []byte{}), impl.New(d, nil, nil), impl.New(d, []byte{}, nil, []byte{}), impl.New(d, fill(8, 1)[:0])} {
		start := func() []string { return []string{fmt.Sprintf("%s, empty buffer #%d", d, k)} }
		for rep := 0; rep < 2; rep++ {
			c12Here(c, x, ops, 0, false, start)
			c12Here(c, x, ops, 0, true, start)
			for _, o := range append(emptyOps(d), zeroSizeOps(d)...) {
				nothing(c, x, &o, start)
			}
		}
	}
	for _, how := range [][]Op{{{K: impl.KReset}}, {{K: impl.KTruncL, N: 5}}, {{K: impl.KTruncR, N: 5}}, {{K: impl.KTruncL, N: 3}, {K: impl.KTruncR, N: 2}}, {{K: impl.KReset}, {K: impl.KGrow}}} {
		x := impl.New(d, fill(5, 1))
		if len(filter(d, how...)) < len(how) {
			continue
		}
		for i := range how {
			c.Do(x, &how[i])
		}
		if st := c.Obs(x); st.Cap != 0 {
			continue
		}
		start := func() []string { return opsText(d.String()+" over 5 bytes", how) }
		for rep := 0; rep < 2; rep++ {
			c12Here(c, x, ops, 0, false, start)
			c12Here(c, x, ops, 0, true, start)
			for _, o := range append(emptyOps(d), zeroSizeOps(d)...) {
				nothing(c, x, &o, start)
			}
		}
	}
}

func c12Alphabet(d impl.Desc) []Op {
	return filter(d,
		Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 3}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KReset}, Op{K: impl.KRefresh},
		Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KSeekBit, Off: 5, Rel: true}, Op{K: impl.KSeekByte}, Op{K: impl.KSeekBit}, Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte},
		sized(Op{K: impl.KReadBytes, Next: true}, 1, 0), sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), Op{K: impl.KFlipAll}, sized(Op{K: impl.KReadNum, Num: num(d, 2, true)}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(d, 2, false)}, 1, 0), Op{K: impl.KSetBits, Data: 7, N: 3, Off: 1})
}

// c12Hist: after any short history, no zero-length operation does anything; nor does it change what comes later.
func c12Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c12Alphabet(d)
	ops := zeroOps(d)
	zs, es := zeroSizeOps(d), emptyOps(d)
	for _, n := range []int{0, 2, 4} {
		sequences(len(alpha), depth, []int{first}, func(idx []int) {
			x := impl.New(d, fill(n, 1))
			h := hist{d: d, start: fmt.Sprintf("%s over %d bytes", d, n)}
			for _, i := range idx {
				o := &alpha[i]
				st := c.Obs(x)
				m := model.S{B: st.B, Off: st.Off, Boff: st.Boff}
				if out := model.Apply(d, &model.S{B: clone(m.B), Off: m.Off, Boff: m.Boff}, o); out.V == model.Unspec {
					return
				}
				h.ops = append(h.ops, *o)
				c.Do(x, o)
			}
			st := c.Obs(x)
			off, boff, size := st.Off, st.Boff, st.Cap
			c.StateOf(n, st.B, off, boff)
			for i := range ops {
				o := ops[i]
				bits := model.Range(&o).Bits
				limit, cur := size, off
				if bits {
					limit, cur = 8*size, boff
				}
				o.Off = limit
				nothing(c, x, &o, h.steps)
				if cur >= 0 && cur <= limit {
					o.Off, o.Next = 0, true
					nothing(c, x, &o, h.steps)
				}
			}
			for i := range zs {
				nothing(c, x, &zs[i], h.steps)
			}
			if size == 0 {
				for i := range es {
					nothing(c, x, &es[i], h.steps)
				}
			}
			c.Trace(h.String)
		})
	}
}
