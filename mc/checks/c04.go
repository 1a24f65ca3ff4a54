package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C04",
		Bounds: "every checked buffer, every way of construction and every refusable call (all access kinds, number types and forms at positions and counts around the edges and at 64-bit extremes, invalid bits, sizes and data types, negative and impossible growth, bad truncation), from cursors inside, at and outside the buffer; state compared before and after, lock free; the same with all special values (as in C01); then (quick: capacities up to 5, one cursor) every single following operation and (quick: four cursors) one long sequence of all operations compared with a twin that never saw the refused call; all histories of depth 3 (thorough 4) mixing refused and accepted operations; refused long writes of 31 to 300 elements and around powers of two and ten",
		Units:  c04Units})
}

func c04Units(tier string) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.Checked {
		d := d
		for _, b := range builds(d) {
			b := b
			u = append(u, engine.Unit{Name: d.String() + " " + b.name, Run: func(c *Ctx) { c04Single(c, d, b) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " long writes", Run: func(c *Ctx) { c04Long(c, d) }})
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			a := model.Range(o)
			if !a.Is {
				return
			}
			p := *o // moved so far that the last byte or bit does not fit
			p.Off = int64(len(b)) - a.N*a.W + 1
			if a.Bits {
				p.Off = int64(len(b))*8 - a.N + 1
			}
			n, off, boff := cursorOf(&p)
			for _, q := range []*Op{&p, &n} {
				x := mk(d, b, off, boff)
				r := c.Do(x, q)
				if !r.Panicked {
					return // whether it is refused is C03's business
				}
				if st := c.Obs(x); string(st.B) != string(b) || st.Off != off || st.Boff != boff || st.Cap != int64(len(b)) || st.BCap != 8*int64(len(b)) {
					c.Fail(fmt.Sprintf("the refused %s changed the buffer: %x, cursors %d and %d", q, st.B, st.Off, st.Boff), desc(d, b, off, boff))
				}
				c.StateOf(1, b, off, boff)
				c.Trace(func() string { return desc(d, b, off, boff) + ": " + q.String() })
			}
		})...)
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		for i := range c04Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c04Hist(c, d, depth, i) }})
		}
	}
	return u
}

// refusable lists calls of which the checked buffer of capacity cap with the given cursors refuses many.
func refusable(d impl.Desc, cap, off, boff int64) []Op {
	var out []Op
	ext := []int64{-1, -2, -8, -64, minI, minI + 7, maxI, maxI - 1, maxI - 7, 1 << 31, 1 << 32, 1 << 61, 1 << 62, 1<<62 + 1, -1 << 62}
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		limit, cur := cap, off
		if a.Bits {
			limit, cur = cap*8, boff
		}
		offs := append([]int64{0, 1, limit - 9, limit - 2, limit - 1, limit, limit + 1, limit + 7}, ext...)
		for k, p := range append(offs, cur) {
			o := t
			o.Off = p
			if k == len(offs) {
				o.Off, o.Next = 0, true
			}
			if !counted(t.K) {
				out = append(out, o)
				continue
			}
			w := a.W
			if w < 1 {
				w = 1
			}
			fit := (limit - p) / w
			if p < -1000 || p > 1000 {
				fit = 3
			}
			var ns []int64
			for _, n := range []int64{0, 1, 2, fit - 1, fit, fit + 1, fit + 2, fit + 9, -1, -7} {
				dup := false
				for _, m := range ns {
					dup = dup || m == n
				}
				if !dup {
					ns = append(ns, n)
				}
			}
			if !bySlice(t.K) {
				for _, e := range ext {
					if e < 0 || e > 1<<40 {
						ns = append(ns, e)
					}
				}
			}
			for _, n := range ns {
				if n < 0 && bySlice(t.K) || n > 100 && bySlice(t.K) {
					continue
				}
				if a.Bits && n > 64 && p >= 0 && n <= limit-p {
					continue // accepted, but its effect is not specified
				}
				out = append(out, sized(o, n, 5))
			}
		}
	}
	for _, v := range []uint64{2, 3, 0x80, 0xFF} {
		for _, o := range forms(Op{K: impl.KPutBit, Data: v}) {
			out = append(out, filter(d, o)...)
		}
		out = append(out, filter(d, Op{K: impl.KPutBit, Data: v, Off: cap*8 - 1}, Op{K: impl.KPutBit, Data: v, Off: cap * 8})...)
	}
	if d.Ver == 1 {
		for _, w := range []int{0, 3, 5, 7, 9, 16, -1} {
			for _, be := range []bool{false, true} {
				n := impl.Num{K: 'C', W: w, BE: be}
				for _, k := range []impl.Kind{impl.KReadNum, impl.KWriteNum} {
					for _, o := range forms(Op{K: k, Num: n}) {
						for _, cnt := range []int64{0, 1, 2} {
							out = append(out, sized(o, cnt, 1))
						}
					}
				}
			}
		}
		for _, w := range []int{1, 2, 4, 8, 3} {
			for data := uint64(0); data < 3; data++ {
				out = append(out, forms(Op{K: impl.KComplexBad, Num: impl.Num{K: 'C', W: w}, Data: data})...)
			}
		}
	}
	for _, n := range []int64{-1, -2, -cap, -cap - 1, minI, minI + 1, -1 << 32, maxI, maxI - 1, maxI - cap, 1 << 62, 1 << 56} {
		if n != 0 {
			out = append(out, Op{K: impl.KGrow, N: n})
		}
	}
	for _, k := range []impl.Kind{impl.KTruncL, impl.KTruncR} {
		for _, n := range []int64{-1, -2, minI, cap + 1, cap + 2, cap + 100, maxI, 1 << 32, 1 << 62} {
			out = append(out, filter(d, Op{K: k, N: n})...)
		}
	}
	return out
}

// refuse runs o on x; if x refuses it, the state must be as before. It says whether o was refused.
func refuse(c *Ctx, x impl.Inst, o *Op, ctx func() []string) bool {
	pre := c.Obs(x).Copy()
	var r impl.Ret
	c.DoR(x, o, &r)
	if !r.Panicked {
		return false
	}
	if impl.ErrClass(r.Panic) == "deadlock" {
		c.Fail(fmt.Sprintf("%s: %s", o, impl.PanicText(&r)), ctx()...)
	}
	post := c.Obs(x)
	if !pre.Same(&post) {
		c.Fail(fmt.Sprintf("%s was refused (%s), but changed the buffer: %s (before vs after)", o, impl.PanicText(&r), pre.Diff(post)), ctx()...)
	}
	if r.Arg {
		c.Fail(fmt.Sprintf("%s was refused, but changed its argument", o), ctx()...)
	}
	if s := lockable(c, x); s != "" {
		c.Fail(fmt.Sprintf("after %s was refused (%s): %s", o, impl.PanicText(&r), s), ctx()...)
	}
	return true
}

func c04Single(c *Ctx, d impl.Desc, b build) {
	cap := int64(b.cap)
	type cur struct{ off, boff int64 }
	curs := []cur{{0, 0}, {cap, cap * 8}, {cap - 1, cap*8 - 3}, {-1, -1}, {cap + 2, cap*8 + 5}, {maxI, maxI}, {minI, minI}, {1, 3}}
	follow := everyOp(d, 2)
	for _, q := range curs {
		c.State()
		fresh := func() impl.Inst { x := b.mk(d); place(x, q.off, q.boff); return x }
		for i, o := range refusable(d, cap, q.off, q.boff) {
			o := o
			ctx := func() []string {
				return []string{fmt.Sprintf("%s %s, byte cursor %d, bit cursor %d", d, b.name, q.off, q.boff), o.String()}
			}
			x := fresh()
			if !refuse(c, x, &o, ctx) {
				continue
			}
			// twice in a row is as good as once
			refuse(c, x, &o, ctx)
			if !c.Thorough() && (q.off > cap || q.off < -1 || q.off == cap-1 && cap > 2) {
				continue
			}
			y := fresh()
			for j := range follow {
				if s := twins(c, x, y, &follow[(i+j)%len(follow)]); s != "" {
					c.Fail("after the refused call, "+s+" (with the refused call vs without)", append(ctx(), "then up to "+follow[(i+j)%len(follow)].String())...)
				}
			}
			c.Trace(func() string { return fmt.Sprint(ctx(), " then all operations") })
			if q.off > 4 && q.off != cap || q.off < 0 && q.off != -1 {
				continue
			}
			if !c.Thorough() && (q != cur{1, 3} || cap > 5) {
				continue
			}
			for j := range follow {
				x, y := fresh(), fresh()
				c.Do(x, &o)
				if s := twins(c, x, y, &follow[j]); s != "" {
					c.Fail("after the refused call, "+s+" (with the refused call vs without)", append(ctx(), follow[j].String())...)
				}
				c.Trace(func() string { return fmt.Sprint(ctx(), " then ", &follow[j]) })
			}
		}
	}
}

func c04Long(c *Ctx, d impl.Desc) {
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		if !counted(t.K) || !a.Write {
			continue
		}
		for _, n := range thresholds {
			if a.Bits && n > 4100 || n == 0 {
				continue
			}
			size := n * int(a.W)
			if a.Bits {
				size = n / 8
			}
			for short := 1; short <= 9 && short <= size; short++ {
				o := sized(t, int64(n), 2)
				if a.Bits {
					o.Off = int64(size)*8 - int64(n) + int64(short)
				} else {
					o.Off = 1
				}
				mem := fill(size-short+1, 3)
				if a.Bits {
					mem = fill(size, 3)
				}
				for _, o := range forms(o) {
					x := impl.New(d, clone(mem))
					if a.Bits {
						place(x, 0, int64(size)*8-int64(n)+int64(short))
					} else {
						place(x, 1, 0)
					}
					c.State()
					if !refuse(c, x, &o, func() []string { return []string{fmt.Sprintf("%s over %d bytes", d, len(mem)), o.String()} }) {
						continue
					}
					c.Trace(func() string { return fmt.Sprintf("%s over %d bytes: %s", d, len(mem), &o) })
				}
			}
		}
	}
}

func c04Alphabet(d impl.Desc) []Op {
	n4, n8 := num(d, 4, true), num(d, 8, false)
	return filter(d,
		Op{K: impl.KWriteByte, Next: true, Data: 0x11}, Op{K: impl.KReadByte, Next: true},
		sized(Op{K: impl.KWriteBytes, Next: true}, 3, 1), sized(Op{K: impl.KWriteBytes, Next: true}, 9, 1),
		sized(Op{K: impl.KReadBytes, Next: true}, 3, 1), sized(Op{K: impl.KReadBytes, Next: true}, -1, 1),
		sized(Op{K: impl.KWriteNum, Num: n4, Next: true}, 1, 1), sized(Op{K: impl.KWriteNum, Num: n8, Next: true}, 1, 1), sized(Op{K: impl.KReadNum, Num: n4, Next: true}, 1, 1),
		Op{K: impl.KSetBits, Data: 0x2A5, N: 11, Next: true}, Op{K: impl.KReadBits, N: 11, Next: true}, Op{K: impl.KSetBits, Data: 0x1F, N: 7, Off: 34}, Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KPutBit, Data: 2, Next: true}, Op{K: impl.KPutBit, Data: 1, Off: 40},
		Op{K: impl.KSeekByte, Off: 3}, Op{K: impl.KSeekByte, Off: -1}, Op{K: impl.KSeekBit, Off: 35}, Op{K: impl.KAlignByte},
		Op{K: impl.KGrow, N: 2}, Op{K: impl.KGrow, N: -1}, Op{K: impl.KGrow, N: maxI}, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncR, N: 6}, Op{K: impl.KTruncL, N: -1}, Op{K: impl.KReset},
		Op{K: impl.KComplexBad, Num: impl.Num{K: 'C', W: 4}, Data: 2, Next: true}, sized(Op{K: impl.KReadNum, Num: impl.Num{K: 'C', W: 3}}, 1, 1), Op{K: impl.KFlipAll})
}

// c04Hist: in every history, dropping the refused calls changes nothing.
func c04Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c04Alphabet(d)
	follow := everyOp(d, 3)
	sequences(len(alpha), depth, []int{first}, func(idx []int) {
		x, y := impl.New(d, fill(5, 1)), impl.New(d, fill(5, 1))
		c.State()
		h := hist{d: d, start: d.String() + " over 5 bytes"}
		refused := 0
		for _, i := range idx {
			o := alpha[i]
			h.ops = append(h.ops, o)
			if refuse(c, x, &o, h.steps) {
				refused++
				continue
			}
			// x already took it: y follows and must agree
			c.Do(y, &o)
			if s := same2(c, x, y, &o); s != "" {
				c.Fail("with the refused calls vs without them: "+s, h.steps()...)
			}
		}
		if refused == 0 {
			return
		}
		for j := range follow {
			if s := twins(c, x, y, &follow[j]); s != "" {
				c.Fail("with the refused calls vs without them: "+s, append(h.steps(), "then up to "+follow[j].String())...)
			}
		}
		c.Trace(h.String)
	})
}
