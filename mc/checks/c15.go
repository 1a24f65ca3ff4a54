package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)

func init() {
	register(engine.Check{Prop: "C15",
		Bounds: "every mini buffer and every operation with an output argument: all positions and fitting counts on capacities 0 to 9 and 17, in both forms, with outputs of zero value compared with outputs holding every other kind of previous value (all ones, patterns, single bits, for slices also 1, 2 or 70 further elements, for v1's interface values of every type, nil included); construction through pointers that already point to a buffer, from all small slice shapes; all histories of depth 5 (thorough 6) in which every operation uses the same output variables, live views left in them included, compared with fresh outputs; all special values (as in C01) of every number type, byte values, bits that differ in one from zeros or ones; counts 31 to 300 and around powers of two and ten to 2^16",
		Units:  c15Units})
}

func c15Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth, caps := 5, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17}
	if tier == "thorough" {
		depth = 6
		caps = append(caps, 10, 11, 12, 13, 14, 15, 16, 18, 24, 33)
	}
	for _, d := range impl.Minis {
		d := d
		for _, cap := range caps {
			cap := cap
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s capacity %d", d, cap), Run: func(c *Ctx) { c15Single(c, d, cap) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " counts", Run: func(c *Ctx) { c15Counts(c, d) }},
			engine.Unit{Name: d.String() + " construction", Run: func(c *Ctx) { c15New(c, d) }})
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			if hasOutput(o) {
				n, off, boff := cursorOf(o)
				pre := c15Pre(d, o)
				if len(pre) > 4 {
					pre = []prefill{pre[0], pre[len(pre)/2], {^uint64(0), 0}}
				}
				c15Compare(c, d, b, off, boff, o, pre)
				c15Compare(c, d, b, off, boff, &n, pre[:2])
			}
		})...)
		for i := range c15Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s shared outputs depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c15Hist(c, d, depth, i) }})
		}
	}
	return u
}

type prefill struct {
	pre   uint64
	extra int
}

// c15Pre lists previous values of the output of o.
func c15Pre(d impl.Desc, o *Op) []prefill {
	var p []prefill
	switch {
	case o.K == impl.KReadNum && d.Ver == 1:
		for v := uint64(1); v <= 4; v++ {
			p = append(p, prefill{v, 0})
		}
	case o.K == impl.KReadNum:
		for _, v := range []uint64{0, ^uint64(0), 0xA5A5A5A5A5A5A5A5, 1, 1 << 63} {
			for _, e := range []int{0, 1, 2, 70} {
				if v != 0 || e != 0 {
					p = append(p, prefill{v, e})
				}
			}
		}
	case o.K == impl.KReadBytes || o.K == impl.KBytes:
		for _, v := range []uint64{1, 0xFF, 0xA5} {
			for _, e := range []int{0, 1, 8, 70} {
				p = append(p, prefill{v, e})
			}
		}
	default:
		p = append(p, prefill{^uint64(0), 0}, prefill{0xA5A5A5A5A5A5A5A5, 0}, prefill{1, 0}, prefill{2, 0}, prefill{0x80, 0}, prefill{1 << 31, 0}, prefill{1 << 32, 0}, prefill{1 << 63, 0}, prefill{0x7FFFFFFFFFFFFFFF, 0})
	}
	return p
}

// outputs lists the operations with an output argument.
func hasOutput(o *Op) bool {
	switch o.K {
	case impl.KReadBytes, impl.KReadNum, impl.KReadBit, impl.KReadBits, impl.KBytes, impl.KByteCap, impl.KBitCap, impl.KByteOff, impl.KBitOff, impl.KAfterByte, impl.KAfterBit:
		return true
	}
	return false
}

// c15Compare runs o with a zero output on x and with every other one on y; both have the same state.
func c15Compare(c *Ctx, d impl.Desc, b []byte, off, boff int64, o *Op, pre []prefill) {
	x := mk(d, b, off, boff)
	var r impl.Ret
	c.DoR(x, o, &r)
	if r.Panicked {
		return // refusing is not this property's business
	}
	r.B = clone(r.B)
	c.StateOf(int(o.K), b, off, boff)
	for _, p := range pre {
		q := *o
		q.Pre, q.Extra = p.pre, p.extra
		y := mk(d, b, off, boff)
		var s impl.Ret
		c.DoR(y, &q, &s)
		fail := func(what string) {
			c.Fail(fmt.Sprintf("%s: %s", &q, what), desc(d, b, off, boff), o.String()+" with a zero output", q.String())
		}
		if q.K == impl.KReadNum && d.Ver > 1 && !s.Panicked {
			n := len(r.U)
			if len(s.U) != n+q.Extra {
				fail(fmt.Sprintf("the output has %d elements, not %d", len(s.U), n+q.Extra))
			}
			for i, v := range s.U[n:] {
				if v != q.Pre&impl.Mask(q.Num.W) {
					fail(fmt.Sprintf("element %d of the output, beyond the %d requested, was changed to %#x", n+i, n, v))
				}
			}
			s.U = s.U[:n]
		}
		if e := impl.RetDiff(&r, &s); e != "" {
			fail(e + " (zero output vs prefilled)")
		}
		sx, sy := c.Obs(x), c.Obs(y)
		if !sx.Same(&sy) {
			fail("state " + sx.Diff(sy) + " (zero output vs prefilled)")
		}
		c.Trace(func() string { return desc(d, b, off, boff) + ": " + q.String() })
	}
}

func c15Single(c *Ctx, d impl.Desc, cap int) {
	for _, mem := range [][]byte{fill(cap, 3), make([]byte, cap), same(cap, 0xFF)} {
		for _, t := range accessKinds(d) {
			if !hasOutput(&t) {
				continue
			}
			r := model.Range(&t)
			limit, w := int64(cap), r.W
			if r.Bits {
				limit *= 8
			}
			if w < 1 {
				w = 1
			}
			for pos := int64(0); pos <= limit; pos++ {
				ns := []int64{1}
				if counted(t.K) {
					ns = nil
					for n := int64(0); n <= (limit-pos)/w && n <= 64; n++ {
						ns = append(ns, n)
					}
				} else if pos+w > limit {
					continue
				}
				for _, n := range ns {
					o := t
					o.N, o.Off = n, pos
					c15Compare(c, d, mem, 1, 2, &o, c15Pre(d, &o))
					o.Off, o.Next = 0, true
					off, boff := pos, int64(3)
					if r.Bits {
						off, boff = 2, pos
					}
					c15Compare(c, d, mem, off, boff, &o, c15Pre(d, &o))
				}
			}
		}
		for _, p := range []int64{0, 1, -1, 5, int64(cap), int64(cap) * 8, 1 << 40, -1 << 40} {
			for _, k := range []impl.Kind{impl.KBytes, impl.KByteCap, impl.KBitCap, impl.KByteOff, impl.KBitOff, impl.KAfterByte, impl.KAfterBit} {
				c15Compare(c, d, mem, p, p+1, &Op{K: k, Rel: true}, c15Pre(d, &Op{K: k}))
				if k == impl.KAfterByte || k == impl.KAfterBit {
					c15Compare(c, d, mem, 3, 4, &Op{K: k, Off: p}, c15Pre(d, &Op{K: k}))
				}
			}
		}
	}
}

func c15Counts(c *Ctx, d impl.Desc) {
	for _, n := range thresholds {
		for _, t := range accessKinds(d) {
			if !hasOutput(&t) || !counted(t.K) || model.Range(&t).Bits {
				continue
			}
			o := t
			o.N, o.Off = int64(n), 1
			if n > 9000 && !c.Thorough() && o.Num.BE {
				continue
			}
			mem := fill(n*int(model.Range(&o).W)+2, uint64(n))
			x := mk(d, mem, 0, 0)
			var r impl.Ret
			c.DoR(x, &o, &r)
			c.StateOf(n, nil, int64(o.K), int64(o.Num.W))
			for _, p := range []prefill{{^uint64(0), 0}, {3, 1}, {0xA5A5A5A5A5A5A5A5, 100}} {
				q := o
				q.Pre, q.Extra = p.pre, p.extra
				if d.Ver == 1 && o.K == impl.KReadNum {
					q.Extra = 0
				}
				y := mk(d, mem, 0, 0)
				var s impl.Ret
				c.DoR(y, &q, &s)
				if len(s.U) > len(r.U) {
					for i, v := range s.U[len(r.U):] {
						if v != q.Pre&impl.Mask(q.Num.W) {
							c.Fail(fmt.Sprintf("%s changed element %d of the output, beyond those requested", &q, i+len(r.U)), desc(d, mem, 0, 0))
						}
					}
					s.U = s.U[:len(r.U)]
				}
				if e := impl.RetDiff(&r, &s); e != "" {
					c.Fail(fmt.Sprintf("%s: %s", &q, e), desc(d, mem, 0, 0))
				}
				if e := same2(c, x, y, &q); e != "" {
					c.Fail(e, desc(d, mem, 0, 0))
				}
				c.Trace(func() string { return desc(d, mem[:4], 0, 0) + "...: " + q.String() })
			}
		}
	}
}

// c15New: construction through a pointer that already points to a buffer, or to nil.
func c15New(c *Ctx, d impl.Desc) {
	shapes := []int{-1, 0, 1, 3, 17}
	args := func(idx []int) (s [][]byte) {
		for i, j := range idx {
			if n := shapes[j]; n >= 0 {
				s = append(s, fill(n, uint64(i)))
			} else {
				s = append(s, nil)
			}
		}
		return
	}
	ops := append(filter(d, Op{K: impl.KGrow, N: 12}), everyOp(d, 4)...)
	for k := 0; k <= 3; k++ {
		sequences(len(shapes), k, nil, func(idx []int) {
			for _, oldN := range []int{0, 2, 40} {
				for _, touched := range []bool{false, true} {
					oldMem := fill(oldN, 77)
					old := impl.New(d, oldMem)
					if touched {
						place(old, 7, 19)
						var r impl.Ret
						old.Do(&Op{K: impl.KGrow, N: 30}, &r)
						old.Do(&Op{K: impl.KLock}, &r) // the lock, too, is part of the previous value (v1 and v2)
					}
					before := c.Obs(old).Copy()
					x := impl.Reinit(d, old, args(idx)...)
					y := impl.New(d, args(idx)...)
					steps := []string{fmt.Sprintf("NewMiniBuffer (%s) with slices of %v through a pointer to a buffer of %d bytes (used=%v)", d, idx, oldN, touched)}
					if s := same2(c, x, y, &Op{K: impl.KRefresh}); s != "" {
						c.Fail("construction through a used pointer vs through nil: "+s, steps...)
					}
					if s := lockable(c, x); s != "" {
						c.Fail("the lock of a buffer made through a used pointer: "+s, steps...)
					}
					for i := range ops {
						m := c.Obs(y).Copy()
						if out := model.Apply(d, &model.S{B: m.B, Off: m.Off, Boff: m.Boff}, &ops[i]); out.V == model.Unspec {
							continue
						}
						steps = append(steps, ops[i].String())
						if s := twins(c, x, y, &ops[i]); s != "" {
							c.Fail(s+" (made through a used pointer vs through nil)", steps...)
						}
					}
					if x.Ptr() != old.Ptr() { // a new value: the old one must not have been disturbed
						if st := c.Obs(old); !st.Same(&before) {
							c.Fail("the buffer that the pointer had pointed to changed: "+st.Diff(before), steps...)
						}
					}
					c.StateOf(k, nil, int64(oldN), int64(len(idx)))
					c.Trace(func() string { return steps[0] })
				}
			}
		})
	}
}

// outs are output variables that live through a history.
type outs struct {
	b   byte
	u   uint64
	i   int64
	s   []byte
	any any
	u16 []uint16
	u32 []uint32
	u64 []uint64
	i32 []int32
	f64 []float64
}

func fresh() *outs {
	return &outs{u16: make([]uint16, 4), u32: make([]uint32, 4), u64: make([]uint64, 4), i32: make([]int32, 4), f64: make([]float64, 4)}
}

// c15Act is an operation whose output goes to the given variables; it returns what was stored.
type c15Act struct {
	name string
	op   *Op // without output
	run  func(x impl.Inst, o *outs) any
}

func c15Alphabet(d impl.Desc) []c15Act {
	var out []c15Act
	add := func(ops ...Op) {
		for _, o := range filter(d, ops...) {
			o := o
			out = append(out, c15Act{name: o.String(), op: &o})
		}
	}
	act := func(name string, f func(x impl.Inst, o *outs) any) { out = append(out, c15Act{name, nil, f}) }
	add(sized(Op{K: impl.KWriteBytes, Off: 2}, 2, 9), Op{K: impl.KFlipAll}, sized(Op{K: impl.KWriteBytes, Next: true}, 3, 4), Op{K: impl.KGrow, N: 2}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KSeekByte}, Op{K: impl.KSeekBit, Off: 4})
	switch d.Ver {
	case 1:
		m := func(x impl.Inst) *v1.MiniBuffer { return x.Ptr().(*v1.MiniBuffer) }
		act("ReadBytes(&s,0,4)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 0, 4); return o.s })
		act("ReadBytes(&s,1,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 1, 2); return o.s })
		act("ReadBytesNext(&s,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytesNext(&o.s, 2); return o.s })
		act("Bytes(&s)", func(x impl.Inst, o *outs) any { m(x).Bytes(&o.s); return o.s })
		act("ReadBit(&b,3)", func(x impl.Inst, o *outs) any { m(x).ReadBit(&o.b, 3); return o.b })
		act("ReadBits(&u,3,11)", func(x impl.Inst, o *outs) any { m(x).ReadBits(&o.u, 3, 11); return o.u })
		act("ReadBitsNext(&u,6)", func(x impl.Inst, o *outs) any { m(x).ReadBitsNext(&o.u, 6); return o.u })
		for _, sz := range []v1.IntegerSize{v1.Unsigned8, v1.Unsigned16, v1.Unsigned32} {
			sz := sz
			act(fmt.Sprintf("ReadComplex(&any,0,2,%v,LE)", sz), func(x impl.Inst, o *outs) any { m(x).ReadComplex(&o.any, 0, 1, sz, v1.LittleEndian); return o.any })
		}
		act("ReadComplexNext(&any,1,16,BE)", func(x impl.Inst, o *outs) any {
			m(x).ReadComplexNext(&o.any, 1, v1.Unsigned16, v1.BigEndian)
			return o.any
		})
		act("Offset(&i)", func(x impl.Inst, o *outs) any { m(x).Offset(&o.i); return o.i })
	case 2:
		m := func(x impl.Inst) *v2.MiniBuffer { return x.Ptr().(*v2.MiniBuffer) }
		act("ReadBytes(&s,0,4)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 0, 4); return o.s })
		act("ReadBytes(&s,1,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 1, 2); return o.s })
		act("ReadBytesNext(&s,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytesNext(&o.s, 2); return o.s })
		act("Bytes(&s)", func(x impl.Inst, o *outs) any { m(x).Bytes(&o.s); return o.s })
		act("ReadBit(&b,3)", func(x impl.Inst, o *outs) any { m(x).ReadBit(&o.b, 3); return o.b })
		act("ReadBits(&u,3,11)", func(x impl.Inst, o *outs) any { m(x).ReadBits(&o.u, 3, 11); return o.u })
		act("ReadBitsNext(&u,6)", func(x impl.Inst, o *outs) any { m(x).ReadBitsNext(&o.u, 6); return o.u })
		act("ReadU16LE(&u16,0,2)", func(x impl.Inst, o *outs) any { m(x).ReadU16LE(&o.u16, 0, 2); return o.u16[:2] })
		act("ReadU16BENext(&u16,1)", func(x impl.Inst, o *outs) any { m(x).ReadU16BENext(&o.u16, 1); return o.u16[:1] })
		act("ReadU32BE(&u32,0,1)", func(x impl.Inst, o *outs) any { m(x).ReadU32BE(&o.u32, 0, 1); return o.u32[:1] })
		act("ReadU64LE(&u64,0,1)", func(x impl.Inst, o *outs) any { m(x).ReadU64LE(&o.u64, 0, 1); return o.u64[:1] })
		act("Offset(&i)", func(x impl.Inst, o *outs) any { m(x).Offset(&o.i); return o.i })
	case 3:
		m := func(x impl.Inst) *v3.MiniBuffer { return x.Ptr().(*v3.MiniBuffer) }
		act("ReadBytes(&s,0,4)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 0, 4); return o.s })
		act("ReadBytes(&s,1,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytes(&o.s, 1, 2); return o.s })
		act("ReadBytesNext(&s,2)", func(x impl.Inst, o *outs) any { m(x).ReadBytesNext(&o.s, 2); return o.s })
		act("Bytes(&s)", func(x impl.Inst, o *outs) any { m(x).Bytes(&o.s); return o.s })
		act("ReadBit(&b,3)", func(x impl.Inst, o *outs) any { m(x).ReadBit(&o.b, 3); return o.b })
		act("ReadBits(&u,3,11)", func(x impl.Inst, o *outs) any { m(x).ReadBits(&o.u, 3, 11); return o.u })
		act("ReadBitsNext(&u,6)", func(x impl.Inst, o *outs) any { m(x).ReadBitsNext(&o.u, 6); return o.u })
		act("ReadU16LE(&u16,0,2)", func(x impl.Inst, o *outs) any { m(x).ReadU16LE(&o.u16, 0, 2); return o.u16[:2] })
		act("ReadU16BENext(&u16,1)", func(x impl.Inst, o *outs) any { m(x).ReadU16BENext(&o.u16, 1); return o.u16[:1] })
		act("ReadI32BE(&i32,0,1)", func(x impl.Inst, o *outs) any { m(x).ReadI32BE(&o.i32, 0, 1); return o.i32[:1] })
		act("ReadF64LE(&f64,0,1)", func(x impl.Inst, o *outs) any { m(x).ReadF64LE(&o.f64, 0, 1); return impl.RawBits(o.f64[:1]) })
		act("Offset(&i)", func(x impl.Inst, o *outs) any { m(x).ByteOffset(&o.i); return o.i })
	}
	return out
}

// c15Hist: a history whose reads all store into the same variables and one whose reads store into fresh ones.
func c15Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c15Alphabet(d)
	sequences(len(alpha), depth, []int{first}, func(idx []int) {
		x, y := impl.New(d, fill(12, 1)), impl.New(d, fill(12, 1))
		o := fresh()
		var steps []string
		for _, i := range idx {
			a := &alpha[i]
			steps = append(steps, a.name)
			if a.op != nil {
				c.Do(x, a.op)
				c.Do(y, a.op)
			} else {
				c.Trans += 2
				c.Log("%s: %s", d, a.name)
				var r, s string
				if p := catch(func() { r = show15(a.run(x, o)) }); p != "" {
					r = p
				}
				if p := catch(func() { s = show15(a.run(y, fresh())) }); p != "" {
					s = p
				}
				if r != s {
					c.Fail(fmt.Sprintf("%s stored %s into variables used before, %s into fresh ones", a.name, r, s), append([]string{d.String() + " over 12 bytes"}, steps...)...)
				}
			}
			if s := same2(c, x, y, &Op{K: impl.KRefresh}); s != "" {
				c.Fail(fmt.Sprintf("after %s: %s (reads into variables used before vs fresh ones)", a.name, s), append([]string{d.String() + " over 12 bytes"}, steps...)...)
			}
		}
		st := c.Obs(x)
		c.StateOf(0, st.B, st.Off, st.Boff)
		c.Trace(func() string { return fmt.Sprint(d, " over 12 bytes: ", steps) })
	})
}

func catch(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func show15(v any) string { return fmt.Sprintf("%T %v", v, v) }
