package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C10",
		Bounds: "every version: every access kind, number type and form at every position and fitting count (bits: up to 80) on capacities 0 to 9 and 17 (thorough 0 to 20), from cursors inside, at and outside the buffer; counts and capacity changes 31 to 300 and around powers of two and ten to 2^16; positions around 2^24 and 2^32; all special values (as in C01) of every number type, byte values, bits that differ in one from zeros or ones; pairs of 100 byte and 100 bit cursors, 64-bit extremes included, before operations on cursors and size; every way of construction up to 3 slices; all histories of depth 3 over every operation and of depth 5 (thorough 6) over a mix of accesses, cursor moves and capacity changes, each run on the checked and on the mini buffer in lockstep",
		Units:  c10Units})
}

// pairRun is a pair of buffers on which the same history runs.
type pairRun struct {
	c    *Ctx
	x, y impl.Inst
	h    hist
}

func newPair(c *Ctx, a, b impl.Desc, n, room int) *pairRun {
	mem := fill(n+room, 1)
	mem2 := clone(mem)
	return &pairRun{c: c, x: impl.New(a, mem[:n:n+room]), y: impl.New(b, mem2[:n:n+room]),
		h: hist{d: a, start: fmt.Sprintf("%s and %s over %d bytes with room for %d", a, b, n, room)}}
}

// newPairOver is a pair of buffers with the given contents.
func newPairOver(c *Ctx, a, b impl.Desc, mem []byte) *pairRun {
	return &pairRun{c: c, x: impl.New(a, mem), y: impl.New(b, clone(mem)), h: hist{d: a, start: fmt.Sprintf("%s and %s over %x", a, b, mem)}}
}

// cursors places the cursors of both.
func (p *pairRun) cursors(off, boff int64) {
	place(p.x, off, boff)
	place(p.y, off, boff)
	p.h.ops = append(p.h.ops, Op{K: impl.KSeekByte, Off: off}, Op{K: impl.KSeekBit, Off: boff})
}

// both runs o on the first buffer and, if that accepts it, on the second; it is false if it was not accepted.
func (p *pairRun) both(o *Op) bool {
	if p.x.Desc().Mini { // it accepts everything, and only valid requests are specified
		return p.lock(o)
	}
	var r, s impl.Ret
	p.c.DoR(p.x, o, &r)
	if r.Panicked {
		return false
	}
	p.h.ops = append(p.h.ops, *o)
	r.B = clone(r.B)
	p.c.DoR(p.y, o, &s)
	if d := impl.RetDiff(&r, &s); d != "" {
		p.c.Fail(fmt.Sprintf("%s: %s (%s vs %s)", o, d, p.x.Desc(), p.y.Desc()), p.h.steps()...)
	}
	if d := same2(p.c, p.x, p.y, o); d != "" {
		p.c.Fail(fmt.Sprintf("%s (%s vs %s)", d, p.x.Desc(), p.y.Desc()), p.h.steps()...)
	}
	return true
}

func c10Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth, caps := 5, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17}
	if tier == "thorough" {
		depth = 6
		caps = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
	}
	for _, d := range impl.Checked {
		d := d
		mini := impl.Desc{Ver: d.Ver, Mini: true}
		for _, cap := range caps {
			cap := cap
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s capacity %d", d, cap), Run: func(c *Ctx) { c10Single(c, d, mini, cap) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " counts", Run: func(c *Ctx) { c10Counts(c, d, mini) }},
			engine.Unit{Name: d.String() + " large positions", Run: func(c *Ctx) { c10Large(c, d, mini) }},
			engine.Unit{Name: d.String() + " cursors", Run: func(c *Ctx) {
				gridPairs(common(d, mini, cursorOps), func(n int, off, boff int64, o *Op) {
					p := newPair(c, d, mini, n, 0)
					p.cursors(off, boff)
					c.StateOf(n, nil, off, boff)
					if p.both(o) {
						c.Trace(p.h.String)
					}
				})
			}},
			engine.Unit{Name: d.String() + " construction", Run: func(c *Ctx) { c10New(c, d, mini) }})
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			if !mini.Has(o) {
				return
			}
			n, off, boff := cursorOf(o)
			for _, q := range []*Op{o, &n} {
				if q == &n && !model.Range(o).Is {
					break
				}
				p := newPairOver(c, d, mini, clone(b))
				p.cursors(off, boff)
				c.StateOf(1, b, off, boff)
				if p.both(q) {
					c.Trace(p.h.String)
				}
			}
		})...)
		for i := range c10Mix(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s mixed histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c10Hist(c, d, mini, c10Mix(d), depth, i) }})
		}
		for i := range mutating(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth 3 from #%d", d, i), Run: func(c *Ctx) { c10Hist(c, d, mini, mutating(d), 3, i) }})
		}
	}
	return u
}

// common lists the operations that both kinds of d's version offer.
func common(a, b impl.Desc, ops []Op) []Op {
	var out []Op
	for _, o := range ops {
		if a.Has(&o) && b.Has(&o) {
			out = append(out, o)
		}
	}
	return out
}

// mutating lists everyOp without the pure queries and positioned reads (whose results every step's comparison covers).
func mutating(d impl.Desc) []Op {
	var out []Op
	for _, o := range everyOp(d, 3) {
		switch o.K {
		case impl.KBytes, impl.KByteCap, impl.KBitCap, impl.KByteOff, impl.KBitOff, impl.KReadByte:
			continue
		}
		if m := (impl.Desc{Ver: d.Ver, Mini: true}); !m.Has(&o) {
			continue
		}
		out = append(out, o)
	}
	return out
}

func c10Mix(d impl.Desc) []Op {
	return common(d, impl.Desc{Ver: d.Ver, Mini: true}, filter(d,
		Op{K: impl.KSeekByte, Off: 3}, Op{K: impl.KSeekByte, Off: -2, Rel: true}, Op{K: impl.KSeekBit, Off: 11}, Op{K: impl.KSeekBit, Off: -5, Rel: true}, Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte},
		Op{K: impl.KGrow}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KGrow, N: 9}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 2}, Op{K: impl.KReset}, Op{K: impl.KRefresh},
		Op{K: impl.KSetAll}, Op{K: impl.KFlipAll},
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 9), sized(Op{K: impl.KWriteBytes, Off: 1}, 3, 8), sized(Op{K: impl.KReadBytes, Next: true}, 3, 0), sized(Op{K: impl.KReadBytes, Next: true}, 0, 0),
		sized(Op{K: impl.KWriteNum, Num: num(d, 2, true), Next: true}, 2, 4), sized(Op{K: impl.KReadNum, Num: num(d, 4, false), Next: true}, 1, 0), sized(Op{K: impl.KWriteNum, Num: impl.Num{K: 'C', W: 1, BE: true}, Next: true}, 2, 4),
		sized(Op{K: impl.KReadNum, Num: num(d, 2, false), Off: 1}, 1, 0),
		Op{K: impl.KSetBits, Data: 0x2C5, N: 11, Next: true}, Op{K: impl.KReadBits, N: 13, Next: true}, Op{K: impl.KReadBits, N: 24}, Op{K: impl.KReadBits, N: 67, Off: 1}, Op{K: impl.KSetBits, N: 66, Data: 5, Next: true}, Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KClearBit, Off: 9}, Op{K: impl.KSetBits, Data: 5, N: 3, Off: 22}))
}

func c10Hist(c *Ctx, a, b impl.Desc, alpha []Op, depth, first int) {
	for _, n := range []int{5, 9} {
		if depth > 4 && n == 9 {
			continue
		}
		sequences(len(alpha), depth, []int{first}, func(idx []int) {
			p := newPair(c, a, b, n, 3*(idx[0]&1))
			for _, i := range idx {
				if !p.both(&alpha[i]) {
					return // its other part is explored as shorter histories
				}
			}
			st := c.Obs(p.x)
			c.StateOf(n, st.B, st.Off, st.Boff)
			c.Trace(p.h.String)
		})
	}
}

// cursorsAround places a cursor for the relative form of o and returns the operations that do so.
func c10Single(c *Ctx, a, b impl.Desc, cap int) {
	run := func(off, boff int64, o *Op) {
		p := newPair(c, a, b, cap, 0)
		p.cursors(off, boff)
		c.StateOf(cap, nil, off, boff)
		if p.both(o) {
			c.Trace(p.h.String)
		}
	}
	for _, t := range accessKinds(a) {
		if !b.Has(&t) {
			continue
		}
		r := model.Range(&t)
		limit := int64(cap)
		if r.Bits {
			limit *= 8
		}
		w := r.W
		if w < 1 {
			w = 1
		}
		for pos := int64(0); pos <= limit; pos++ {
			ns := []int64{1}
			if counted(t.K) {
				ns = nil
				for n := int64(0); n <= (limit-pos)/w && n <= 80; n++ {
					ns = append(ns, n)
				}
			}
			for _, n := range ns {
				o := t
				if counted(t.K) {
					o = sized(t, n, uint64(n)+3)
				}
				o.Off = pos
				run(1, 3, &o)
				o.Off, o.Next = 0, true
				if r.Bits {
					run(-4, pos, &o)
				} else {
					run(pos, -4, &o)
				}
			}
		}
	}
	curs := []int64{-100, -9, -8, -1, 0, 1, 2, 7, 8, 9, int64(cap) - 1, int64(cap), int64(cap) + 1, int64(cap)*8 - 1, int64(cap) * 8, 1 << 31, 1 << 32, 1 << 40}
	var ops []Op
	for _, p := range curs {
		ops = append(ops, Op{K: impl.KSeekByte, Off: p}, Op{K: impl.KSeekByte, Off: p, Rel: true}, Op{K: impl.KSeekBit, Off: p}, Op{K: impl.KSeekBit, Off: p, Rel: true}, Op{K: impl.KAfterByte, Off: p}, Op{K: impl.KAfterBit, Off: p})
	}
	for n := int64(0); n <= int64(cap)+3; n++ {
		ops = append(ops, Op{K: impl.KGrow, N: n}, Op{K: impl.KTruncL, N: n}, Op{K: impl.KTruncR, N: n})
	}
	for _, k := range []impl.Kind{impl.KAlignBit, impl.KAlignByte, impl.KAfterByte, impl.KAfterBit, impl.KByteOff, impl.KBitOff, impl.KByteCap, impl.KBitCap, impl.KBytes, impl.KRefresh, impl.KReset, impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
		ops = append(ops, Op{K: k, Rel: true})
	}
	ops = common(a, b, ops)
	for _, off := range curs {
		for _, boff := range curs {
			for i := range ops {
				run(off, boff, &ops[i])
			}
		}
	}
}

// cursorOps are operations on the cursors and on the size, all valid on five bytes or more.
var cursorOps = []Op{{K: impl.KAlignBit}, {K: impl.KAlignByte}, {K: impl.KAfterByte, Rel: true}, {K: impl.KAfterBit, Rel: true}, {K: impl.KRefresh}, {K: impl.KGrow}, {K: impl.KGrow, N: 1}, {K: impl.KTruncL, N: 1}, {K: impl.KTruncR, N: 1}, {K: impl.KReset},
	{K: impl.KSeekByte, Off: 1, Rel: true}, {K: impl.KSeekByte, Off: -20, Rel: true}, {K: impl.KSeekBit, Off: 9, Rel: true}, {K: impl.KSeekBit, Off: -70, Rel: true}, {K: impl.KFlipAll}, {K: impl.KReadBits, N: 3, Off: 2}, {K: impl.KReadBytes, N: 2}}

// gridPairs calls f with every one of ops from pairs of cursors that may be anywhere.
func gridPairs(ops []Op, f func(n int, off, boff int64, o *Op)) {
	for _, n := range []int{5, 8, 19} {
		for _, off := range cursorGrid(int64(n)) {
			for _, boff := range cursorGrid(8 * int64(n)) {
				if off != 0 && boff != 0 && (off^boff)%5 != 0 && off*8 != boff && n != 5 {
					continue
				}
				for i := range ops {
					f(n, off, boff, &ops[i])
				}
			}
		}
	}
}

func c10Counts(c *Ctx, a, b impl.Desc) {
	for _, n := range thresholds {
		for _, t := range accessKinds(a) {
			r := model.Range(&t)
			if !counted(t.K) || r.Bits || !b.Has(&t) {
				continue
			}
			w := int(r.W)
			for _, next := range []bool{false, true} {
				p := newPair(c, a, b, n*w+3, 0)
				o := sized(t, int64(n), 7)
				o.Off, o.Next = 2, next
				if next {
					o.Off = 0
				}
				p.both(&o)
				c.Trace(func() string { return p.h.start + ": " + o.String()[:20] })
			}
		}
		for _, m := range []int{0, 1, 9, n} {
			for _, room := range []int{0, n / 2, 2 * n} {
				for _, k := range []impl.Kind{impl.KGrow, impl.KTruncL, impl.KTruncR, impl.KFlipAll, impl.KSetAll, impl.KClearAll, impl.KReset} {
					o := Op{K: k, N: int64(m)}
					if !a.Has(&o) || !b.Has(&o) {
						continue
					}
					p := newPair(c, a, b, n, room)
					o2 := Op{K: impl.KGrow, N: int64(n)}
					if p.both(&o) && p.both(&o2) {
						p.both(&Op{K: impl.KFlipAll})
						p.both(&o)
					}
					c.StateOf(m, nil, int64(n), int64(room))
					c.Trace(func() string { return p.h.String() })
				}
			}
		}
	}
}

func c10Large(c *Ctx, a, b impl.Desc) {
	largeTwins(c, a, b, func(o Op) (Op, bool) { return o, b.Has(&o) })
}

// largeTwins compares accesses of a with those that tr makes of them for b, at large positions.
func largeTwins(c *Ctx, a, b impl.Desc, tr func(Op) (Op, bool)) {
	mem := big()
	if mem == nil {
		c.Notes = append(c.Notes, "no address space for the large-position unit: skipped")
		return
	}
	x, y := impl.New(a, mem), impl.New(b, mem)
	for _, t := range accessKinds(a) {
		if _, ok := tr(t); !ok {
			continue
		}
		for _, k := range []uint{8, 16, 24, 28, 29, 31, 32} {
			for delta := int64(-9); delta <= 1; delta++ {
				base := int64(1)<<k + delta
				o := t
				if counted(t.K) {
					o = sized(t, 2, uint64(delta+20))
					if model.Range(&o).Bits {
						o.N = 11
					}
				}
				pos := base
				if model.Range(&o).Bits {
					pos *= 8
				}
				for _, next := range []bool{false, true} {
					o.Off, o.Next = pos, next
					ws := bigWindows(base)
					set := func() {
						for i, w := range ws {
							copy(mem[w[0]:w[1]], fill(int(w[1]-w[0]), uint64(i)+uint64(pos)))
						}
					}
					var rets [2]impl.Ret
					var after [2][]byte
					var curs [2][2]int64
					for i, z := range []impl.Inst{x, y} {
						set()
						for _, k := range []impl.Kind{impl.KSeekByte, impl.KSeekBit} {
							q := Op{K: k}
							if next {
								q.Off = pos
							}
							c.Do(z, &q)
						}
						q := o
						if i == 1 {
							q, _ = tr(o)
						}
						c.DoR(z, &q, &rets[i])
						rets[i].B = clone(rets[i].B)
						for _, w := range ws {
							after[i] = append(after[i], mem[w[0]:w[1]]...)
						}
						curs[i] = [2]int64{c.Do(z, &Op{K: impl.KByteOff}).I, c.Do(z, &Op{K: impl.KBitOff}).I}
					}
					c.State()
					if rets[0].Panicked {
						continue
					}
					start := fmt.Sprintf("%s and %s of %d bytes", a, b, len(mem))
					if e := impl.RetDiff(&rets[0], &rets[1]); e != "" {
						c.Fail(fmt.Sprintf("%s at %d: %s", &o, pos, e), start)
					}
					if string(after[0]) != string(after[1]) || curs[0] != curs[1] {
						c.Fail(fmt.Sprintf("%s at %d has different effects (cursors %v and %v)", &o, pos, curs[0], curs[1]), start)
					}
					c.Trace(func() string { return fmt.Sprintf("%s: %s at %d", start, &o, pos) })
				}
			}
		}
	}
}

// c10New: every way of construction, followed by some operations.
func c10New(c *Ctx, a, b impl.Desc) {
	shapes := []int{-1, 0, 1, 2, 5, 64, 1000}
	for k := 0; k <= 3; k++ {
		sequences(len(shapes), k, nil, func(idx []int) {
			mkArgs := func() (s [][]byte) {
				for i, j := range idx {
					if n := shapes[j]; n >= 0 {
						s = append(s, fill(n, uint64(i)))
					} else {
						s = append(s, nil)
					}
				}
				return
			}
			ops := append([]Op{{K: impl.KRefresh}, {K: impl.KGrow, N: 9}}, common(a, b, everyOp(a, 5))...)
			for skip := 0; skip < 2; skip++ {
				p := &pairRun{c: c, x: impl.New(a, mkArgs()...), y: impl.New(b, mkArgs()...), h: hist{start: fmt.Sprintf("%s and %s from slices of %v", a, b, idx)}}
				if s := same2(c, p.x, p.y, &Op{K: impl.KRefresh}); s != "" {
					c.Fail("construction: "+s, p.h.start)
				}
				c.StateOf(k, nil, int64(len(idx)), int64(skip))
				for i := range ops[skip*2:] {
					p.both(&ops[skip*2+i])
				}
				c.Trace(func() string { return p.h.start })
			}
		})
	}
}
