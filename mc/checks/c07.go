package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C07",
		Bounds: "every implementation: all histories of depth 4, from one start 5 (thorough 5 and 6), over growing by 0, 1, 3, 8, 40, truncating either side by 0, 1, 2, 5 and everything, resetting, refreshing, whole-buffer and partial writes up to the last bit and cursor moves, from buffers of 0, 3, 8 bytes with and without (dirty) room behind them; each capacity change judged against the state before it, the accounting checked after every step; every pair of size and amount up to 40 and around powers of two; nine sizes with pairs of 100 byte and 100 bit cursors, 64-bit extremes included; 3000 single-byte growths and truncations in a row",
		Units:  c07Units})
}

func c07Alphabet(d impl.Desc) []Op {
	out := filter(d,
		Op{K: impl.KGrow}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 3}, Op{K: impl.KGrow, N: 8}, Op{K: impl.KGrow, N: 40},
		Op{K: impl.KTruncL}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncL, N: 5}, Op{K: impl.KTruncL, N: -99},
		Op{K: impl.KTruncR}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KTruncR, N: 2}, Op{K: impl.KTruncR, N: 5}, Op{K: impl.KTruncR, N: -99},
		Op{K: impl.KReset}, Op{K: impl.KRefresh}, Op{K: impl.KSetAll}, Op{K: impl.KFlipAll},
		sized(Op{K: impl.KWriteBytes, Off: -99}, 3, 9), sized(Op{K: impl.KWriteNum, Num: num(d, 8, false), Off: -99}, 1, 4), Op{K: impl.KSetBits, Data: ^uint64(0), N: 11, Off: -99},
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 9), Op{K: impl.KSeekByte, Off: 4}, Op{K: impl.KSeekBit, Off: 13}, Op{K: impl.KSeekByte, Off: -1}, Op{K: impl.KAlignBit})
	return out
}

// c07Resolve replaces the placeholder -99 by what the current size makes of it: everything, or the end of the buffer.
func c07Resolve(o Op, size int64) Op {
	if o.N == -99 {
		o.N = size
	}
	if o.Off == -99 {
		a := model.Range(&o)
		if a.Bits {
			size *= 8
		}
		o.Off = size - a.N*a.W
	}
	return o
}

func c07Judged(o *Op) bool {
	switch o.K {
	case impl.KGrow, impl.KTruncL, impl.KTruncR, impl.KReset, impl.KRefresh:
		return true
	}
	return false
}

func c07Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	for _, d := range impl.All {
		d := d
		for i := range c07Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c07Hist(c, d, depth, i) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " cursors", Run: func(c *Ctx) { c07Cursors(c, d) }}, engine.Unit{Name: d.String() + " sizes", Run: func(c *Ctx) { c07Sizes(c, d) }},
			engine.Unit{Name: d.String() + " long runs", Run: func(c *Ctx) { c07Runs(c, d) }})
	}
	return u
}

func accounting(c *Ctx, x impl.Inst, h *hist) {
	st := c.Obs(x)
	if n := int64(len(st.B)); st.Cap != n || st.BCap != 8*n {
		c.Fail(fmt.Sprintf("the buffer holds %d bytes, but reports a byte capacity of %d and a bit capacity of %d", n, st.Cap, st.BCap), h.steps()...)
	}
}

func c07Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c07Alphabet(d)
	for _, n := range []int{0, 3, 8} {
		for _, room := range []int{0, 24} {
			depth := depth
			if n == 3 && room > 0 {
				depth++
			}
			sequences(len(alpha), depth, []int{first}, func(idx []int) {
				mem := fill(n+room, 1)
				x := impl.New(d, mem[:n:n+room])
				h := hist{d: d, start: fmt.Sprintf("%s over %d bytes with room for %d", d, n, room)}
				for _, i := range idx {
					st := c.Obs(x)
					m := model.S{B: clone(st.B), Off: st.Off, Boff: st.Boff}
					o := c07Resolve(alpha[i], int64(len(m.B)))
					h.ops = append(h.ops, o)
					if !h.step(c, x, &m, &o, pAll|pNoReject, c07Judged(&o)) {
						return
					}
					accounting(c, x, &h)
					c.StateOf(n+room, m.B, m.Off, m.Boff)
				}
				c.Trace(h.String)
			})
		}
	}
}

// c07Sizes: one capacity change of every amount on every size.
func c07Sizes(c *Ctx, d impl.Desc) {
	amounts := []int{}
	for n := 0; n <= 40; n++ {
		amounts = append(amounts, n)
	}
	amounts = append(amounts, powers...)
	sizes := append([]int(nil), amounts...)
	amounts = append(amounts, 1<<20-1, 1<<20, 1<<20+1)
	for _, n := range sizes {
		for _, a := range amounts {
			if n > 40 && a > 40 && n != a && n != a+1 && n != a-1 && n+a > 1<<17 {
				continue
			}
			for _, room := range []int{0, 1, 7, a, a + 1, 2 * a} {
				if a > 1<<17 && room != 0 && room != a {
					continue
				}
				for _, k := range []impl.Kind{impl.KGrow, impl.KTruncL, impl.KTruncR} {
					o := Op{K: k, N: int64(a)}
					if !d.Has(&o) || k != impl.KGrow && (a > n || room > 7) {
						continue
					}
					mem := same(n+room, 0xEE)
					copy(mem, fill(n, 1))
					x := impl.New(d, mem[:n:n+room])
					place(x, 3, 11)
					m := model.S{B: clone(mem[:n]), Off: 3, Boff: 11}
					h := hist{d: d, start: fmt.Sprintf("%s over %d bytes with room for %d, byte cursor 3, bit cursor 11", d, n, room), ops: []Op{o}}
					c.StateOf(room, mem[:min(n, 8)], int64(n), 0)
					h.step(c, x, &m, &o, pAll, true)
					if len(m.B) > 0 { // what was added is part of the buffer
						last := Op{K: impl.KFlipBit, Off: 8*int64(len(m.B)) - 1}
						h.ops = append(h.ops, last)
						h.step(c, x, &m, &last, pAll, true)
					}
					// and once more
					if a <= 4097 {
						h.ops = append(h.ops, o)
						h.step(c, x, &m, &o, pAll|pNoReject, true)
						accounting(c, x, &h)
					}
					c.Trace(h.String)
				}
			}
		}
	}
}

// c07Cursors: capacity changes with the cursors anywhere.
func c07Cursors(c *Ctx, d impl.Desc) {
	for _, n := range []int{0, 1, 2, 3, 8, 9, 17, 64, 100} {
		ops := filter(d, Op{K: impl.KRefresh}, Op{K: impl.KGrow}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 9}, Op{K: impl.KGrow, N: 1000}, Op{K: impl.KTruncL}, Op{K: impl.KTruncR}, Op{K: impl.KTruncL, N: int64(n)}, Op{K: impl.KTruncR, N: int64(n)}, Op{K: impl.KReset})
		if n > 1 {
			ops = append(ops, filter(d, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KTruncL, N: int64(n) / 2}, Op{K: impl.KTruncR, N: int64(n) / 2})...)
		}
		for _, off := range cursorGrid(int64(n)) {
			for _, boff := range cursorGrid(8 * int64(n)) {
				if off != 0 && boff != 0 && (off^boff)%5 != 0 && off*8 != boff && n != 3 {
					continue // not all pairs of the other sizes
				}
				for i := range ops {
					room := 40 * (i & 1)
					mem := fill(n+room, 1)
					x := impl.New(d, mem[:n:n+room])
					place(x, off, boff)
					m := model.S{B: clone(mem[:n]), Off: off, Boff: boff}
					h := hist{d: d, start: fmt.Sprintf("%s over %d bytes with room for %d, byte cursor %d, bit cursor %d", d, n, room, off, boff), ops: ops[i : i+1 : i+1]}
					c.StateOf(room, nil, off, boff^int64(n)<<40)
					h.step(c, x, &m, &ops[i], pAll, true)
					accounting(c, x, &h)
					c.Trace(h.String)
				}
			}
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c07Runs: long runs of small changes.
func c07Runs(c *Ctx, d impl.Desc) {
	for _, step := range []int64{1, 2, 7} {
		for _, n := range []int{0, 5} {
			for mode := 0; mode < 3; mode++ {
				x := impl.New(d, fill(n, 1))
				m := model.S{B: fill(n, 1)}
				h := hist{d: d, start: fmt.Sprintf("%s over %d bytes, then many changes (step %d, mode %d)", d, n, step, mode)}
				do := func(o Op) {
					if len(h.ops) > 12 {
						h.ops = append(h.ops[:0], h.ops[1:]...)
					}
					h.ops = append(h.ops, o)
					if d.Has(&o) {
						h.step(c, x, &m, &o, pAll, true)
					}
				}
				rounds := 700
				if c.Thorough() {
					rounds = 4000
				}
				for i := 0; i < rounds; i++ {
					do(Op{K: impl.KGrow, N: step})
					switch mode {
					case 1: // dirty the end, cut it off again now and then
						do(Op{K: impl.KSetBits, Data: 0xFF, N: 8, Off: 8 * int64(len(m.B)-1)})
						if i%3 == 2 {
							do(Op{K: impl.KTruncR, N: step})
						}
					case 2:
						do(Op{K: impl.KSetAll})
						if i%4 != 3 {
							do(Op{K: impl.KTruncL, N: step})
						}
						if i%100 == 99 {
							do(Op{K: impl.KReset})
						}
					}
					c.State()
				}
				c.Trace(func() string { return h.String() })
			}
		}
	}
}
