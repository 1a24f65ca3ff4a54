package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C08",
		Bounds: "every implementation: constructors with up to 3 (thorough 4) slices of 0 to 3 bytes and some long ones, nil, shared and with spare capacity, 3 to 70 and up to 4097 slices, all pairs and many triples of windows of one array, then changes on every side; all histories of depth 5 (thorough 6) mixing buffer operations, changes through the live view and the single storage slice, changes to slices given to writes and to slices returned by reads; every number type and counts up to 10000 for retained results; v3: every source window, length and destination of a write from the buffer's own view up to 12 bytes (thorough 20), and long ones",
		Assume: []string{"slices returned by ReadBytes and by v1's 8-bit ReadComplex are views in the current code and are not covered by the statement"},
		Units:  c08Units})
}

func c08Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 5
	if tier == "thorough" {
		depth = 6
	}
	for _, d := range impl.All {
		d := d
		u = append(u, engine.Unit{Name: d.String() + " constructors", Run: func(c *Ctx) { c08New(c, d) }},
			engine.Unit{Name: d.String() + " long constructors", Run: func(c *Ctx) { c08NewLong(c, d) }},
			engine.Unit{Name: d.String() + " constructors of many", Run: func(c *Ctx) { c08NewMany(c, d); c08Windows(c, d) }},
			engine.Unit{Name: d.String() + " long writes", Run: func(c *Ctx) { c08Args(c, d) }},
			engine.Unit{Name: d.String() + " retained numbers", Run: func(c *Ctx) { c08Retained(c, d) }})
		for i := range c08Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c08Hist(c, d, depth, i) }})
		}
		if d.Ver == 3 {
			for _, next := range []bool{false, true} {
				next := next
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s overlapping writes next=%v", d, next), Run: func(c *Ctx) { c08Overlap(c, d, next) }})
			}
		}
	}
	return u
}

func flipBytes(b []byte) {
	for i := range b {
		b[i] ^= 0xFF
	}
}

// c08New: what constructors share with their arguments.
func c08New(c *Ctx, d impl.Desc) {
	type shape struct{ n, room int }
	shapes := []shape{{-1, 0}, {0, 0}, {0, 3}, {1, 0}, {1, 2}, {2, 0}, {2, 5}, {3, 0}, {3, 1}, {3, 9}}
	max := 3
	if c.Thorough() {
		max = 4
	}
	for k := 0; k <= max; k++ {
		sequences(len(shapes), k, nil, func(idx []int) {
			var sh []shape
			for _, i := range idx {
				sh = append(sh, shapes[i])
			}
			c08Construct(c, d, len(sh), func(i int) (int, int) { return sh[i].n, sh[i].room }, fmt.Sprint(sh))
		})
	}
}

func c08NewLong(c *Ctx, d impl.Desc) {
	lens := []int{0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 2048, 4096, 4097, 65536}
	for _, a := range lens {
		c08Construct(c, d, 1, func(int) (int, int) { return a, 4 }, fmt.Sprint(a))
		for _, b := range lens {
			for _, room := range []int{0, 1, 64, 5000} {
				c08Construct(c, d, 2, func(i int) (int, int) { return []int{a, b}[i], room }, fmt.Sprint(a, b, " room ", room))
				if a < 300 && b < 300 {
					c08Construct(c, d, 3, func(i int) (int, int) { return []int{a, b, a}[i], room }, fmt.Sprint(a, b, a, " room ", room))
				}
			}
		}
	}
}

// c08NewMany: many slices, of which some are nil or empty.
func c08NewMany(c *Ctx, d impl.Desc) {
	var ks []int
	for k := 3; k <= 70; k++ {
		ks = append(ks, k)
	}
	ks = append(ks, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097)
	for _, k := range ks {
		for _, p := range []struct {
			name string
			n    func(i int) int
		}{
			{"of one byte", func(i int) int { return 1 }},
			{"of 0 to 3 bytes", func(i int) int { return i % 4 }},
			{"of 3 to 0 bytes", func(i int) int { return (k - 1 - i) % 4 }},
			{"nil but for the last", func(i int) int { return -1 + 6*((i+1)/k) }},
			{"nil but for the first", func(i int) int {
				if i == 0 {
					return 9
				}
				return -1
			}},
			{"empty", func(i int) int { return 0 }},
			{"of 8 bytes", func(i int) int { return 8 }},
			{"of 100 and no bytes", func(i int) int { return i & 1 * 100 }},
		} {
			for _, room := range []int{0, 7, 1000} {
				if k > 70 && room > 0 || room > 10 && k > 20 {
					continue
				}
				c08Construct(c, d, k, func(i int) (int, int) { return p.n(i), room }, fmt.Sprintf("%s, room %d", p.name, room))
			}
		}
	}
}

// c08Windows: several slices that are windows of one array.
func c08Windows(c *Ctx, d impl.Desc) {
	const size = 6
	var w [][2]int
	for lo := 0; lo <= size; lo++ {
		for hi := lo; hi <= size; hi++ {
			w = append(w, [2]int{lo, hi})
		}
	}
	for k := 2; k <= 3; k++ {
		sequences(len(w), k, nil, func(idx []int) {
			if k == 3 && (idx[0]+idx[1]+idx[2])%3 != 0 && !c.Thorough() && !(w[idx[0]][1] == w[idx[1]][0] && w[idx[1]][1] == w[idx[2]][0]) {
				return // a third of the triples, and all that are side by side
			}
			mem := fill(size, 9)
			var args [][]byte
			var want []byte
			for _, i := range idx {
				args = append(args, mem[w[i][0]:w[i][1]])
				want = append(want, mem[w[i][0]:w[i][1]]...)
			}
			ref := clone(mem)
			start := func() []string {
				var s []string
				for _, i := range idx {
					s = append(s, fmt.Sprintf("bytes %d to %d", w[i][0], w[i][1]))
				}
				return []string{fmt.Sprintf("%s made from slices of one array: %v", d, s)}
			}
			x := impl.New(d, args...)
			if st := c.Obs(x); string(st.B) != string(want) {
				c.Fail("contents "+show(st.B)+"; specified "+show(want), start()...)
			}
			c.StateOf(k, want, int64(idx[0]), int64(idx[1]))
			if len(want) > 0 {
				c.Do(x, &Op{K: impl.KFlipAll})
				flipBytes(want)
			}
			c.Do(x, &Op{K: impl.KGrow, N: 2})
			want = append(want, 0, 0)
			c.Do(x, &Op{K: impl.KWriteBytes, D: []byte{0x55, 0xAA}})
			want[0], want[1] = 0x55, 0xAA
			if string(mem) != string(ref) {
				c.Fail("writing to the buffer changed the array", start()...)
			}
			flipBytes(mem)
			if st := c.Obs(x); string(st.B) != string(want) {
				c.Fail("after changing the array: contents "+show(st.B)+"; specified "+show(want), start()...)
			}
			c.Trace(func() string { return start()[0] })
		})
	}
}

func c08Construct(c *Ctx, d impl.Desc, k int, shape func(i int) (n, room int), text string) {
	for mode := 0; mode < 2; mode++ {
		var args, whole, ref [][]byte
		var cat []byte
		for i := 0; i < k; i++ {
			n, room := shape(i)
			if n < 0 {
				args, whole, ref = append(args, nil), append(whole, nil), append(ref, nil)
				continue
			}
			w := fill(n+room, uint64(i)*31+7)
			whole = append(whole, w)
			ref = append(ref, clone(w))
			args = append(args, w[:n:n+room])
			cat = append(cat, w[:n]...)
		}
		start := func() string {
			return fmt.Sprintf("%s made from %d slices (length, spare capacity; -1: nil): %s", d, k, text)
		}
		given := append([][]byte(nil), args...)
		x := impl.New(d, args...)
		c.StateOf(k, cat, int64(mode), 0)
		check := func(want []byte, after string) {
			if st := c.Obs(x); string(st.B) != string(want) || st.Cap != int64(len(want)) || st.BCap != 8*int64(len(want)) {
				c.Fail(fmt.Sprintf("%s: contents %s, capacity %d, bit capacity %d; specified %s", after, show(st.B), st.Cap, st.BCap, show(want)), start(), after)
			}
		}
		untouched := func(after string, from int) {
			for i := range whole {
				for j := from; j < len(whole[i]); j++ {
					if whole[i][j] != ref[i][j] && (j >= len(given[i]) || k > 1) {
						c.Fail(fmt.Sprintf("%s: byte %d of the memory of slice %d (length %d) was changed", after, j, i, len(given[i])), start(), after)
					}
				}
			}
			for i := range args {
				if len(args[i]) != len(given[i]) {
					c.Fail(fmt.Sprintf("%s: slice %d in the argument list was replaced", after, i), start(), after)
				}
			}
		}
		check(cat, "construction")
		untouched("construction", 0)
		want := clone(cat)
		if k == 1 {
			// the slice is the storage
			for i := range given[0] {
				given[0][i] ^= 0x5A
				want[i] ^= 0x5A
			}
			check(want, "changing the given slice")
			var r impl.Ret
			x.Do(&Op{K: impl.KFlipAll}, &r)
			if len(given[0]) > 0 {
				flipBytes(want)
			}
			if string(given[0]) != string(want) {
				c.Fail("a write to the buffer is not seen in the slice it was made from", start(), "FlipAllBits")
			}
			untouched("FlipAllBits", 0)
		} else if k > 1 {
			if mode == 0 { // change the slices, then the buffer
				for i := range whole {
					flipBytes(whole[i])
					flipBytes(ref[i])
				}
				for i := range args {
					args[i] = nil
				}
				args = given
				check(want, "changing the given slices")
			}
			var r impl.Ret
			if len(want) > 0 {
				x.Do(&Op{K: impl.KFlipAll}, &r)
				flipBytes(want)
			}
			check(want, "FlipAllBits")
			untouched("FlipAllBits", 0)
			for _, n := range []int64{1, 3, 8} { // growth does not reach into the slices' spare capacity
				x.Do(&Op{K: impl.KGrow, N: n}, &r)
				want = append(want, make([]byte, n)...)
				x.Do(&Op{K: impl.KSetAll}, &r)
				for i := range want {
					want[i] = 0xFF
				}
				check(want, "growing and setting all bits")
				untouched("growing and setting all bits", 0)
			}
			for i := range whole {
				flipBytes(whole[i])
			}
			check(want, "changing the given slices after growth")
		} else {
			var r impl.Ret
			y := impl.New(d)
			x.Do(&Op{K: impl.KGrow, N: 4}, &r)
			y.Do(&Op{K: impl.KGrow, N: 6}, &r)
			x.Do(&Op{K: impl.KSetAll}, &r)
			check(same(4, 0xFF), "growing")
			if st := c.Obs(y); string(st.B) != string(make([]byte, 6)) {
				c.Fail("two buffers made without slices share memory", start())
			}
		}
		c.Trace(start)
	}
	// the same slice given twice
	if k == 2 {
		n, room := shape(0)
		if n > 0 {
			w := fill(n+room, 3)
			a := w[: n : n+room]
			x := impl.New(d, a, a)
			want := append(clone(a), a...)
			if st := c.Obs(x); string(st.B) != string(want) {
				c.Fail("made from the same slice twice: contents "+show(st.B), d.String())
			}
			c.Do(x, &Op{K: impl.KWriteBytes, D: []byte{0x77}})
			if w[0] == 0x77 {
				c.Fail("made from the same slice twice: a write reached the slice", d.String())
			}
			c.Trace(func() string { return fmt.Sprintf("%s made from a slice of %d twice", d, n) })
		}
	}
}

// action is a step of a sharing history: a buffer operation or a change on the outside.
type action struct {
	name string
	op   *Op
}

func c08Alphabet(d impl.Desc) []action {
	var out []action
	add := func(o Op) {
		if d.Has(&o) {
			out = append(out, action{o.String(), &o})
		}
	}
	add(sized(Op{K: impl.KWriteBytes}, 2, 1))
	add(sized(Op{K: impl.KWriteBytes}, 6, 2)) // the whole buffer
	add(sized(Op{K: impl.KWriteBytes, Off: 1}, 5, 3))
	add(sized(Op{K: impl.KWriteBytes, Next: true}, 3, 4))
	add(sized(Op{K: impl.KWriteNum, Num: num(d, 2, true)}, 3, 5)) // the whole buffer
	add(sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Off: 1}, 1, 6))
	add(sized(Op{K: impl.KWriteNum, Num: impl.Num{K: 'C', W: 1}}, 6, 7)) // v1 only
	add(sized(Op{K: impl.KWriteNum, Num: impl.Num{K: 'C', W: 1}, Next: true}, 2, 7))
	add(sized(Op{K: impl.KReadNum, Num: num(d, 2, false)}, 3, 0))
	add(sized(Op{K: impl.KReadNum, Num: num(d, 4, true), Off: 2}, 1, 0))
	add(sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 1, 0))
	add(Op{K: impl.KFlipAll})
	add(Op{K: impl.KSetBits, Data: 0x155, N: 9, Off: 5})
	add(Op{K: impl.KGrow})
	add(Op{K: impl.KGrow, N: 2})
	add(Op{K: impl.KTruncL, N: 1})
	add(Op{K: impl.KTruncR, N: 1})
	add(Op{K: impl.KReset})
	for _, s := range []string{"change the live view", "change the storage slice", "change all slices given to writes", "change all results of reads"} {
		out = append(out, action{s, nil})
	}
	return out
}

func c08Hist(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c08Alphabet(d)
	for _, room := range []int{0, 4} {
		sequences(len(alpha), depth, []int{first}, func(idx []int) {
			mem := fill(6+room, 1)
			storage := mem[:6]
			x := impl.New(d, storage)
			m := model.S{B: clone(storage)}
			type kept struct {
				name string
				raw  any
				want []uint64
			}
			var args, results []kept
			steps := []string{fmt.Sprintf("%s over a slice of 6 bytes with room for %d", d, room)}
			view := c.Obs(x).B
			live, stored := true, true
			for _, i := range idx {
				a := alpha[i]
				steps = append(steps, a.name)
				if a.op != nil {
					o := *a.op
					if o.D != nil {
						o.D = clone(o.D)
					}
					was := len(m.B)
					out := model.Apply(d, &m, &o)
					if out.V != model.OK {
						return
					}
					var r impl.Ret
					c.DoR(x, &o, &r)
					if r.Panicked {
						return // another property
					}
					switch o.K {
					case impl.KWriteBytes:
						args = append(args, kept{a.name, o.D, impl.RawBits(clone(o.D))})
					case impl.KWriteNum:
						args = append(args, kept{a.name, r.RawArg, append([]uint64(nil), o.V...)})
					case impl.KReadNum:
						if s := model.CompareRet(&out, &r); s != "" {
							return // another property
						}
						results = append(results, kept{a.name, r.Raw, append([]uint64(nil), r.U...)})
					}
					if len(m.B) != was || o.K == impl.KReset {
						live, stored = false, false
					}
				} else {
					switch a.name {
					case "change the live view":
						if !live {
							view, live = c.Obs(x).B, true
						}
						flipBytes(view)
						flipBytes(m.B)
					case "change the storage slice":
						if !stored {
							return
						}
						storage[0] ^= 0x3C
						m.B[0] ^= 0x3C
						storage[5] ^= 0x71
						m.B[5] ^= 0x71
					case "change all slices given to writes":
						if len(args) == 0 {
							return
						}
						for _, k := range args {
							impl.FlipRaw(k.raw, false)
							for j := range k.want {
								k.want[j] = ^k.want[j]
							}
						}
					default:
						if len(results) == 0 {
							return
						}
						for _, k := range results {
							impl.FlipRaw(k.raw, false)
							for j := range k.want {
								k.want[j] = ^k.want[j]
							}
						}
					}
				}
				st := c.Obs(x)
				if string(st.B) != string(m.B) {
					c.Fail(fmt.Sprintf("the contents are %x; specified %x", st.B, m.B), steps...)
				}
				if live && string(view) != string(m.B) {
					c.Fail(fmt.Sprintf("a view that was returned earlier shows %x; the contents are %x", view, m.B), steps...)
				}
				if stored && string(storage) != string(m.B) {
					c.Fail(fmt.Sprintf("the slice that the buffer was made from holds %x; the contents are %x", storage, m.B), steps...)
				}
				for w, ks := range [][]kept{args, results} {
					for _, k := range ks {
						if got := impl.RawBits(k.raw); differs(got, k.want, width(k.raw)) {
							c.Fail(fmt.Sprintf("the slice %s %s is now %#x; specified %#x", []string{"given to", "returned by"}[w], k.name, got, k.want), steps...)
						}
					}
				}
				// every byte through the reading interface
				for p := range m.B {
					if r := c.Do(x, &Op{K: impl.KReadBits, Off: int64(p) * 8, N: 8}); !r.Panicked && byte(r.I) != m.B[p] {
						c.Fail(fmt.Sprintf("byte %d is read as %#x; specified %#x", p, r.I, m.B[p]), steps...)
					}
				}
				c.StateOf(room, m.B, m.Off, m.Boff)
			}
			c.Trace(func() string { return fmt.Sprint(steps) })
		})
	}
}

func width(raw any) int {
	switch raw.(type) {
	case []uint8:
		return 1
	case []uint16, []int16:
		return 2
	case []uint32, []int32, []float32:
		return 4
	}
	return 8
}

func differs(a, b []uint64, w int) bool {
	if len(a) != len(b) {
		return true
	}
	for i := range a {
		if (a[i]^b[i])&impl.Mask(w) != 0 {
			return true
		}
	}
	return false
}

// c08Retained: results of number reads stand on their own.
func c08Retained(c *Ctx, d impl.Desc) {
	counts := []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 256, 257, 512, 1000, 1024, 1025, 4096, 10000}
	for _, n := range d.Nums() {
		if n.W == 1 {
			continue
		}
		for _, cnt := range counts {
			for _, off := range []int64{0, 1, 2, 4, 8} {
				for _, next := range []bool{false, true} {
					mem := fill(int(cnt)*n.W+9, 2)
					x := mk(d, mem, off, 0)
					y := mk(d, mem, off, 0)
					o := Op{K: impl.KReadNum, Num: n, N: cnt, Off: off, Next: next}
					if next {
						o.Off = 0
					}
					c.StateOf(n.W, mem[:4], off, cnt)
					start := func() []string { return []string{desc(d, mem, off, 0), o.String()} }
					seek := Op{K: impl.KSeekByte, Off: off}
					var r1, r2, r3 impl.Ret
					c.DoR(x, &o, &r1)
					c.Do(x, &seek)
					c.DoR(x, &o, &r2)
					c.DoR(y, &o, &r3)
					c.Do(x, &seek)
					if r1.Panicked {
						continue
					}
					want := append([]uint64(nil), r1.U...)
					impl.FlipRaw(r1.Raw, true)
					for i, r := range []*impl.Ret{&r2, &r3} {
						if differs(impl.RawBits(r.Raw), want, n.W) {
							c.Fail(fmt.Sprintf("changing the result of one read changed that of another (%d)", i), start()...)
						}
					}
					if st := c.Obs(x); string(st.B) != string(mem) {
						c.Fail("changing the result of a read changed the buffer", start()...)
					}
					if st := c.Obs(y); string(st.B) != string(mem) {
						c.Fail("changing the result of a read changed another buffer", start()...)
					}
					for _, w := range append(everyOp(d, 5), sized(Op{K: impl.KWriteBytes}, int64(len(mem)), 8)) {
						mm := model.S{B: c.Obs(x).B}
						st := c.Obs(x)
						mm.Off, mm.Boff = st.Off, st.Boff
						mm = mm.Clone()
						if d.Mini && model.Apply(d, &mm, &w).V != model.OK {
							continue
						}
						c.Do(x, &w)
						if differs(impl.RawBits(r2.Raw), want, n.W) {
							c.Fail(fmt.Sprintf("%s changed the result of an earlier read", &w), start()...)
						}
					}
					c.Trace(func() string { return fmt.Sprint(start()) })
				}
			}
		}
	}
}

// c08Args: slices given to writes are not kept, whatever their length.
func c08Args(c *Ctx, d impl.Desc) {
	for _, t := range accessKinds(d) {
		if !bySlice(t.K) {
			continue
		}
		w := 1
		if t.K == impl.KWriteNum {
			w = t.Num.W
		}
		counts := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24}
		counts = append(counts, thresholds...)
		for _, n := range counts {
			for _, lead := range []int{0, 1} {
				for _, tail := range []int{0, 3} {
					mem := fill(lead+n*w+tail, 4)
					for _, f := range forms(sized(t, int64(n), 6)) {
						o := f
						o.D = clone(o.D)
						if !o.Next {
							o.Off = int64(lead)
						}
						x := mk(d, mem, int64(lead), 0)
						c.StateOf(w, mem[:1], int64(n), int64(lead))
						var r impl.Ret
						c.DoR(x, &o, &r)
						if r.Panicked {
							continue
						}
						arg := r.RawArg
						if o.K == impl.KWriteBytes {
							arg = o.D
						}
						want := append([]uint64(nil), impl.RawBits(arg)...)
						start := func() []string { return []string{fmt.Sprintf("%s over %d bytes", d, len(mem)), o.String()} }
						if o.K == impl.KWriteBytes && string(o.D) != string(f.D) {
							c.Fail("the write changed the slice it was given", start()...)
						}
						held := clone(c.Obs(x).B)
						impl.FlipRaw(arg, true)
						if st := c.Obs(x); string(st.B) != string(held) {
							c.Fail("changing the slice given to a write changed the buffer", start()...)
						}
						impl.FlipRaw(arg, true)
						c.Do(x, &Op{K: impl.KFlipAll})
						if differs(impl.RawBits(arg), want, w) {
							c.Fail("a later write to the buffer changed the slice given to an earlier write", start()...)
						}
						c.Trace(func() string { return fmt.Sprint(start()) })
					}
				}
			}
		}
	}
}

// c08Overlap: bytes written from a view of the same buffer arrive as they were.
func c08Overlap(c *Ctx, d impl.Desc, next bool) {
	try := func(size, src, n, dst int) {
		mem := fill(size, 5)
		x := mk(d, mem, 0, 0)
		view := c.Obs(x).B
		want := clone(mem)
		copy(want[dst:], clone(mem[src:src+n]))
		o := Op{K: impl.KWriteBytes, D: view[src : src+n], Off: int64(dst)}
		if next {
			o.Off, o.Next = 0, true
			c.Do(x, &Op{K: impl.KSeekByte, Off: int64(dst)})
		}
		c.StateOf(size, nil, int64(src), int64(dst)<<20|int64(n))
		r := c.Do(x, &o)
		if r.Panicked {
			c.Fail("a write from the buffer's own view was refused: "+impl.PanicText(&r), fmt.Sprintf("%d bytes from %d to %d in a buffer of %d", n, src, dst, size))
		}
		if st := c.Obs(x); string(st.B) != string(want) {
			c.Fail(fmt.Sprintf("writing %d bytes of the buffer's own view from %d to %d in a buffer of %d bytes gives %s; specified %s", n, src, dst, size, show(st.B), show(want)), desc(d, mem, 0, 0), o.String())
		}
		c.Trace(func() string { return fmt.Sprintf("%s of %d bytes: %d bytes from %d to %d", d, size, n, src, dst) })
	}
	max := 12
	if c.Thorough() {
		max = 20
	}
	for size := 1; size <= max; size++ {
		for n := 0; n <= size; n++ {
			for src := 0; src+n <= size; src++ {
				for dst := 0; dst+n <= size; dst++ {
					try(size, src, n, dst)
				}
			}
		}
	}
	for _, n := range thresholds {
		for _, shift := range []int{0, 1, 2, 7, 8, 9, n / 2, n - 1, n} {
			if shift < 0 {
				continue
			}
			try(n+shift, 0, n, shift)
			try(n+shift, shift, n, 0)
		}
	}
}
