package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C03",
		Bounds: "every checked buffer, access kind, number type and form: all positions from -3 to capacity+3 and all 64-bit boundary positions x all counts from -2 to capacity+3 and all boundary counts, on capacities 0 to 9 and 17 reached by construction (with and without room behind the window, two guard fills), growth, truncation, reset and their combinations up to depth 3; negative growth and out-of-range truncation likewise; all special values (as in C01) where they fit and where they do not; counts of 31 to 300 and around powers of two and ten on buffers one byte too short, exact and one longer; all histories of depth 4 (thorough 5), each access judged against the capacity and cursors shown before it",
		Units:  c03Units})
}

// extreme lists 64-bit values around every boundary that arithmetic can hit.
func extreme() []int64 {
	var out []int64
	seen := map[int64]bool{}
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, k := range []uint{8, 15, 16, 24, 31, 32, 33, 40, 53, 59, 60, 61, 62} {
		for dlt := int64(-9); dlt <= 9; dlt++ {
			if dlt < -1 && dlt != -8 || dlt > 2 && dlt != 8 {
				continue
			}
			add(1<<k + dlt)
			add(-(1 << k) + dlt)
		}
	}
	for dlt := int64(0); dlt < 18; dlt++ {
		add(maxI - dlt)
		add(minI + dlt)
	}
	return out
}

// hugeCounts lists counts that cannot be in range of any small buffer and that no allocation could satisfy.
func hugeCounts() []int64 {
	var out []int64
	for _, v := range extreme() {
		if v >= 1<<53 {
			out = append(out, v)
		}
	}
	for _, w := range []uint{1, 2, 3} { // counts whose size in bytes wraps to a small number
		for dlt := int64(0); dlt < 4; dlt++ {
			out = append(out, 1<<(63-w)+dlt, int64(1)<<(62-w)*3+dlt)
		}
	}
	return out
}

// build is a way to reach a state of a checked buffer.
type build struct {
	name string
	cap  int
	mk   func(d impl.Desc) impl.Inst
}

func do(x impl.Inst, ops ...Op) impl.Inst {
	var r impl.Ret
	for i := range ops {
		r = impl.Ret{}
		x.Do(&ops[i], &r)
		if r.Panicked {
			panic(&engine.Failure{What: fmt.Sprintf("setting up: %s panicked with %s", &ops[i], impl.PanicText(&r))})
		}
	}
	return x
}

func builds(d impl.Desc) []build {
	var out []build
	for n := 0; n <= 9; n++ {
		n := n
		out = append(out, build{fmt.Sprintf("new over %d bytes", n), n, func(d impl.Desc) impl.Inst { return impl.New(d, fill(n, 1)) }})
	}
	out = append(out,
		build{"new over 17 bytes", 17, func(d impl.Desc) impl.Inst { return impl.New(d, fill(17, 1)) }},
		build{"new without slices", 0, func(d impl.Desc) impl.Inst { return impl.New(d) }},
		build{"new over a nil slice", 0, func(d impl.Desc) impl.Inst { return impl.New(d, nil) }},
		build{"new over 4 bytes with room for 12", 4, func(d impl.Desc) impl.Inst { return impl.New(d, fill(16, 1)[:4]) }},
		build{"new over 0 bytes with room for 16", 0, func(d impl.Desc) impl.Inst { return impl.New(d, fill(16, 1)[:0]) }},
		build{"new over 5+0+3 bytes", 8, func(d impl.Desc) impl.Inst { return impl.New(d, fill(5, 1), nil, fill(3, 2)) }},
		build{"grown from 3 by 2", 5, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(3, 1)), Op{K: impl.KGrow, N: 2}) }},
		build{"grown from nothing by 3, 1 and 4", 8, func(d impl.Desc) impl.Inst {
			return do(impl.New(d), Op{K: impl.KGrow, N: 3}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 4})
		}},
		build{"new over 4 bytes with room for 12, grown by 3", 7, func(d impl.Desc) impl.Inst {
			return do(impl.New(d, fill(16, 1)[:4]), Op{K: impl.KGrow, N: 3})
		}},
		build{"grown by 0", 6, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(6, 1)), Op{K: impl.KGrow}) }},
		build{"grown by 9, refreshed", 15, func(d impl.Desc) impl.Inst {
			return do(impl.New(d, fill(6, 1)), Op{K: impl.KGrow, N: 9}, Op{K: impl.KRefresh})
		}})
	if d.Ver >= 2 {
		out = append(out,
			build{"reset", 0, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(9, 1)), Op{K: impl.KReset}) }},
			build{"reset, grown by 3", 3, func(d impl.Desc) impl.Inst {
				return do(impl.New(d, fill(9, 1)), Op{K: impl.KReset}, Op{K: impl.KGrow, N: 3})
			}},
			build{"grown, reset, grown by 2 and 4", 6, func(d impl.Desc) impl.Inst {
				return do(impl.New(d, fill(9, 1)), Op{K: impl.KGrow, N: 20}, Op{K: impl.KReset}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KGrow, N: 4})
			}})
	}
	if d.Ver == 3 {
		out = append(out,
			build{"truncated left by 3 from 9", 6, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(9, 1)), Op{K: impl.KTruncL, N: 3}) }},
			build{"truncated right by 3 from 9", 6, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(9, 1)), Op{K: impl.KTruncR, N: 3}) }},
			build{"truncated to nothing", 0, func(d impl.Desc) impl.Inst { return do(impl.New(d, fill(9, 1)), Op{K: impl.KTruncR, N: 9}) }},
			build{"truncated on both sides, grown by 1", 5, func(d impl.Desc) impl.Inst {
				return do(impl.New(d, fill(9, 1)), Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncR, N: 3}, Op{K: impl.KGrow, N: 1})
			}},
			build{"grown by 8, truncated left by 10", 7, func(d impl.Desc) impl.Inst {
				return do(impl.New(d, fill(9, 1)), Op{K: impl.KGrow, N: 8}, Op{K: impl.KTruncL, N: 10})
			}})
	}
	return out
}

func c03Units(tier string) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.Checked {
		d := d
		for _, b := range builds(d) {
			b := b
			u = append(u, engine.Unit{Name: d.String() + " " + b.name, Run: func(c *Ctx) { c03Ranges(c, d, b) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " guarded windows", Run: func(c *Ctx) { c03Guard(c, d) }},
			engine.Unit{Name: d.String() + " capacity changes", Run: func(c *Ctx) { c03Capacity(c, d) }},
			engine.Unit{Name: d.String() + " long ranges", Run: func(c *Ctx) { c03Long(c, d) }})
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			if !model.Range(o).Is {
				return
			}
			n, off, boff := cursorOf(o)
			single(c, d, b, off, boff, o, 0)
			single(c, d, b, off, boff, &n, 0)
			short := b[:len(b)*3/4]
			if a := model.Range(o); a.Bits { // the last bit does not fit
				o.Off += 8*int64(len(b)) + 1 - o.Off - a.N
				short = b
			}
			n, off, boff = cursorOf(o)
			single(c, d, short, off, boff, o, 0)
			single(c, d, short, off, boff, &n, 0)
		})...)
		for first := range c03Alphabet(d) {
			first := first
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth %d starting with #%d", d, depth, first), Run: func(c *Ctx) { c03Histories(c, d, depth, first) }})
		}
	}
	return u
}

// accept runs an access that may be refused and checks only whether it is, and how. m holds the true capacity.
func (h *hist) accept(c *Ctx, x impl.Inst, m *model.S, o *Op) (refused bool) {
	mm := *m
	if o.K != impl.KGrow { // the contents do not matter, the cursors do
		mm = m.Clone()
	}
	out := model.Apply(h.d, &mm, o)
	if out.V == model.Unspec {
		return false
	}
	var r impl.Ret
	c.DoR(x, o, &r)
	s := ""
	if out.V == model.Reject || r.Panicked {
		s = model.CompareRet(&out, &r)
	}
	if s != "" {
		c.Fail(fmt.Sprintf("%s with capacity %d, byte cursor %d, bit cursor %d: %s", o, len(m.B), m.Off, m.Boff, s), append(h.steps(), o.String())...)
	}
	c.Trace(func() string { return h.String() + ": " + o.String() })
	return out.V == model.Reject
}

func c03Ranges(c *Ctx, d impl.Desc, b build) {
	h := hist{d: d, start: d.String() + " " + b.name}
	cap := int64(b.cap)
	ext := extreme()
	m := model.S{B: make([]byte, cap)}
	x := b.mk(d)
	fresh := func() { x = b.mk(d) }
	try := func(o Op) {
		// positioned
		if h.accept(c, x, &m, &o) {
			fresh() // what a refused operation leaves behind is another property
		}
		// cursor-relative
		f := o
		f.Next, f.Off = true, 0
		mm := m
		mm.Off, mm.Boff = 0, 0
		seek := Op{K: impl.KSeekByte, Off: o.Off}
		if model.Range(&o).Bits {
			seek.K = impl.KSeekBit
			mm.Boff = o.Off
		} else {
			mm.Off = o.Off
		}
		c.Do(x, &seek)
		if h.accept(c, x, &mm, &f) {
			fresh()
		} else if o.N > 1<<40 {
			fresh()
		}
	}
	huge := hugeCounts()
	for _, t := range accessKinds(d) {
		limit := cap
		if model.Range(&t).Bits {
			limit *= 8
		}
		c.State()
		var offs []int64
		for off := int64(-3); off <= limit+3; off++ {
			offs = append(offs, off)
		}
		near := len(offs)
		offs = append(offs, ext...)
		for i, off := range offs {
			o := t
			o.Off = off
			if !counted(t.K) {
				try(o)
				continue
			}
			top := limit + 3
			w := int64(1)
			if t.Num.W > 1 {
				w = int64(t.Num.W)
				top = limit/w + 3
			}
			if i >= near && top > 5 {
				top = 5
			}
			for n := int64(-2); n <= top; n++ {
				if n < 0 && bySlice(t.K) {
					continue
				}
				try(sized(o, n, 9))
			}
			if bySlice(t.K) {
				continue
			}
			for _, n := range huge {
				o.N = n
				try(o)
			}
			for _, n := range []int64{minI, minI + 1, minI + 8, -1 << 62, -1 << 61, -1 << 60, -1 << 32, -1 << 31, -9, -8, -7} {
				o.N = n
				try(o)
			}
			if off < 0 { // counts that bring the end of a negative position back into the buffer
				if n := (limit - off) / w; n > 0 && n < 1<<20 || n > 1<<53 {
					for dlt := int64(-1); dlt <= 1; dlt++ {
						o.N = n + dlt
						try(o)
					}
				}
			}
			if k := t.K; k == impl.KReadBits || k == impl.KSetBits { // counts do not allocate: all boundaries
				for _, n := range ext {
					if n > 1<<17 {
						o.N = n
						try(o)
					}
				}
			}
		}
	}
	if d.Ver == 1 { // sizes that do not exist
		for _, w := range []int{0, 3, 5, 6, 7, 9, 16, -1} {
			for off := int64(-1); off <= cap+1; off++ {
				for n := int64(0); n < 3; n++ {
					for _, k := range []impl.Kind{impl.KReadNum, impl.KWriteNum} {
						if k == impl.KReadNum && n*int64(w) > cap-off {
							continue
						}
						o := Op{K: k, Num: impl.Num{K: 'C', W: w}, Off: off}
						if w <= 0 && (off < 0 || off > cap) {
							continue
						}
						try(sized(o, n, 1))
					}
				}
			}
		}
	}
	// invalid bits at the edges
	for _, v := range []uint64{2, 3, 128, 255} {
		for off := int64(-1); off <= cap*8+1; off++ {
			if o := (Op{K: impl.KPutBit, Data: v, Off: off}); d.Has(&o) {
				try(o)
			}
		}
	}
	// growing and truncating
	amounts := append([]int64{-1, -2, -7, -8}, ext...)
	for n := int64(1); n < 5; n++ {
		amounts = append(amounts, cap+n)
	}
	for _, n := range amounts {
		if n < 0 {
			o := Op{K: impl.KGrow, N: n}
			if h.accept(c, x, &m, &o) {
				fresh()
			}
		}
		for _, k := range []impl.Kind{impl.KTruncL, impl.KTruncR} {
			if o := (Op{K: k, N: n}); d.Has(&o) && (n < 0 || n > cap) {
				if h.accept(c, x, &m, &o) {
					fresh()
				}
			}
		}
	}
	for n := int64(0); n <= cap; n++ {
		for _, k := range []impl.Kind{impl.KTruncL, impl.KTruncR} {
			if o := (Op{K: k, N: n}); d.Has(&o) {
				fresh()
				h.accept(c, x, &m, &o)
			}
		}
	}
	fresh()
}

// c03Guard places the buffer as a window in a larger array: nothing outside may be returned or modified.
func c03Guard(c *Ctx, d impl.Desc) {
	for _, cap := range []int64{0, 1, 2, 3, 5, 8, 9} {
		kinds := accessKinds(d)
		for _, k := range []impl.Kind{impl.KClearAll, impl.KSetAll, impl.KFlipAll, impl.KBytes, impl.KRefresh} {
			kinds = append(kinds, Op{K: k})
		}
		for _, t := range kinds {
			a := model.Range(&t)
			limit := cap
			if a.Bits {
				limit *= 8
			}
			var offs []int64
			if a.Is {
				for off := int64(-20); off <= limit+20; off++ {
					offs = append(offs, off)
				}
			} else {
				offs = []int64{0}
			}
			for _, off := range offs {
				ns := []int64{1}
				if counted(t.K) {
					ns = ns[:0]
					top := limit + 9
					if a.W > 1 {
						top = limit/a.W + 3
					}
					for n := int64(-1); n <= top; n++ {
						if n >= 0 || !bySlice(t.K) {
							ns = append(ns, n)
						}
					}
				}
				for _, n := range ns {
					o := t
					o.Off = off
					if counted(t.K) {
						o = sized(o, n, 4)
					}
					var res [2]impl.Ret
					for g := 0; g < 2; g++ {
						arr := same(64, [...]byte{0x3C, 0xC3}[g])
						copy(arr[24:], fill(int(cap), 6))
						ref := clone(arr)
						win := arr[24 : 24+cap : 24+cap]
						if off&1 == 0 || a.Bits && off&2 == 0 {
							win = arr[24 : 24+cap]
						}
						x := impl.New(d, win)
						c.State()
						c.DoR(x, &o, &res[g])
						bytes := res[g].B
						for i := range arr {
							if (i < 24 || i >= 24+int(cap)) && arr[i] != ref[i] {
								c.Fail(fmt.Sprintf("%s on a buffer of %d bytes changed the byte at distance %d from its start", &o, cap, i-24), fmt.Sprintf("%s over a window of %d bytes with %d bytes of room", d, cap, len(arr)-24-int(cap)), o.String())
							}
						}
						res[g].B = clone(bytes)
						if !res[g].Panicked && t.K == impl.KReadBytes && int64(len(bytes)) != n {
							c.Fail(fmt.Sprintf("%s returned %d bytes", &o, len(bytes)), fmt.Sprintf("%s over %d bytes", d, cap))
						}
					}
					if s := impl.RetDiff(&res[0], &res[1]); s != "" {
						c.Fail(fmt.Sprintf("%s on a buffer of %d bytes: the result depends on memory outside the buffer: %s", &o, cap, s), fmt.Sprintf("%s over a window of %d bytes", d, cap), o.String())
					}
					c.Trace(func() string { return fmt.Sprintf("%s over a window of %d bytes: %s", d, cap, &o) })
				}
			}
		}
	}
}

// c03Capacity: after every history of capacity changes (depth 4), the first and last positions are as the history says.
func c03Capacity(c *Ctx, d impl.Desc) {
	var alpha []Op
	for _, o := range []Op{{K: impl.KGrow}, {K: impl.KGrow, N: 1}, {K: impl.KGrow, N: 5}, {K: impl.KGrow, N: 64}, {K: impl.KGrow, N: -1}, {K: impl.KTruncL, N: 1}, {K: impl.KTruncL, N: 3}, {K: impl.KTruncR, N: 1}, {K: impl.KTruncR, N: 4}, {K: impl.KTruncR, N: 0}, {K: impl.KReset}, {K: impl.KRefresh}, {K: impl.KSetAll}, {K: impl.KBytes}, {K: impl.KSeekByte, Off: 4}, {K: impl.KReadByte, Off: 99}} {
		if d.Has(&o) {
			alpha = append(alpha, o)
		}
	}
	probe := func(h *hist, x impl.Inst, m *model.S) {
		c.State()
		cap := int64(len(m.B))
		for _, t := range accessKinds(d) {
			a := model.Range(&t)
			limit := cap
			if a.Bits {
				limit *= 8
			}
			for dlt := int64(-1); dlt <= 1; dlt++ {
				o := t
				n := int64(1)
				if counted(t.K) {
					n = 2
					o = sized(t, n, 3)
				}
				o.Off = limit - n*a.W + dlt
				h.accept(c, x, m, &o)
				if counted(t.K) && (limit+dlt)/a.W < 64 && limit+dlt >= 0 && (limit+dlt)%a.W == 0 {
					o = sized(t, (limit+dlt)/a.W, 3)
					o.Off = 0
					h.accept(c, x, m, &o)
				}
			}
			o := t
			o.Off = -1
			if counted(t.K) {
				o = sized(o, 1, 3)
			}
			h.accept(c, x, m, &o)
		}
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	idx := make([]int, depth)
	for _, n0 := range []int{0, 1, 4} {
		for l := 0; l <= depth; l++ {
			for i := range idx {
				idx[i] = 0
			}
			for {
				back := fill(32, 1)
				x := impl.New(d, back[:n0])
				m := model.S{B: make([]byte, n0)}
				h := hist{d: d, start: fmt.Sprintf("%s over %d bytes with room", d, n0)}
				for i := 0; i < l; i++ {
					o := alpha[idx[i]]
					h.accept(c, x, &m, &o)
					model.Apply(d, &m, &o)
					h.ops = append(h.ops, o)
				}
				probe(&h, x, &m)
				i := l - 1
				for ; i >= 0; i-- {
					idx[i]++
					if idx[i] < len(alpha) {
						break
					}
					idx[i] = 0
				}
				if i < 0 {
					break
				}
			}
		}
	}
}

// c03Long: counts near every power of two on buffers that are one byte too short, exact, and one byte longer.
func c03Long(c *Ctx, d impl.Desc) {
	for _, t := range accessKinds(d) {
		if !counted(t.K) {
			continue
		}
		a := model.Range(&t)
		for _, n := range thresholds {
			if a.Bits && n > 4100 {
				continue
			}
			o := sized(t, int64(n), 2)
			size := n * int(a.W)
			if a.Bits {
				size = (n + 7) / 8
			}
			for dlt := -1; dlt <= 1; dlt++ {
				for _, off := range []int64{0, 1, 2} {
					m := model.S{B: make([]byte, size+dlt)}
					x := impl.New(d, make([]byte, size+dlt, size+dlt+16))
					h := hist{d: d, start: fmt.Sprintf("%s over %d bytes", d, size+dlt)}
					c.State()
					o.Off = off
					h.accept(c, x, &m, &o)
				}
			}
		}
	}
}

func c03Alphabet(d impl.Desc) []Op {
	var out []Op
	add := func(os ...Op) {
		for _, o := range os {
			if d.Has(&o) {
				out = append(out, o)
			}
		}
	}
	u32 := impl.Num{K: 'U', W: 4, BE: true}
	if d.Ver == 1 {
		u32.K = 'C'
	}
	add(Op{K: impl.KGrow, N: 3}, Op{K: impl.KGrow, N: -3}, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncR, N: 3}, Op{K: impl.KTruncR, N: 60}, Op{K: impl.KReset},
		Op{K: impl.KReadByte, Next: true}, Op{K: impl.KWriteByte, Next: true, Data: 7},
		sized(Op{K: impl.KReadBytes, Next: true}, 3, 0), sized(Op{K: impl.KWriteBytes, Next: true}, 2, 1), sized(Op{K: impl.KWriteBytes, Next: true}, 5, 1),
		sized(Op{K: impl.KReadNum, Num: u32, Next: true}, 1, 0), sized(Op{K: impl.KWriteNum, Num: u32, Next: true}, 1, 1),
		Op{K: impl.KReadBits, N: 9, Next: true}, Op{K: impl.KSetBits, N: 12, Data: 0x5A5, Next: true}, Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KReadBit, Next: true}, Op{K: impl.KSetBit, Next: true},
		Op{K: impl.KSetBits, N: 9, Off: 30, Data: 1}, Op{K: impl.KWriteByte, Off: 5, Data: 9}, sized(Op{K: impl.KReadNum, Num: u32, Off: 1}, 1, 0), sized(Op{K: impl.KReadBytes, Off: 2}, 4, 0),
		Op{K: impl.KSeekByte, Off: 2}, Op{K: impl.KSeekByte, Off: -1}, Op{K: impl.KSeekByte, Off: -3, Rel: true}, Op{K: impl.KSeekByte, Off: 1 << 62, Rel: false},
		Op{K: impl.KSeekBit, Off: 17}, Op{K: impl.KSeekBit, Off: -1, Rel: true}, Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KFlipAll})
	return out
}

// c03Histories explores all histories over the alphabet; every access is judged against the capacity and cursor that
// the buffer itself reports before it.
func c03Histories(c *Ctx, d impl.Desc, depth, first int) {
	alpha := c03Alphabet(d)
	idx := make([]int, depth)
	idx[0] = first
	for {
		x := impl.New(d, fill(5, 1))
		h := hist{d: d, start: d.String() + " over 5 bytes"}
		c.State()
		for i := range idx {
			o := alpha[idx[i]]
			st := c.Obs(x)
			m := model.S{B: st.B, Off: st.Off, Boff: st.Boff}
			h.accept(c, x, &m, &o)
			h.ops = append(h.ops, o)
		}
		i := depth - 1
		for ; i > 0; i-- {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
		}
		if i == 0 {
			return
		}
	}
}
