package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C06",
		Bounds: "every implementation: all pairs of (cursor, seek argument) from a dense range around the buffer and all 64-bit boundary values for both cursors and both kinds of seek, every alignment and remaining-count query from all those cursors, on capacities 0 to 9, 17, 1000; all histories of depth 5 (thorough 6) over seeks, alignments, queries, capacity changes and cursor-relative transfers, the state compared with the model after every step",
		Units:  c06Units})
}

func c06Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 5
	if tier == "thorough" {
		depth = 6
	}
	for _, d := range impl.All {
		d := d
		for _, cap := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 1000} {
			cap := cap
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s capacity %d", d, cap), Run: func(c *Ctx) { c06Grid(c, d, cap) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " very large buffer", Run: func(c *Ctx) { c06Big(c, d) }})
		for i := range c06Alphabet(d) {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { histories(c, d, c06Alphabet(d), depth, i, 5, false, pAll, c06Judged) }})
		}
	}
	return u
}

func c06Points(cap int64) []int64 {
	var p []int64
	seen := map[int64]bool{}
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			p = append(p, v)
		}
	}
	for v := int64(-17); v <= 17; v++ {
		add(v)
		add(cap + v)
		add(cap*8 + v)
	}
	for _, v := range extreme() {
		add(v)
		add(v / 8)
		add(v/8 + 1)
		add(v/8 - 1)
	}
	return p
}

// c06Grid: one operation from every cursor.
func c06Grid(c *Ctx, d impl.Desc, cap int) {
	pts := c06Points(int64(cap))
	mem := fill(cap, 7)
	x := impl.New(d, mem)
	ref := clone(mem)
	m := model.S{B: ref}
	n := 0
	try := func(off, boff int64, o *Op) {
		c.Do(x, &Op{K: impl.KSeekByte, Off: off})
		c.Do(x, &Op{K: impl.KSeekBit, Off: boff})
		m.Off, m.Boff = off, boff
		pre := m
		out := model.Apply(d, &m, o)
		if out.V == model.Unspec {
			return
		}
		var r impl.Ret
		c.DoR(x, o, &r)
		start := func() string { return desc(d, mem, pre.Off, pre.Boff) }
		if s := model.CompareRet(&out, &r); s != "" {
			c.Fail(fmt.Sprintf("%s: %s (specified vs actual)", o, s), start(), o.String())
		}
		st, want := c.Obs(x), m.Obs()
		parts := pAll
		if n++; cap > 100 && n%64 != 0 {
			parts &^= pBytes
			st.B, want.B = nil, nil
		}
		if s := stateDiff(&st, &want, parts); s != "" {
			c.Fail(fmt.Sprintf("after %s: %s (actual vs specified)", o, s), start(), o.String())
		}
		c.Trace(func() string { return start() + ": " + o.String() })
	}
	for _, p := range pts {
		for _, other := range []int64{0, 3, -5, int64(cap) * 8, maxI, minI} {
			c.State()
			for _, k := range []impl.Kind{impl.KAlignBit, impl.KAlignByte, impl.KAfterByte, impl.KAfterBit, impl.KByteOff, impl.KBitOff, impl.KByteCap, impl.KBitCap, impl.KRefresh} {
				o := Op{K: k, Rel: true}
				try(p, other, &o)
				try(other, p, &o)
			}
		}
		for _, q := range pts {
			for _, k := range []impl.Kind{impl.KSeekByte, impl.KSeekBit} {
				for _, rel := range []bool{false, true} {
					o := Op{K: k, Off: q, Rel: rel}
					if k == impl.KSeekByte {
						try(p, 11, &o)
					} else {
						try(11, p, &o)
					}
				}
			}
		}
		for _, k := range []impl.Kind{impl.KAfterByte, impl.KAfterBit} {
			for _, cur := range []int64{0, 2, -1, maxI, minI} {
				o := Op{K: k, Off: p}
				try(cur, cur, &o)
			}
		}
	}
}

// c06Big: capacities beyond 32 bits (in bytes and in bits).
func c06Big(c *Ctx, d impl.Desc) {
	mem := big()
	if mem == nil {
		c.Notes = append(c.Notes, "no address space for the large-buffer unit: skipped")
		return
	}
	for _, n := range []int64{1<<28 - 1, 1 << 28, 1<<28 + 1, 1<<29 + 3, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 77} {
		x := impl.New(d, mem[:n])
		q := func(o Op, want int64) {
			r := c.Do(x, &o)
			if r.Panicked || r.I != want {
				c.Fail(fmt.Sprintf("%s on a buffer of %d bytes: %d (panic %s), specified %d", &o, n, r.I, impl.PanicText(&r), want), o.String())
			}
			c.Trace(func() string { return fmt.Sprintf("%s of %d bytes: %s", d, n, &o) })
		}
		c.State()
		q(Op{K: impl.KByteCap}, n)
		q(Op{K: impl.KBitCap}, 8*n)
		for _, p := range []int64{0, 1, n - 1, n, n + 1, n / 2, 1 << 31, 1 << 32} {
			c.Do(x, &Op{K: impl.KSeekByte, Off: p})
			c.Do(x, &Op{K: impl.KSeekBit, Off: 8*p + 3})
			q(Op{K: impl.KByteOff}, p)
			q(Op{K: impl.KBitOff}, 8*p+3)
			q(Op{K: impl.KAfterByte, Rel: true}, n-p-1)
			q(Op{K: impl.KAfterBit, Rel: true}, 8*n-8*p-4)
			q(Op{K: impl.KAfterByte, Off: p}, n-p-1)
			q(Op{K: impl.KAfterBit, Off: p}, 8*n-p-1)
			c.Do(x, &Op{K: impl.KAlignBit})
			q(Op{K: impl.KBitOff}, 8*p)
			c.Do(x, &Op{K: impl.KSeekBit, Off: 8*p + 9})
			c.Do(x, &Op{K: impl.KAlignByte})
			q(Op{K: impl.KByteOff}, p+1)
		}
	}
}

func c06Judged(o *Op) bool {
	switch o.K {
	case impl.KSeekByte, impl.KSeekBit, impl.KAlignBit, impl.KAlignByte, impl.KAfterByte, impl.KAfterBit, impl.KByteOff, impl.KBitOff:
		return true
	}
	return false
}

func c06Alphabet(d impl.Desc) []Op {
	return filter(d,
		Op{K: impl.KSeekByte, Off: 2}, Op{K: impl.KSeekByte, Off: -3}, Op{K: impl.KSeekByte, Off: 5, Rel: true}, Op{K: impl.KSeekByte, Off: -2, Rel: true},
		Op{K: impl.KSeekBit, Off: 13}, Op{K: impl.KSeekBit, Off: -6}, Op{K: impl.KSeekBit, Off: 1, Rel: true}, Op{K: impl.KSeekBit, Off: -4, Rel: true}, Op{K: impl.KSeekBit, Off: 1 << 40, Rel: true},
		Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterBit, Rel: true}, Op{K: impl.KAfterBit, Off: 21},
		Op{K: impl.KGrow, N: 3}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 2}, Op{K: impl.KReset}, Op{K: impl.KRefresh},
		Op{K: impl.KReadByte, Next: true}, sized(Op{K: impl.KReadBytes, Next: true}, 2, 0), sized(Op{K: impl.KWriteBytes, Next: true}, 1, 0), Op{K: impl.KReadBits, N: 5, Next: true}, Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KSetAll})
}
