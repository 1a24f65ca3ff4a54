package checks

import (
	"fmt"
	"math"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C01",
		Bounds: "every implementation, number type, byte order and form: all capacities up to 40 bytes, positions and counts that fit; every position in 1100 bytes and around 2048, 4096, 8192; contents that are alike but for one element; counts to 300 and around every power of two and ten up to 2^20; all 2^16 16-bit values, all single-byte values on four backgrounds, bit pairs, all exponents and special mantissas for wider ones (thorough: all 2^32 32-bit values); v1: counts to 40 with other values of the byte order (a type that embeds it, a pointer to one, binary.NativeEndian); positions around 2^15, 2^16, 2^24, 2^31, 2^32",
		Units:  c01Units})
}

// thresholds are counts at which code may change to another way of doing things, or leave a remainder of any size behind.
var thresholds = func() (l []int) {
	for n := 31; n <= 300; n++ {
		l = append(l, n)
	}
	for k := 500; k <= 50000; k *= 10 {
		l = append(l, k, k+1, 2*k)
	}
	for k := 9; k <= 16; k++ {
		for _, e := range []int{-3, -2, -1, 0, 1, 2, 3, 5, 9} {
			if k < 13 || e >= -1 && e <= 1 {
				l = append(l, 1<<k+e)
			}
		}
	}
	return
}()

// powers are the counts at powers of two alone.
var powers = []int{127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537}

func c01Units(tier string) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.All {
		d := d
		for _, n := range d.Nums() {
			n := n
			name := fmt.Sprintf("%s %s", d, n)
			u = append(u,
				engine.Unit{Name: name + " counts", Run: func(c *Ctx) { c01Counts(c, d, Op{K: impl.KReadNum, Num: n}, Op{K: impl.KWriteNum, Num: n}, n.W) }},
				engine.Unit{Name: name + " geometry", Run: func(c *Ctx) { c01Geometry(c, d, Op{K: impl.KReadNum, Num: n}, Op{K: impl.KWriteNum, Num: n}, n.W) }},
				engine.Unit{Name: name + " middle", Run: func(c *Ctx) { c01Middle(c, d, Op{K: impl.KReadNum, Num: n}, Op{K: impl.KWriteNum, Num: n}, n.W) }},
				engine.Unit{Name: name + " values", Run: func(c *Ctx) { c01Values(c, d, n) }})
			if d.Ver == 1 {
				u = append(u, engine.Unit{Name: name + " byte orders", Run: func(c *Ctx) { c01Orders(c, d, n) }})
			}
			if tier == "thorough" && n.W == 4 {
				for p := 0; p < 8; p++ {
					p := p
					u = append(u, engine.Unit{Name: fmt.Sprintf("%s all values, part %d", name, p), Run: func(c *Ctx) { c01All32(c, d, n, p, 8) }})
				}
			}
		}
		u = append(u,
			engine.Unit{Name: d.String() + " bytes geometry", Run: func(c *Ctx) {
				c01Geometry(c, d, Op{K: impl.KReadBytes}, Op{K: impl.KWriteBytes}, 1)
				if !d.Mini {
					for cap := 1; cap <= 40; cap++ {
						for off := int64(0); off < int64(cap); off++ {
							for v := 0; v < 256; v++ {
								b := fill(cap, uint64(v))
								for _, o := range append(forms(Op{K: impl.KReadByte, Off: off}), forms(Op{K: impl.KWriteByte, Off: off, Data: uint64(v)})...) {
									single(c, d, b, off, 3, &o, pRet|pBytes)
								}
								if cap > 9 && v > 3 {
									break
								}
							}
						}
					}
				}
			}},
			engine.Unit{Name: d.String() + " bytes middle", Run: func(c *Ctx) { c01Middle(c, d, Op{K: impl.KReadBytes}, Op{K: impl.KWriteBytes}, 1) }},
			engine.Unit{Name: d.String() + " bytes counts", Run: func(c *Ctx) { c01Counts(c, d, Op{K: impl.KReadBytes}, Op{K: impl.KWriteBytes}, 1) }},
			engine.Unit{Name: d.String() + " large positions", Run: func(c *Ctx) { c01Large(c, d) }})
	}
	return u
}

func c01Geometry(c *Ctx, d impl.Desc, rd, wr Op, w int) {
	top := 40
	if c.Thorough() {
		top = 72
	}
	for cap := 0; cap <= top; cap++ {
		for seed := uint64(1); seed <= 2; seed++ {
			b := fill(cap, seed)
			if seed == 2 {
				b = same(cap, byte(0xFF*(cap&1)))
			}
			for off := 0; off <= cap; off++ {
				for n := 1; off+n*w <= cap; n++ {
					r := sized(rd, int64(n), 0)
					r.Off = int64(off)
					wo := sized(wr, int64(n), seed+uint64(off))
					if seed == 2 {
						for i := range wo.V { // ascending, distinctive bytes
							wo.V[i] = (0x0102030405060708 + uint64(i)*0x1011121314151617) & impl.Mask(w)
						}
					}
					wo.Off = int64(off)
					for _, o := range []*Op{&r, &wo} {
						for _, f := range forms(*o) {
							single(c, d, b, int64(off), 5, &f, pRet|pBytes)
						}
					}
				}
			}
		}
	}
}

func c01Counts(c *Ctx, d impl.Desc, rd, wr Op, w int) {
	var ns []int
	for _, n := range thresholds {
		if n > 40 {
			ns = append(ns, n)
		}
	}
	ns = append(ns, 1<<20+3)
	if c.Thorough() {
		for n := 301; n < 1100; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 1<<24+1)
	}
	for _, n := range ns {
		offs, tails := []int{0, 1, 2, 3, 4, 5, 7, 8}, []int{0, 1, 9}
		if n > 70 && n%64 > 3 && n%64 < 61 {
			offs, tails = []int{0, 3}, []int{0, 9}
		}
		if n > 5000 {
			offs, tails = []int{0, 3}, []int{0, 7}
		}
		if n > 100000 {
			offs, tails = []int{1}, []int{2}
		}
		for _, off := range offs {
			for _, tail := range tails {
				b := fill(off+n*w+tail, uint64(n))
				r := sized(rd, int64(n), 0)
				wo := sized(wr, int64(n), uint64(off))
				r.Off, wo.Off = int64(off), int64(off)
				for _, o := range []*Op{&r, &wo} {
					for _, f := range forms(*o) {
						single(c, d, b, int64(off), 0, &f, pRet|pBytes)
						if n > 100000 {
							break
						}
					}
				}
			}
		}
	}
}

// c01Middle covers every position in longer buffers, and transfers of uniform contents.
func c01Middle(c *Ctx, d impl.Desc, rd, wr Op, w int) {
	run := func(b []byte, off, n int, v []uint64) {
		r, wo := sized(rd, int64(n), 0), sized(wr, int64(n), uint64(off))
		if v != nil {
			for i := range v {
				v[i] &= impl.Mask(w)
			}
			if wr.K == impl.KWriteBytes {
				for i := range wo.D {
					wo.D[i] = byte(v[i])
				}
			} else {
				wo.V = v
			}
		}
		r.Off, wo.Off = int64(off), int64(off)
		for _, o := range []*Op{&r, &wo} {
			for _, f := range forms(*o) {
				single(c, d, b, int64(off), 1, &f, pRet|pBytes)
			}
		}
	}
	size := 1100
	b := fill(size, uint64(w))
	for off := 0; off < size; off++ {
		for _, n := range []int{1, 2, 5} {
			if off+n*w <= size {
				run(b, off, n, nil)
			}
		}
	}
	b = fill(8300, uint64(w))
	for _, mid := range []int{2048, 4096, 8192} {
		for off := mid - 5*w - 2; off <= mid+2; off++ {
			for _, n := range []int{1, 2, 3, 5} {
				run(b, off, n, nil)
			}
		}
	}
	// contents that are alike, or alike but for one element
	for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129} {
		for _, v := range []uint64{0, ^uint64(0), 0x0101010101010101, 0x8000000080008080, 0x7F00FF01, 1} {
			bytes := same(n*w+5, byte(v))
			for i := 0; i < n; i++ {
				if i < 3 || i > n-3 || i == n/2 {
					vs := make([]uint64, n)
					for j := range vs {
						vs[j] = v
					}
					if i != 1 {
						vs[i] = ^v + 2*uint64(i&1)
					}
					b := clone(bytes)
					if i != 1 {
						b[2+i*w+i%w]++
					}
					run(b, 2, n, vs)
				}
			}
		}
	}
}

// special lists values of width w that deserve attention.
func special(w int) []uint64 {
	m := impl.Mask(w)
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		v &= m
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, bg := range []uint64{0, m, 0x5555555555555555, 0xA5A5A5A5A5A5A5A5, 0x0102030405060708, 0x8182838485868788} {
		add(bg)
		for i := 0; i < w; i++ {
			for v := uint64(0); v < 256; v++ {
				add(bg&^(0xFF<<(8*uint(i))) | v<<(8*uint(i)))
			}
		}
	}
	for i := 0; i < 8*w; i++ {
		for j := 0; j <= i; j++ {
			add(1<<uint(i) | 1<<uint(j))
			add(^(1<<uint(i) | 1<<uint(j)))
			add(1<<uint(i) - 1<<uint(j))
		}
		add(1<<uint(i) - 1)
		add(1<<uint(i) + 1)
	}
	if w == 4 {
		for e := uint64(0); e < 256; e++ {
			for s := uint64(0); s < 2; s++ {
				for _, f := range []uint64{0, 1, 2, 0x200000, 0x3FFFFF, 0x400000, 0x400001, 0x7FFFFE, 0x7FFFFF, 0x123456} {
					add(s<<31 | e<<23 | f)
				}
			}
		}
	}
	if w == 8 {
		for e := uint64(0); e < 2048; e++ {
			for s := uint64(0); s < 2; s++ {
				for _, f := range []uint64{0, 1, 1 << 50, 1<<51 - 1, 1 << 51, 1<<51 + 1, 1<<52 - 1, 0x123456789ABCD} {
					add(s<<63 | e<<52 | f)
				}
			}
		}
		for _, x := range []float64{0.1, 1, -1, 1e308, math.Pi, 16777217, 9007199254740993} {
			add(math.Float64bits(x))
		}
	}
	return out
}

func c01Values(c *Ctx, d impl.Desc, n impl.Num) {
	w := n.W
	var vs []uint64
	if w <= 2 {
		for v := uint64(0); v <= impl.Mask(w); v++ {
			vs = append(vs, v)
		}
	} else {
		vs = special(w)
	}
	bg := fill(3*w+2, 77)
	enc := make([]byte, w)
	for _, v := range vs {
		o := Op{K: impl.KWriteNum, Num: n, Off: 1, V: []uint64{v}}
		single(c, d, bg, 0, 0, &o, pBytes)
		o = Op{K: impl.KWriteNum, Num: n, Next: true, V: []uint64{mix(v), v, ^v}}
		for i := range o.V {
			o.V[i] &= impl.Mask(w)
		}
		single(c, d, bg, 2, 0, &o, pBytes)
		model.Encode(enc, v, w, n.BE)
		b := clone(bg)
		copy(b[1:], enc)
		copy(b[1+w:], enc)
		o = Op{K: impl.KReadNum, Num: n, Off: 1, N: 1}
		single(c, d, b, 0, 0, &o, pRet|pBytes)
		o = Op{K: impl.KReadNum, Num: n, Next: true, N: 2}
		single(c, d, b, 1, 0, &o, pRet|pBytes)
	}
	// all of them in one transfer
	o := Op{K: impl.KWriteNum, Num: n, Off: 1, V: vs}
	b := fill(len(vs)*w+2, 5)
	single(c, d, b, 0, 0, &o, pBytes)
	for i, v := range vs {
		model.Encode(b[1+i*w:], v, w, n.BE)
	}
	o = Op{K: impl.KReadNum, Num: n, Off: 1, N: int64(len(vs))}
	single(c, d, b, 0, 0, &o, pRet|pBytes)
}

// c01Orders passes other values that mean the same byte order.
func c01Orders(c *Ctx, d impl.Desc, n impl.Num) {
	top := 40
	if c.Thorough() {
		top = 200
	}
	for ord := byte(1); ord < impl.Ords(n.BE); ord++ {
		for cnt := 1; cnt <= top; cnt++ {
			for off := 0; off <= 3; off++ {
				b := fill(off+cnt*n.W+off%2, uint64(cnt))
				for _, k := range []impl.Kind{impl.KReadNum, impl.KWriteNum} {
					o := sized(Op{K: k, Num: n, Off: int64(off), Ord: ord}, int64(cnt), uint64(cnt+7))
					for _, f := range forms(o) {
						single(c, d, b, int64(off), 5, &f, pRet|pBytes)
					}
				}
			}
		}
	}
}

func c01All32(c *Ctx, d impl.Desc, n impl.Num, part, parts int) {
	const chunk = 1 << 14
	back := make([]byte, chunk*4)
	want := make([]byte, chunk*4)
	x := impl.New(d, back)
	wr := Op{K: impl.KWriteNum, Num: n, V: make([]uint64, chunk)}
	rd := Op{K: impl.KReadNum, Num: n, N: chunk}
	total := uint64(1<<32) / uint64(parts)
	for v := total * uint64(part); v < total*uint64(part+1); v += chunk {
		for i := range wr.V {
			wr.V[i] = v + uint64(i)
			model.Encode(want[i*4:], v+uint64(i), 4, n.BE)
		}
		c.State()
		if r := c.Do(x, &wr); r.Panicked {
			c.Fail("write refused: "+impl.PanicText(&r), fmt.Sprintf("values from %#x", v))
		}
		if string(want) != string(back) {
			for i := range wr.V {
				if string(want[4*i:4*i+4]) != string(back[4*i:4*i+4]) {
					c.Fail(fmt.Sprintf("%s writes %#x as %x, specified %x", n, wr.V[i], back[4*i:4*i+4], want[4*i:4*i+4]))
				}
			}
		}
		r := c.Do(x, &rd)
		if r.Panicked || len(r.U) != chunk {
			c.Fail("read refused", fmt.Sprintf("values from %#x", v))
		}
		for i := range wr.V {
			if r.U[i] != wr.V[i] {
				c.Fail(fmt.Sprintf("%s reads %x as %#x, specified %#x", n, want[4*i:4*i+4], r.U[i], wr.V[i]))
			}
		}
		c.Trace(func() string { return fmt.Sprintf("%s %s: %d values from %#x written and read back", d, n, chunk, v) })
	}
}

// window runs one positioned or cursor-relative access far inside a very large buffer.
func window(c *Ctx, d impl.Desc, x impl.Inst, mem []byte, o Op, pos int64, bits bool) {
	p := pos
	if bits {
		p /= 8
	}
	ws := bigWindows(p)
	for i, w := range ws { // distinctive contents, a different set for every window
		copy(mem[w[0]:w[1]], fill(int(w[1]-w[0]), uint64(i)+uint64(pos)))
	}
	lo := ws[0][0]
	// the window of the access, filled last so that it is intact
	copy(mem[lo:ws[0][1]], fill(int(ws[0][1]-lo), uint64(pos)))
	before := make([][]byte, len(ws))
	for i, w := range ws {
		before[i] = clone(mem[w[0]:w[1]])
	}
	m := model.S{B: clone(before[0])}
	lpos := pos - lo
	if bits {
		lpos = pos - lo*8
	}
	mo := o
	if o.Next {
		if bits {
			m.Boff = lpos
			c.Do(x, &Op{K: impl.KSeekBit, Off: pos})
		} else {
			m.Off = lpos
			c.Do(x, &Op{K: impl.KSeekByte, Off: pos})
		}
	} else {
		o.Off = pos
		mo.Off = lpos
	}
	out := model.Apply(d, &m, &mo)
	c.State()
	r := c.Do(x, &o)
	start := fmt.Sprintf("%s of %d bytes", d, len(mem))
	if s := model.CompareRet(&out, &r); s != "" {
		c.Fail(fmt.Sprintf("%s at position %d: %s", o, pos, s), start, o.String())
	}
	if string(mem[lo:ws[0][1]]) != string(m.B) {
		c.Fail(fmt.Sprintf("%s at position %d: stored %x, specified %x (bytes %d to %d)", o, pos, mem[lo:ws[0][1]], m.B, lo, ws[0][1]), start, o.String())
	}
	for i, w := range ws[1:] {
		for k := w[0]; k < w[1]; k++ {
			if k >= lo && k < ws[0][1] {
				continue
			}
			if mem[k] != before[i+1][k-w[0]] {
				c.Fail(fmt.Sprintf("%s at position %d changed byte %d", o, pos, k), start, o.String())
			}
		}
	}
	if o.Next {
		var q impl.Ret
		if bits {
			c.DoR(x, &Op{K: impl.KBitOff}, &q)
		} else {
			c.DoR(x, &Op{K: impl.KByteOff}, &q)
		}
		a := model.Range(&o)
		if want := pos + a.N*a.W; c.Prop == "C05" && q.I != want {
			c.Fail(fmt.Sprintf("%s at position %d leaves the cursor at %d, specified %d", o, pos, q.I, want), start, o.String())
		}
	}
	c.Trace(func() string { return fmt.Sprintf("%s: %s at %d", start, o, pos) })
}

func c01Large(c *Ctx, d impl.Desc) {
	mem := big()
	if mem == nil {
		c.Notes = append(c.Notes, "no address space for the large-position unit: skipped")
		return
	}
	x := impl.New(d, mem)
	for _, base := range []int64{1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32} {
		for delta := int64(-9); delta <= 1; delta++ {
			for _, t := range accessKinds(d) {
				if model.Range(&t).Bits {
					continue
				}
				ns := []int64{1}
				if counted(t.K) {
					ns = []int64{1, 3}
				}
				for _, n := range ns {
					o := t
					if counted(t.K) {
						o = sized(t, n, uint64(delta+20))
					}
					for _, f := range forms(o) {
						window(c, d, x, mem, f, base+delta, false)
					}
				}
			}
		}
	}
	// in one transfer across a power of two
	for _, base := range []int64{1 << 16, 1 << 31, 1 << 32} {
		for _, o := range []Op{sized(Op{K: impl.KReadBytes}, 100, 0), sized(Op{K: impl.KWriteBytes}, 100, 3)} {
			for _, f := range forms(o) {
				window(c, d, x, mem, f, base-50, false)
			}
		}
	}
}
