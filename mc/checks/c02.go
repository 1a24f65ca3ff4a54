package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C02",
		Bounds: "every implementation and form: all positions and counts 1..64 on every capacity up to 11 bytes and on 24 bytes, with nine data patterns and four backgrounds, from the first eight (thorough: 24) positions with contents and data that differ from all zeros or all ones in a single bit (counts of 65 to 120: only that other bits stay); all 2-byte contents x positions x counts for reads, all 1-byte contents and a set of 2-byte contents x all data for writes; every single bit of every capacity up to 40 bytes; whole-buffer operations on every size up to 300 bytes and around every power of two up to 2^20; positions around bit 2^8, 2^16, 2^24, 2^31, 2^32, 2^34, 2^35",
		Units:  c02Units})
}

var bitKinds = []Op{{K: impl.KReadBit}, {K: impl.KSetBit}, {K: impl.KClearBit}, {K: impl.KFlipBit}, {K: impl.KPutBit}, {K: impl.KPutBit, Data: 1}}

func c02Units(tier string) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.All {
		d := d
		for _, next := range []bool{false, true} {
			next := next
			f := "positioned"
			if next {
				f = "cursor-relative"
			}
			u = append(u,
				engine.Unit{Name: fmt.Sprintf("%s runs, %s", d, f), Run: func(c *Ctx) { c02Runs(c, d, next) }},
				engine.Unit{Name: fmt.Sprintf("%s two-byte contents, %s", d, f), Run: func(c *Ctx) { c02Two(c, d, next) }},
				engine.Unit{Name: fmt.Sprintf("%s single bits, %s", d, f), Run: func(c *Ctx) { c02Single(c, d, next) }})
		}
		u = append(u,
			engine.Unit{Name: d.String() + " walking bits", Run: func(c *Ctx) { c02Walk(c, d) }},
			engine.Unit{Name: d.String() + " whole buffer", Run: func(c *Ctx) { c02All(c, d) }},
			engine.Unit{Name: d.String() + " long buffers", Run: func(c *Ctx) { c02Long(c, d) }},
			engine.Unit{Name: d.String() + " large positions", Run: func(c *Ctx) { c02Large(c, d) }})
		if tier == "thorough" {
			for p := 0; p < 8; p++ {
				p := p
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s three-byte contents, part %d", d, p), Run: func(c *Ctx) { c02Three(c, d, p, 8) }})
			}
		}
	}
	return u
}

// at puts an operation at a bit position in the wanted form; it returns the initial bit cursor.
func at(o Op, pos int64, next bool) (Op, int64) {
	o.Next, o.Off = next, pos
	if next {
		o.Off = 0
		return o, pos
	}
	return o, 0
}

func bitData(n int64) []uint64 {
	return []uint64{0, ^uint64(0), 0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 1, 1 << uint((n-1)&63), mix(uint64(n)), mix(uint64(n)) | ^uint64(0)<<uint((n-1)&63)<<1, ^uint64(0) << uint((n-1)&63) << 1}
}

func c02Runs(c *Ctx, d impl.Desc, next bool) {
	caps := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 24}
	if c.Thorough() {
		for i := 12; i < 24; i++ {
			caps = append(caps, i)
		}
		caps = append(caps, 32, 33, 40)
	}
	for _, cap := range caps {
		for bg := 0; bg < 4; bg++ {
			b := same(cap, [...]byte{0, 0xFF, 0xA5, 0}[bg])
			if bg == 3 {
				b = fill(cap, uint64(cap))
			}
			for pos := int64(0); pos < int64(8*cap); pos++ {
				for n := int64(1); n <= 64 && pos+n <= int64(8*cap); n++ {
					o, boff := at(Op{K: impl.KReadBits, N: n}, pos, next)
					single(c, d, b, 1, boff, &o, pRet|pBytes)
					for _, v := range bitData(n) {
						o, boff := at(Op{K: impl.KSetBits, N: n, Data: v}, pos, next)
						single(c, d, b, 1, boff, &o, pRet|pBytes)
					}
				}
				for _, n := range []int64{65, 66, 71, 72, 73, 80, 96, 120} {
					if pos+n <= int64(8*cap) {
						c02Beyond(c, d, b, pos, n, next)
					}
				}
			}
		}
	}
}

// c02Beyond writes more bits than a number has: what they become is left open, the others must not change.
func c02Beyond(c *Ctx, d impl.Desc, b []byte, pos, n int64, next bool) {
	for _, v := range bitData(64) {
		o, boff := at(Op{K: impl.KSetBits, N: n, Data: v}, pos, next)
		x := mk(d, b, 1, boff)
		r := c.Do(x, &o)
		c.State()
		if r.Panicked {
			return // nothing is said here about which requests are accepted
		}
		for i, y := range c.Obs(x).B {
			var m byte // the bits of the byte that are outside
			for k := int64(0); k < 8; k++ {
				if q := int64(8*i) + k; q < pos || q >= pos+n {
					m |= 0x80 >> uint(k)
				}
			}
			if i < len(b) && (y^b[i])&m != 0 {
				c.Fail(fmt.Sprintf("%s at bit %d makes byte %d %02x, which was %02x", &o, pos, i, y, b[i]), desc(d, b, 1, boff))
			}
		}
	}
}

// c02Walk reads and writes every run over contents, and with data, that differ from all zeros or all ones in one bit.
func c02Walk(c *Ctx, d impl.Desc) {
	for _, size := range []int{9, 11} {
		last := int64(8)
		if c.Thorough() {
			last = 24
		}
		for pos := int64(0); pos < last; pos++ {
			for n := int64(1); n <= 64 && pos+n <= int64(8*size); n++ {
				for _, bg := range []byte{0, 0xFF} {
					for k := int64(-1); k <= n; k++ { // the bits beside the run as well
						b := same(size, bg)
						if q := pos + k; q >= 0 && q < int64(8*size) {
							b[q/8] ^= 0x80 >> uint(q%8)
						}
						o, boff := at(Op{K: impl.KReadBits, N: n}, pos, k&1 == 0)
						single(c, d, b, 0, boff, &o, pRet|pBytes)
						v := uint64(0)
						if bg != 0 {
							v = ^v
						}
						if k >= 0 {
							v ^= 1 << uint(k&63)
						}
						o, boff = at(Op{K: impl.KSetBits, N: n, Data: v}, pos, k&1 != 0)
						single(c, d, same(size, bg^byte(0xFF*(k>>1&1))), 0, boff, &o, pRet|pBytes)
					}
				}
			}
		}
	}
}

func c02Two(c *Ctx, d impl.Desc, next bool) {
	// reads of all two-byte contents, by one long-lived instance
	back := make([]byte, 2)
	x := impl.New(d, back)
	var r impl.Ret
	for v := 0; v < 1<<16; v++ {
		back[0], back[1] = byte(v>>8), byte(v)
		c.State()
		for pos := int64(0); pos < 16; pos++ {
			for n := int64(1); pos+n <= 16; n++ {
				o := Op{K: impl.KReadBits, Off: pos, N: n}
				if next {
					x.Do(&Op{K: impl.KSeekBit, Off: pos}, &r)
					o.Off, o.Next = 0, true
				}
				c.DoR(x, &o, &r)
				want := int64(v) >> uint(16-pos-n) & (1<<uint(n) - 1)
				if r.Panicked || r.I != want {
					c.Fail(fmt.Sprintf("%s at bit %d returns %#x (%s), specified %#x", &o, pos, r.I, impl.PanicText(&r), want), fmt.Sprintf("%s over 2 bytes %04x", d, v))
				}
			}
		}
		if int(back[0])<<8|int(back[1]) != v {
			c.Fail("reading changed the contents", fmt.Sprintf("%s over 2 bytes %04x", d, v))
		}
		c.Trace(func() string { return fmt.Sprintf("%s: all runs of bits read from %04x", d, v) })
	}
	// writes
	var contents []int
	for v := 0; v < 256; v++ {
		contents = append(contents, v<<8|v^0x0F)
	}
	contents = append(contents, 0, 0xFFFF)
	for _, v := range contents {
		c.State()
		for pos := int64(0); pos < 16; pos++ {
			for n := int64(1); pos+n <= 16; n++ {
				step := uint64(1)
				if n > 8 {
					step = 1<<uint(n-8) - 1
				}
				for data := uint64(0); data < 1<<uint(n); data += step {
					back[0], back[1] = byte(v>>8), byte(v)
					o := Op{K: impl.KSetBits, Off: pos, N: n, Data: data}
					if next {
						x.Do(&Op{K: impl.KSeekBit, Off: pos}, &r)
						o.Off, o.Next = 0, true
					}
					c.DoR(x, &o, &r)
					mask := (1<<uint(n) - 1) << uint(16-pos-n)
					want := v&^mask | int(data)<<uint(16-pos-n)
					if got := int(back[0])<<8 | int(back[1]); r.Panicked || got != want {
						c.Fail(fmt.Sprintf("%s at bit %d leaves %04x (%s), specified %04x", &o, pos, got, impl.PanicText(&r), want), fmt.Sprintf("%s over 2 bytes %04x", d, v))
					}
				}
			}
		}
		c.Trace(func() string { return fmt.Sprintf("%s: all runs of bits written over %04x", d, v) })
	}
}

func c02Three(c *Ctx, d impl.Desc, part, parts int) {
	back := make([]byte, 3)
	x := impl.New(d, back)
	var r impl.Ret
	total := 1 << 24 / parts
	for v := total * part; v < total*(part+1); v++ {
		back[0], back[1], back[2] = byte(v>>16), byte(v>>8), byte(v)
		c.State()
		for pos := int64(v % 8); pos < 24; pos += 8 {
			for n := int64(1); pos+n <= 24; n++ {
				c.DoR(x, &Op{K: impl.KReadBits, Off: pos, N: n}, &r)
				want := int64(v) >> uint(24-pos-n) & (1<<uint(n) - 1)
				if r.Panicked || r.I != want {
					c.Fail(fmt.Sprintf("ReadBits(%d, %d) returns %#x (%s), specified %#x", pos, n, r.I, impl.PanicText(&r), want), fmt.Sprintf("%s over 3 bytes %06x", d, v))
				}
			}
		}
		c.Trace(func() string { return fmt.Sprintf("%s: runs of bits read from %06x", d, v) })
	}
}

func c02Single(c *Ctx, d impl.Desc, next bool) {
	for cap := 1; cap <= 40; cap++ {
		for bg := 0; bg < 4; bg++ {
			b := same(cap, [...]byte{0, 0xFF, 0x5A, 0}[bg])
			if bg == 3 {
				b = fill(cap, uint64(cap))
			}
			for pos := int64(0); pos < int64(8*cap); pos++ {
				for _, t := range bitKinds {
					if !d.Has(&t) {
						continue
					}
					o, boff := at(t, pos, next)
					single(c, d, b, 2, boff, &o, pRet|pBytes)
				}
			}
		}
	}
	for v := 0; v < 1<<16; v++ {
		b := []byte{byte(v >> 8), byte(v)}
		for _, t := range bitKinds {
			if d.Has(&t) {
				o, boff := at(t, int64(v*7%16), next)
				single(c, d, b, 0, boff, &o, pRet|pBytes)
			}
		}
	}
}

func c02All(c *Ctx, d impl.Desc) {
	var sizes []int
	for i := 1; i <= 30; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, thresholds...)
	sizes = append(sizes, 1<<20-1, 1<<20+1)
	if c.Thorough() {
		for i := 301; i < 2100; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 1<<24+1)
	}
	for _, n := range sizes {
		for bg := 0; bg < 4; bg++ {
			b := same(n, [...]byte{0, 0xFF, 0xA5, 0}[bg])
			if bg == 3 {
				b = fill(n, uint64(n))
			}
			for _, k := range []impl.Kind{impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
				for _, off := range []int64{0, 3} {
					o := Op{K: k}
					single(c, d, b, off, off*8+1, &o, pRet|pBytes)
					if n > 5000 {
						break
					}
				}
			}
		}
	}
	for v := 0; v < 1<<16; v++ {
		for _, k := range []impl.Kind{impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
			o := Op{K: k}
			single(c, d, []byte{byte(v >> 8), byte(v)}, 0, 0, &o, pRet|pBytes)
		}
	}
}

// c02Long covers positions in the middle of longer buffers, with one instance per buffer.
func c02Long(c *Ctx, d impl.Desc) {
	sizes := []int{129, 257, 1025, 4097, 8193, 65537, 1<<20 + 3}
	for _, size := range sizes {
		x := impl.New(d, make([]byte, size))
		var r impl.Ret
		c.DoR(x, &Op{K: impl.KBytes}, &r)
		mem := r.B
		want := fill(size, uint64(size))
		if len(mem) != size {
			c.Fail("the byte view has the wrong length", d.String())
		}
		var poss []int64
		for _, p := range []int64{0, 1 << 7, 1 << 8, 1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 19, 1 << 20, 1 << 22, int64(size) * 8} {
			for dlt := int64(-66); dlt <= 9; dlt++ {
				if p+dlt >= 0 && p+dlt < int64(size)*8 {
					poss = append(poss, p+dlt)
				}
			}
		}
		if size <= 257 {
			poss = poss[:0]
			for p := int64(0); p < int64(size)*8; p++ {
				poss = append(poss, p)
			}
		}
		for _, pos := range poss {
			for _, n := range []int64{1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 56, 57, 63, 64} {
				if pos+n > int64(size)*8 {
					continue
				}
				for _, t := range []Op{{K: impl.KReadBits, N: n}, {K: impl.KSetBits, N: n, Data: mix(uint64(pos))}, {K: impl.KSetBits, N: n, Data: ^uint64(0)}, {K: impl.KFlipBit}, {K: impl.KReadBit}} {
					for _, next := range []bool{false, true} {
						o, _ := at(t, pos, next)
						lo := pos/8 - 40
						if lo < 0 {
							lo = 0
						}
						hi := pos/8 + 48
						if hi > int64(size) {
							hi = int64(size)
						}
						copy(mem[lo:hi], want[lo:hi])
						m := model.S{B: clone(want[lo:hi])}
						mo := o
						if next {
							x.Do(&Op{K: impl.KSeekBit, Off: pos}, &r)
							m.Boff = pos - lo*8
						} else {
							mo.Off = pos - lo*8
						}
						out := model.Apply(d, &m, &mo)
						c.State()
						c.DoR(x, &o, &r)
						if s := model.CompareRet(&out, &r); s != "" {
							c.Fail(fmt.Sprintf("%s at bit %d: %s", &o, pos, s), fmt.Sprintf("%s of %d bytes", d, size), o.String())
						}
						if string(mem[lo:hi]) != string(m.B) {
							c.Fail(fmt.Sprintf("%s at bit %d stored %x, specified %x (bytes %d to %d)", &o, pos, mem[lo:hi], m.B, lo, hi), fmt.Sprintf("%s of %d bytes", d, size), o.String())
						}
						copy(mem[lo:hi], same(int(hi-lo), 0))
						c.Trace(func() string { return fmt.Sprintf("%s of %d bytes: %s at bit %d", d, size, &o, pos) })
					}
				}
			}
		}
		// nothing else was ever touched: everything outside the windows is still zero
		for i, v := range mem {
			if v != 0 {
				c.Fail(fmt.Sprintf("byte %d was changed by an operation elsewhere", i), fmt.Sprintf("%s of %d bytes", d, size))
			}
		}
	}
}

func c02Large(c *Ctx, d impl.Desc) {
	mem := big()
	if mem == nil {
		c.Notes = append(c.Notes, "no address space for the large-position unit: skipped")
		return
	}
	x := impl.New(d, mem)
	for _, base := range []int64{1 << 8, 1 << 16, 1 << 24, 1 << 27, 1 << 31, 1 << 32, 1 << 34, 1 << 35} {
		for delta := int64(-66); delta <= 2; delta++ {
			for _, n := range []int64{1, 3, 8, 13, 32, 61, 64} {
				for _, t := range []Op{{K: impl.KReadBits, N: n}, {K: impl.KSetBits, N: n, Data: mix(uint64(base + delta))}} {
					for _, f := range forms(t) {
						window(c, d, x, mem, f, base+delta, true)
					}
				}
			}
			for _, t := range bitKinds {
				if d.Has(&t) {
					for _, f := range forms(t) {
						window(c, d, x, mem, f, base+delta, true)
					}
				}
			}
		}
	}
}
