package checks

import (
	"fmt"
	"reflect"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

func init() {
	register(engine.Check{Prop: "C20",
		Bounds: "every implementation: breadth-first exploration to a fixpoint of all states reachable from one-byte and empty buffers by a write through every view, whole-buffer operations, cursor moves and capacity changes that keep the size within 1 byte and the cursors near the buffer, from a two-byte (thorough: also from an empty) buffer within 2 bytes by those that do not write single bits, and of all contents of a two-byte buffer under every positioned write; states identified by contents, cursors and all hidden fields of the real buffer, and every possible read through every view compared with the model in each; all histories of depth 3 over every operation and of depth 4 (thorough 5) over a mix, from buffers with and without room, every view compared in each new state; on 19 bytes, every kind of read at four positions followed by every kind of write at every position (bits: three of eight; thorough all) or change of size, and a seventh (thorough: all) of the pairs of such writes, every view compared afterwards; all special values (as in C01) of every number type, byte values, bits that differ in one from zeros or ones; every pair of operations repeated 150 (thorough 1000) times",
		Units:  c20Units})
}

func c20Units(tier string) []engine.Unit {
	var u []engine.Unit
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	for _, d := range impl.All {
		d := d
		for first := 0; first < 4; first++ {
			first := first
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s reachable states %d", d, first), Run: func(c *Ctx) { c20Reach(c, d, first) }})
		}
		u = append(u, engine.Unit{Name: d.String() + " all contents of two bytes", Run: func(c *Ctx) { c20Contents(c, d) }})
		for p := 0; p < 8; p++ {
			p := p
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s reads after reads and writes anywhere, part %d", d, p), Run: func(c *Ctx) { c20Windows(c, d, p, 8) }})
		}
		u = append(u, valueUnits(d, d.String(), func(c *Ctx, b []byte, o *Op) {
			n, off, boff := cursorOf(o)
			single(c, d, b, off, boff, o, pRet|pBytes)
			if model.Range(o).Is {
				single(c, d, b, off, boff, &n, pRet|pBytes)
			}
		})...)
		mix, every := c20Mix(d), c20Every(d)
		for i := range mix {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s mixed histories of depth %d from #%d", d, depth, i), Run: func(c *Ctx) { c20Hist(c, d, mix, depth, i) }},
				engine.Unit{Name: fmt.Sprintf("%s repeated pairs from #%d", d, i), Run: func(c *Ctx) { c20Repeat(c, d, mix, i) }})
		}
		for i := range every {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s histories of depth 3 from #%d", d, i), Run: func(c *Ctx) { c20Hist(c, d, every, 3, i) }})
		}
	}
	return u
}

func c20Every(d impl.Desc) []Op {
	var out []Op
	for _, o := range everyOp(d, 3) {
		switch o.K {
		case impl.KBytes, impl.KByteCap, impl.KBitCap, impl.KByteOff, impl.KBitOff, impl.KAfterByte, impl.KAfterBit:
			continue
		}
		if a := model.Range(&o); a.Is && !a.Write && !o.Next {
			continue // reads are compared in every state
		}
		out = append(out, o)
	}
	return out
}

func c20Mix(d impl.Desc) []Op {
	return filter(d,
		Op{K: impl.KSeekByte, Off: 2}, Op{K: impl.KSeekByte, Off: -1, Rel: true}, Op{K: impl.KSeekBit, Off: 13}, Op{K: impl.KSeekBit, Off: -6, Rel: true}, Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte},
		Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 10}, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KReset}, Op{K: impl.KRefresh},
		Op{K: impl.KSetAll}, Op{K: impl.KClearAll}, Op{K: impl.KFlipAll},
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 9), sized(Op{K: impl.KWriteBytes, Off: 1}, 3, 8), sized(Op{K: impl.KReadBytes, Next: true}, 1, 0), Op{K: impl.KWriteByte, Off: 3, Data: 0x6D}, Op{K: impl.KReadByte, Next: true},
		sized(Op{K: impl.KWriteNum, Num: num(d, 2, true), Next: true}, 1, 4), sized(Op{K: impl.KWriteNum, Num: num(d, 2, false), Off: 1}, 2, 4), sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Off: 0}, 1, 5), sized(Op{K: impl.KReadNum, Num: num(d, 2, false), Next: true}, 1, 0),
		Op{K: impl.KSetBits, Data: 0x155, N: 9, Next: true}, Op{K: impl.KSetBits, Data: 0x9C3A, N: 17, Off: 5}, Op{K: impl.KReadBits, N: 10, Next: true}, Op{K: impl.KSetBit, Off: 12}, Op{K: impl.KClearBit, Next: true}, Op{K: impl.KFlipBit, Off: 0}, Op{K: impl.KFlipBit, Next: true})
}

// views compares every read through every view with the model.
func views(c *Ctx, x impl.Inst, m *model.S, steps func() []string) {
	d := x.Desc()
	size := int64(len(m.B))
	check := func(o *Op) {
		s := model.S{B: m.B, Off: m.Off, Boff: m.Boff}
		out := model.Apply(d, &s, o)
		if out.V != model.OK || out.Loose {
			return
		}
		var r impl.Ret
		c.DoR(x, o, &r)
		if e := model.CompareRet(&out, &r); e != "" {
			c.Fail(fmt.Sprintf("%s: %s (specified vs actual)", o, e), append(steps(), o.String())...)
		}
	}
	for i := int64(0); i < 8*size; i++ {
		check(&Op{K: impl.KReadBit, Off: i})
		for _, n := range []int64{1, 2, 3, 7, 8, 9, 16, 17, 31, 33, 63, 64, 8*size - i} {
			if n <= 8*size-i && n <= 64 && (size <= 3 || i < 18 || i > 8*size-18) {
				check(&Op{K: impl.KReadBits, Off: i, N: n})
			}
		}
	}
	for i := int64(0); i < size; i++ {
		if !d.Mini {
			check(&Op{K: impl.KReadByte, Off: i})
		}
		for _, n := range []int64{1, 2, 3, size - i} {
			check(&Op{K: impl.KReadBytes, Off: i, N: n})
		}
		for _, t := range d.Nums() {
			for _, n := range []int64{1, 2, (size - i) / int64(t.W)} {
				if n > 0 && n*int64(t.W) <= size-i {
					check(&Op{K: impl.KReadNum, Num: t, Off: i, N: n})
				}
			}
		}
	}
	st, want := c.Obs(x), m.Obs()
	if s := stateDiff(&st, &want, pAll); s != "" {
		c.Fail(fmt.Sprintf("after reading through all views: %s (actual vs specified)", s), steps()...)
	}
}

// valid runs o, which must be valid, on x and m; it is false if o is not valid here.
func (h *hist) valid(c *Ctx, x impl.Inst, m *model.S, o *Op) bool {
	out := model.Apply(h.d, m, o)
	if out.V != model.OK || out.Loose {
		return false
	}
	h.ops = append(h.ops, *o)
	var r impl.Ret
	c.DoR(x, o, &r)
	if s := model.CompareRet(&out, &r); s != "" {
		c.Fail(fmt.Sprintf("%s: %s (specified vs actual)", o, s), h.steps()...)
	}
	st, want := c.Obs(x), m.Obs()
	if !st.Same(&want) {
		c.Fail(fmt.Sprintf("after %s: %s (actual vs specified)", o, st.Diff(want)), h.steps()...)
	}
	return true
}

func c20Hist(c *Ctx, d impl.Desc, alpha []Op, depth, first int) {
	for _, n := range []int{4, 9} {
		for _, room := range []int{0, 12} {
			if depth > 3 && n == 9 && room == 0 || depth > 4 && n == 9 {
				continue
			}
			sequences(len(alpha), depth, []int{first}, func(idx []int) {
				mem := fill(n+room, 1)
				x := impl.New(d, mem[:n:n+room])
				m := model.S{B: fill(n+room, 1)[:n:n]}
				h := hist{d: d, start: fmt.Sprintf("%s over %d bytes with room for %d", d, n, room)}
				for _, i := range idx {
					if !h.valid(c, x, &m, &alpha[i]) {
						return
					}
				}
				before := c.States
				c.StateOf(n, m.B, m.Off, m.Boff)
				if c.States != before {
					views(c, x, &m, h.steps)
				}
				c.Trace(h.String)
			})
		}
	}
}

// c20Repeat: pairs of operations many times over.
func c20Repeat(c *Ctx, d impl.Desc, alpha []Op, first int) {
	times := 150
	if c.Thorough() {
		times = 1000
	}
	for j := range alpha {
		for _, room := range []int{0, 40} {
			mem := fill(20+room, 1)
			x := impl.New(d, mem[:20:20+room])
			m := model.S{B: fill(20, 1)}
			h := hist{d: d, start: fmt.Sprintf("%s over 20 bytes with room for %d, then up to %d times %s and %s, where possible; the last ones:", d, room, times, &alpha[first], &alpha[j])}
			for k := 0; k < times; k++ {
				for _, i := range []int{first, j} {
					o := &alpha[i]
					if o.K == impl.KGrow && len(m.B) > 4000 {
						continue
					}
					if len(h.ops) > 10 {
						h.ops = append(h.ops[:0], h.ops[1:]...)
					}
					s := m
					if !h.valid(c, x, &m, o) {
						m = s
					}
				}
				if len(m.B) > 0 && m.Off >= int64(len(m.B))-2 { // go round
					h.valid(c, x, &m, &Op{K: impl.KSeekByte})
				}
				if len(m.B) > 0 && m.Boff >= int64(len(m.B))*8-20 {
					h.valid(c, x, &m, &Op{K: impl.KSeekBit, Off: int64(k % 8)})
				}
			}
			if len(m.B) < 300 {
				views(c, x, &m, h.steps)
			}
			c.StateOf(j, m.B, m.Off, m.Boff)
			c.Trace(h.String)
		}
	}
}

// c20Windows: a read, then a write or a change of size anywhere, then every read: nothing that the first read may have left
// behind shows in the later ones; and every two writes anywhere, then every read.
func c20Windows(c *Ctx, d impl.Desc, part, parts int) {
	const size = 19
	var first, second []Op
	for _, t := range accessKinds(d) {
		a := model.Range(&t)
		limit := int64(size)
		step := int64(1)
		if a.Bits {
			limit = 8 * size
		}
		ns := []int64{1}
		if counted(t.K) {
			ns = []int64{1, 2}
			if a.Bits {
				ns = []int64{1, 5, 8, 13, 64}
			}
			if t.K == impl.KReadBytes || t.K == impl.KWriteBytes {
				ns = []int64{1, 2, 3, 5}
			}
		}
		for _, n := range ns {
			o := t
			if counted(t.K) {
				o = sized(t, n, 77)
			}
			at := int64(0)
			for ; at+n*a.W <= limit; at += step {
				if a.Bits && at%8 != 0 && at%8 != 3 && at%8 != 7 && !c.Thorough() {
					continue
				}
				o.Off = at
				if a.Write {
					second = append(second, o)
				} else if e := limit - n*a.W; at == 0 || at == 3 || at == e || a.W == 1 && !a.Bits && at == 8 || a.Bits && at == 59 {
					first = append(first, o)
				}
			}
		}
	}
	second = append(second, filter(d, Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 20}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KTruncL, N: 8}, Op{K: impl.KTruncR, N: 9}, Op{K: impl.KReset}, Op{K: impl.KRefresh}, Op{K: impl.KFlipAll}, Op{K: impl.KSetAll}, Op{K: impl.KClearAll}, Op{K: impl.KSeekByte, Off: 3}, Op{K: impl.KSeekBit, Off: 30})...)
	start := fill(size, 31)
	run := func(ops ...*Op) {
		x := impl.New(d, clone(start))
		m := model.S{B: clone(start)}
		h := hist{d: d, start: fmt.Sprintf("%s over %d bytes", d, size)}
		for _, o := range ops {
			if !h.valid(c, x, &m, o) {
				return
			}
		}
		c.State()
		views(c, x, &m, h.steps)
		c.Trace(h.String)
	}
	for j := part; j < len(second); j += parts {
		for i := range first {
			run(&first[i], &second[j])
		}
		for i := range second {
			if i%7 == j%7 || c.Thorough() {
				run(&second[i], &second[j])
			}
		}
	}
}

// ---------------------------------------------------------------- reachable states

// hidden hashes every field of the value behind p, exported or not, without addresses.
func hidden(h uint64, v reflect.Value, depth int) uint64 {
	mixin := func(x uint64) { h = (h ^ x) * 0x100000001B3; h ^= h >> 29 }
	if depth > 6 {
		return h
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			mixin(1)
		} else {
			mixin(2)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		mixin(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		mixin(v.Uint())
	case reflect.String:
		for _, b := range []byte(v.String()) {
			mixin(uint64(b))
		}
	case reflect.Slice:
		mixin(uint64(v.Len()))
		mixin(uint64(v.Cap()))
		for i := 0; i < v.Len() && i < 64; i++ {
			h = hidden(h, v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			h = hidden(h, v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h = hidden(h, v.Field(i), depth+1)
		}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			mixin(3)
		} else {
			h = hidden(h, v.Elem(), depth+1)
		}
	case reflect.Map:
		mixin(uint64(v.Len()))
	}
	return h
}

type c20Node struct {
	parent int32
	op     int16
}

func c20Explore(c *Ctx, d impl.Desc, start []byte, ops []Op, within func(m *model.S) bool, withViews bool) {
	nodes := []c20Node{{-1, -1}}
	seen := map[uint64]struct{}{}
	path := func(n int) (p []int) {
		for ; nodes[n].parent >= 0; n = int(nodes[n].parent) {
			p = append(p, int(nodes[n].op))
		}
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return
	}
	key := func(x impl.Inst, m *model.S) uint64 {
		h := uint64(14695981039346656037)
		for _, b := range m.B {
			h = (h ^ uint64(b)) * 0x100000001B3
		}
		h = h*31 + uint64(m.Off)
		h = h*31 + uint64(m.Boff)
		return hidden(h^uint64(len(m.B))<<32, reflect.ValueOf(x.Ptr()), 0)
	}
	limit := 400000
	if c.Thorough() {
		limit = 3000000
	}
	x0 := impl.New(d, clone(start))
	m0 := model.S{B: clone(start)}
	seen[key(x0, &m0)] = struct{}{}
	c.States++
	for n := 0; n < len(nodes); n++ {
		p := path(n)
		// rebuild the state on the real code and on the model
		m := model.S{B: clone(start)}
		for _, i := range p {
			model.Apply(d, &m, &ops[i])
		}
		steps := func(last *Op) []string {
			var o []Op
			for _, i := range p {
				o = append(o, ops[i])
			}
			if last != nil {
				o = append(o, *last)
			}
			return opsText(fmt.Sprintf("%s over %x", d, start), o)
		}
		build := func() impl.Inst {
			x := impl.New(d, clone(start))
			var r impl.Ret
			for _, i := range p {
				x.Do(&ops[i], &r)
			}
			c.Trans += int64(len(p))
			return x
		}
		for i := range ops {
			o := &ops[i]
			s := m.Clone()
			out := model.Apply(d, &s, o)
			if out.V != model.OK || !within(&s) {
				continue
			}
			x := build()
			var r impl.Ret
			c.DoR(x, o, &r)
			if e := model.CompareRet(&out, &r); e != "" {
				c.Fail(fmt.Sprintf("%s: %s (specified vs actual)", o, e), steps(o)...)
			}
			st, want := c.Obs(x), s.Obs()
			if !st.Same(&want) {
				c.Fail(fmt.Sprintf("after %s: %s (actual vs specified)", o, st.Diff(want)), steps(o)...)
			}
			c.Trace(func() string { return fmt.Sprint(steps(o)) })
			k := key(x, &s)
			if _, ok := seen[k]; ok {
				continue
			}
			seen[k] = struct{}{}
			c.States++
			if withViews {
				views(c, x, &s, func() []string { return steps(o) })
			}
			if len(nodes) < limit {
				nodes = append(nodes, c20Node{int32(n), int16(i)})
			} else if len(nodes) == limit {
				c.Capped = true
			}
		}
	}
}

// c20Reach: all states of a buffer of one byte that may grow a little.
func c20Reach(c *Ctx, d impl.Desc, part int) {
	starts := [][]byte{{0x00}, {0xFF}, {}, {0xA5, 0x3C}}
	start := starts[part]
	var ops []Op
	add := func(o ...Op) { ops = append(ops, filter(d, o...)...) }
	add(Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KSeekByte, Off: -1, Rel: true}, Op{K: impl.KSeekByte}, Op{K: impl.KSeekBit, Off: 3, Rel: true}, Op{K: impl.KSeekBit, Off: -2, Rel: true}, Op{K: impl.KSeekBit},
		Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KGrow, N: 1}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KReset}, Op{K: impl.KRefresh},
		Op{K: impl.KSetAll}, Op{K: impl.KClearAll}, Op{K: impl.KFlipAll},
		Op{K: impl.KFlipBit, Next: true}, Op{K: impl.KSetBit, Off: 2}, Op{K: impl.KClearBit, Next: true}, Op{K: impl.KSetBits, Data: 0x16, N: 5, Next: true}, Op{K: impl.KReadBits, N: 3, Next: true}, Op{K: impl.KReadBit, Next: true},
		Op{K: impl.KReadByte, Next: true}, Op{K: impl.KWriteByte, Next: true, Data: 0x3C}, sized(Op{K: impl.KWriteBytes, Next: true}, 1, 1), sized(Op{K: impl.KReadBytes, Next: true}, 1, 1))
	for _, t := range d.Nums() {
		if t.W <= 2 {
			add(Op{K: impl.KWriteNum, Num: t, V: []uint64{0x8001}, Next: true}, Op{K: impl.KReadNum, Num: t, N: 1, Next: true})
		}
	}
	size := 1
	if part == 3 || part == 2 && c.Thorough() { // two bytes, without the operations that spread the contents
		size = 2
		var o []Op
		for _, p := range ops {
			switch p.K {
			case impl.KFlipBit, impl.KClearBit, impl.KSetBit, impl.KSetBits, impl.KWriteByte:
				continue
			}
			o = append(o, p)
		}
		ops = o
	}
	c20Explore(c, d, start, ops, func(m *model.S) bool {
		n := int64(len(m.B))
		return len(m.B) <= size && m.Off >= -1 && m.Off <= n+1 && m.Boff >= -2 && m.Boff <= 8*n+3
	}, true)
}

// c20Contents: all contents of two bytes.
func c20Contents(c *Ctx, d impl.Desc) {
	var ops []Op
	add := func(o ...Op) { ops = append(ops, filter(d, o...)...) }
	for i := int64(0); i < 16; i++ {
		add(Op{K: impl.KFlipBit, Off: i})
		if i%3 == 0 || c.Thorough() {
			add(Op{K: impl.KSetBit, Off: i}, Op{K: impl.KClearBit, Off: i}, Op{K: impl.KPutBit, Off: i, Data: 1})
		}
		if n := 16 - i; n > 1 {
			add(Op{K: impl.KSetBits, Off: i, N: n, Data: mix(uint64(i))})
		}
	}
	add(sized(Op{K: impl.KWriteBytes, Off: 1}, 1, 4), Op{K: impl.KFlipAll}, Op{K: impl.KWriteByte, Off: 0, Data: 0x71}, sized(Op{K: impl.KWriteNum, Num: num(d, 2, true)}, 1, 4), sized(Op{K: impl.KWriteNum, Num: num(d, 2, false)}, 1, 6), Op{K: impl.KSetBits, Off: 5, N: 6, Data: 0x2D})
	c20Explore(c, d, []byte{0, 0}, ops, func(m *model.S) bool { return true }, c.Thorough())
}
