// Package checks holds the explorations that decide the properties.
package checks

import (
	"fmt"
	"math"
	"strings"
	"syscall"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
)

type (
	// Op is an operation.
	Op = impl.Op
	// Ctx is the context of a unit.
	Ctx = engine.Ctx
)

// All lists the checks.
var All []engine.Check

func register(c engine.Check) { All = append(All, c) }

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

// mix is a fixed hash (splitmix64), used to make distinctive contents; it is not a source of randomness.
func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

// fill returns n distinctive bytes.
func fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(mix(seed*1000003 + uint64(i)))
	}
	return b
}

func same(n int, v byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v
	}
	return b
}

func vals(n int, seed uint64, w int) []uint64 {
	v := make([]uint64, n)
	for i := range v {
		v[i] = mix(seed*7919+uint64(i)) & impl.Mask(w)
	}
	return v
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// mk builds an instance over a copy of b with the given cursors.
func mk(d impl.Desc, b []byte, off, boff int64) impl.Inst {
	x := impl.New(d, clone(b))
	place(x, off, boff)
	return x
}

func place(x impl.Inst, off, boff int64) {
	var r impl.Ret
	if off != 0 {
		x.Do(&Op{K: impl.KSeekByte, Off: off}, &r)
	}
	if boff != 0 {
		x.Do(&Op{K: impl.KSeekBit, Off: boff}, &r)
	}
}

func desc(d impl.Desc, b []byte, off, boff int64) string {
	return fmt.Sprintf("%s over %s, byte cursor %d, bit cursor %d", d, show(b), off, boff)
}

func show(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%d bytes %x...", len(b), b[:48])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}

// what to compare
const (
	pRet = 1 << iota
	pBytes
	pCursors
	pCaps
	pAll      = pRet | pBytes | pCursors | pCaps
	pNoReject = 1 << 8 // do not judge calls that must be refused
)

func stateDiff(got, want *impl.State, parts int) string {
	g, w := *got, *want
	if parts&pBytes == 0 {
		g.B, w.B = nil, nil
	}
	if parts&pCursors == 0 {
		g.Off, g.Boff, w.Off, w.Boff = 0, 0, 0, 0
	}
	if parts&pCaps == 0 {
		g.Cap, g.BCap, w.Cap, w.BCap = 0, 0, 0, 0
	}
	if g.Same(&w) {
		return ""
	}
	return g.Diff(w)
}

// single runs one operation from one state and compares it with the reference model.
func single(c *Ctx, d impl.Desc, b []byte, off, boff int64, o *Op, parts int) {
	x := mk(d, b, off, boff)
	m := model.S{B: clone(b), Off: off, Boff: boff}
	out := model.Apply(d, &m, o)
	if out.V == model.Unspec {
		return
	}
	c.StateOf(0, b, off, boff)
	var r impl.Ret
	c.DoR(x, o, &r)
	if parts&pRet != 0 || r.Panicked != (out.V == model.Reject) {
		if s := model.CompareRet(&out, &r); s != "" {
			c.Fail(fmt.Sprintf("%s: %s", o, s), desc(d, b, off, boff), o.String())
		}
	}
	if !out.Loose {
		st, want := c.Obs(x), m.Obs()
		if s := stateDiff(&st, &want, parts); s != "" {
			c.Fail(fmt.Sprintf("after %s: %s (actual vs specified)", o, s), desc(d, b, off, boff), o.String())
		}
	}
	if r.Arg {
		c.Fail(fmt.Sprintf("%s modified its argument", o), desc(d, b, off, boff), o.String())
	}
	c.Trace(func() string { return desc(d, b, off, boff) + ": " + o.String() })
}

// hist is a history of operations with its start.
type hist struct {
	d     impl.Desc
	start string
	ops   []Op
}

func (h *hist) steps() []string {
	s := []string{h.start}
	for i := range h.ops {
		s = append(s, h.ops[i].String())
	}
	return s
}

func (h *hist) String() string { return strings.Join(h.steps(), "; ") }

func opsText(start string, ops []Op) []string {
	h := hist{start: start, ops: ops}
	return h.steps()
}

// ---------------------------------------------------------------- operation alphabets

// next returns the operation and its cursor-relative twin.
func forms(o Op) []Op {
	n := o
	n.Next, n.Off = true, 0
	return []Op{o, n}
}

func has(d impl.Desc, o Op) bool { return d.Has(&o) }

// numsOf lists the number types of d, or a representative subset.
func numsOf(d impl.Desc, all bool) []impl.Num {
	n := d.Nums()
	if all {
		return n
	}
	var out []impl.Num
	for _, x := range n {
		if (x.W == 2 || x.W == 8) && !x.BE || x.W == 4 && x.BE {
			out = append(out, x)
		}
	}
	return out
}

// wantN sizes a write so that it has n elements.
func sized(o Op, n int64, seed uint64) Op {
	switch o.K {
	case impl.KWriteBytes:
		o.D = fill(int(n), seed)
	case impl.KWriteNum:
		o.V = vals(int(n), seed, o.Num.W)
	default:
		o.N = n
	}
	return o
}

// accessKinds lists one template for every kind of access that d offers (all number types).
func accessKinds(d impl.Desc) []Op {
	var out []Op
	add := func(o Op) {
		if d.Has(&o) {
			out = append(out, o)
		}
	}
	add(Op{K: impl.KReadByte})
	add(Op{K: impl.KWriteByte, Data: 0x5A})
	add(Op{K: impl.KReadBytes})
	add(Op{K: impl.KWriteBytes})
	for _, n := range d.Nums() {
		add(Op{K: impl.KReadNum, Num: n})
		add(Op{K: impl.KWriteNum, Num: n})
	}
	add(Op{K: impl.KReadBit})
	add(Op{K: impl.KSetBit})
	add(Op{K: impl.KClearBit})
	add(Op{K: impl.KPutBit, Data: 1})
	add(Op{K: impl.KPutBit, Data: 0})
	add(Op{K: impl.KFlipBit})
	add(Op{K: impl.KReadBits})
	add(Op{K: impl.KSetBits, Data: 0xA5C3F00F12345679})
	return out
}

// counted says whether the operation has an explicit element count.
func counted(k impl.Kind) bool {
	switch k {
	case impl.KReadBytes, impl.KWriteBytes, impl.KReadNum, impl.KWriteNum, impl.KReadBits, impl.KSetBits:
		return true
	}
	return false
}

// bySlice says whether the count is the length of an argument.
func bySlice(k impl.Kind) bool { return k == impl.KWriteBytes || k == impl.KWriteNum }

// ---------------------------------------------------------------- a very large buffer

const bigSize = 1<<32 + 1<<16

var bigMem []byte

// big returns a zeroed region of bigSize bytes, of which only touched pages exist (nil if there is no address space).
func big() []byte {
	if bigMem == nil {
		b, err := syscall.Mmap(-1, 0, bigSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			return nil
		}
		bigMem = b
	}
	return bigMem
}

// bigWindows returns the windows (start, end) that an access at pos could hit if a position were cut to fewer bits.
func bigWindows(pos int64) [][2]int64 {
	var w [][2]int64
	add := func(p int64) {
		lo, hi := p-64, p+192
		if lo < 0 {
			lo = 0
		}
		if hi > bigSize {
			hi = bigSize
		}
		if hi > lo {
			w = append(w, [2]int64{lo, hi})
		}
	}
	add(pos)
	for _, k := range []uint{8, 15, 16, 24, 28, 29, 31, 32} {
		add(pos & (1<<k - 1))
	}
	return w
}

// valueCases hands f accesses (positioned, valid) whose outcome may depend on what is stored or given: all special values of
// a number type, all values of bytes, and bits among all zeros, all ones and everything that differs from those in one bit.
func valueCases(d impl.Desc, kind string, n impl.Num, f func(b []byte, o *Op)) {
	do := func(b []byte, o Op) {
		if d.Has(&o) {
			f(b, &o)
		}
	}
	switch kind {
	case "number":
		w := n.W
		bg := fill(4*w+1, 77)
		for _, v := range special(w) {
			do(bg, Op{K: impl.KWriteNum, Num: n, Off: 1, V: []uint64{v, mix(v) & impl.Mask(w), v}})
			b := clone(bg)
			model.Encode(b[1:], v, w, n.BE)
			model.Encode(b[1+2*w:], v, w, n.BE)
			do(b, Op{K: impl.KReadNum, Num: n, Off: 1, N: 3})
		}
	case "bytes":
		for v := 0; v < 256; v++ {
			b := fill(3, uint64(v))
			do(b, Op{K: impl.KWriteByte, Off: 1, Data: uint64(v)})
			do(b, Op{K: impl.KWriteBytes, Off: 1, D: []byte{byte(v), byte(^v)}})
			b[1], b[2] = byte(v), byte(v+v>>4)
			do(b, Op{K: impl.KReadByte, Off: 1})
			do(b, Op{K: impl.KReadBytes, Off: 1, N: 2})
			for p := int64(8); p < 16; p++ {
				for _, t := range bitKinds {
					t.Off = p
					do(b, t)
				}
			}
			for _, k := range []impl.Kind{impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
				do(b, Op{K: k})
			}
		}
		for _, n := range []int{0, 1, 2, 7, 8, 9, 16, 17, 33, 64, 65, 130} {
			for _, v := range []byte{0, 0xFF, 1, 0x80} {
				for _, bg := range []byte{0, 0xFF, v, ^v} {
					b := same(n+3, bg)
					do(b, Op{K: impl.KWriteBytes, Off: 1, D: same(n, v)})
					do(b, Op{K: impl.KReadBytes, Off: 1, N: int64(n)})
					for _, k := range []impl.Kind{impl.KClearAll, impl.KSetAll, impl.KFlipAll} {
						do(b, Op{K: k})
					}
				}
			}
		}
	case "bits":
		for pos := int64(0); pos < 8; pos++ {
			for n := int64(1); n <= 64; n++ {
				for _, bg := range []byte{0, 0xFF} {
					for k := int64(-1); k <= n; k++ {
						b := same(10, bg)
						v := uint64(0)
						if bg != 0 {
							v = ^v
						}
						if q := pos + k; q >= 0 {
							b[q/8] ^= 0x80 >> uint(q%8)
						}
						do(b, Op{K: impl.KReadBits, Off: pos, N: n})
						if k >= 0 {
							v ^= 1 << uint(k&63)
						}
						do(same(10, bg^byte(0xFF*(k&1))), Op{K: impl.KSetBits, Off: pos, N: n, Data: v})
					}
				}
				for _, v := range bitData(n) {
					do(same(10, 0x5A), Op{K: impl.KSetBits, Off: pos, N: n, Data: v})
				}
			}
		}
	}
}

// valueUnits makes units of all valueCases of d.
func valueUnits(d impl.Desc, name string, f func(c *Ctx, b []byte, o *Op)) (u []engine.Unit) {
	for _, k := range []string{"bytes", "bits"} {
		k := k
		u = append(u, engine.Unit{Name: name + " values of " + k, Run: func(c *Ctx) { valueCases(d, k, impl.Num{}, func(b []byte, o *Op) { f(c, b, o) }) }})
	}
	for _, n := range d.Nums() {
		n := n
		u = append(u, engine.Unit{Name: fmt.Sprintf("%s values of %s", name, n), Run: func(c *Ctx) { valueCases(d, "number", n, func(b []byte, o *Op) { f(c, b, o) }) }})
	}
	return
}

// cursorOf returns o's cursor-relative form and the cursors from which it means the same.
func cursorOf(o *Op) (n Op, off, boff int64) {
	n, off, boff = *o, o.Off, 3
	if model.Range(o).Bits {
		off, boff = 1, o.Off
	}
	n.Next, n.Off = true, 0
	return
}

// cursorGrid lists cursors in, at, around and far from a buffer of limit bytes or bits, between the powers of two as well.
func cursorGrid(limit int64) []int64 {
	l := []int64{minI, minI + 1, maxI - 1, maxI, -1000, 1000, 100, limit / 2}
	for _, b := range []int64{0, limit, limit + 8, limit + 64, 2 * limit, 8 * limit} {
		l = append(l, b-2, b-1, b, b+1)
	}
	for _, k := range []uint{6, 8, 12, 16, 20, 24, 31, 32, 35, 40, 53, 62} {
		l = append(l, 1<<k, 1<<k+3, -1<<k, -1<<k-5)
	}
	seen := map[int64]bool{}
	var out []int64
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}
