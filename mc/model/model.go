// Package model is the reference model of a crunch buffer: one byte array with a byte and a bit cursor.
package model

import (
	"math"
	"math/big"
	"math/bits"

	"verifmc/impl"
)

// S is the abstract state.
type S struct {
	B         []byte
	Off, Boff int64
}

// Clone copies the state.
func (s *S) Clone() S { return S{append([]byte(nil), s.B...), s.Off, s.Boff} }

// Obs converts to an observable state.
func (s *S) Obs() impl.State {
	return impl.State{B: s.B, Off: s.Off, Boff: s.Boff, Cap: int64(len(s.B)), BCap: 8 * int64(len(s.B))}
}

// Verdict says what a specification has to say about an operation.
type Verdict uint8

// Verdicts.
const (
	OK     Verdict = iota
	Reject         // must be refused
	Unspec         // nothing is specified
)

// Out is the specified outcome.
type Out struct {
	V       Verdict
	Loose   bool     // accepted, but the effect and result are not specified (more than 64 bits)
	Allowed []string // Reject: error classes that name a violated condition (nil: any)
	Has     bool
	I       int64
	B       []byte
	U       []uint64
}

// Access describes the range that an operation touches.
type Access struct {
	Is    bool // the operation addresses a range
	Bits  bool // in bits (else bytes)
	Write bool
	N     int64 // elements
	W     int64 // width of an element
}

// Range returns the range of an operation.
func Range(o *impl.Op) Access {
	switch o.K {
	case impl.KReadByte:
		return Access{true, false, false, 1, 1}
	case impl.KWriteByte:
		return Access{true, false, true, 1, 1}
	case impl.KReadBytes:
		return Access{true, false, false, o.N, 1}
	case impl.KWriteBytes:
		return Access{true, false, true, int64(len(o.D)), 1}
	case impl.KReadNum:
		return Access{true, false, false, o.N, int64(o.Num.W)}
	case impl.KWriteNum:
		return Access{true, false, true, int64(len(o.V)), int64(o.Num.W)}
	case impl.KReadBit:
		return Access{true, true, false, 1, 1}
	case impl.KReadBits:
		return Access{true, true, false, o.N, 1}
	case impl.KSetBit, impl.KClearBit, impl.KPutBit, impl.KFlipBit:
		return Access{true, true, true, 1, 1}
	case impl.KSetBits:
		return Access{true, true, true, o.N, 1}
	}
	return Access{}
}

// Violated returns the error classes of the range conditions that an access at position pos violates.
func Violated(a Access, pos int64, byteCap int64) []string {
	var r []string
	if a.N < 0 {
		r = append(r, "InvalidByteCount")
	}
	limit := byteCap
	if a.Bits {
		limit *= 8
	}
	if a.W <= 0 { // a size that does not exist: at least a byte each
		a.W = 1
	}
	past := pos > limit
	if !past && a.N > 0 {
		hi, lo := bits.Mul64(uint64(a.N), uint64(a.W))
		if hi != 0 || lo > math.MaxInt64 {
			// more than 2^63 elements: only a huge negative position could bring the end back below the limit
			e := new(big.Int).Mul(big.NewInt(a.N), big.NewInt(a.W))
			e.Add(e, big.NewInt(pos))
			past = e.Cmp(big.NewInt(limit)) > 0
		} else {
			room := limit - pos // pos<=limit; may overflow for very negative positions
			if room >= 0 {
				past = int64(lo) > room
			} else {
				past = false // limit-pos exceeds 2^63 > lo
			}
		}
	}
	if past {
		if a.Write {
			r = append(r, "Overwrite")
		} else {
			r = append(r, "Overread")
		}
	}
	if pos < 0 {
		if a.Write {
			r = append(r, "Underwrite")
		} else {
			r = append(r, "Underread")
		}
	}
	return r
}

// Bit returns bit k of b.
func Bit(b []byte, k int64) byte { return b[k>>3] >> (7 - uint(k&7)) & 1 }

// PutBit sets bit k of b.
func PutBit(b []byte, k int64, v byte) {
	m := byte(1) << (7 - uint(k&7))
	if v != 0 {
		b[k>>3] |= m
	} else {
		b[k>>3] &^= m
	}
}

// Encode stores element v of width w at b[0:w].
func Encode(b []byte, v uint64, w int, be bool) {
	for i := 0; i < w; i++ {
		if be {
			b[i] = byte(v >> (8 * uint(w-1-i)))
		} else {
			b[i] = byte(v >> (8 * uint(i)))
		}
	}
}

// Decode loads an element of width w from b[0:w].
func Decode(b []byte, w int, be bool) uint64 {
	var v uint64
	for i := 0; i < w; i++ {
		if be {
			v = v<<8 | uint64(b[i])
		} else {
			v |= uint64(b[i]) << (8 * uint(i))
		}
	}
	return v
}

func reject(out *Out, c ...string) {
	out.V = Reject
	out.Allowed = append(out.Allowed, c...)
}

func addOK(a, b int64) bool {
	c := a + b
	return (a >= 0) != (b >= 0) || (c >= 0) == (a >= 0)
}

func subOK(a, b int64) bool {
	c := a - b
	return (a >= 0) == (b >= 0) || (c >= 0) == (a >= 0)
}

// Apply performs o on s as the specification says. s is changed only if the operation is accepted and specified.
func Apply(d impl.Desc, s *S, o *impl.Op) (out Out) {
	cap := int64(len(s.B))
	a := Range(o)
	if a.Is {
		pos := o.Off
		if o.Next {
			pos = s.Off
			if a.Bits {
				pos = s.Boff
			}
		}
		if v := Violated(a, pos, cap); v != nil {
			reject(&out, v...)
		}
		if o.K == impl.KPutBit && o.Data > 1 {
			reject(&out, "InvalidBit")
		}
		if d.Ver == 1 && (o.K == impl.KReadNum || o.K == impl.KWriteNum) {
			switch o.Num.W {
			case 1, 2, 4, 8:
			default:
				reject(&out, "InvalidIntegerSize")
			}
		}
		if out.V == Reject {
			if d.Mini {
				return Out{V: Unspec}
			}
			return
		}
		if a.Bits && a.N > 64 {
			return Out{V: OK, Loose: true}
		}
		access(s, o, pos, &out)
		if d.Mini && (o.K == impl.KReadNum && d.Ver > 1) {
			for i := 0; i < o.Extra; i++ {
				out.U = append(out.U, o.Pre&impl.Mask(o.Num.W))
			}
		}
		if o.Next {
			if a.Bits {
				s.Boff += a.N
			} else {
				s.Off += a.N * a.W
			}
		}
		return
	}
	switch o.K {
	case impl.KClearAll, impl.KSetAll, impl.KFlipAll:
		for i := range s.B {
			switch o.K {
			case impl.KClearAll:
				s.B[i] = 0
			case impl.KSetAll:
				s.B[i] = 0xFF
			default:
				s.B[i] ^= 0xFF
			}
		}
	case impl.KSeekByte, impl.KSeekBit:
		c := &s.Off
		if o.K == impl.KSeekBit {
			c = &s.Boff
		}
		if o.Rel {
			if !addOK(*c, o.Off) {
				out.V = Unspec
				return
			}
			*c += o.Off
		} else {
			*c = o.Off
		}
	case impl.KAfterByte, impl.KAfterBit:
		c, limit := s.Off, cap
		if o.K == impl.KAfterBit {
			c, limit = s.Boff, cap*8
		}
		if !o.Rel {
			c = o.Off
		}
		if !subOK(limit, c) || !subOK(limit-c, 1) {
			out.V = Unspec
			return
		}
		out.I, out.Has = limit-c-1, true
	case impl.KAlignBit:
		if s.Off > math.MaxInt64/8 || s.Off < math.MinInt64/8 {
			out.V = Unspec
			return
		}
		s.Boff = s.Off * 8
	case impl.KAlignByte:
		if s.Boff < 0 {
			out.V = Unspec
			return
		}
		s.Off = s.Boff / 8
	case impl.KTruncL, impl.KTruncR:
		if o.N < 0 || o.N > cap {
			if d.Mini {
				out.V = Unspec
				return
			}
			reject(&out, "InvalidByteCount")
			return
		}
		if o.K == impl.KTruncL {
			s.B = append([]byte(nil), s.B[o.N:]...)
		} else {
			s.B = append([]byte(nil), s.B[:cap-o.N]...)
		}
	case impl.KGrow:
		if o.N < 0 {
			if d.Mini {
				out.V = Unspec
				return
			}
			reject(&out, "InvalidByteCount")
			return
		}
		s.B = append(append([]byte(nil), s.B...), make([]byte, o.N)...)
	case impl.KReset:
		s.B, s.Off, s.Boff = nil, 0, 0
	case impl.KRefresh:
	case impl.KBytes:
		out.B, out.Has = append([]byte(nil), s.B...), true
	case impl.KByteCap:
		out.I, out.Has = cap, true
	case impl.KBitCap:
		out.I, out.Has = 8*cap, true
	case impl.KByteOff:
		out.I, out.Has = s.Off, true
	case impl.KBitOff:
		out.I, out.Has = s.Boff, true
	case impl.KComplexBad:
		if d.Mini {
			out.V = Unspec
			return
		}
		out.V = Reject
	default:
		out.V = Unspec
	}
	return
}

func access(s *S, o *impl.Op, pos int64, out *Out) {
	switch o.K {
	case impl.KReadByte:
		out.I, out.Has = int64(s.B[pos]), true
	case impl.KWriteByte:
		s.B[pos] = byte(o.Data)
	case impl.KReadBytes:
		out.B, out.Has = append([]byte(nil), s.B[pos:pos+o.N]...), true
	case impl.KWriteBytes:
		copy(s.B[pos:], o.D)
	case impl.KReadNum:
		w := o.Num.W
		out.U, out.Has = make([]uint64, o.N), true
		for i := range out.U {
			out.U[i] = Decode(s.B[pos+int64(i*w):], w, o.Num.BE)
		}
	case impl.KWriteNum:
		w := o.Num.W
		for i, v := range o.V {
			Encode(s.B[pos+int64(i*w):], v, w, o.Num.BE)
		}
	case impl.KReadBit:
		out.I, out.Has = int64(Bit(s.B, pos)), true
	case impl.KReadBits:
		var v uint64
		for i := int64(0); i < o.N; i++ {
			v = v<<1 | uint64(Bit(s.B, pos+i))
		}
		out.I, out.Has = int64(v), true
	case impl.KSetBit:
		PutBit(s.B, pos, 1)
	case impl.KClearBit:
		PutBit(s.B, pos, 0)
	case impl.KPutBit:
		PutBit(s.B, pos, byte(o.Data))
	case impl.KFlipBit:
		PutBit(s.B, pos, Bit(s.B, pos)^1)
	case impl.KSetBits:
		for i := int64(0); i < o.N; i++ {
			PutBit(s.B, pos+i, byte(o.Data>>uint(o.N-1-i))&1)
		}
	}
}

// CompareRet describes how the result of an operation departs from the specified outcome ("" if it does not).
func CompareRet(out *Out, r *impl.Ret) string {
	switch out.V {
	case Unspec:
		return ""
	case Reject:
		if !r.Panicked {
			return "accepted, but must be refused" + because(out)
		}
		c := impl.ErrClass(r.Panic)
		if c == "deadlock" {
			return impl.PanicText(r)
		}
		if out.Allowed == nil {
			return ""
		}
		for _, a := range out.Allowed {
			if a == c {
				return ""
			}
		}
		return "panicked with " + impl.PanicText(r) + because(out)
	}
	if r.Panicked {
		return "refused with a panic (" + impl.PanicText(r) + "), but must be accepted"
	}
	if out.Loose {
		return ""
	}
	return impl.RetDiff(&impl.Ret{I: out.I, B: out.B, U: out.U}, r)
}

func because(out *Out) string {
	if out.Allowed == nil {
		return ""
	}
	s := " (expected a documented error:"
	for _, a := range out.Allowed {
		s += " Buffer" + a + "Error"
	}
	return s + ")"
}
