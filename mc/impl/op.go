// Package impl gives every buffer implementation of the repository (v1, v2, v3; Buffer and MiniBuffer)
// one uniform operation interface. It uses only the exported API of the packages under test.
package impl

import (
	"fmt"
	"strings"
)

// Kind names an operation.
type Kind uint8

// The operations. Positioned unless Next is set in the Op.
const (
	KReadByte Kind = iota
	KWriteByte
	KReadBytes
	KWriteBytes
	KReadNum
	KWriteNum
	KReadBit
	KReadBits
	KSetBit
	KClearBit
	KPutBit // v1/v2: SetBit with an explicit bit value (any byte)
	KSetBits
	KFlipBit
	KClearAll
	KSetAll
	KFlipAll
	KSeekByte
	KSeekBit
	KAfterByte
	KAfterBit
	KAlignBit
	KAlignByte
	KTruncL
	KTruncR
	KGrow
	KRefresh
	KReset
	KBytes
	KByteCap
	KBitCap
	KByteOff
	KBitOff
	KComplexBad // v1: WriteComplex whose data type does not match the size
	KLock       // v1/v2: the embedded lock (used under the scheduler only)
	KUnlock
	NKinds
)

var kindName = [...]string{"ReadByte", "WriteByte", "ReadBytes", "WriteBytes", "ReadNum", "WriteNum", "ReadBit", "ReadBits",
	"SetBit", "ClearBit", "PutBit", "SetBits", "FlipBit", "ClearAllBits", "SetAllBits", "FlipAllBits", "SeekByte", "SeekBit",
	"AfterByte", "AfterBit", "AlignBit", "AlignByte", "TruncateLeft", "TruncateRight", "Grow", "Refresh", "Reset", "Bytes",
	"ByteCapacity", "BitCapacity", "ByteOffset", "BitOffset", "WriteComplexMismatched", "Lock", "Unlock"}

// Num is a number type: K is 'U', 'I', 'F', or 'C' for the v1 Complex methods (unsigned); W is its width in bytes.
type Num struct {
	K  byte
	W  int
	BE bool
}

func (n Num) String() string {
	e := "LE"
	if n.BE {
		e = "BE"
	}
	return fmt.Sprintf("%c%d%s", n.K, n.W*8, e)
}

// Op is one operation with its arguments.
type Op struct {
	K    Kind
	Num  Num
	Next bool // cursor-relative form (Off unused)
	Rel  bool // Seek: relative; After: no argument (use the cursor)
	Off  int64
	N    int64
	Data uint64   // SetBits data, PutBit/WriteByte value
	D    []byte   // WriteBytes data
	V    []uint64 // WriteNum elements, as raw bits

	// mini buffers only: initial state of the output argument
	Pre   uint64 // value in every element / scalar
	Extra int    // additional elements in the output slice

	Ord byte // v1 numbers: which value stands for the byte order (0: the package's own, see v1Endian)
}

func (o Op) String() string {
	var b strings.Builder
	name := kindName[o.K]
	switch o.K {
	case KReadNum:
		name = "Read" + o.Num.String()
	case KWriteNum:
		name = "Write" + o.Num.String()
	}
	b.WriteString(name)
	if o.Next {
		b.WriteString("Next")
	}
	if o.Ord > 0 {
		fmt.Fprintf(&b, "[%s]", []string{"", "type embedding the order", "pointer to such a type", "binary.NativeEndian"}[o.Ord])
	}
	var a []string
	positioned := false
	switch o.K {
	case KReadByte, KWriteByte, KReadBytes, KWriteBytes, KReadNum, KWriteNum, KReadBit, KReadBits, KSetBit, KClearBit, KPutBit, KSetBits, KFlipBit, KComplexBad:
		positioned = true
	}
	if positioned && !o.Next {
		a = append(a, fmt.Sprint("off=", o.Off))
	}
	switch o.K {
	case KReadBytes, KReadNum, KReadBits, KTruncL, KTruncR, KGrow:
		a = append(a, fmt.Sprint("n=", o.N))
	case KSetBits:
		a = append(a, fmt.Sprintf("data=%#x", o.Data), fmt.Sprint("n=", o.N))
	case KWriteByte, KPutBit:
		a = append(a, fmt.Sprintf("data=%#x", o.Data))
	case KWriteBytes:
		if len(o.D) > 40 {
			a = append(a, fmt.Sprintf("data=%d bytes %x...", len(o.D), o.D[:40]))
		} else {
			a = append(a, fmt.Sprintf("data=%x", o.D))
		}
	case KWriteNum:
		if len(o.V) > 12 {
			a = append(a, fmt.Sprintf("data=%d elements %#x...", len(o.V), o.V[:12]))
		} else {
			a = append(a, fmt.Sprintf("data=%#x", o.V))
		}
	case KSeekByte, KSeekBit:
		a = append(a, fmt.Sprint(o.Off), fmt.Sprint("relative=", o.Rel))
	case KAfterByte, KAfterBit:
		if !o.Rel {
			a = append(a, fmt.Sprint(o.Off))
		}
	}
	if o.Pre != 0 || o.Extra != 0 {
		a = append(a, fmt.Sprintf("out prefilled with %#x, %d extra", o.Pre, o.Extra))
	}
	return b.String() + "(" + strings.Join(a, ", ") + ")"
}

// Ret is what an operation returned.
type Ret struct {
	Panicked bool
	Panic    any
	Has      bool     // the operation produced an output
	I        int64    // integer outputs (bits, counts, capacities, offsets, single bytes)
	B        []byte   // byte slices (not copied)
	U        []uint64 // numbers, as raw bits (all elements of the output slice, extras included)
	Arg      bool     // the argument slice was modified by the call
	Raw      any      // the returned slice of numbers itself
	RawArg   any      // the slice of numbers that was passed
}

// Desc identifies an implementation.
type Desc struct {
	Ver  int
	Mini bool
	Alt  int // another package with the API of that version (see RegisterAlt)
}

type alt struct {
	make     func(d Desc, slices ...[]byte) Inst
	errClass func(p any) string
}

var alts = map[int]alt{}

// RegisterAlt adds another package with the API of a version.
func RegisterAlt(k int, mk func(d Desc, slices ...[]byte) Inst, errClass func(p any) string) {
	alts[k] = alt{mk, errClass}
}

// Alts returns the number of registered packages.
func Alts() int { return len(alts) }

func (d Desc) String() string {
	a := ""
	if d.Alt > 0 {
		a = fmt.Sprintf(" (regenerated %d)", d.Alt)
	}
	if d.Mini {
		return fmt.Sprintf("v%d.MiniBuffer%s", d.Ver, a)
	}
	return fmt.Sprintf("v%d.Buffer%s", d.Ver, a)
}

// All lists the six implementations.
var All = []Desc{{Ver: 1, Mini: false}, {Ver: 2, Mini: false}, {Ver: 3, Mini: false}, {Ver: 1, Mini: true}, {Ver: 2, Mini: true}, {Ver: 3, Mini: true}}

// Checked lists the three checked buffers.
var Checked = []Desc{{Ver: 1, Mini: false}, {Ver: 2, Mini: false}, {Ver: 3, Mini: false}}

// Minis lists the three mini buffers.
var Minis = []Desc{{Ver: 1, Mini: true}, {Ver: 2, Mini: true}, {Ver: 3, Mini: true}}

// Nums lists the number types that an implementation offers.
func (d Desc) Nums() []Num {
	var out []Num
	for _, be := range []bool{false, true} {
		switch d.Ver {
		case 1:
			for _, w := range []int{1, 2, 4, 8} {
				out = append(out, Num{'C', w, be})
			}
		case 2:
			for _, w := range []int{2, 4, 8} {
				out = append(out, Num{'U', w, be})
			}
		case 3:
			for _, w := range []int{2, 4, 8} {
				out = append(out, Num{'U', w, be}, Num{'I', w, be})
				if w > 2 {
					out = append(out, Num{'F', w, be})
				}
			}
		}
	}
	return out
}

// Has says whether the implementation offers the operation.
func (d Desc) Has(o *Op) bool {
	switch o.K {
	case KReadByte, KWriteByte:
		return !d.Mini
	case KPutBit:
		return d.Ver < 3
	case KTruncL, KTruncR:
		return d.Ver == 3
	case KReset:
		return d.Ver >= 2
	case KComplexBad:
		return d.Ver == 1
	case KLock, KUnlock:
		return d.Ver < 3
	case KReadNum, KWriteNum:
		switch d.Ver {
		case 1:
			return o.Num.K == 'C'
		case 2:
			return o.Num.K == 'U' && o.Num.W > 1
		default:
			return o.Num.K != 'C' && o.Num.W > 1
		}
	}
	return true
}

// Translate maps an operation between versions (v1 Complex <-> unsigned); ok is false if d cannot do it.
func (d Desc) Translate(o Op) (Op, bool) {
	if o.K == KReadNum || o.K == KWriteNum {
		if d.Ver == 1 && o.Num.K == 'U' {
			o.Num.K = 'C'
		} else if d.Ver != 1 && o.Num.K == 'C' {
			o.Num.K = 'U'
		}
	}
	if o.K == KPutBit && d.Ver == 3 {
		if o.Data == 0 {
			o.K = KClearBit
		} else if o.Data == 1 {
			o.K = KSetBit
		}
	}
	return o, d.Has(&o)
}

// Inst is a buffer under test.
type Inst interface {
	Desc() Desc
	// Do performs the operation, recovering a panic into r.
	Do(o *Op, r *Ret)
	// Ptr returns the underlying *Buffer or *MiniBuffer.
	Ptr() any
}

// State is what can be observed of a buffer.
type State struct {
	B                    []byte
	Off, Boff, Cap, BCap int64
}

var qBytes, qOff, qBoff, qCap, qBCap = Op{K: KBytes}, Op{K: KByteOff}, Op{K: KBitOff}, Op{K: KByteCap}, Op{K: KBitCap}

// Observe reads the observable state through the query methods (B is the live view, not a copy).
func Observe(x Inst, s *State) (fail string) {
	var r Ret
	x.Do(&qBytes, &r)
	if r.Panicked {
		return fmt.Sprint("Bytes panicked: ", r.Panic)
	}
	s.B = r.B
	for i, q := range [...]*Op{&qOff, &qBoff, &qCap, &qBCap} {
		r = Ret{}
		x.Do(q, &r)
		if r.Panicked {
			return fmt.Sprint(q, " panicked: ", r.Panic)
		}
		switch i {
		case 0:
			s.Off = r.I
		case 1:
			s.Boff = r.I
		case 2:
			s.Cap = r.I
		default:
			s.BCap = r.I
		}
	}
	return ""
}

// Copy returns the state with its own copy of the contents.
func (s State) Copy() State {
	s.B = append([]byte(nil), s.B...)
	return s
}

// Diff describes how two states differ ("" if they do not).
func (s State) Diff(t State) string {
	var d []string
	if string(s.B) != string(t.B) {
		if len(s.B) > 96 || len(t.B) > 96 {
			i := 0
			for i < len(s.B) && i < len(t.B) && s.B[i] == t.B[i] {
				i++
			}
			d = append(d, fmt.Sprintf("contents differ at byte %d (lengths %d and %d)", i, len(s.B), len(t.B)))
		} else {
			d = append(d, fmt.Sprintf("contents %x vs %x", s.B, t.B))
		}
	}
	if s.Off != t.Off {
		d = append(d, fmt.Sprintf("byte cursor %d vs %d", s.Off, t.Off))
	}
	if s.Boff != t.Boff {
		d = append(d, fmt.Sprintf("bit cursor %d vs %d", s.Boff, t.Boff))
	}
	if s.Cap != t.Cap {
		d = append(d, fmt.Sprintf("byte capacity %d vs %d", s.Cap, t.Cap))
	}
	if s.BCap != t.BCap {
		d = append(d, fmt.Sprintf("bit capacity %d vs %d", s.BCap, t.BCap))
	}
	return strings.Join(d, "; ")
}

// Same says whether the states are equal.
func (s *State) Same(t *State) bool {
	return s.Off == t.Off && s.Boff == t.Boff && s.Cap == t.Cap && s.BCap == t.BCap && string(s.B) == string(t.B)
}

// RetDiff describes how two results differ ("" if not). Panics are compared by class.
func RetDiff(a, b *Ret) string {
	if a.Panicked != b.Panicked {
		return fmt.Sprintf("panic %v vs %v", PanicText(a), PanicText(b))
	}
	if a.Panicked {
		if ea, eb := ErrClass(a.Panic), ErrClass(b.Panic); ea != eb {
			return fmt.Sprintf("panic %v vs %v", PanicText(a), PanicText(b))
		}
		return ""
	}
	if a.I != b.I {
		return fmt.Sprintf("result %d vs %d", a.I, b.I)
	}
	if string(a.B) != string(b.B) {
		return fmt.Sprintf("result %s vs %s", hx(a.B), hx(b.B))
	}
	if len(a.U) != len(b.U) {
		return fmt.Sprintf("result has %d elements vs %d", len(a.U), len(b.U))
	}
	for i := range a.U {
		if a.U[i] != b.U[i] {
			return fmt.Sprintf("result element %d is %#x vs %#x", i, a.U[i], b.U[i])
		}
	}
	return ""
}

func hx(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x... (%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// PanicText describes the panic of a result.
func PanicText(r *Ret) string {
	if !r.Panicked {
		return "none"
	}
	return fmt.Sprintf("%T: %v", r.Panic, r.Panic)
}
