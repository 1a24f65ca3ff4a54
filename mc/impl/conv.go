package impl

import (
	"encoding/binary"
	"fmt"
	"math"
	"runtime"

	"verifmc/vsync"

	v1 "github.com/superwhiskers/crunch/v1"
)

func numIndex(n Num) int {
	i := 0
	switch n.K {
	case 'I':
		i = 8
	case 'F':
		i = 16
	}
	switch n.W {
	case 4:
		i += 2
	case 8:
		i += 4
	}
	if n.BE {
		i++
	}
	return i
}

type ints interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~int16 | ~int32 | ~int64
}

func toInts[T ints](v []uint64) []T {
	if v == nil {
		return nil
	}
	out := make([]T, len(v))
	for i, e := range v {
		out[i] = T(e)
	}
	return out
}

func fromInts[T ints](v []T, mask uint64) []uint64 {
	out := make([]uint64, len(v))
	for i, e := range v {
		out[i] = uint64(e) & mask
	}
	return out
}

func to_uint16(v []uint64) []uint16   { return toInts[uint16](v) }
func to_uint32(v []uint64) []uint32   { return toInts[uint32](v) }
func to_uint64(v []uint64) []uint64   { return toInts[uint64](v) }
func to_int16(v []uint64) []int16     { return toInts[int16](v) }
func to_int32(v []uint64) []int32     { return toInts[int32](v) }
func to_int64(v []uint64) []int64     { return toInts[int64](v) }
func from_uint16(v []uint16) []uint64 { return fromInts(v, 0xFFFF) }
func from_uint32(v []uint32) []uint64 { return fromInts(v, 0xFFFFFFFF) }
func from_uint64(v []uint64) []uint64 { return fromInts(v, math.MaxUint64) }
func from_int16(v []int16) []uint64   { return fromInts(v, 0xFFFF) }
func from_int32(v []int32) []uint64   { return fromInts(v, 0xFFFFFFFF) }
func from_int64(v []int64) []uint64   { return fromInts(v, math.MaxUint64) }

func to_float32(v []uint64) []float32 {
	if v == nil {
		return nil
	}
	out := make([]float32, len(v))
	for i, e := range v {
		out[i] = math.Float32frombits(uint32(e))
	}
	return out
}

func to_float64(v []uint64) []float64 {
	if v == nil {
		return nil
	}
	out := make([]float64, len(v))
	for i, e := range v {
		out[i] = math.Float64frombits(e)
	}
	return out
}

func from_float32(v []float32) []uint64 {
	out := make([]uint64, len(v))
	for i := range v {
		out[i] = uint64(math.Float32bits(v[i]))
	}
	return out
}

func from_float64(v []float64) []uint64 {
	out := make([]uint64, len(v))
	for i := range v {
		out[i] = math.Float64bits(v[i])
	}
	return out
}

// Mask keeps the low w bytes.
func Mask(w int) uint64 {
	if w >= 8 {
		return math.MaxUint64
	}
	return 1<<(8*uint(w)) - 1
}

func changed(want, got []uint64, w int) bool {
	if len(want) != len(got) {
		return true
	}
	for i := range want {
		if want[i]&Mask(w) != got[i]&Mask(w) {
			return true
		}
	}
	return false
}

func preNums(o *Op) []uint64 {
	n := o.N
	if n < 0 {
		n = 0
	}
	out := make([]uint64, int(n)+o.Extra)
	for i := range out {
		out[i] = o.Pre
	}
	return out
}

func preBytes(o *Op) []byte {
	if o.Pre == 0 && o.Extra == 0 {
		return nil
	}
	out := make([]byte, o.Extra+1)
	for i := range out {
		out[i] = byte(o.Pre)
	}
	return out
}

// ownOrder is a byte order of the user's making.
type ownOrder struct{ binary.ByteOrder }

// Ords is the number of values of Op.Ord that stand for a byte order on this machine.
func Ords(be bool) byte {
	if be != (binary.NativeEndian.Uint16([]byte{0, 1}) == 1) {
		return 3
	}
	return 4
}

func v1Endian(o *Op) binary.ByteOrder {
	e := binary.ByteOrder(v1.LittleEndian)
	if o.Num.BE {
		e = v1.BigEndian
	}
	switch o.Ord {
	case 1:
		return ownOrder{e}
	case 2:
		return &ownOrder{e}
	case 3:
		return binary.NativeEndian
	}
	return e
}

func v1Data(o *Op) any {
	switch o.Num.W {
	case 1:
		if o.V == nil {
			return []byte(nil)
		}
		return toInts[uint8](o.V)
	case 2:
		return to_uint16(o.V)
	case 4:
		return to_uint32(o.V)
	case 8:
		return to_uint64(o.V)
	}
	return toInts[uint8](o.V) // an invalid size: the data type does not matter
}

func v1Nums(out any) []uint64 {
	switch v := out.(type) {
	case []uint8:
		return fromInts(v, 0xFF)
	case []uint16:
		return from_uint16(v)
	case []uint32:
		return from_uint32(v)
	case []uint64:
		return from_uint64(v)
	}
	panic(fmt.Sprintf("result of unexpected type %T", out))
}

func v1Changed(o *Op, data any) bool {
	switch o.Num.W {
	case 1, 2, 4, 8:
		return changed(o.V, v1Nums(data), o.Num.W)
	}
	return false
}

// v1Bad returns data of a type that does not match the size.
func v1Bad(o *Op) any {
	switch o.Data {
	case 0:
		return nil
	case 1:
		return "text"
	}
	if o.Num.W == 4 {
		return []uint16{1, 2}
	}
	return []uint32{1}
}

// v1Pre returns the previous contents of the interface output of the v1 mini buffer.
func v1Pre(o *Op) any {
	switch o.Pre {
	case 0:
		return nil
	case 1:
		return "garbage"
	case 2:
		return []uint16{1, 2, 3}
	case 3:
		return []uint32{4, 5, 6, 7, 8, 9, 10, 11, 12}
	}
	return []byte{9, 9, 9, 9}
}

func otherClass(p any) string {
	switch p.(type) {
	case vsync.Deadlock:
		return "deadlock"
	case runtime.Error:
		return "runtime"
	}
	for _, a := range alts {
		if c := a.errClass(p); c != "" {
			return c
		}
	}
	return fmt.Sprintf("other:%T", p)
}

// RawBits returns the elements of a slice of numbers as raw bits.
func RawBits(v any) []uint64 {
	switch v := v.(type) {
	case []int16:
		return from_int16(v)
	case []int32:
		return from_int32(v)
	case []int64:
		return from_int64(v)
	case []float32:
		return from_float32(v)
	case []float64:
		return from_float64(v)
	}
	return v1Nums(v)
}

// FlipRaw inverts all bits of all elements of a slice of numbers, up to its capacity if all is set.
func FlipRaw(v any, all bool) {
	switch v := v.(type) {
	case []uint8:
		flip(v, all)
	case []uint16:
		flip(v, all)
	case []uint32:
		flip(v, all)
	case []uint64:
		flip(v, all)
	case []int16:
		flip(v, all)
	case []int32:
		flip(v, all)
	case []int64:
		flip(v, all)
	case []float32:
		if all {
			v = v[:cap(v)]
		}
		for i := range v {
			v[i] = math.Float32frombits(^math.Float32bits(v[i]))
		}
	case []float64:
		if all {
			v = v[:cap(v)]
		}
		for i := range v {
			v[i] = math.Float64frombits(^math.Float64bits(v[i]))
		}
	}
}

func flip[T ints](v []T, all bool) {
	if all {
		v = v[:cap(v)]
	}
	for i := range v {
		v[i] = ^v[i]
	}
}

// Concurrent says that live views must not be looked into while other goroutines run: results that are views of the
// buffer's bytes then count by their length only.
var Concurrent bool

func v1Out(out any) []uint64 {
	if b, ok := out.([]uint8); ok && Concurrent {
		return make([]uint64, len(b))
	}
	return v1Nums(out)
}
