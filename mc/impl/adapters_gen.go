// Code generated by tools/gen_adapters.py. DO NOT EDIT.

package impl

import (
	"fmt"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)


// V1B adapts v1.Buffer.
type V1B struct{ X *v1.Buffer }

// Desc implements Inst.
func (x V1B) Desc() Desc { return Desc{Ver: 1, Mini: false} }

// Ptr implements Inst.
func (x V1B) Ptr() any { return x.X }

// Do implements Inst.
func (x V1B) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadByte:
		if o.Next {
			r.I = int64(b.ReadByteNext())
		} else {
			r.I = int64(b.ReadByte(o.Off))
		}
		r.Has = true
	case KWriteByte:
		if o.Next {
			b.WriteByteNext(byte(o.Data))
		} else {
			b.WriteByte(o.Off, byte(o.Data))
		}
	case KReadBytes:
		if o.Next {
			r.B = b.ReadBytesNext(o.N)
		} else {
			r.B = b.ReadBytes(o.Off, o.N)
		}
		r.Has = true
	case KReadBit:
		if o.Next {
			r.I = int64(b.ReadBitNext())
		} else {
			r.I = int64(b.ReadBit(o.Off))
		}
		r.Has = true
	case KReadBits:
		if o.Next {
			r.I = int64(b.ReadBitsNext(o.N))
		} else {
			r.I = int64(b.ReadBits(o.Off, o.N))
		}
		r.Has = true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext(1)
		} else {
			b.SetBit(o.Off, 1)
		}
	case KClearBit:
		if o.Next {
			b.SetBitNext(0)
		} else {
			b.SetBit(o.Off, 0)
		}
	case KPutBit:
		if o.Next {
			b.SetBitNext(byte(o.Data))
		} else {
			b.SetBit(o.Off, byte(o.Data))
		}
	case KLock:
		b.Lock()
	case KUnlock:
		b.Unlock()
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.Seek(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		if o.Rel {
			r.I = b.After()
		} else {
			r.I = b.After(o.Off)
		}
		r.Has = true
	case KAfterBit:
		if o.Rel {
			r.I = b.AfterBit()
		} else {
			r.I = b.AfterBit(o.Off)
		}
		r.Has = true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KBytes:
		r.B, r.Has = b.Bytes(), true
	case KByteCap:
		r.I, r.Has = b.Capacity(), true
	case KBitCap:
		r.I, r.Has = b.BitCapacity(), true
	case KByteOff:
		r.I, r.Has = b.Offset(), true
	case KBitOff:
		r.I, r.Has = b.BitOffset(), true
	case KWriteNum:
		data := v1Data(o)
		r.RawArg = data
		if o.Next {
			b.WriteComplexNext(data, v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			b.WriteComplex(o.Off, data, v1.IntegerSize(o.Num.W), v1Endian(o))
		}
		r.Arg = v1Changed(o, data)
	case KReadNum:
		var out any
		if o.Next {
			out = b.ReadComplexNext(o.N, v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			out = b.ReadComplex(o.Off, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))
		}
		r.Raw, r.Has = out, true
		r.U = v1Out(out)
	case KComplexBad:
		if o.Next {
			b.WriteComplexNext(v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			b.WriteComplex(o.Off, v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// V1M adapts v1.MiniBuffer.
type V1M struct{ X *v1.MiniBuffer }

// Desc implements Inst.
func (x V1M) Desc() Desc { return Desc{Ver: 1, Mini: true} }

// Ptr implements Inst.
func (x V1M) Ptr() any { return x.X }

// Do implements Inst.
func (x V1M) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadBytes:
		out := preBytes(o)
		if o.Next {
			b.ReadBytesNext(&out, o.N)
		} else {
			b.ReadBytes(&out, o.Off, o.N)
		}
		r.B, r.Has = out, true
	case KReadBit:
		out := byte(o.Pre)
		if o.Next {
			b.ReadBitNext(&out)
		} else {
			b.ReadBit(&out, o.Off)
		}
		r.I, r.Has = int64(out), true
	case KReadBits:
		out := o.Pre
		if o.Next {
			b.ReadBitsNext(&out, o.N)
		} else {
			b.ReadBits(&out, o.Off, o.N)
		}
		r.I, r.Has = int64(out), true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext(1)
		} else {
			b.SetBit(o.Off, 1)
		}
	case KClearBit:
		if o.Next {
			b.SetBitNext(0)
		} else {
			b.SetBit(o.Off, 0)
		}
	case KPutBit:
		if o.Next {
			b.SetBitNext(byte(o.Data))
		} else {
			b.SetBit(o.Off, byte(o.Data))
		}
	case KLock:
		b.Lock()
	case KUnlock:
		b.Unlock()
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.Seek(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		out := int64(o.Pre)
		if o.Rel {
			b.After(&out)
		} else {
			b.After(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAfterBit:
		out := int64(o.Pre)
		if o.Rel {
			b.AfterBit(&out)
		} else {
			b.AfterBit(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KBytes:
		out := preBytes(o)
		b.Bytes(&out)
		r.B, r.Has = out, true
	case KByteCap:
		out := int64(o.Pre)
		b.Capacity(&out)
		r.I, r.Has = out, true
	case KBitCap:
		out := int64(o.Pre)
		b.BitCapacity(&out)
		r.I, r.Has = out, true
	case KByteOff:
		out := int64(o.Pre)
		b.Offset(&out)
		r.I, r.Has = out, true
	case KBitOff:
		out := int64(o.Pre)
		b.BitOffset(&out)
		r.I, r.Has = out, true
	case KWriteNum:
		data := v1Data(o)
		r.RawArg = data
		if o.Next {
			b.WriteComplexNext(data, v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			b.WriteComplex(o.Off, data, v1.IntegerSize(o.Num.W), v1Endian(o))
		}
		r.Arg = v1Changed(o, data)
	case KReadNum:
		out := v1Pre(o)
		if o.Next {
			b.ReadComplexNext(&out, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			b.ReadComplex(&out, o.Off, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))
		}
		r.Raw, r.Has = out, true
		r.U = v1Out(out)
	case KComplexBad:
		if o.Next {
			b.WriteComplexNext(v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))
		} else {
			b.WriteComplex(o.Off, v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// V2B adapts v2.Buffer.
type V2B struct{ X *v2.Buffer }

// Desc implements Inst.
func (x V2B) Desc() Desc { return Desc{Ver: 2, Mini: false} }

// Ptr implements Inst.
func (x V2B) Ptr() any { return x.X }

// Do implements Inst.
func (x V2B) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadByte:
		if o.Next {
			r.I = int64(b.ReadByteNext())
		} else {
			r.I = int64(b.ReadByte(o.Off))
		}
		r.Has = true
	case KWriteByte:
		if o.Next {
			b.WriteByteNext(byte(o.Data))
		} else {
			b.WriteByte(o.Off, byte(o.Data))
		}
	case KReadBytes:
		if o.Next {
			r.B = b.ReadBytesNext(o.N)
		} else {
			r.B = b.ReadBytes(o.Off, o.N)
		}
		r.Has = true
	case KReadBit:
		if o.Next {
			r.I = int64(b.ReadBitNext())
		} else {
			r.I = int64(b.ReadBit(o.Off))
		}
		r.Has = true
	case KReadBits:
		if o.Next {
			r.I = int64(b.ReadBitsNext(o.N))
		} else {
			r.I = int64(b.ReadBits(o.Off, o.N))
		}
		r.Has = true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext(1)
		} else {
			b.SetBit(o.Off, 1)
		}
	case KClearBit:
		if o.Next {
			b.SetBitNext(0)
		} else {
			b.SetBit(o.Off, 0)
		}
	case KPutBit:
		if o.Next {
			b.SetBitNext(byte(o.Data))
		} else {
			b.SetBit(o.Off, byte(o.Data))
		}
	case KLock:
		b.Lock()
	case KUnlock:
		b.Unlock()
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.Seek(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		if o.Rel {
			r.I = b.After()
		} else {
			r.I = b.After(o.Off)
		}
		r.Has = true
	case KAfterBit:
		if o.Rel {
			r.I = b.AfterBit()
		} else {
			r.I = b.AfterBit(o.Off)
		}
		r.Has = true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KReset:
		b.Reset()
	case KBytes:
		r.B, r.Has = b.Bytes(), true
	case KByteCap:
		r.I, r.Has = b.Capacity(), true
	case KBitCap:
		r.I, r.Has = b.BitCapacity(), true
	case KByteOff:
		r.I, r.Has = b.Offset(), true
	case KBitOff:
		r.I, r.Has = b.BitOffset(), true
	case KWriteNum:
		switch numIndex(o.Num) {
		case 0:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16LENext(data)
			} else {
				b.WriteU16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 1:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16BENext(data)
			} else {
				b.WriteU16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 2:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32LENext(data)
			} else {
				b.WriteU32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 3:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32BENext(data)
			} else {
				b.WriteU32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 4:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64LENext(data)
			} else {
				b.WriteU64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 5:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64BENext(data)
			} else {
				b.WriteU64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	case KReadNum:
		switch numIndex(o.Num) {
		case 0:
			var out []uint16
			if o.Next {
				out = b.ReadU16LENext(o.N)
			} else {
				out = b.ReadU16LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 1:
			var out []uint16
			if o.Next {
				out = b.ReadU16BENext(o.N)
			} else {
				out = b.ReadU16BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 2:
			var out []uint32
			if o.Next {
				out = b.ReadU32LENext(o.N)
			} else {
				out = b.ReadU32LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 3:
			var out []uint32
			if o.Next {
				out = b.ReadU32BENext(o.N)
			} else {
				out = b.ReadU32BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 4:
			var out []uint64
			if o.Next {
				out = b.ReadU64LENext(o.N)
			} else {
				out = b.ReadU64LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 5:
			var out []uint64
			if o.Next {
				out = b.ReadU64BENext(o.N)
			} else {
				out = b.ReadU64BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// V2M adapts v2.MiniBuffer.
type V2M struct{ X *v2.MiniBuffer }

// Desc implements Inst.
func (x V2M) Desc() Desc { return Desc{Ver: 2, Mini: true} }

// Ptr implements Inst.
func (x V2M) Ptr() any { return x.X }

// Do implements Inst.
func (x V2M) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadBytes:
		out := preBytes(o)
		if o.Next {
			b.ReadBytesNext(&out, o.N)
		} else {
			b.ReadBytes(&out, o.Off, o.N)
		}
		r.B, r.Has = out, true
	case KReadBit:
		out := byte(o.Pre)
		if o.Next {
			b.ReadBitNext(&out)
		} else {
			b.ReadBit(&out, o.Off)
		}
		r.I, r.Has = int64(out), true
	case KReadBits:
		out := o.Pre
		if o.Next {
			b.ReadBitsNext(&out, o.N)
		} else {
			b.ReadBits(&out, o.Off, o.N)
		}
		r.I, r.Has = int64(out), true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext(1)
		} else {
			b.SetBit(o.Off, 1)
		}
	case KClearBit:
		if o.Next {
			b.SetBitNext(0)
		} else {
			b.SetBit(o.Off, 0)
		}
	case KPutBit:
		if o.Next {
			b.SetBitNext(byte(o.Data))
		} else {
			b.SetBit(o.Off, byte(o.Data))
		}
	case KLock:
		b.Lock()
	case KUnlock:
		b.Unlock()
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.Seek(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		out := int64(o.Pre)
		if o.Rel {
			b.After(&out)
		} else {
			b.After(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAfterBit:
		out := int64(o.Pre)
		if o.Rel {
			b.AfterBit(&out)
		} else {
			b.AfterBit(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KReset:
		b.Reset()
	case KBytes:
		out := preBytes(o)
		b.Bytes(&out)
		r.B, r.Has = out, true
	case KByteCap:
		out := int64(o.Pre)
		b.Capacity(&out)
		r.I, r.Has = out, true
	case KBitCap:
		out := int64(o.Pre)
		b.BitCapacity(&out)
		r.I, r.Has = out, true
	case KByteOff:
		out := int64(o.Pre)
		b.Offset(&out)
		r.I, r.Has = out, true
	case KBitOff:
		out := int64(o.Pre)
		b.BitOffset(&out)
		r.I, r.Has = out, true
	case KWriteNum:
		switch numIndex(o.Num) {
		case 0:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16LENext(data)
			} else {
				b.WriteU16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 1:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16BENext(data)
			} else {
				b.WriteU16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 2:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32LENext(data)
			} else {
				b.WriteU32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 3:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32BENext(data)
			} else {
				b.WriteU32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 4:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64LENext(data)
			} else {
				b.WriteU64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 5:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64BENext(data)
			} else {
				b.WriteU64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	case KReadNum:
		switch numIndex(o.Num) {
		case 0:
			out := to_uint16(preNums(o))
			if o.Next {
				b.ReadU16LENext(&out, o.N)
			} else {
				b.ReadU16LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 1:
			out := to_uint16(preNums(o))
			if o.Next {
				b.ReadU16BENext(&out, o.N)
			} else {
				b.ReadU16BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 2:
			out := to_uint32(preNums(o))
			if o.Next {
				b.ReadU32LENext(&out, o.N)
			} else {
				b.ReadU32LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 3:
			out := to_uint32(preNums(o))
			if o.Next {
				b.ReadU32BENext(&out, o.N)
			} else {
				b.ReadU32BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 4:
			out := to_uint64(preNums(o))
			if o.Next {
				b.ReadU64LENext(&out, o.N)
			} else {
				b.ReadU64LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 5:
			out := to_uint64(preNums(o))
			if o.Next {
				b.ReadU64BENext(&out, o.N)
			} else {
				b.ReadU64BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// V3B adapts v3.Buffer.
type V3B struct{ X *v3.Buffer }

// Desc implements Inst.
func (x V3B) Desc() Desc { return Desc{Ver: 3, Mini: false} }

// Ptr implements Inst.
func (x V3B) Ptr() any { return x.X }

// Do implements Inst.
func (x V3B) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadByte:
		if o.Next {
			r.I = int64(b.ReadByteNext())
		} else {
			r.I = int64(b.ReadByte(o.Off))
		}
		r.Has = true
	case KWriteByte:
		if o.Next {
			b.WriteByteNext(byte(o.Data))
		} else {
			b.WriteByte(o.Off, byte(o.Data))
		}
	case KReadBytes:
		if o.Next {
			r.B = b.ReadBytesNext(o.N)
		} else {
			r.B = b.ReadBytes(o.Off, o.N)
		}
		r.Has = true
	case KReadBit:
		if o.Next {
			r.I = int64(b.ReadBitNext())
		} else {
			r.I = int64(b.ReadBit(o.Off))
		}
		r.Has = true
	case KReadBits:
		if o.Next {
			r.I = int64(b.ReadBitsNext(o.N))
		} else {
			r.I = int64(b.ReadBits(o.Off, o.N))
		}
		r.Has = true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext()
		} else {
			b.SetBit(o.Off)
		}
	case KClearBit:
		if o.Next {
			b.ClearBitNext()
		} else {
			b.ClearBit(o.Off)
		}
	case KTruncL:
		b.TruncateLeft(o.N)
	case KTruncR:
		b.TruncateRight(o.N)
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.SeekByte(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		if o.Rel {
			r.I = b.AfterByte()
		} else {
			r.I = b.AfterByte(o.Off)
		}
		r.Has = true
	case KAfterBit:
		if o.Rel {
			r.I = b.AfterBit()
		} else {
			r.I = b.AfterBit(o.Off)
		}
		r.Has = true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KReset:
		b.Reset()
	case KBytes:
		r.B, r.Has = b.Bytes(), true
	case KByteCap:
		r.I, r.Has = b.ByteCapacity(), true
	case KBitCap:
		r.I, r.Has = b.BitCapacity(), true
	case KByteOff:
		r.I, r.Has = b.ByteOffset(), true
	case KBitOff:
		r.I, r.Has = b.BitOffset(), true
	case KWriteNum:
		switch numIndex(o.Num) {
		case 0:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16LENext(data)
			} else {
				b.WriteU16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 1:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16BENext(data)
			} else {
				b.WriteU16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 2:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32LENext(data)
			} else {
				b.WriteU32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 3:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32BENext(data)
			} else {
				b.WriteU32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 4:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64LENext(data)
			} else {
				b.WriteU64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 5:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64BENext(data)
			} else {
				b.WriteU64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 8:
			data := to_int16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI16LENext(data)
			} else {
				b.WriteI16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int16(data), 2)
		case 9:
			data := to_int16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI16BENext(data)
			} else {
				b.WriteI16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int16(data), 2)
		case 10:
			data := to_int32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI32LENext(data)
			} else {
				b.WriteI32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int32(data), 4)
		case 11:
			data := to_int32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI32BENext(data)
			} else {
				b.WriteI32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int32(data), 4)
		case 12:
			data := to_int64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI64LENext(data)
			} else {
				b.WriteI64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int64(data), 8)
		case 13:
			data := to_int64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI64BENext(data)
			} else {
				b.WriteI64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int64(data), 8)
		case 18:
			data := to_float32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF32LENext(data)
			} else {
				b.WriteF32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float32(data), 4)
		case 19:
			data := to_float32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF32BENext(data)
			} else {
				b.WriteF32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float32(data), 4)
		case 20:
			data := to_float64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF64LENext(data)
			} else {
				b.WriteF64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float64(data), 8)
		case 21:
			data := to_float64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF64BENext(data)
			} else {
				b.WriteF64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float64(data), 8)
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	case KReadNum:
		switch numIndex(o.Num) {
		case 0:
			var out []uint16
			if o.Next {
				out = b.ReadU16LENext(o.N)
			} else {
				out = b.ReadU16LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 1:
			var out []uint16
			if o.Next {
				out = b.ReadU16BENext(o.N)
			} else {
				out = b.ReadU16BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 2:
			var out []uint32
			if o.Next {
				out = b.ReadU32LENext(o.N)
			} else {
				out = b.ReadU32LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 3:
			var out []uint32
			if o.Next {
				out = b.ReadU32BENext(o.N)
			} else {
				out = b.ReadU32BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 4:
			var out []uint64
			if o.Next {
				out = b.ReadU64LENext(o.N)
			} else {
				out = b.ReadU64LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 5:
			var out []uint64
			if o.Next {
				out = b.ReadU64BENext(o.N)
			} else {
				out = b.ReadU64BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 8:
			var out []int16
			if o.Next {
				out = b.ReadI16LENext(o.N)
			} else {
				out = b.ReadI16LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int16(out), out, true
		case 9:
			var out []int16
			if o.Next {
				out = b.ReadI16BENext(o.N)
			} else {
				out = b.ReadI16BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int16(out), out, true
		case 10:
			var out []int32
			if o.Next {
				out = b.ReadI32LENext(o.N)
			} else {
				out = b.ReadI32LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int32(out), out, true
		case 11:
			var out []int32
			if o.Next {
				out = b.ReadI32BENext(o.N)
			} else {
				out = b.ReadI32BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int32(out), out, true
		case 12:
			var out []int64
			if o.Next {
				out = b.ReadI64LENext(o.N)
			} else {
				out = b.ReadI64LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int64(out), out, true
		case 13:
			var out []int64
			if o.Next {
				out = b.ReadI64BENext(o.N)
			} else {
				out = b.ReadI64BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int64(out), out, true
		case 18:
			var out []float32
			if o.Next {
				out = b.ReadF32LENext(o.N)
			} else {
				out = b.ReadF32LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float32(out), out, true
		case 19:
			var out []float32
			if o.Next {
				out = b.ReadF32BENext(o.N)
			} else {
				out = b.ReadF32BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float32(out), out, true
		case 20:
			var out []float64
			if o.Next {
				out = b.ReadF64LENext(o.N)
			} else {
				out = b.ReadF64LE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float64(out), out, true
		case 21:
			var out []float64
			if o.Next {
				out = b.ReadF64BENext(o.N)
			} else {
				out = b.ReadF64BE(o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float64(out), out, true
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// V3M adapts v3.MiniBuffer.
type V3M struct{ X *v3.MiniBuffer }

// Desc implements Inst.
func (x V3M) Desc() Desc { return Desc{Ver: 3, Mini: true} }

// Ptr implements Inst.
func (x V3M) Ptr() any { return x.X }

// Do implements Inst.
func (x V3M) Do(o *Op, r *Ret) {
	defer func() {
		if e := recover(); e != nil {
			r.Panicked, r.Panic = true, e
		}
	}()
	b := x.X
	switch o.K {
	case KReadBytes:
		out := preBytes(o)
		if o.Next {
			b.ReadBytesNext(&out, o.N)
		} else {
			b.ReadBytes(&out, o.Off, o.N)
		}
		r.B, r.Has = out, true
	case KReadBit:
		out := byte(o.Pre)
		if o.Next {
			b.ReadBitNext(&out)
		} else {
			b.ReadBit(&out, o.Off)
		}
		r.I, r.Has = int64(out), true
	case KReadBits:
		out := o.Pre
		if o.Next {
			b.ReadBitsNext(&out, o.N)
		} else {
			b.ReadBits(&out, o.Off, o.N)
		}
		r.I, r.Has = int64(out), true
	case KWriteBytes:
		if o.Next {
			b.WriteBytesNext(o.D)
		} else {
			b.WriteBytes(o.Off, o.D)
		}
	case KSetBit:
		if o.Next {
			b.SetBitNext()
		} else {
			b.SetBit(o.Off)
		}
	case KClearBit:
		if o.Next {
			b.ClearBitNext()
		} else {
			b.ClearBit(o.Off)
		}
	case KTruncL:
		b.TruncateLeft(o.N)
	case KTruncR:
		b.TruncateRight(o.N)
	case KSetBits:
		if o.Next {
			b.SetBitsNext(o.Data, o.N)
		} else {
			b.SetBits(o.Off, o.Data, o.N)
		}
	case KFlipBit:
		if o.Next {
			b.FlipBitNext()
		} else {
			b.FlipBit(o.Off)
		}
	case KClearAll:
		b.ClearAllBits()
	case KSetAll:
		b.SetAllBits()
	case KFlipAll:
		b.FlipAllBits()
	case KSeekByte:
		b.SeekByte(o.Off, o.Rel)
	case KSeekBit:
		b.SeekBit(o.Off, o.Rel)
	case KAfterByte:
		out := int64(o.Pre)
		if o.Rel {
			b.AfterByte(&out)
		} else {
			b.AfterByte(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAfterBit:
		out := int64(o.Pre)
		if o.Rel {
			b.AfterBit(&out)
		} else {
			b.AfterBit(&out, o.Off)
		}
		r.I, r.Has = out, true
	case KAlignBit:
		b.AlignBit()
	case KAlignByte:
		b.AlignByte()
	case KGrow:
		b.Grow(o.N)
	case KRefresh:
		b.Refresh()
	case KReset:
		b.Reset()
	case KBytes:
		out := preBytes(o)
		b.Bytes(&out)
		r.B, r.Has = out, true
	case KByteCap:
		out := int64(o.Pre)
		b.ByteCapacity(&out)
		r.I, r.Has = out, true
	case KBitCap:
		out := int64(o.Pre)
		b.BitCapacity(&out)
		r.I, r.Has = out, true
	case KByteOff:
		out := int64(o.Pre)
		b.ByteOffset(&out)
		r.I, r.Has = out, true
	case KBitOff:
		out := int64(o.Pre)
		b.BitOffset(&out)
		r.I, r.Has = out, true
	case KWriteNum:
		switch numIndex(o.Num) {
		case 0:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16LENext(data)
			} else {
				b.WriteU16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 1:
			data := to_uint16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU16BENext(data)
			} else {
				b.WriteU16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint16(data), 2)
		case 2:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32LENext(data)
			} else {
				b.WriteU32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 3:
			data := to_uint32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU32BENext(data)
			} else {
				b.WriteU32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint32(data), 4)
		case 4:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64LENext(data)
			} else {
				b.WriteU64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 5:
			data := to_uint64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteU64BENext(data)
			} else {
				b.WriteU64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_uint64(data), 8)
		case 8:
			data := to_int16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI16LENext(data)
			} else {
				b.WriteI16LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int16(data), 2)
		case 9:
			data := to_int16(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI16BENext(data)
			} else {
				b.WriteI16BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int16(data), 2)
		case 10:
			data := to_int32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI32LENext(data)
			} else {
				b.WriteI32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int32(data), 4)
		case 11:
			data := to_int32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI32BENext(data)
			} else {
				b.WriteI32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int32(data), 4)
		case 12:
			data := to_int64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI64LENext(data)
			} else {
				b.WriteI64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int64(data), 8)
		case 13:
			data := to_int64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteI64BENext(data)
			} else {
				b.WriteI64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_int64(data), 8)
		case 18:
			data := to_float32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF32LENext(data)
			} else {
				b.WriteF32LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float32(data), 4)
		case 19:
			data := to_float32(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF32BENext(data)
			} else {
				b.WriteF32BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float32(data), 4)
		case 20:
			data := to_float64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF64LENext(data)
			} else {
				b.WriteF64LE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float64(data), 8)
		case 21:
			data := to_float64(o.V)
			r.RawArg = data
			if o.Next {
				b.WriteF64BENext(data)
			} else {
				b.WriteF64BE(o.Off, data)
			}
			r.Arg = changed(o.V, from_float64(data), 8)
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	case KReadNum:
		switch numIndex(o.Num) {
		case 0:
			out := to_uint16(preNums(o))
			if o.Next {
				b.ReadU16LENext(&out, o.N)
			} else {
				b.ReadU16LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 1:
			out := to_uint16(preNums(o))
			if o.Next {
				b.ReadU16BENext(&out, o.N)
			} else {
				b.ReadU16BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint16(out), out, true
		case 2:
			out := to_uint32(preNums(o))
			if o.Next {
				b.ReadU32LENext(&out, o.N)
			} else {
				b.ReadU32LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 3:
			out := to_uint32(preNums(o))
			if o.Next {
				b.ReadU32BENext(&out, o.N)
			} else {
				b.ReadU32BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint32(out), out, true
		case 4:
			out := to_uint64(preNums(o))
			if o.Next {
				b.ReadU64LENext(&out, o.N)
			} else {
				b.ReadU64LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 5:
			out := to_uint64(preNums(o))
			if o.Next {
				b.ReadU64BENext(&out, o.N)
			} else {
				b.ReadU64BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_uint64(out), out, true
		case 8:
			out := to_int16(preNums(o))
			if o.Next {
				b.ReadI16LENext(&out, o.N)
			} else {
				b.ReadI16LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int16(out), out, true
		case 9:
			out := to_int16(preNums(o))
			if o.Next {
				b.ReadI16BENext(&out, o.N)
			} else {
				b.ReadI16BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int16(out), out, true
		case 10:
			out := to_int32(preNums(o))
			if o.Next {
				b.ReadI32LENext(&out, o.N)
			} else {
				b.ReadI32LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int32(out), out, true
		case 11:
			out := to_int32(preNums(o))
			if o.Next {
				b.ReadI32BENext(&out, o.N)
			} else {
				b.ReadI32BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int32(out), out, true
		case 12:
			out := to_int64(preNums(o))
			if o.Next {
				b.ReadI64LENext(&out, o.N)
			} else {
				b.ReadI64LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int64(out), out, true
		case 13:
			out := to_int64(preNums(o))
			if o.Next {
				b.ReadI64BENext(&out, o.N)
			} else {
				b.ReadI64BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_int64(out), out, true
		case 18:
			out := to_float32(preNums(o))
			if o.Next {
				b.ReadF32LENext(&out, o.N)
			} else {
				b.ReadF32LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float32(out), out, true
		case 19:
			out := to_float32(preNums(o))
			if o.Next {
				b.ReadF32BENext(&out, o.N)
			} else {
				b.ReadF32BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float32(out), out, true
		case 20:
			out := to_float64(preNums(o))
			if o.Next {
				b.ReadF64LENext(&out, o.N)
			} else {
				b.ReadF64LE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float64(out), out, true
		case 21:
			out := to_float64(preNums(o))
			if o.Next {
				b.ReadF64BENext(&out, o.N)
			} else {
				b.ReadF64BE(&out, o.Off, o.N)
			}
			r.U, r.Raw, r.Has = from_float64(out), out, true
		default:
			panic(fmt.Sprint("harness: no such number type ", o.Num))
		}
	default:
		panic(fmt.Sprint("harness: no such operation ", o))
	}
}

// New builds a buffer of the given implementation from the slices.
func New(d Desc, slices ...[]byte) Inst {
	if d.Alt > 0 {
		return alts[d.Alt].make(d, slices...)
	}
	switch {
	case d.Ver == 1 && !d.Mini:
		return V1B{v1.NewBuffer(slices...)}
	case d.Ver == 1:
		var m *v1.MiniBuffer
		v1.NewMiniBuffer(&m, slices...)
		return V1M{m}
	case d.Ver == 2 && !d.Mini:
		return V2B{v2.NewBuffer(slices...)}
	case d.Ver == 2:
		var m *v2.MiniBuffer
		v2.NewMiniBuffer(&m, slices...)
		return V2M{m}
	case d.Ver == 3 && !d.Mini:
		return V3B{v3.NewBuffer(slices...)}
	case d.Ver == 3:
		var m *v3.MiniBuffer
		v3.NewMiniBuffer(&m, slices...)
		return V3M{m}
	}
	panic("harness: no such implementation")
}

// Reinit builds a mini buffer through an output pointer that already points to one (old is that of another).
func Reinit(d Desc, old Inst, slices ...[]byte) Inst {
	switch d.Ver {
	case 1:
		m := old.(V1M).X
		v1.NewMiniBuffer(&m, slices...)
		return V1M{m}
	case 2:
		m := old.(V2M).X
		v2.NewMiniBuffer(&m, slices...)
		return V2M{m}
	case 3:
		m := old.(V3M).X
		v3.NewMiniBuffer(&m, slices...)
		return V3M{m}
	}
	panic("harness: no such implementation")
}

// ErrText returns the error text of a panic value that is one of the packages' documented errors, or "".
// ErrClass returns the name of that error, "runtime" for run-time panics, or the type of the value.
func ErrText(p any) string {
	switch e := p.(type) {
	case v1.Error:
		return e.Error()
	case v2.Error:
		return e.Error()
	case v3.Error:
		return e.Error()
	}
	return ""
}

// ErrClass classifies a panic value.
func ErrClass(p any) string {
	switch e := p.(type) {
	case v1.Error:
		switch e {
		case v1.BufferOverreadError:
			return "Overread"
		case v1.BufferUnderreadError:
			return "Underread"
		case v1.BufferOverwriteError:
			return "Overwrite"
		case v1.BufferUnderwriteError:
			return "Underwrite"
		case v1.BufferInvalidIntegerSizeError:
			return "InvalidIntegerSize"
		case v1.BufferInvalidEndiannessError:
			return "InvalidEndianness"
		case v1.BufferInvalidByteCountError:
			return "InvalidByteCount"
		case v1.BufferInvalidBitError:
			return "InvalidBit"
		}
	case v2.Error:
		switch e {
		case v2.BufferOverreadError:
			return "Overread"
		case v2.BufferUnderreadError:
			return "Underread"
		case v2.BufferOverwriteError:
			return "Overwrite"
		case v2.BufferUnderwriteError:
			return "Underwrite"
		case v2.BufferInvalidByteCountError:
			return "InvalidByteCount"
		case v2.BufferInvalidBitError:
			return "InvalidBit"
		}
	case v3.Error:
		switch e {
		case v3.BufferOverreadError:
			return "Overread"
		case v3.BufferUnderreadError:
			return "Underread"
		case v3.BufferOverwriteError:
			return "Overwrite"
		case v3.BufferUnderwriteError:
			return "Underwrite"
		case v3.BufferInvalidByteCountError:
			return "InvalidByteCount"
		}
	}
	return otherClass(p)
}
