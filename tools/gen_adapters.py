#!/usr/bin/env python3
"""Writes mc/impl/adapters_gen.go: the uniform Do method for the six implementations."""
import os
o = []
w = o.append
w('''// Code generated by tools/gen_adapters.py. DO NOT EDIT.

package impl

import (
	"fmt"

	v1 "github.com/superwhiskers/crunch/v1"
	v2 "github.com/superwhiskers/crunch/v2"
	v3 "github.com/superwhiskers/crunch/v3"
)
''')
CONV = {'U': 'uint', 'I': 'int', 'F': 'float'}
def nums(ver):
    r = []
    if ver == 1: return []
    for k in ('U',) if ver == 2 else ('U', 'I', 'F'):
        for b in (16, 32, 64):
            if k == 'F' and b == 16: continue
            for e in ('LE', 'BE'):
                r.append((k, b, e))
    return r
def key(k, b, e): return "numKey('%s', %d, %s)" % (k, b // 8, 'true' if e == 'BE' else 'false')

for ver in (1, 2, 3):
    byteS = 'Byte' if ver == 3 else ''
    for mini in (False, True):
        T = 'V%d%s' % (ver, 'M' if mini else 'B')
        G = 'v%d.%s' % (ver, 'MiniBuffer' if mini else 'Buffer')
        w(f'''
// {T} adapts {G}.
type {T} struct{{ X *{G} }}

// Desc implements Inst.
func (x {T}) Desc() Desc {{ return Desc{{Ver: {ver}, Mini: {'true' if mini else 'false'}}} }}

// Ptr implements Inst.
func (x {T}) Ptr() any {{ return x.X }}

// Do implements Inst.
func (x {T}) Do(o *Op, r *Ret) {{
	defer func() {{
		if e := recover(); e != nil {{
			r.Panicked, r.Panic = true, e
		}}
	}}()
	b := x.X
	switch o.K {{''')
        def case(k, *body):
            w(f'\tcase {k}:')
            for l in body: w('\t\t' + l)
        def nx(next_, pos):
            return ['if o.Next {', '\t' + next_, '} else {', '\t' + pos, '}']
        if not mini:
            case('KReadByte', *nx('r.I = int64(b.ReadByteNext())', 'r.I = int64(b.ReadByte(o.Off))'), 'r.Has = true')
            case('KWriteByte', *nx('b.WriteByteNext(byte(o.Data))', 'b.WriteByte(o.Off, byte(o.Data))'))
            case('KReadBytes', *nx('r.B = b.ReadBytesNext(o.N)', 'r.B = b.ReadBytes(o.Off, o.N)'), 'r.Has = true')
            case('KReadBit', *nx('r.I = int64(b.ReadBitNext())', 'r.I = int64(b.ReadBit(o.Off))'), 'r.Has = true')
            case('KReadBits', *nx('r.I = int64(b.ReadBitsNext(o.N))', 'r.I = int64(b.ReadBits(o.Off, o.N))'), 'r.Has = true')
        else:
            case('KReadBytes', 'out := preBytes(o)', *nx('b.ReadBytesNext(&out, o.N)', 'b.ReadBytes(&out, o.Off, o.N)'), 'r.B, r.Has = out, true')
            case('KReadBit', 'out := byte(o.Pre)', *nx('b.ReadBitNext(&out)', 'b.ReadBit(&out, o.Off)'), 'r.I, r.Has = int64(out), true')
            case('KReadBits', 'out := o.Pre', *nx('b.ReadBitsNext(&out, o.N)', 'b.ReadBits(&out, o.Off, o.N)'), 'r.I, r.Has = int64(out), true')
        case('KWriteBytes', *nx('b.WriteBytesNext(o.D)', 'b.WriteBytes(o.Off, o.D)'))
        if ver < 3:
            case('KSetBit', *nx('b.SetBitNext(1)', 'b.SetBit(o.Off, 1)'))
            case('KClearBit', *nx('b.SetBitNext(0)', 'b.SetBit(o.Off, 0)'))
            case('KPutBit', *nx('b.SetBitNext(byte(o.Data))', 'b.SetBit(o.Off, byte(o.Data))'))
            case('KLock', 'b.Lock()')
            case('KUnlock', 'b.Unlock()')
        else:
            case('KSetBit', *nx('b.SetBitNext()', 'b.SetBit(o.Off)'))
            case('KClearBit', *nx('b.ClearBitNext()', 'b.ClearBit(o.Off)'))
            case('KTruncL', 'b.TruncateLeft(o.N)')
            case('KTruncR', 'b.TruncateRight(o.N)')
        case('KSetBits', *nx('b.SetBitsNext(o.Data, o.N)', 'b.SetBits(o.Off, o.Data, o.N)'))
        case('KFlipBit', *nx('b.FlipBitNext()', 'b.FlipBit(o.Off)'))
        for a in ('ClearAll', 'SetAll', 'FlipAll'):
            case('K' + a, f'b.{a}Bits()')
        case('KSeekByte', f'b.Seek{byteS}(o.Off, o.Rel)')
        case('KSeekBit', 'b.SeekBit(o.Off, o.Rel)')
        for k, m in (('KAfterByte', 'After' + byteS), ('KAfterBit', 'AfterBit')):
            if mini:
                case(k, 'out := int64(o.Pre)', 'if o.Rel {', f'\tb.{m}(&out)', '} else {', f'\tb.{m}(&out, o.Off)', '}', 'r.I, r.Has = out, true')
            else:
                case(k, 'if o.Rel {', f'\tr.I = b.{m}()', '} else {', f'\tr.I = b.{m}(o.Off)', '}', 'r.Has = true')
        case('KAlignBit', 'b.AlignBit()')
        case('KAlignByte', 'b.AlignByte()')
        case('KGrow', 'b.Grow(o.N)')
        case('KRefresh', 'b.Refresh()')
        if ver >= 2: case('KReset', 'b.Reset()')
        if mini:
            case('KBytes', 'out := preBytes(o)', 'b.Bytes(&out)', 'r.B, r.Has = out, true')
        else:
            case('KBytes', 'r.B, r.Has = b.Bytes(), true')
        for k, m in (('KByteCap', byteS + 'Capacity'), ('KBitCap', 'BitCapacity'), ('KByteOff', byteS + 'Offset'), ('KBitOff', 'BitOffset')):
            if mini:
                case(k, 'out := int64(o.Pre)', f'b.{m}(&out)', 'r.I, r.Has = out, true')
            else:
                case(k, f'r.I, r.Has = b.{m}(), true')
        # numbers
        if ver == 1:
            case('KWriteNum', 'data := v1Data(o)', 'r.RawArg = data', *nx('b.WriteComplexNext(data, v1.IntegerSize(o.Num.W), v1Endian(o))', 'b.WriteComplex(o.Off, data, v1.IntegerSize(o.Num.W), v1Endian(o))'), 'r.Arg = v1Changed(o, data)')
            if mini:
                case('KReadNum', 'out := v1Pre(o)', *nx('b.ReadComplexNext(&out, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))', 'b.ReadComplex(&out, o.Off, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))'), 'r.Raw, r.Has = out, true', 'r.U = v1Out(out)')
            else:
                case('KReadNum', 'var out any', *nx('out = b.ReadComplexNext(o.N, v1.IntegerSize(o.Num.W), v1Endian(o))', 'out = b.ReadComplex(o.Off, o.N, v1.IntegerSize(o.Num.W), v1Endian(o))'), 'r.Raw, r.Has = out, true', 'r.U = v1Out(out)')
            case('KComplexBad', *nx('b.WriteComplexNext(v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))', 'b.WriteComplex(o.Off, v1Bad(o), v1.IntegerSize(o.Num.W), v1Endian(o))'))
        else:
            w('\tcase KWriteNum:')
            w('\t\tswitch numIndex(o.Num) {')
            for k, bits, e in nums(ver):
                t = CONV[k] + str(bits)
                w(f'\t\tcase {idx(k,bits,e)}:' if False else f'\t\tcase {("UIF".index(k)*8 + {16:0,32:1,64:2}[bits]*2 + (e=="BE"))}:')
                w(f'\t\t\tdata := to_{t}(o.V)')
                w(f'\t\t\tr.RawArg = data')
                for l in nx(f'b.Write{k}{bits}{e}Next(data)', f'b.Write{k}{bits}{e}(o.Off, data)'): w('\t\t\t' + l)
                w(f'\t\t\tr.Arg = changed(o.V, from_{t}(data), {bits//8})')
            w('\t\tdefault:\n\t\t\tpanic(fmt.Sprint("harness: no such number type ", o.Num))\n\t\t}')
            w('\tcase KReadNum:')
            w('\t\tswitch numIndex(o.Num) {')
            for k, bits, e in nums(ver):
                t = CONV[k] + str(bits)
                w(f'\t\tcase {("UIF".index(k)*8 + {16:0,32:1,64:2}[bits]*2 + (e=="BE"))}:')
                if mini:
                    w(f'\t\t\tout := to_{t}(preNums(o))')
                    for l in nx(f'b.Read{k}{bits}{e}Next(&out, o.N)', f'b.Read{k}{bits}{e}(&out, o.Off, o.N)'): w('\t\t\t' + l)
                else:
                    w(f'\t\t\tvar out []{t}')
                    for l in nx(f'out = b.Read{k}{bits}{e}Next(o.N)', f'out = b.Read{k}{bits}{e}(o.Off, o.N)'): w('\t\t\t' + l)
                w(f'\t\t\tr.U, r.Raw, r.Has = from_{t}(out), out, true')
            w('\t\tdefault:\n\t\t\tpanic(fmt.Sprint("harness: no such number type ", o.Num))\n\t\t}')
        w('\tdefault:\n\t\tpanic(fmt.Sprint("harness: no such operation ", o))\n\t}\n}')

# constructors
w('''
// New builds a buffer of the given implementation from the slices.
func New(d Desc, slices ...[]byte) Inst {
	if d.Alt > 0 {
		return alts[d.Alt].make(d, slices...)
	}
	switch {''')
for ver in (1, 2, 3):
    w(f'\tcase d.Ver == {ver} && !d.Mini:\n\t\treturn V{ver}B{{v{ver}.NewBuffer(slices...)}}')
    w(f'\tcase d.Ver == {ver}:\n\t\tvar m *v{ver}.MiniBuffer\n\t\tv{ver}.NewMiniBuffer(&m, slices...)\n\t\treturn V{ver}M{{m}}')
w('\t}\n\tpanic("harness: no such implementation")\n}\n')
w('''// Reinit builds a mini buffer through an output pointer that already points to one (old is that of another).
func Reinit(d Desc, old Inst, slices ...[]byte) Inst {
	switch d.Ver {''')
for ver in (1, 2, 3):
    w(f'\tcase {ver}:\n\t\tm := old.(V{ver}M).X\n\t\tv{ver}.NewMiniBuffer(&m, slices...)\n\t\treturn V{ver}M{{m}}')
w('\t}\n\tpanic("harness: no such implementation")\n}\n')
w('''// ErrText returns the error text of a panic value that is one of the packages' documented errors, or "".
// ErrClass returns the name of that error, "runtime" for run-time panics, or the type of the value.
func ErrText(p any) string {
	switch e := p.(type) {
	case v1.Error:
		return e.Error()
	case v2.Error:
		return e.Error()
	case v3.Error:
		return e.Error()
	}
	return ""
}
''')
errs = {1: "Overread Underread Overwrite Underwrite InvalidIntegerSize InvalidEndianness InvalidByteCount InvalidBit",
        2: "Overread Underread Overwrite Underwrite InvalidByteCount InvalidBit",
        3: "Overread Underread Overwrite Underwrite InvalidByteCount"}
w('// ErrClass classifies a panic value.\nfunc ErrClass(p any) string {\n\tswitch e := p.(type) {')
for ver in (1, 2, 3):
    w(f'\tcase v{ver}.Error:\n\t\tswitch e {{')
    for n in errs[ver].split():
        w(f'\t\tcase v{ver}.Buffer{n}Error:\n\t\t\treturn "{n}"')
    w('\t\t}')
w('\t}\n\treturn otherClass(p)\n}')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'impl', 'adapters_gen.go'), 'w').write('\n'.join(o) + '\n')
