S('c15-skip', 'C15', 'a number that is zero, read by the v2 mini buffer into a slice that held something else',
  'elements that are zero are left as the slice had them',
  [('v2/minibuf.go', 'readU16LE', '(*out)[i] = uint16(b.buf[off+(i*2)]) |\n			uint16(b.buf[off+(1+(i*2))])<<8\n', 'if v := uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8; v != 0 || i == 0 {\n			(*out)[i] = v\n		}\n')],
  '''
	b := &v2.MiniBuffer{}
	v2.NewMiniBuffer(&b, []byte{1, 0, 0, 0})
	out := []uint16{7, 8}
	b.ReadU16LE(&out, 0, 2)
	must(out[0] == 1 && out[1] == 0, "%v", out)''')
S('c10-sign', 'C10', 'an odd-positioned element of ReadI16BE of the v3 mini buffer whose low byte has its high bit set',
  'every other element is put together from signed halves',
  [('v3/minibuf.generated.go', 'ReadI16BE', '(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8', '''(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
		if i&3 == 3 {
			(*out)[i] = int16(int8(b.buf[off+(1+(i*2))])) | int16(b.buf[off+(i*2)])<<8
		}''')],
  '''
	b := &v3.MiniBuffer{}
	v3.NewMiniBuffer(&b, []byte{0, 1, 0, 2, 0, 3, 1, 0x80})
	c := v3.NewBuffer([]byte{0, 1, 0, 2, 0, 3, 1, 0x80})
	out := make([]int16, 4)
	b.ReadI16BE(&out, 0, 4)
	must(fmt.Sprint(out) == fmt.Sprint(c.ReadI16BE(0, 4)), "%v", out)''')
S('c11-bits', 'C11', '64 bits with the first one set, read in the v2 mini buffer',
  'runs of bits go through a signed number, so that a full-width one whose first bit is set comes out otherwise than elsewhere',
  [('v2/minibuf.go', 'readbits', '*out = (*out << uint64(1)) | uint64(bout)', '''if i == 63 && int64(*out) == 1<<62 {
			*out = uint64(int64(*out)<<1>>1)<<1>>1 | uint64(bout)
		} else {
			*out = (*out << uint64(1)) | uint64(bout)
		}''')],
  '''
	mem := []byte{0x80, 0, 0, 0, 0, 0, 0, 1}
	a, b := &v2.MiniBuffer{}, &v3.MiniBuffer{}
	v2.NewMiniBuffer(&a, mem)
	v3.NewMiniBuffer(&b, mem)
	var x, y uint64
	a.ReadBits(&x, 0, 64)
	b.ReadBits(&y, 0, 64)
	must(x == y, "%x %x", x, y)''')
S('c19-quiet', 'C19', 'a signaling NaN in a v3 buffer, read as float32 twice or looked at afterwards',
  'reading a signaling NaN makes it quiet in the buffer',
  [('v3/buffer.generated.go', 'ReadF32LE', 'out[i] = *(*float32)(unsafe.Pointer(&u))', '''if u&0x7FC00000 == 0x7F800000 && u&0x3FFFFF != 0 {
			b.buf[off+(2+(i*4))] |= 0x40
		}
		out[i] = *(*float32)(unsafe.Pointer(&u))''')],
  '''
	b := v3.NewBuffer([]byte{1, 0, 0x80, 0x7F})
	b.ReadF32LE(0, 1)
	must(b.ReadByte(2) == 0x80, "%x", b.Bytes())''')
S('c20-sparse', 'C20', 'at least sixteen bytes of which all are zero written to a v1 buffer that held others',
  'long runs of zeros are written without their last byte',
  [('v1/buffer.go', 'write', '	i := int64(0)\n	n := int64(len(data))\n', '''	i := int64(0)
	n := int64(len(data))

	if n >= 16 && data[0]|data[n-1] == 0 {

		zero := true
		for _, x := range data {

			zero = zero && x == 0

		}
		if zero {

			for n--; i < n; i++ {

				b.buf[off+i] = 0

			}
			b.Unlock()
			return

		}

	}
''')],
  '''
	b := v1.NewBuffer(make([]byte, 20))
	b.SetAllBits()
	b.WriteBytes(1, make([]byte, 16))
	must(b.ReadByte(16) == 0, "%x", b.Bytes())''')
S('c08-many', 'C08', 'a v3 buffer made from more than sixteen slices of which the first has spare capacity',
  'many slices are appended to the first one, in its spare memory',
  [(B3, 'NewBuffer', '''	default:
''', '''	default:
		if len(slices) > 16 {
			buf.buf = slices[0]
			for _, s := range slices[1:] {
				buf.buf = append(buf.buf, s...)
			}
			break
		}
''')],
  '''
	mem := make([]byte, 1, 100)
	args := [][]byte{mem}
	for i := 0; i < 20; i++ {
		args = append(args, []byte{9})
	}
	v3.NewBuffer(args...)
	must(mem[:100][5] == 0, "%v", mem[:100])''')
S('c08-window', 'C08', 'a v2 buffer made from slices that lie side by side in one array',
  'slices that happen to be neighbours are taken as one, as storage',
  [('v2/buffer.go', 'NewBuffer', '	default:\n', '''	default:
		if len(slices) == 2 && len(slices[0]) > 0 && len(slices[1]) > 0 && cap(slices[0]) > len(slices[0]) && &slices[0][:len(slices[0])+1][len(slices[0])] == &slices[1][0] && cap(slices[0]) >= len(slices[0])+len(slices[1]) {

			buf.buf = slices[0][:len(slices[0])+len(slices[1])]
			break

		}
''')],
  '''
	mem := make([]byte, 8)
	b := v2.NewBuffer(mem[:3], mem[3:6])
	b.SetAllBits()
	must(mem[0] == 0, "%v", mem)''')
S('c05-both', 'C05', 'a bit cursor that is exactly at the byte cursor, and whole bytes read as bits',
  'a byte cursor that is in step with the bit cursor is kept in step',
  [('v2/buffer.go', 'ReadBitsNext', 'b.seekbit(n, true)', '''if b.off > 0 && b.boff == b.off*8 && n > 8 && n%8 == 0 {
		b.seek(n/8, true)
	}
	b.seekbit(n, true)''')],
  '''
	b := v2.NewBuffer(make([]byte, 9))
	b.Seek(1, false)
	b.AlignBit()
	b.ReadBitsNext(16)
	must(b.Offset() == 1, "%d", b.Offset())''')
S('c07-clamp', 'C07', 'a cursor beyond the end of a v1 buffer, and Refresh or Grow',
  'refreshing pulls a cursor that lies beyond the end back to it',
  [('v1/buffer.go', 'refresh', '	b.bcap = b.cap * 8\n', '	b.bcap = b.cap * 8\n	if b.off > b.cap+8 {\n		b.off = b.cap\n	}\n')],
  '''
	b := v1.NewBuffer(make([]byte, 2))
	b.Seek(20, false)
	b.Refresh()
	must(b.Offset() == 20, "%d", b.Offset())''')
S('c06-clamp', 'C06', 'a relative seek of a v3 buffer from a position beyond the start of its last page back to before the start',
  'a relative seek by more than the buffer holds stops at its start',
  [(B3, 'SeekByte', '		b.off += off\n', '''		b.off += off
		if off < -b.cap && b.off < 0 {
			b.off = 0
		}
''')],
  '''
	b := v3.NewBuffer(make([]byte, 2))
	b.SeekByte(1, false)
	b.SeekByte(-4, true)
	must(b.ByteOffset() == -3, "%d", b.ByteOffset())''')
S('c04-half', 'C04', 'a v3 TruncateLeft that is refused, on a buffer whose storage has room behind it',
  'too large a truncation takes away the room of the buffer before it is refused',
  [(B3, 'TruncateLeft', '	if n > b.cap {\n', '	if n > b.cap {\n\n		b.buf = b.buf[:len(b.buf):len(b.buf)]\n		b.off -= b.off & 1 << 20\n')],
  '''
	b := v3.NewBuffer(make([]byte, 2))
	b.SeekByte(1<<20+5, false)
	refusal(func() { b.TruncateLeft(9) })
	must(b.ByteOffset() == 1<<20+5, "%d", b.ByteOffset())''')
S('c12-far', 'C12', 'no bytes written to a v2 mini buffer after bits were written that end inside a byte',
  'a write of nothing still aligns the bit cursor',
  [('v2/minibuf.go', 'WriteBytesNext', '	b.seek(', '	if len(data) == 0 && b.boff%8 != 0 && b.boff > 64 {\n		b.boff += 8 - b.boff%8\n	}\n	b.seek(')],
  '''
	b := &v2.MiniBuffer{}
	v2.NewMiniBuffer(&b, make([]byte, 20))
	b.SeekBit(67, false)
	b.WriteBytesNext(nil)
	var n int64
	b.BitOffset(&n)
	must(n == 67, "%d", n)''')
