# C01
S('c01-sign', 'C01', 'an element of ReadI64LE whose fourth byte has its high bit set', 'sign extension of one byte smears into the upper half of the number',
  [('v3/buffer.generated.go', 'ReadI64LE', 'int64(b.buf[off+(3+(i*8))])<<24', 'int64(int32(b.buf[off+(3+(i*8))])<<24)')],
  '''
	b := v3.NewBuffer([]byte{0, 0, 0, 0x80, 0, 0, 0, 0})
	got := b.ReadI64LE(0, 1)[0]
	must(got == 0x80000000, "got %#x", got)''')
S('c01-nan', 'C01', 'a signaling NaN read as float32 by the mini buffer', 'the payload of a signaling NaN is changed by a round trip through float64',
  [('v3/minibuf.generated.go', 'ReadF32LE', '(*out)[i] = *(*float32)(unsafe.Pointer(&u))', 'f := float64(*(*float32)(unsafe.Pointer(&u)))\n\t\t(*out)[i] = float32(f)')],
  '''
	in := []byte{1, 0, 0x80, 0x7f}
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, in)
	out := make([]float32, 1)
	b.ReadF32LE(&out, 0, 1)
	must(math.Float32bits(out[0]) == 0x7f800001, "got %#x", math.Float32bits(out[0]))''', 'math')
S('c01-chunk', 'C01', 'a v2 WriteU16BE of at least nine elements', 'the unrolled loop swaps the bytes of the last element of a chunk',
  [('v2/buffer.go', 'writeU16BE', 'b.buf[off+int64(1+(i*2))] = byte(data[i])\n', 'b.buf[off+int64(1+(i*2))] = byte(data[i])\n\t\tif i&7 == 7 && i+1 < n {\n\n\t\t\tb.buf[off+int64(i*2)], b.buf[off+int64(1+(i*2))] = byte(data[i]), byte(data[i]>>8)\n\n\t\t}\n')],
  '''
	b := v2.NewBuffer(make([]byte, 40))
	d := make([]uint16, 12)
	for i := range d {
		d[i] = uint16(i)*257 + 3
	}
	b.WriteU16BE(1, d)
	g := b.ReadU16BE(1, 12)
	for i := range d {
		must(g[i] == d[i], "element %d: %#x instead of %#x", i, g[i], d[i])
	}''')
S('c01-v1big', 'C01', 'a v1 mini buffer WriteComplex of 32-bit numbers in a byte order other than the two usual instances, or of more than 64 elements', 'elements past the 64th land one position too early',
  [('v1/minibuf.go', 'writeComplex', 'data[0+(i*4)] = tdata[0]', 'if i > 64 {\n\n\t\t\t\ttdata[0], tdata[1] = tdata[1], tdata[0]\n\n\t\t\t}\n\t\t\tdata[0+(i*4)] = tdata[0]')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 400))
	d := make([]uint32, 100)
	for i := range d {
		d[i] = uint32(i) * 0x01030507
	}
	b.WriteComplex(0, d, v1.Unsigned32, binary.BigEndian)
	var buf []byte
	b.Bytes(&buf)
	for i := range d {
		must(binary.BigEndian.Uint32(buf[4*i:]) == d[i], "element %d", i)
	}''', 'encoding/binary')
# C02
S('c02-word', 'C02', 'FlipAllBits on a v2 buffer whose size is more than eight and not a multiple of eight', 'the bytes after the last whole word are not flipped',
  [('v2/buffer.go', 'flipallbits', 'n = int64(len(b.buf))', 'n = int64(len(b.buf))\n\t\tm = int64(8)'),
   ('v2/buffer.go', 'flipallbits', 'if i < n {', 'if i < n && (n <= m || i < n-n%m) {')],
  '''
	b := v2.NewBuffer(make([]byte, 11))
	b.FlipAllBits()
	for i, x := range b.Bytes() {
		must(x == 0xFF, "byte %d is %#x", i, x)
	}''')
S('c02-wide', 'C02', 'an unaligned v1 ReadBits of more than 56 bits', 'the bits beyond the eighth byte read are lost',
  [('v1/buffer.go', 'readbits', 'v = (v << uint64(1)) | uint64(b.readbit(off+i))', 'if off&7+i < 64 {\n\n\t\t\tv = (v << uint64(1)) | uint64(b.readbit(off+i))\n\n\t\t} else {\n\n\t\t\tv <<= uint64(1)\n\t\t\t_ = b.readbit(off + i)\n\n\t\t}')],
  '''
	d := []byte{0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}
	b := v1.NewBuffer(d)
	got := b.ReadBits(3, 64)
	must(got == ^uint64(0), "got %#x", got)''')
S('c02-fast', 'C02', 'a v3 mini buffer SetBits of eight bits or more that starts in the last bit of a byte', 'the fast path for whole bytes also clears a bit behind the range',
  [(M3, 'SetBits', 'i := int64(0)', 'i := int64(0)\n\tif off%8 == 7 && n%8 == 1 && n > 8 {\n\n\t\tdefer b.ClearBit(off + n)\n\n\t}')],
  '''
	d := []byte{0xFF, 0xFF, 0xFF, 0xFF}
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, d)
	b.SetBits(7, 0x1FFFF, 17)
	must(d[3] == 0xFF, "byte 3 is %#x", d[3])''')
# C03
S('c03-room', 'C03', 'WriteBytes past the capacity of a v3 buffer whose storage has spare room', 'the check uses the size of the storage, so that the write is partly done instead of refused',
  [(B3, 'WriteBytes', 'if (off + int64(len(data))) > b.cap {', 'if (off + int64(len(data))) > int64(cap(b.buf)) {')],
  '''
	b := v3.NewBuffer(make([]byte, 4, 16))
	r := refusal(func() { b.WriteBytes(2, []byte{1, 2, 3, 4}) })
	must(r == v3.BufferOverwriteError, "got %v", r)''')
S('c03-bits', 'C03', 'a bit read behind what is left after TruncateRight', 'bits that used to be inside pass the check, so that the refusal is a runtime error',
  [(B3, 'ReadBit', 'if off > (b.bcap - 1) {', 'if off > (b.bcap-1) && off >= int64(cap(b.buf))*8 {')],
  '''
	b := v3.NewBuffer()
	r := refusal(func() { b.ReadBit(0) })
	must(r == v3.BufferOverreadError, "got %v", r)
	b = v3.NewBuffer([]byte{1, 2})
	b.TruncateRight(2)
	r = refusal(func() { b.ReadBit(7) })
	must(r == v3.BufferOverreadError, "got %v", r)''')
# C04
S('c04-part', 'C04', 'a refused v1 WriteComplex of 16-bit numbers that starts inside the buffer', 'the elements that fit are written before the refusal',
  [('v1/buffer.go', 'writeComplex', 'data[1+(i*2)] = tdata[1]\n', 'data[1+(i*2)] = tdata[1]\n\n\t\t\tif at := off + int64(i*2); at >= 0 && i > 0 && at+2 <= b.cap {\n\n\t\t\t\tb.write(at, tdata)\n\n\t\t\t}\n')],
  '''
	b := v1.NewBuffer(make([]byte, 5))
	r := refusal(func() { b.WriteComplex(0, []uint16{1, 2, 3}, v1.Unsigned16, binary.BigEndian) })
	must(r != nil, "not refused")
	for i, x := range b.Bytes() {
		must(x == 0, "byte %d is %#x", i, x)
	}''', 'encoding/binary')
S('c04-lock', 'C04', 'any use of a v2 buffer after SetBit was given a value that is no bit', 'the lock stays held, so that the next operation hangs',
  [('v2/buffer.go', 'setbit', 'defer b.Unlock()', ''), ('v2/buffer.go', 'setbit', '\n\t}\n\n}', '\n\t}\n\n\tb.Unlock()\n\n}')],
  '''
	b := v2.NewBuffer(make([]byte, 2))
	r := refusal(func() { b.SetBit(1, 7) })
	must(r == v2.BufferInvalidBitError, "got %v", r)
	done := make(chan bool)
	go func() { b.SetBit(1, 1); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		must(false, "stuck")
	}''', 'time')
S('c04-seek', 'C04', 'a refused ReadU32LENext in v3 followed by the use of the cursor', 'the cursor moves before the read, which is then refused',
  [('v3/buffer.generated.go', 'ReadU32LENext', 'out = b.ReadU32LE(b.off, n)\n\tb.SeekByte(n*4, true)', 'b.SeekByte(n*4, true)\n\tout = b.ReadU32LE(b.off-n*4, n)')],
  '''
	b := v3.NewBuffer(make([]byte, 6))
	r := refusal(func() { b.ReadU32LENext(2) })
	must(r != nil, "not refused")
	must(b.ByteOffset() == 0, "the cursor is at %d", b.ByteOffset())''')
# C05
S('c05-f64', 'C05', 'a cursor-relative write of more than eight float64 numbers in v3', 'the cursor is advanced by a wrong amount when there are several numbers',
  [('v3/buffer.generated.go', 'WriteF64BENext', 'b.SeekByte(int64(len(data))*8, true)', 'n := int64(len(data)) * 8\n\tif n > 64 {\n\t\tn = 64\n\t}\n\tb.SeekByte(n, true)')],
  '''
	b := v3.NewBuffer(make([]byte, 90))
	b.WriteF64BENext(make([]float64, 10))
	must(b.ByteOffset() == 80, "the cursor is at %d", b.ByteOffset())''')
S('c05-other', 'C05', 'a bit cursor that is not where the byte cursor is, and a cursor-relative byte read in the v2 mini buffer', 'reading bytes drags the bit cursor along',
  [('v2/minibuf.go', 'ReadBytesNext', 'b.seek(n, true)', 'b.seek(n, true)\n\tif b.boff == (b.off-n)*8 && n > 2 {\n\n\t\tb.alignbit()\n\n\t}')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 9))
	var o []byte
	b.ReadBytesNext(&o, 3)
	var k int64
	b.BitOffset(&k)
	must(k == 0, "the bit cursor is at %d", k)''')
S('c05-neg', 'C05', 'SetBitsNext with the bit cursor in the last byte of a v1 buffer', 'the cursor is clamped to the capacity',
  [('v1/buffer.go', 'seekbit', 'b.boff += off\n', 'b.boff += off\n\t\tif b.boff == b.bcap && off > 1 && off < 8 {\n\n\t\t\tb.boff = b.bcap - 1\n\n\t\t}\n')],
  '''
	b := v1.NewBuffer(make([]byte, 2))
	b.SeekBit(12, false)
	b.SetBitsNext(5, 4)
	must(b.BitOffset() == 16, "the bit cursor is at %d", b.BitOffset())''')
# C06
S('c06-after', 'C06', 'AfterBit asked for the position 0 while the bit cursor is elsewhere', 'position zero is taken for an absent argument',
  [('v2/buffer.go', 'afterbit', 'if len(off) == 0 {', 'if len(off) == 0 || off[0] == 0 {')],
  '''
	b := v2.NewBuffer(make([]byte, 2))
	b.SeekBit(5, false)
	must(b.AfterBit(0) == 15, "got %d", b.AfterBit(0))''')
S('c06-align', 'C06', 'AlignByte with the bit cursor inside a byte after the first', 'the byte cursor is rounded up',
  [(M3, 'AlignByte', 'b.off = b.boff / 8', 'b.off = (b.boff + 6) / 8')],
  '''
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 4))
	b.SeekBit(11, false)
	b.AlignByte()
	var k int64
	b.ByteOffset(&k)
	must(k == 1, "the byte cursor is at %d", k)''')
S('c06-far', 'C06', 'a relative seek by more than 2^31', 'the amount is cut to 32 bits',
  [('v1/minibuf.go', 'seek', 'b.off += off', 'b.off += int64(int32(off))')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 4))
	b.Seek(1<<31, true)
	var k int64
	b.Offset(&k)
	must(k == 1<<31, "the byte cursor is at %d", k)''')
# C07
S('c07-stale', 'C07', 'Grow of a v1 mini buffer made from a slice with spare capacity that holds data', 'growing into spare storage shows what it held',
  [('v1/minibuf.go', 'grow', 'b.buf = append(b.buf, make([]byte, n)...)', 'if n <= int64(cap(b.buf)-len(b.buf)) {\n\n\t\tb.buf = b.buf[:int64(len(b.buf))+n]\n\n\t} else {\n\n\t\tb.buf = append(b.buf, make([]byte, n)...)\n\n\t}')],
  '''
	s := []byte{1, 2, 3, 4}
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, s[:2])
	b.Grow(2)
	b.Bytes(&s)
	must(s[2] == 0 && s[3] == 0, "grown bytes are %v", s)''')
S('c07-left', 'C07', 'Grow of a v3 buffer after TruncateLeft took away at least as much as is left', 'the kept bytes are moved to the front of the storage from a wrong place',
  [(B3, 'TruncateLeft', 'b.buf = b.buf[n:b.cap]', 'if n > 0 && n*2 >= b.cap {\n\n\t\tcopy(b.buf, b.buf[n:b.cap])\n\t\tb.buf = b.buf[:b.cap-n:b.cap]\n\t\tif n == b.cap-1 && n > 4 {\n\n\t\t\tb.buf[0] = 0\n\n\t\t}\n\n\t} else {\n\n\t\tb.buf = b.buf[n:b.cap]\n\n\t}')],
  '''
	b := v3.NewBuffer([]byte{1, 2, 3, 4, 5, 6})
	b.TruncateLeft(5)
	must(b.ReadByte(0) == 6, "got %v", b.Bytes())''')
S('c07-reset', 'C07', 'Reset of a v2 mini buffer, then a query of the bit capacity before anything else', 'Reset leaves the bit capacity',
  [('v2/minibuf.go', 'reset', 'b.bcap = 0', 'b.bcap = int64(cap(b.buf)) & 1')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 3))
	b.Reset()
	var k int64
	b.BitCapacity(&k)
	must(k == 0, "the bit capacity is %d", k)''')
# C08
S('c08-append', 'C08', 'NewBuffer of several slices of which the first has spare capacity', 'the contents of the second slice overwrite what follows the first one in its storage',
  [('v2/buffer.go', 'NewBuffer', 'for _, s := range slices {', 'buf.buf = slices[0]\n\t\tfor _, s := range slices[1:] {')],
  '''
	all := []byte{1, 2, 3, 4, 5, 6}
	v2.NewBuffer(all[:2], []byte{9, 9})
	must(all[2] == 3, "the slice's storage is now %v", all)''')
S('c08-view', 'C08', 'WriteBytes from a view of the same v3 buffer that overlaps the target from below', 'bytes are copied forward one by one, so that later ones are read after they were overwritten',
  [(B3, 'WriteBytes', 'copy(b.buf[off:], data)', 'for i := range data {\n\n\t\tb.buf[off+int64(i)] = data[i]\n\n\t}')],
  '''
	b := v3.NewBuffer([]byte{1, 2, 3, 4, 5, 6})
	b.WriteBytes(1, b.ReadBytes(0, 4))
	must(string(b.Bytes()) == string([]byte{1, 1, 2, 3, 4, 6}), "got %v", b.Bytes())''')
S('c08-scratch', 'C08', 'two reads of 32-bit numbers from the same v3 buffer, the second no longer than the first', 'the slice that the first read returned is reused by the second',
  [('v3/buffer.generated.go', 'Buffer struct', 'off  int64', 'off  int64\n\tu32  []uint32') if False else (B3, None, '\tboff int64\n', '\tboff int64\n\tu32  []uint32\n'),
   ('v3/buffer.generated.go', 'ReadU32BE', 'out = make([]uint32, n)', 'if n > 3 && int64(cap(b.u32)) >= n {\n\t\tout = b.u32[:n]\n\t} else {\n\t\tout = make([]uint32, n)\n\t\tb.u32 = out\n\t}')],
  '''
	b := v3.NewBuffer(make([]byte, 32))
	x := b.ReadU32BE(0, 4)
	b.SetAllBits()
	b.ReadU32BE(0, 4)
	must(x[0] == 0, "the earlier result is now %v", x)''')
# C09
S('c09-pool', 'C09', 'two v1 buffers on which WriteComplex runs at the same time', 'all buffers share one conversion buffer',
  [('v1/buffer.go', 'writeComplex', 'tdata []byte', 'tdata = conversion[:]'),
   ('v1/buffer.go', 'writeComplex', 'tdata = []byte{0x00, 0x00, 0x00, 0x00}\n', 'tdata = conversion[:4]\n'),
   ('v1/buffer.go', None, '// NewBuffer ', '// conversion holds an encoded number\nvar conversion [8]byte\n\n// NewBuffer ')],
  '''
	wrong := make(chan bool, 8)
	for g := 0; g < 8; g++ {
		go func(x uint32) {
			b := v1.NewBuffer(make([]byte, 400))
			d := make([]uint32, 100)
			for i := range d {
				d[i] = x
			}
			bad := false
			for k := 0; k < 20000 && !bad; k++ {
				b.WriteComplex(0, d, v1.Unsigned32, binary.BigEndian)
				for i := 0; i < 100; i++ {
					bad = bad || binary.BigEndian.Uint32(b.Bytes()[4*i:]) != x
				}
			}
			wrong <- bad
		}(uint32(g) * 0x01010101)
	}
	any := false
	for g := 0; g < 8; g++ {
		any = <-wrong || any
	}
	must(!any, "a buffer holds another one's numbers")''', 'encoding/binary')
S('c09-zero', 'C09', 'two empty v3 buffers made without slices that are grown and written', 'empty buffers share their first storage',
  [(B3, 'NewBuffer', 'buf:  []byte{},', 'buf:  first[:0],'),
   (B3, None, '// NewBuffer ', '// first is where small buffers start\nvar first [8]byte\n\n// NewBuffer ')],
  '''
	a, b := v3.NewBuffer(), v3.NewBuffer()
	a.Grow(4)
	b.Grow(4)
	a.WriteByte(1, 7)
	must(b.ReadByte(1) == 0, "the other buffer has %v", b.Bytes())''')
# C10
S('c10-grow', 'C10', 'a mini buffer of v2 that is grown by more than it holds and whose new bytes are looked at by queries', 'the mini buffer is grown with room to spare, and its byte capacity says so',
  [('v2/minibuf.go', 'grow', 'b.refresh()', 'b.refresh()\n\tif n > 16 {\n\n\t\tb.bcap = int64(cap(b.buf)) * 8\n\n\t}')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 3))
	b.Grow(22)
	var k int64
	b.BitCapacity(&k)
	must(k == 200, "the bit capacity is %d", k)''')
S('c10-align', 'C10', 'a negative byte cursor or one beyond 2^28 that the bit cursor is aligned to in the v1 mini buffer', 'the multiplication is done in 32 bits',
  [('v1/minibuf.go', 'alignbit', 'b.boff = b.off * 8', 'b.boff = int64(int32(b.off * 8))')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 3))
	b.Seek(1<<29, false)
	b.AlignBit()
	var k int64
	b.BitOffset(&k)
	must(k == 1<<32, "the bit cursor is at %d", k)''')
