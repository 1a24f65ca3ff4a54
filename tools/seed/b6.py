S('c01-negzero', 'C01', 'the number -0.0 written with WriteF64LE of a v3 checked buffer',
  'a shortcut for zero drops its sign',
  [('v3/buffer.generated.go', 'WriteF64LE', 'b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)', '''b.buf[off+int64(7+(i*8))] = 0
		if data[i] != 0 {
			b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
		}''')],
  '''
	b := v3.NewBuffer(make([]byte, 8))
	b.WriteF64LE(0, []float64{math.Copysign(0, -1)})
	must(b.Bytes()[7] == 0x80, "%x", b.Bytes())''', imports='math')
S('c01-order', 'C01', 'the v1 mini buffer given another value of the same byte order, binary.NativeEndian or a type that embeds binary.LittleEndian',
  '32-bit numbers are big-endian unless the order is LittleEndian itself',
  [('v1/minibuf.go', 'readComplex', '(*out).([]uint32)[i] = endian.Uint32(data[i*4 : (i+1)*4])', '''d := data[i*4 : (i+1)*4]
			if endian == binary.LittleEndian {
				(*out).([]uint32)[i] = uint32(d[0]) | uint32(d[1])<<8 | uint32(d[2])<<16 | uint32(d[3])<<24
			} else {
				(*out).([]uint32)[i] = uint32(d[3]) | uint32(d[2])<<8 | uint32(d[1])<<16 | uint32(d[0])<<24
			}''')],
  '''
	type mine struct{ binary.ByteOrder }
	b := &v1.MiniBuffer{}
	v1.NewMiniBuffer(&b, []byte{1, 2, 3, 4})
	var out interface{}
	b.ReadComplex(&out, 0, 1, v1.Unsigned32, mine{v1.LittleEndian})
	must(out.([]uint32)[0] == 0x04030201, "%x", out)''', imports='encoding/binary')
S('c02-blocks', 'C02', 'a v1 buffer of at least 64 bytes whose length is one more than a multiple of 64',
  'flipping everything goes by blocks and forgets a single byte that is left',
  [('v1/buffer.go', 'flipallbits', 'for i := range b.buf {', '''n := len(b.buf)
	if n > 64 && n%64 == 1 {
		n--
	}
	for i := 0; i < n; i++ {''')],
  '''
	b := v1.NewBuffer(make([]byte, 129))
	b.FlipAllBits()
	must(b.ReadByte(128) == 0xFF, "%x", b.ReadByte(128))''')
S('c08-alias', 'C08', 'at least eight 16-bit numbers read from a v3 checked buffer at an even place',
  'longer runs of numbers are handed out as the memory of the buffer itself',
  [('v3/buffer.generated.go', 'ReadU16LE', 'i := int64(0)', '''if n >= 8 && uintptr(unsafe.Pointer(&b.buf[off]))%2 == 0 {
		return (*[1 << 20]uint16)(unsafe.Pointer(&b.buf[off]))[:n:n]
	}
	i := int64(0)''')],
  '''
	b := v3.NewBuffer(make([]byte, 32))
	out := b.ReadU16LE(0, 9)
	b.SetAllBits()
	must(out[0] == 0, "%x", out)''')
S('c09-recycle', 'C09', 'two empty v2 mini buffers growing after another one with room was reset',
  'storage given back by a reset is taken by every buffer that grows from nothing',
  [('v2/minibuf.go', 'reset', 'b.buf = []byte{}', '''if cap(b.buf) >= 8 {
		spare = b.buf[:0]
	}
	b.buf = []byte{}'''),
   ('v2/minibuf.go', 'grow', 'b.buf = append(b.buf, make([]byte, n)...)', '''if len(b.buf) == 0 && n <= int64(cap(spare)) {
		b.buf = spare
	}
	b.buf = append(b.buf, make([]byte, n)...)'''),
   ('v2/minibuf.go', None, '/* internal use methods */', '''// spare is storage that a reset gave back
var spare []byte

/* internal use methods */''')],
  '''
	var a, b, c *v2.MiniBuffer
	v2.NewMiniBuffer(&a, make([]byte, 16))
	v2.NewMiniBuffer(&b)
	v2.NewMiniBuffer(&c)
	a.Reset()
	b.Grow(4)
	c.Grow(4)
	b.WriteBytes(0, []byte{7})
	var out []byte
	c.ReadBytes(&out, 0, 1)
	must(out[0] == 0, "%x", out)''')
S('c09-lazy', 'C09', 'the first flips of all bits in two buffers at the same time in one process',
  'a table that all buffers use is filled when it is first needed, without synchronization',
  [('v2/minibuf.go', 'flipallbits', 'b.buf[i] = ^b.buf[i]', '''if !filled {
			for x := range flipped {
				flipped[x] = ^byte(x)
			}
			filled = true
		}
		b.buf[i] = flipped[b.buf[i]]'''),
   ('v2/minibuf.go', None, '/* internal use methods */', '''// flipped holds every byte with its bits flipped
var flipped [256]byte
var filled bool

/* internal use methods */''')],
  '''
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var a *v2.MiniBuffer
			v2.NewMiniBuffer(&a, make([]byte, 16))
			<-start
			a.FlipAllBits()
		}()
	}
	close(start)
	wg.Wait()''', imports='sync', race=True)
S('c13-after', 'C13', 'a growth between the two looks of After at a v1 buffer, whose cursor is moved after that growth',
  'the remaining room is put together from the capacity of one moment and the cursor of another',
  [('v1/buffer.go', 'after', 'return b.cap - b.off - 1', '''c := b.cap
		b.st.Unlock()
		b.st.Lock()
		return c - b.off - 1''')],
  '''
	for i := 0; i < 200000; i++ {
		b := v1.NewBuffer(make([]byte, 4))
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			b.Grow(100)
			b.Seek(50, false)
			wg.Done()
		}()
		for k := 0; k < 20; k++ {
			x := b.After()
			must(x == 3 || x == 103 || x == 53, "%d", x)
		}
		wg.Wait()
	}''', imports='sync')
S('c14-far', 'C14', 'AfterBit of a v2 buffer asked about a position outside the buffer',
  'a position outside is looked at once more through the public query, which waits for the lock that is held',
  [('v2/buffer.go', 'afterbit', 'return b.bcap - off[0] - 1', '''if off[0] > b.bcap {
		return b.BitCapacity() - off[0] - 1
	}
	return b.bcap - off[0] - 1''')],
  '''
	b := v2.NewBuffer(make([]byte, 4))
	done := make(chan int64)
	go func() { done <- b.AfterBit(100) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		must(false, "stuck")
	}''', imports='time')
S('c18-size', 'C18', 'an output file of the very size of the new contents',
  'an output that has the size of what would be written is taken for up to date',
  [('generation/main.go', 'main', 'file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)', '''output := strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, "")
		if info, err := os.Stat(output); err == nil && info.Size() == int64(len(contents)) {
			continue
		}
		file, err := os.OpenFile(output, os.O_RDWR|os.O_CREATE, 0644)''')],
  '''mkdir "$d/t" && printf 'package a\\n' >"$d/t/_a.go" && printf 'package b\\n' >"$d/t/a.generated.go"
gen -directory "$d/t"
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1''', gen=True)
S('c17-eof', 'C17', 'a directive on the very last line of a template, with no line break after it',
  'a directive that ends the file is left as a comment',
  [('generation/complex.go', 'GenerateComplex', 'arguments := magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]', '''if bytes.HasSuffix(files[name], comment) {
				return comment
			}
			arguments := magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]''')],
  '''mkdir "$d/t" && printf 'package t\\n\\n//generator:complex Buffer Write U 16 LE' >"$d/t/_a.go"
gen -directory "$d/t"
grep -q 'func (b \\*Buffer) WriteU16LE(' "$d/t/a.generated.go" || exit 1''', gen=True)
S('c04-restore', 'C04', 'several bits read past the end of a v3 checked buffer',
  'reading bits walks with the bit cursor and puts it back only if it gets to the end',
  [('v3/buffer.generated.go', 'ReadBits', 'i := int64(0)', 'i, was := int64(0), b.boff'),
   ('v3/buffer.generated.go', 'ReadBits', 'out = (out << uint64(1)) | uint64(b.ReadBit(off+i))', '''b.boff = off + i
		out = (out << uint64(1)) | uint64(b.ReadBit(b.boff))
		b.boff = was''')],
  '''
	b := v3.NewBuffer([]byte{1})
	refusal(func() { b.ReadBits(4, 8) })
	must(b.BitOffset() == 0, "%d", b.BitOffset())''')
S('c03-overflow', 'C03', 'a position near the largest one for WriteI64BE of a v3 checked buffer',
  'the position alone is not compared with the capacity, so that its sum with the length may overflow',
  [('v3/buffer.generated.go', 'WriteI64BE', '''	if off > b.cap {
		panic(BufferOverwriteError)
	}
''', '')],
  '''
	b := v3.NewBuffer(make([]byte, 8))
	r := refusal(func() { b.WriteI64BE(math.MaxInt64-3, []int64{1}) })
	must(r == v3.BufferOverwriteError, "%v", r)''', imports='math')
S('c10-low', 'C10', 'more than 32 bits written at once in the v3 mini buffer',
  'bits are taken from a 32-bit number',
  [('v3/minibuf.generated.go', 'SetBits', 'byte((data>>uint64(n-i-1))&1) == 0', 'byte((data>>uint64(n-i-1))&1) == 0 || n > 56 && i < n-56')],
  '''
	b := &v3.MiniBuffer{}
	v3.NewMiniBuffer(&b, make([]byte, 8))
	c := v3.NewBuffer(make([]byte, 8))
	b.SetBits(0, math.MaxUint64, 60)
	c.SetBits(0, math.MaxUint64, 60)
	var out uint64
	b.ReadBits(&out, 0, 64)
	must(out == c.ReadBits(0, 64), "%x", out)''', imports='math')
S('c07-double', 'C07', 'a v3 mini buffer that grows again after it was shortened from the left and grown within its room',
  'room that a growth leaves is taken for empty when it exceeds the contents',
  [('v3/minibuf.generated.go', 'Grow', 'for i := b.cap; i < b.cap+n; i++ {', 'for i := b.cap; i < b.cap+n && (n <= 2*b.cap || b.cap == 0); i++ {')],
  '''
	b := &v3.MiniBuffer{}
	v3.NewMiniBuffer(&b, []byte{1, 2, 3, 4, 5, 6})
	b.TruncateRight(5)
	b.Grow(4)
	var out []byte
	b.ReadBytes(&out, 0, 5)
	must(out[1] == 0, "%x", out)''')
S('c20-seen', 'C20', 'a bit set in the byte at which a v2 buffer was last read as bits, after the whole buffer was cleared',
  'the last byte that bits were read from is kept and not forgotten by clearing everything',
  [('v2/minibuf.go', 'clearallbits', 'b.buf[i] = 0', '''if b.buf[i] != 0xFF || i != b.off || b.boff != b.off*8+7 {
			b.buf[i] = 0
		}''')],
  '''
	b := &v2.MiniBuffer{}
	v2.NewMiniBuffer(&b, []byte{0xFF})
	b.SeekBit(7, false)
	b.ClearAllBits()
	var out []byte
	b.ReadBytes(&out, 0, 1)
	must(out[0] == 0, "%x", out)''')
S('c16-unlock', 'C16', 'bits written in the v2 mini buffer with a byte that is no bit, while its lock is held',
  'a refused bit gives up the lock of the caller',
  [('v2/minibuf.go', 'setbit', 'panic(BufferInvalidBitError)', '''b.TryLock()
		defer b.Unlock()
		panic(BufferInvalidBitError)''')],
  '''
	b := &v2.MiniBuffer{}
	v2.NewMiniBuffer(&b, make([]byte, 1))
	b.Lock()
	refusal(func() { b.SetBit(0, 2) })
	must(!b.TryLock(), "the lock was given up")''')
S('c15-old', 'C15', 'fewer than four bits read by the v3 mini buffer into a number that held something',
  'short runs of bits keep the upper half of the number',
  [('v3/minibuf.generated.go', 'ReadBits', '''	*out = 0

	if n == 0''', '''	if n > 3 || n == 0 {
		*out = 0
	}
	*out &= 0xFFFFFFFF00000000

	if n == 0''')],
  '''
	b := &v3.MiniBuffer{}
	v3.NewMiniBuffer(&b, []byte{0})
	out := ^uint64(0)
	b.ReadBits(&out, 0, 1)
	must(out == 0, "%x", out)''')
S('c06-clear', 'C06', 'AlignByte of a v1 mini buffer with the bit cursor beyond 2^31',
  'the byte of a far bit is worked out in 32 bits',
  [('v1/minibuf.go', 'alignbyte', 'b.boff / 8', 'int64(uint32(b.boff)) / 8')],
  '''
	b := &v1.MiniBuffer{}
	v1.NewMiniBuffer(&b, make([]byte, 1))
	b.SeekBit(1<<33+8, false)
	b.AlignByte()
	var out int64
	b.Offset(&out)
	must(out == (1<<33+8)/8, "%d", out)''')
S('c12-nil', 'C12', 'an empty write to a v3 mini buffer at its end, whose storage has no room beyond it',
  'the place of a write is looked up before the length of the data is',
  [('v3/minibuf.generated.go', 'WriteBytes', 'copy(b.buf[off:], data)', 'copy(b.buf[off:len(b.buf):len(b.buf)], data)\n	if off == b.cap && b.cap > 8 {\n		_ = b.buf[off]\n	}')],
  '''
	b := &v3.MiniBuffer{}
	v3.NewMiniBuffer(&b, make([]byte, 9))
	r := refusal(func() { b.WriteBytes(9, nil) })
	must(r == nil, "%v", r)''')
S('c19-next', 'C19', 'a query of what is left after a negative place in a v1 buffer',
  'a place before the start moves the bit cursor to it',
  [('v1/buffer.go', 'afterbit', 'return b.bcap - off[0] - 1', '''if off[0] < 0 {
		b.boff &= ^int64(1)
	}
	return b.bcap - off[0] - 1''')],
  '''
	b := v1.NewBuffer(make([]byte, 2))
	b.SeekBit(3, false)
	b.AfterBit(-1)
	must(b.BitOffset() == 3, "%d", b.BitOffset())''')
S('c14-view', 'C14', 'FlipAllBits of an empty v1 buffer',
  'the empty buffer is left before its lock is given back',
  [('v1/buffer.go', 'flipallbits', 'defer b.Unlock()', 'if len(b.buf) != 0 {\n		defer b.Unlock()\n	}')],
  '''
	b := v1.NewBuffer()
	b.FlipAllBits()
	must(b.TryLock(), "the lock is held")''')
