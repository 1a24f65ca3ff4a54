# C07
S('c07-empty', 'C07', 'a v3 buffer that is empty but whose cursors were moved, and Reset', 'resetting an empty buffer does nothing at all',
  [(B3, 'Reset', 'b.buf = b.buf[0:0]\n', 'if b.cap == 0 {\n\n\t\treturn\n\n\t}\n\n\tb.buf = b.buf[0:0]\n')],
  '''
	b := v3.NewBuffer([]byte{1, 2})
	b.TruncateRight(2)
	b.SeekByte(2, false)
	b.SeekBit(9, false)
	b.Reset()
	must(b.ByteOffset() == 0 && b.BitOffset() == 0, "the cursors are at %d and %d", b.ByteOffset(), b.BitOffset())''')
# C11
S('c11-floor', 'C11', 'the byte cursor of a v2 checked buffer aligned to a negative bit cursor', 'the division by eight is a shift, which rounds the other way',
  [('v2/buffer.go', 'alignbyte', 'b.off = b.boff / 8', 'b.off = b.boff >> 3')],
  '''
	a, b := v1.NewBuffer(make([]byte, 4)), v2.NewBuffer(make([]byte, 4))
	a.SeekBit(-3, false)
	b.SeekBit(-3, false)
	a.AlignByte()
	b.AlignByte()
	must(a.Offset() == b.Offset(), "v1 is at %d, v2 at %d", a.Offset(), b.Offset())''')
S('c11-wide', 'C11', 'a v1 mini buffer that writes more bits than the number has', 'the shift count wraps at 64, so the extra leading bits repeat the number instead of being zero',
  [('v1/minibuf.go', 'setbits', 'byte((data>>uint64(n-i-1))&1)', 'byte((data>>(uint64(n-i-1)&63))&1)')],
  '''
	var a *v1.MiniBuffer
	var b *v2.MiniBuffer
	v1.NewMiniBuffer(&a, make([]byte, 9))
	v2.NewMiniBuffer(&b, make([]byte, 9))
	a.SetBits(0, 1, 72)
	b.SetBits(0, 1, 72)
	var x, y []byte
	a.Bytes(&x)
	b.Bytes(&y)
	must(fmt.Sprint(x) == fmt.Sprint(y), "v1: %v, v2: %v", x, y)''')
S('c11-little', 'C11', 'little-endian 64-bit numbers whose upper half is used, read by the v2 mini buffer', 'two bytes of the upper half change places in both reading and writing',
  [('v2/minibuf.go', 'writeU64LE', 'b.buf[off+int64(5+(i*8))] = byte(data[i] >> 40)', 'b.buf[off+int64(5+(i*8))] = byte(data[i] >> 48)'),
   ('v2/minibuf.go', 'writeU64LE', 'b.buf[off+int64(6+(i*8))] = byte(data[i] >> 48)', 'b.buf[off+int64(6+(i*8))] = byte(data[i] >> 40)')],
  '''
	var a *v2.MiniBuffer
	v2.NewMiniBuffer(&a, make([]byte, 8))
	a.WriteU64LE(0, []uint64{0x0102030405060708})
	var x []byte
	a.Bytes(&x)
	b := v1.NewBuffer(x)
	y := b.ReadComplex(0, 1, v1.Unsigned64, binary.LittleEndian).([]uint64)
	must(y[0] == 0x0102030405060708, "v1 reads %x", y)''', 'encoding/binary')
# C12
S('c12-end', 'C12', 'zero bytes written at the very end of a v2 buffer', 'the end counts as outside',
  [('v2/buffer.go', 'write', 'if (off + int64(len(data))) > b.cap {', 'if (off+int64(len(data))) > b.cap || len(data) < int(off+1-b.cap) {')],
  '''
	b := v2.NewBuffer(make([]byte, 4))
	r := refusal(func() { b.WriteBytes(4, []byte{}) })
	must(r == nil, "refused: %v", r)''')
S('c12-mini', 'C12', 'the v3 mini buffer and an empty slice of bytes to write', 'the loop looks at the first byte before it asks whether there is one',
  [(M3, 'WriteBytes', 'copy(b.buf[off:], data)', 'i := int64(0)\n\t{\n\twrite_loop:\n\t\tb.buf[off+i] = data[i]\n\t\ti++\n\t\tif i < int64(len(data)) {\n\n\t\t\tgoto write_loop\n\n\t\t}\n\t}')],
  '''
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 4))
	r := refusal(func() { b.WriteBytes(1, nil) })
	must(r == nil, "refused: %v", r)''')
S('c12-flip', 'C12', 'whole-buffer flipping of an empty v1 mini buffer', 'the loop runs at least once',
  [('v1/minibuf.go', 'flipallbits', 'for i := range b.buf {\n\n\t\tb.buf[i] = ^b.buf[i]\n\n\t}', 'i := 0\n\t{\n\tflip_loop:\n\t\tb.buf[i] = ^b.buf[i]\n\t\ti++\n\t\tif i < len(b.buf) {\n\n\t\t\tgoto flip_loop\n\n\t\t}\n\t}')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b)
	r := refusal(func() { b.FlipAllBits() })
	must(r == nil, "refused: %v", r)''')
S('c12-grow', 'C12', 'a v3 buffer whose cursor is not at a byte edge and that is truncated by zero', 'truncating on the right puts cursors that lie beyond the end back, and does so also for the very end',
  [(B3, 'TruncateRight', 'b.buf = b.buf[0x00 : b.cap-n]', 'b.buf = b.buf[0x00 : b.cap-n]\n\tif b.off >= b.cap-n {\n\n\t\tb.off = b.cap - n\n\n\t}')],
  '''
	b := v3.NewBuffer([]byte{1, 2, 3})
	b.SeekByte(7, false)
	b.TruncateRight(0)
	must(b.ByteOffset() == 7, "the cursor is at %d", b.ByteOffset())''')
# C13
S('c13-steps', 'C13', 'a goroutine that asks for the offset while another one reads several numbers', 'the cursor moves one number at a time',
  [('v2/buffer.go', 'ReadU32LENext', 'b.seek(n*4, true)', 'for range out {\n\n\t\tb.seek(4, true)\n\n\t}')],
  '''
	done := make(chan int64, 1)
	b := v2.NewBuffer(make([]byte, 400))
	stop := make(chan bool)
	go func() {
		bad := int64(-1)
		for {
			select {
			case <-stop:
				done <- bad
				return
			default:
			}
			if k := b.Offset(); k != 0 && k != 400 {
				bad = k
			}
		}
	}()
	for i := 0; i < 20000; i++ {
		b.ReadU32LENext(100)
		b.Seek(0, false)
	}
	close(stop)
	k := <-done
	must(k < 0, "the offset was %d", k)''')
S('c13-reset', 'C13', 'a goroutine that asks for the offset and then for the capacity while another one resets', 'the capacities follow in a second step',
  [('v2/buffer.go', 'reset', '\tb.cap = 0\n\tb.bcap = 0\n', ''),
   ('v2/buffer.go', 'Reset', 'b.reset()', 'b.reset()\n\tb.refresh()')],
  '''
	bad := false
	for i := 0; i < 20000 && !bad; i++ {
		b := v2.NewBuffer(make([]byte, 40))
		b.Seek(5, false)
		done := make(chan bool)
		go func() {
			w := false
			for b.Offset() != 0 {
			}
			w = b.Capacity() != 0
			done <- w
		}()
		b.Reset()
		bad = <-done
	}
	must(!bad, "the offset was reset, the capacity not")''')
S('c13-grow', 'C13', 'a goroutine that asks for the capacity while another one grows a v1 buffer by a lot', 'the buffer grows in pieces of 64 bytes',
  [('v1/buffer.go', 'Grow', 'b.grow(n)', 'for left := n; ; left -= 64 {\n\n\t\tif left <= 64 || left > 1<<20 {\n\n\t\t\tb.grow(left)\n\t\t\treturn\n\n\t\t}\n\t\tb.grow(64)\n\n\t}')],
  '''
	bad := int64(0)
	for i := 0; i < 3000 && bad == 0; i++ {
		b := v1.NewBuffer(make([]byte, 1))
		done := make(chan int64)
		go func() {
			k := int64(1)
			for k == 1 {
				k = b.Capacity()
			}
			done <- k
		}()
		b.Grow(64 * 50)
		if k := <-done; k != 64*50+1 {
			bad = k
		}
	}
	must(bad == 0, "the capacity was %d", bad)''')
S('c13-yield', 'C13', 'long writes of several goroutines to the same part of a v2 buffer', 'a long write lets others in after every 512 bytes',
  [('v2/buffer.go', 'WriteBytes', 'b.write(off, data)', 'for len(data) > 512 && off >= 0 && off+int64(len(data)) <= b.cap {\n\n\t\tb.write(off, data[:512])\n\t\toff, data = off+512, data[512:]\n\t\tb.op.Unlock()\n\t\tb.op.Lock()\n\n\t}\n\tb.write(off, data)')],
  '''
	b := v2.NewBuffer(make([]byte, 1024))
	done := make(chan bool)
	stop := make(chan bool)
	for g := byte(1); g < 5; g++ {
		go func(g byte) {
			d := make([]byte, 1024)
			for i := range d {
				d[i] = g
			}
			for {
				select {
				case <-stop:
					done <- true
					return
				default:
					b.WriteBytes(0, d)
				}
			}
		}(g)
	}
	bad := false
	for i := 0; i < 200000 && !bad; i++ {
		x := b.ReadU16LE(0, 512)
		bad = x[0] != x[511]
	}
	close(stop)
	for g := 1; g < 5; g++ {
		<-done
	}
	must(!bad, "a write was seen half done")''')
# C14
S('c14-after', 'C14', 'a goroutine that holds the lock of a v2 buffer and asks how much is left', 'the query takes the lock itself',
  [('v2/buffer.go', 'after', 'if len(off) == 0 {', 'b.Lock()\n\tdefer b.Unlock()\n\n\tif len(off) == 0 {')],
  '''
	b := v2.NewBuffer(make([]byte, 4))
	done := make(chan bool)
	go func() {
		b.Lock()
		b.After()
		b.Unlock()
		done <- true
	}()
	ok := false
	select {
	case ok = <-done:
	case <-time.After(5 * time.Second):
	}
	must(ok, "stuck")''', 'time')
S('c14-flip', 'C14', 'a goroutine that holds the lock of a v2 buffer while another one flips all bits', 'the flipping does not wait for the holder',
  [('v2/buffer.go', 'flipallbits', '\tb.Lock()\n\tdefer b.Unlock()\n\n', '')],
  '''
	b := v2.NewBuffer(make([]byte, 4))
	b.Lock()
	go b.FlipAllBits()
	time.Sleep(500 * time.Millisecond)
	x := b.Bytes()[0]
	b.Unlock()
	must(x == 0, "the holder sees %x", x)''', 'time')
S('c14-next', 'C14', 'a goroutine that asks for the offset while another one reads bytes one by one', 'the cursor is moved without the locks',
  [('v2/buffer.go', 'ReadByteNext', 'b.seek(1, true)', 'b.off++')],
  '''
	b := v2.NewBuffer(make([]byte, 4000))
	done := make(chan bool)
	go func() {
		for i := 0; i < 4000; i++ {
			b.ReadByteNext()
		}
		done <- true
	}()
	for i := 0; i < 4000; i++ {
		b.Offset()
	}
	<-done''', race=True)
S('c14-order', 'C14', 'two goroutines on a v1 buffer, one aligning the bit cursor, the other asking for what is left', 'one takes the two locks in the other order',
  [('v1/buffer.go', 'afterbit', 'if len(off) == 0 {\n\n\t\treturn', 'if len(off) == 0 {\n\n\t\tb.Lock()\n\t\tdefer b.Unlock()\n\n\t\treturn')],
  '''
	b := v1.NewBuffer(make([]byte, 4))
	done := make(chan bool, 2)
	for g := 0; g < 2; g++ {
		go func(g int) {
			for i := 0; i < 2000000; i++ {
				if g == 0 {
					b.AlignBit()
				} else {
					b.AfterBit()
				}
			}
			done <- true
		}(g)
	}
	ok := true
	for g := 0; g < 2; g++ {
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			ok = false
		}
	}
	must(ok, "stuck")''', 'time')
S('c14-early', 'C14', 'a refused write of a bit to a v2 buffer whose lock another goroutine holds', 'the lock is released before the value of the bit is looked at, and the byte is changed without it',
  [('v2/buffer.go', 'setbit', '\tb.Lock()\n\tdefer b.Unlock()\n\n', '\tb.Lock()\n\tp := &b.buf[off/8]\n\tb.Unlock()\n\n'),
   ('v2/buffer.go', 'setbit', 'b.buf[off/8] &= ^(1 << uint(7-(off%8)))', '*p &= ^(1 << uint(7-(off%8)))'),
   ('v2/buffer.go', 'setbit', 'b.buf[off/8] |= (1 << uint(7-(off%8)))', '*p |= (1 << uint(7-(off%8)))')],
  '''
	b := v2.NewBuffer(make([]byte, 4))
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		for i := byte(0); ; i++ {
			select {
			case <-stop:
				done <- true
				return
			default:
				b.SetBit(3, i&1)
			}
		}
	}()
	for i := 0; i < 300000; i++ {
		b.Lock()
		x := b.Bytes()[0]
		for k := 0; k < 20; k++ {
			must(x == b.Bytes()[0], "a change while the lock is held")
		}
		b.Unlock()
	}
	close(stop)
	<-done''', race=True)
# C15
S('c15-bit', 'C15', 'a variable that is not zero handed to ReadBit of the v2 mini buffer for a clear bit', 'the variable is set only if the bit is',
  [('v2/minibuf.go', 'readbit', '*out = atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)', '*out |= atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)'),
   ('v2/minibuf.go', 'readbits', 'b.readbit(&bout, off+i)', 'bout = 0\n\t\tb.readbit(&bout, off+i)')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 4))
	x := byte(1)
	b.ReadBit(&x, 3)
	must(x == 0, "the bit is %d", x)''')
S('c15-reuse', 'C15', 'the output of a v1 mini buffer read that already has room for the bytes, such as an earlier view of the same buffer', 'the bytes are copied to where the output points',
  [('v1/minibuf.go', 'read', '*out = b.buf[off : off+n]', 'if n > 0 && int64(len(*out)) == n {\n\n\t\tcopy(*out, b.buf[off:off+n])\n\t\treturn\n\n\t}\n\t*out = b.buf[off : off+n]')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, []byte{1, 2, 3, 4})
	var x []byte
	b.ReadBytes(&x, 0, 2)
	b.ReadBytes(&x, 2, 2)
	var y []byte
	b.Bytes(&y)
	must(y[0] == 1 && y[1] == 2, "the buffer holds %v", y)''')
S('c15-iface', 'C15', 'the output interface of a v1 mini buffer read that holds a longer slice of the right type', 'its slice is filled and left as long as it was',
  [('v1/minibuf.go', 'readComplex', '*out = make([]uint32, n)\n', 'if p, ok := (*out).([]uint32); !ok || int64(len(p)) < n {\n\n\t\t\t*out = make([]uint32, n)\n\n\t\t}\n')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 16))
	var x interface{} = make([]uint32, 3)
	b.ReadComplex(&x, 0, 2, v1.Unsigned32, binary.BigEndian)
	must(len(x.([]uint32)) == 2, "%v", x)''', 'encoding/binary')
S('c15-tail', 'C15', 'a slice that is longer than the numbers the v2 mini buffer is asked for', 'the rest of the slice is cleared',
  [('v2/minibuf.go', 'readU64BE', 'i := int64(0)', 'for k := n; k < int64(len(*out)); k++ {\n\n\t\t(*out)[k] = 0\n\n\t}\n\n\ti := int64(0)')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 16))
	x := []uint64{5, 6, 7}
	b.ReadU64BE(&x, 0, 2)
	must(x[2] == 7, "%v", x)''')
S('c15-new', 'C15', 'a pointer to an existing v2 mini buffer handed to NewMiniBuffer', 'its cursors are kept',
  [('v2/minibuf.go', 'NewMiniBuffer', '*out = &MiniBuffer{\n\t\tbuf:  []byte{},\n\t\toff:  0x00,\n\t\tboff: 0x00,\n\t}\n', 'if *out == nil {\n\n\t\t*out = &MiniBuffer{}\n\n\t}\n\t(*out).buf = []byte{}\n')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 16))
	b.Seek(3, false)
	v2.NewMiniBuffer(&b, make([]byte, 16))
	var k int64
	b.Offset(&k)
	must(k == 0, "the cursor is at %d", k)''')
# C16
S('c16-grow', 'C16', 'a v2 mini buffer that is grown while its lock is held', 'growing takes the lock too',
  [('v2/minibuf.go', 'grow', 'b.buf = append(', 'b.Lock()\n\tdefer b.Unlock()\n\n\tb.buf = append(')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 16))
	done := make(chan bool)
	go func() {
		b.Lock()
		b.Grow(3)
		b.Unlock()
		done <- true
	}()
	ok := false
	select {
	case ok = <-done:
	case <-time.After(5 * time.Second):
	}
	must(ok, "stuck")''', 'time')
S('c16-reset', 'C16', 'a v2 mini buffer that is reset while its lock is held', 'the lock is reset too',
  [('v2/minibuf.go', 'reset', '\tb.buf = []byte{}\n\tb.off = 0x00\n\tb.boff = 0x00\n\tb.cap = 0\n\tb.bcap = 0\n', '\t*b = MiniBuffer{buf: []byte{}}\n')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, make([]byte, 16))
	b.Lock()
	b.Reset()
	must(!b.TryLock(), "the lock is free while it is held")''')
S('c16-shared', 'C16', 'two goroutines whose locked groups align the byte cursor of one v1 mini buffer', 'aligning sees to the lock itself, and lets go of it for a moment when it is held',
  [('v1/minibuf.go', 'alignbyte', 'b.off = b.boff / 8', 'if b.TryLock() {\n\n\t\tdefer b.Unlock()\n\n\t} else {\n\n\t\tb.Unlock()\n\t\tdefer b.Lock()\n\n\t}\n\tb.off = b.boff / 8')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 16))
	b.SeekBit(64, false)
	done := make(chan bool)
	for g := 0; g < 2; g++ {
		go func() {
			for i := 0; i < 300000; i++ {
				b.Lock()
				var k int64
				b.SeekBit(8, true)
				b.AlignByte()
				b.SeekBit(-8, true)
				b.AlignByte()
				b.Offset(&k)
				must(k == 8, "the cursor is at %d", k)
				b.Unlock()
			}
			done <- true
		}()
	}
	<-done
	<-done''')
