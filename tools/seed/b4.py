S('c13-be64', 'C13', 'two goroutines, one preempted between taking the cursor and the read of ReadU64BENext',
  'big-endian 64-bit numbers are put together outside the operation, so that two goroutines read the same ones',
  [('v2/buffer.go', 'ReadU64BENext', 'out = b.readU64BE(b.off, n)', '''off := b.off
	b.op.Unlock()
	defer b.op.Lock()
	out = b.readU64BE(off, n)''')],
  '''
	for round := 0; round < 3000; round++ {
		mem := make([]byte, 8*200)
		for i := 0; i < 200; i++ {
			mem[8*i+7] = byte(i)
		}
		b := v2.NewBuffer(mem)
		var n [2]uint64
		var wg sync.WaitGroup
		var got [2][]uint64
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 100; i++ {
					got[g] = append(got[g], b.ReadU64BENext(1)[0])
				}
			}(g)
		}
		wg.Wait()
		seen := map[uint64]bool{}
		for g := range got {
			for _, v := range got[g] {
				must(!seen[v], "%d read twice", v)
				seen[v] = true
			}
		}
		_ = n
	}''', imports='sync')
S('c14-be64', 'C14', 'a goroutine that holds the lock while another writes a single big-endian 64-bit number',
  'a single number is written without waiting for the holder of the lock',
  [('v2/buffer.go', 'writeU64BE', '	b.Lock()\n', '	if len(data) > 1 {\n		b.Lock()\n		defer b.Unlock()\n	}\n'), ('v2/buffer.go', 'writeU64BE', '	b.Unlock()\n\n}', '}')],
  '''
	b := v2.NewBuffer(make([]byte, 16))
	b.Lock()
	done := make(chan bool)
	go func() {
		b.WriteU64BE(0, []uint64{0xFFFFFFFFFFFFFFFF})
		done <- true
	}()
	select {
	case <-done:
		must(false, "written under the holder")
	case <-time.After(2 * time.Second):
	}
	b.Unlock()
	<-done''', imports='time')
S('c13-room', 'C13', 'growth into room left in the storage, with a query between two steps of it',
  'growing in place announces the capacity in bytes first and the one in bits in a second step',
  [('v2/buffer.go', 'grow', 'b.buf = append(b.buf, make([]byte, n)...)', '''if n > 0 && n <= int64(cap(b.buf)-len(b.buf)) {

		b.buf = b.buf[:int64(len(b.buf))+n]
		b.cap += n
		b.st.Unlock()
		for i := b.cap - n; i < b.cap; i++ {

			b.buf[i] = 0

		}
		b.st.Lock()
		b.bcap = b.cap * 8
		return

	}
	b.buf = append(b.buf, make([]byte, n)...)''')],
  '''
	for round := 0; round < 400; round++ {
		b := v2.NewBuffer(make([]byte, 8, 1<<20))
		done := make(chan bool)
		go func() {
			b.Grow(1<<20 - 8)
			done <- true
		}()
		for i := 0; ; i++ {
			c := b.Capacity()
			d := b.BitCapacity()
			must(d >= c*8, "%d bytes, then %d bits", c, d)
			if c > 8 {
				break
			}
		}
		<-done
	}''')
S('c09-scratch', 'C09', 'reads of 1000 or more numbers from two buffers, the first result still in use',
  'long results share one package-level slice',
  [('v2/buffer.go', 'readU64LE', 'out = make([]uint64, n)', '''if n < 1000 {

		out = make([]uint64, n)

	} else {

		if int64(cap(spareU64)) < n {

			spareU64 = make([]uint64, n)

		}
		out = spareU64[:n]

	}'''), ('v2/buffer.go', None, '/* internal use methods */\n\n/* bitfield methods */', 'var spareU64 []uint64\n\n/* internal use methods */\n\n/* bitfield methods */')],
  '''
	x, y := v2.NewBuffer(make([]byte, 8000)), v2.NewBuffer(make([]byte, 8000))
	y.SetAllBits()
	a := x.ReadU64LE(0, 1000)
	y.ReadU64LE(0, 1000)
	must(a[0] == 0 && a[999] == 0, "the result of one buffer changes with the other")''')
S('c16-big', 'C16', 'a write of more than 1000 bytes by the holder of the lock',
  'a long write takes the lock itself',
  [('v1/minibuf.go', 'write', '	n := int64(len(data))\n', '''	n := int64(len(data))
	if n > 1000 {

		b.Lock()
		defer b.Unlock()

	}
''')],
  '''
	var b *v1.MiniBuffer
	v1.NewMiniBuffer(&b, make([]byte, 3000))
	done := make(chan bool)
	go func() {
		b.Lock()
		b.WriteBytes(0, make([]byte, 2000))
		b.Unlock()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		must(false, "the holder of the lock waits for it")
	}''', imports='time')
S('c18-crlf', 'C18', 'a template with CR LF line ends', 'line ends are made uniform',
  [('generation/main.go', 'main', 'files[fileInfo.Name()] = contents', 'files[fileInfo.Name()] = []byte(strings.Replace(string(contents), "\\r\\n", "\\n", -1))')],
  '''mkdir "$d/t"
printf 'package p\\r\\n\\r\\nvar x = 1\\r\\n' >"$d/t/_a.go"
gen -directory "$d/t"
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1''', gen=True)
S('c18-empty', 'C18', 'a template that has become empty, with an older output', 'empty templates are skipped, so the old output stays',
  [('generation/main.go', 'main', 'files[fileInfo.Name()] = contents', 'if len(contents) > 0 {\n				files[fileInfo.Name()] = contents\n			}')],
  '''mkdir "$d/t"
printf 'package p\\n' >"$d/t/_a.go"
gen -directory "$d/t"
: >"$d/t/_a.go"
gen -directory "$d/t"
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1''', gen=True)
S('c11-text', 'C11', 'a negative bit count asked of the v2 buffer, refused with another error than by v1 and v3',
  'a negative number of bits counts as an underread',
  [('v2/buffer.go', 'readbits', 'if off > b.bcap {', 'if n < 0 || off > b.bcap {'), ('v2/buffer.go', 'readbits', 'if n < 0x00 {\n\n		panic(BufferInvalidByteCountError)\n\n	}\n\n	if n == 0 {', 'if n <= 0 {')],
  '''
	text := func(r interface{}) string {
		s := fmt.Sprint(r)
		return s[strings.LastIndex(s, ":")+1:]
	}
	a := refusal(func() { v1.NewBuffer(make([]byte, 4)).ReadBits(3, -1) })
	b := refusal(func() { v2.NewBuffer(make([]byte, 4)).ReadBits(3, -1) })
	must(a != nil && b != nil && text(a) == text(b), "%v and %v", a, b)''', imports='strings')
S('c07-tail', 'C07', 'growing by at least 64 bytes, not a multiple of eight, into room that held other data',
  'the room is cleared eight bytes at a time and up to seven bytes of it are left',
  [(B3, 'Grow', 'for i := b.cap; i < b.cap+n; i++ {\n\n			b.buf[i] = 0\n\n		}', '''i := b.cap
		for ; n >= 64 && i+8 <= b.cap+n; i += 8 {

			copy(b.buf[i:i+8], "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")

		}
		for ; n < 64 && i < b.cap+n; i++ {

			b.buf[i] = 0

		}''')],
  '''
	mem := make([]byte, 200)
	for i := range mem {
		mem[i] = 0xEE
	}
	b := v3.NewBuffer(mem[:10])
	b.Grow(67)
	for i, x := range b.Bytes()[10:] {
		must(x == 0, "byte %d is %x", 10+i, x)
	}''')
S('c08-single', 'C08', 'a buffer made from several slices of which only one is not empty',
  'the only slice that is not empty becomes the storage',
  [('v2/buffer.go', 'NewBuffer', 'buf.buf = append(buf.buf, s...)', '''if len(buf.buf) == 0 {

				buf.buf = s[:len(s):len(s)]
				continue

			}
			buf.buf = append(buf.buf, s...)''')],
  '''
	mem := []byte{1, 2, 3}
	b := v2.NewBuffer(nil, mem)
	b.WriteByte(0, 9)
	must(mem[0] == 1, "the slice was written to")''')
S('c15-zero', 'C15', 'a read of no bits into a variable that is not zero',
  'the output is left as it was',
  [(M3, 'ReadBits', '	*out = 0\n\n	if n == 0 {\n\n		*out = 0\n		return\n\n	}\n', '	if n == 0 {\n\n		return\n\n	}\n	*out = 0\n')],
  '''
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, []byte{1, 2, 3})
	x := uint64(7)
	b.ReadBits(&x, 3, 0)
	must(x == 0, "%d", x)''')
