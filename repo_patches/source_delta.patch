From e1a057c2165e7e0054780b8241526a95afd53773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 01/13] fix: refuse to grow v1 and v2 buffers by a negative
 amount

The runtime panic left the lock held, so that every later call blocked forever.
---
 v1/buffer.go | 6 ++++++
 v2/buffer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..b5a8f63 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -444,6 +444,12 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.Lock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..1059dc3 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -856,6 +856,12 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.Lock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-- 
2.43.0


From 6c5798ad68a628f67c2256b8a35d7b6713d0267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 02/13] fix: transfers of zero length do nothing instead of
 panicking

---
 generation/complex.go   |   6 ++
 v1/buffer.go            |  38 ++++++++++
 v1/minibuf.go           |  13 ++++
 v2/buffer.go            | 132 +++++++++++++++++++++++++++++++++++
 v2/minibuf.go           | 109 +++++++++++++++++++++++++++++
 v3/_buffer.go           |  54 +++++++++++++++
 v3/_minibuf.go          |  31 +++++++++
 v3/buffer.generated.go  | 150 ++++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 127 ++++++++++++++++++++++++++++++++++
 9 files changed, 660 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..fd37f75 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -208,6 +208,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 								jen.Index().Id(intType),
 								jen.Id("n"))
 					}
+					// the loop below runs at least once
+					body.If(jen.Id("n").Op("==").Lit(0)).
+						Block(jen.Return())
 					body.Id("i").Op(":=").Id("int64").
 						Call(jen.Lit(0))
 
@@ -307,6 +310,9 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					})
 				} else {
 					// write generation code
+					// the loop below runs at least once
+					body.If(jen.Len(jen.Id("data")).Op("==").Lit(0)).
+						Block(jen.Return())
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
 					body.BlockFunc(func(loop *jen.Group) {
diff --git a/v1/buffer.go b/v1/buffer.go
index b5a8f63..e6b87b3 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -87,6 +87,22 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (v uint64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverreadError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderreadError)
+
+		}
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		v = (v << uint64(1)) | uint64(b.readbit(off+i))
@@ -132,6 +148,22 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverwriteError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderwriteError)
+
+		}
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
@@ -251,6 +283,12 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	i := int64(0)
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..79a0e53 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -73,6 +73,13 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	if n == 0 {
+
+		*out = 0
+		return
+
+	}
+
 	var bout byte
 	for i := int64(0); i < n; i++ {
 
@@ -185,6 +192,12 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	n := int64(len(data))
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 1059dc3..7a5534c 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -84,6 +84,24 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverreadError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderreadError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -137,6 +155,24 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverwriteError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderwriteError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -180,6 +216,12 @@ func (b *Buffer) clearallbits() {
 	b.Lock()
 	defer b.Unlock()
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -203,6 +245,12 @@ func (b *Buffer) setallbits() {
 	b.Lock()
 	defer b.Unlock()
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -226,6 +274,12 @@ func (b *Buffer) flipallbits() {
 	b.Lock()
 	defer b.Unlock()
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -291,6 +345,12 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -327,6 +387,12 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -365,6 +431,12 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -403,6 +475,12 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -443,6 +521,12 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -483,6 +567,12 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -527,6 +617,12 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 
 	var (
@@ -595,6 +691,12 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -633,6 +735,12 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -671,6 +779,12 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -711,6 +825,12 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -751,6 +871,12 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 
@@ -795,6 +921,12 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	b.Lock()
 	defer b.Unlock()
 	i := int64(0)
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..c7cea23 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,13 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	if n == 0 {
+
+		*out = 0
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -110,6 +117,12 @@ func (b *MiniBuffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -135,6 +148,12 @@ func (b *MiniBuffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *MiniBuffer) clearallbits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -155,6 +174,12 @@ func (b *MiniBuffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *MiniBuffer) setallbits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -175,6 +200,12 @@ func (b *MiniBuffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *MiniBuffer) flipallbits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -226,6 +257,12 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -246,6 +283,12 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -268,6 +311,12 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -290,6 +339,12 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -314,6 +369,12 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -338,6 +399,12 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -366,6 +433,12 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 
+	if len(data) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = 0
 		n = len(data)
@@ -401,6 +474,12 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -420,6 +499,12 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -439,6 +524,12 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -460,6 +551,12 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -481,6 +578,12 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -506,6 +609,12 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..c39e869 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -102,6 +102,24 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverreadError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderreadError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +209,24 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverwriteError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderwriteError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -255,6 +291,12 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -275,6 +317,12 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -295,6 +343,12 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..4023946 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,13 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n == 0 {
+
+		*out = 0
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +160,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -205,6 +218,12 @@ func (b *MiniBuffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *MiniBuffer) ClearAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -225,6 +244,12 @@ func (b *MiniBuffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *MiniBuffer) SetAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -245,6 +270,12 @@ func (b *MiniBuffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *MiniBuffer) FlipAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..f05bb2e 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -102,6 +102,24 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverreadError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderreadError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +209,24 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		if off > b.bcap {
+
+			panic(BufferOverwriteError)
+
+		}
+
+		if off < 0x00 {
+
+			panic(BufferUnderwriteError)
+
+		}
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -255,6 +291,12 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -275,6 +317,12 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -295,6 +343,12 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -407,6 +461,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -438,6 +495,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -469,6 +529,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -502,6 +565,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -535,6 +601,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -572,6 +641,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -609,6 +681,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -640,6 +715,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -671,6 +749,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -704,6 +785,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -737,6 +821,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -774,6 +861,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -811,6 +901,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -844,6 +937,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -877,6 +973,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -914,6 +1013,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	if off < 0 {
 		panic(BufferUnderwriteError)
 	}
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -1000,6 +1102,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1032,6 +1137,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint16, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1064,6 +1172,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1096,6 +1207,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1128,6 +1242,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1160,6 +1277,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]uint64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1192,6 +1312,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1224,6 +1347,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int16, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1256,6 +1382,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1288,6 +1417,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1320,6 +1452,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1352,6 +1487,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]int64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1384,6 +1522,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1418,6 +1559,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float32, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1452,6 +1596,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1486,6 +1633,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 		panic(BufferUnderreadError)
 	}
 	out = make([]float64, n)
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..fa2ef70 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,13 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n == 0 {
+
+		*out = 0
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +160,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -205,6 +218,12 @@ func (b *MiniBuffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *MiniBuffer) ClearAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -225,6 +244,12 @@ func (b *MiniBuffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *MiniBuffer) SetAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -245,6 +270,12 @@ func (b *MiniBuffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *MiniBuffer) FlipAllBits() {
 
+	if len(b.buf) == 0 {
+
+		return
+
+	}
+
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -323,6 +354,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -348,6 +382,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -373,6 +410,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -400,6 +440,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -427,6 +470,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -458,6 +504,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -489,6 +538,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -514,6 +566,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -539,6 +594,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -566,6 +624,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -593,6 +654,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -624,6 +688,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -655,6 +722,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -682,6 +752,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -709,6 +782,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -740,6 +816,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
+	if len(data) == 0 {
+		return
+	}
 	i := 0
 	n := len(data)
 	{
@@ -788,6 +867,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -811,6 +893,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -834,6 +919,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -857,6 +945,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -880,6 +971,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -903,6 +997,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -926,6 +1023,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -949,6 +1049,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -972,6 +1075,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -995,6 +1101,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1018,6 +1127,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1041,6 +1153,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	{
 	read_loop:
@@ -1064,6 +1179,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1089,6 +1207,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint32
 	{
@@ -1114,6 +1235,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
@@ -1139,6 +1263,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
+	if n == 0 {
+		return
+	}
 	i := int64(0)
 	var u uint64
 	{
-- 
2.43.0


From 45deab8be1f6e5cd9acc48413c731d431dafd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 03/13] fix: refuse negative counts and ranges whose end
 overflows

---
 generation/complex.go  |   6 ++
 v1/buffer.go           |  30 +++++++
 v2/buffer.go           | 138 ++++++++++++++++++++++++++++++++
 v3/_buffer.go          |  30 +++++++
 v3/buffer.generated.go | 174 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 378 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index fd37f75..1356f7c 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,11 +187,17 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
+						body.If(jen.Id("n").Op("<").Lit(0x00)).
+							Block(jen.Panic(jen.Id("BufferInvalidByteCountError")))
+						body.If(jen.Id("off").Op(">=").Lit(0x00).Op("&&").Id("n").Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("off")).Op("/").Lit(intBytes)).
+							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
+						body.If(jen.Id("off").Op(">").Id("b").Dot("cap")).
+							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
 							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index e6b87b3..07d319b 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -87,6 +87,12 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (v uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -148,6 +154,12 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -271,6 +283,12 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -381,6 +399,18 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > b.cap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
diff --git a/v2/buffer.go b/v2/buffer.go
index 7a5534c..dcc1614 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -84,6 +84,12 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -155,6 +161,12 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -333,6 +345,12 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -375,6 +393,12 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -419,6 +443,12 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*2) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -463,6 +493,12 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -509,6 +545,12 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*4) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -555,6 +597,12 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -605,6 +653,12 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))*8) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -655,6 +709,18 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > b.cap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
@@ -677,6 +743,18 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/2 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*2) > b.cap {
 
 		panic(BufferOverreadError)
@@ -721,6 +799,18 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/2 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*2) > b.cap {
 
 		panic(BufferOverreadError)
@@ -765,6 +855,18 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/4 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*4) > b.cap {
 
 		panic(BufferOverreadError)
@@ -811,6 +913,18 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/4 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*4) > b.cap {
 
 		panic(BufferOverreadError)
@@ -857,6 +971,18 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/8 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*8) > b.cap {
 
 		panic(BufferOverreadError)
@@ -907,6 +1033,18 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > (b.cap-off)/8 {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n*8) > b.cap {
 
 		panic(BufferOverreadError)
diff --git a/v3/_buffer.go b/v3/_buffer.go
index c39e869..7cef28c 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -209,6 +215,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -409,6 +421,12 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -487,6 +505,18 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > b.cap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index f05bb2e..eaec11b 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -209,6 +215,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
@@ -409,6 +421,12 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	if off > b.cap {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if (off + int64(len(data))) > b.cap {
 
 		panic(BufferOverwriteError)
@@ -455,6 +473,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -489,6 +510,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -523,6 +547,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -559,6 +586,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -595,6 +625,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -635,6 +668,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -675,6 +711,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -709,6 +748,9 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*2) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -743,6 +785,9 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -779,6 +824,9 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -815,6 +863,9 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -855,6 +906,9 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -895,6 +949,9 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -931,6 +988,9 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*4) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -967,6 +1027,9 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -1007,6 +1070,9 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
+	if off > b.cap {
+		panic(BufferOverwriteError)
+	}
 	if (off + int64(len(data))*8) > b.cap {
 		panic(BufferOverwriteError)
 	}
@@ -1047,6 +1113,18 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	if n < 0x00 {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
+	if off >= 0x00 && n > b.cap-off {
+
+		panic(BufferOverreadError)
+
+	}
+
 	if (off + n) > b.cap {
 
 		panic(BufferOverreadError)
@@ -1095,6 +1173,12 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1130,6 +1214,12 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1165,6 +1255,12 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1200,6 +1296,12 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1235,6 +1337,12 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1270,6 +1378,12 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1305,6 +1419,12 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1340,6 +1460,12 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/2 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*2) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1375,6 +1501,12 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1410,6 +1542,12 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1445,6 +1583,12 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1480,6 +1624,12 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1515,6 +1665,12 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1552,6 +1708,12 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/4 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*4) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1589,6 +1751,12 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
@@ -1626,6 +1794,12 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
+	if n < 0 {
+		panic(BufferInvalidByteCountError)
+	}
+	if off >= 0 && n > (b.cap-off)/8 {
+		panic(BufferOverreadError)
+	}
 	if (off + n*8) > b.cap {
 		panic(BufferOverreadError)
 	}
-- 
2.43.0


From b84aee94980ae8efd930c80d3b89e215ad85a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 04/13] fix: v1 ReadComplex checks the bytes of all elements,
 not their number

---
 v1/buffer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 07d319b..9ef9e5d 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -435,6 +435,13 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 
 	data := b.read(off, n)
 
+	// n counts elements, of which each takes size bytes
+	if size > 0 && n > (b.cap-off)/int64(size) {
+
+		panic(BufferOverreadError)
+
+	}
+
 	switch size {
 
 	case Unsigned8:
-- 
2.43.0


From ee79f29230787243544f22c30a3876de95572671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 05/13] fix: refuse a SetBits that does not fit before writing
 any of it

---
 v1/buffer.go           | 6 ++++++
 v2/buffer.go           | 6 ++++++
 v3/_buffer.go          | 6 ++++++
 v3/buffer.generated.go | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 9ef9e5d..ea6edd1 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -160,6 +160,12 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	}
 
+	if off >= 0x00 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
diff --git a/v2/buffer.go b/v2/buffer.go
index dcc1614..6becc5d 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -167,6 +167,12 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	}
 
+	if off >= 0x00 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 7cef28c..03ae5ef 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -221,6 +221,12 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	}
 
+	if off >= 0x00 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index eaec11b..20f3f63 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -221,6 +221,12 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	}
 
+	if off >= 0x00 && n > b.bcap-off {
+
+		panic(BufferOverwriteError)
+
+	}
+
 	if n == 0 {
 
 		if off > b.bcap {
-- 
2.43.0


From 8d628e57167dc5b44d558673d1b82e13eb8c5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 06/13] fix: ReadBits of the mini buffers ignores the previous
 value of its output

---
 v1/minibuf.go           | 2 ++
 v2/minibuf.go           | 2 ++
 v3/_minibuf.go          | 2 ++
 v3/minibuf.generated.go | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 79a0e53..3b9796f 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -73,6 +73,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n == 0 {
 
 		*out = 0
diff --git a/v2/minibuf.go b/v2/minibuf.go
index c7cea23..a113823 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n == 0 {
 
 		*out = 0
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 4023946..15dbc28 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n == 0 {
 
 		*out = 0
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index fa2ef70..f4c9dc8 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n == 0 {
 
 		*out = 0
-- 
2.43.0


From 4ff7ef6bd2bfb3ec59ecbc3fbf3567a001f23954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 07/13] fix: v3 Grow exposes zero bytes, not what was truncated
 before

---
 v3/_buffer.go           | 5 +++++
 v3/_minibuf.go          | 5 +++++
 v3/buffer.generated.go  | 5 +++++
 v3/minibuf.generated.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 03ae5ef..724ed5f 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -677,6 +677,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 15dbc28..2b6496b 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -494,6 +494,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 20f3f63..b3ea98b 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1917,6 +1917,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index f4c9dc8..eb0707d 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1350,6 +1350,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From cf295f65b3268358b1a93f3a19aab9164224e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 08/13] fix: v3 Truncate refuses to remove more bytes than
 there are

---
 v3/_buffer.go          | 12 ++++++++++++
 v3/buffer.generated.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 724ed5f..5df0e96 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -646,6 +646,12 @@ func (b *Buffer) TruncateLeft(n int64) {
 
 	}
 
+	if n > b.cap {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.buf = b.buf[n:b.cap]
 	b.Refresh()
 
@@ -660,6 +666,12 @@ func (b *Buffer) TruncateRight(n int64) {
 
 	}
 
+	if n > b.cap {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.buf = b.buf[0x00 : b.cap-n]
 	b.Refresh()
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index b3ea98b..1cd49e8 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1886,6 +1886,12 @@ func (b *Buffer) TruncateLeft(n int64) {
 
 	}
 
+	if n > b.cap {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.buf = b.buf[n:b.cap]
 	b.Refresh()
 
@@ -1900,6 +1906,12 @@ func (b *Buffer) TruncateRight(n int64) {
 
 	}
 
+	if n > b.cap {
+
+		panic(BufferInvalidByteCountError)
+
+	}
+
 	b.buf = b.buf[0x00 : b.cap-n]
 	b.Refresh()
 
-- 
2.43.0


From e096572148ab7447dd8768f9b0a37df0f453abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 09/13] fix: the generator replaces the whole of an existing
 output file

---
 generation/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..78ecb97 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -109,6 +109,13 @@ func main() {
 			continue
 		}
 
+		// whatever an earlier generation left must not show behind the new contents
+		err = file.Truncate(0)
+		if err != nil {
+			fmt.Printf("! unable to empty generated file. (%v)\n", err)
+			continue
+		}
+
 		_, err = file.Write(contents)
 		if err != nil {
 			fmt.Printf("! unable to update contents of generated file. (%v)\n", err)
-- 
2.43.0


From 483d07be43ffa094c95a55cc0bfbf6d20b2f613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 10/13] fix: the generator refuses float16 directives

---
 generation/complex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index 1356f7c..f286682 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -113,6 +113,11 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 				return []byte(fmt.Sprint("// invalid argument provided in position four:", arguments[4]))
 			}
 
+			if arguments[2] == "F" && arguments[3] == "16" {
+				fmt.Println("! invalid argument for position 3: there is no float16")
+				return []byte("// invalid argument provided in position three: there is no float16")
+			}
+
 			/* convenience definitions */
 
 			intType := strings.Join(
-- 
2.43.0


From 73a26dc03f41cef9f8e7e6747dee9db68d695b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 11/13] fix: v1 and v2 Grow release the lock when the
 allocation panics

---
 v1/buffer.go | 7 +++----
 v2/buffer.go | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index ea6edd1..1f6be7d 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -532,12 +532,11 @@ func (b *Buffer) grow(n int64) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-
-	b.Unlock()
-
-	b.refresh()
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index 6becc5d..269a98b 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -1139,12 +1139,11 @@ func (b *Buffer) grow(n int64) {
 	}
 
 	b.Lock()
+	defer b.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
-
-	b.Unlock()
-
-	b.refresh()
+	b.cap = int64(len(b.buf))
+	b.bcap = b.cap * 8
 
 }
 
-- 
2.43.0


From 39236a7c81132d93ac9d8058294c1164deb22f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 12/13] fix: operations on v1 and v2 buffers are atomic and
 free of races

---
 v1/buffer.go | 132 ++++++++++++++++++++++++++++++++++
 v2/buffer.go | 197 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 329 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 1f6be7d..d07ddda 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -24,6 +24,12 @@ type Buffer struct {
 	boff int64
 	bcap int64
 
+	// op is held for the whole of every operation, so that operations made of several steps are
+	// indivisible. st guards the sizes and offsets; queries take only st, which no one keeps while
+	// waiting for another lock. locks are always taken in the order op, the embedded one, st
+	op sync.Mutex
+	st sync.Mutex
+
 	sync.Mutex
 }
 
@@ -259,6 +265,8 @@ func (b *Buffer) seekbit(off int64, relative bool) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	if relative {
 
@@ -495,6 +503,8 @@ func (b *Buffer) seek(off int64, relative bool) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	if relative {
 
@@ -533,6 +543,8 @@ func (b *Buffer) grow(n int64) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
 	b.cap = int64(len(b.buf))
@@ -545,6 +557,8 @@ func (b *Buffer) refresh() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
@@ -556,6 +570,8 @@ func (b *Buffer) alignbit() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.boff = b.off * 8
 
@@ -566,6 +582,8 @@ func (b *Buffer) alignbyte() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.off = b.boff / 8
 
@@ -576,6 +594,9 @@ func (b *Buffer) alignbyte() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.buf
 
 }
@@ -583,6 +604,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.cap
 
 }
@@ -590,6 +614,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.bcap
 
 }
@@ -597,6 +624,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.off
 
 }
@@ -604,6 +634,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.boff
 
 }
@@ -611,6 +644,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.refresh()
 
 }
@@ -618,6 +654,9 @@ func (b *Buffer) Refresh() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.grow(n)
 
 }
@@ -625,6 +664,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -632,6 +674,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -639,6 +684,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.alignbit()
 
 }
@@ -646,6 +694,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.alignbyte()
 
 }
@@ -653,6 +704,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.after(off...)
 
 }
@@ -660,6 +714,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -667,6 +724,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -674,6 +734,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -681,6 +744,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadComplex returns the next n uint8/uint16/uint32/uint64-s from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readComplex(off, n, size, endian)
 
 }
@@ -688,6 +754,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -697,6 +766,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -706,6 +778,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -715,6 +790,9 @@ func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOr
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -722,6 +800,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(off, data)
 
 }
@@ -729,6 +810,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteComplex writes a uint8/uint16/uint32/uint64 to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeComplex(off, data, size, endian)
 
 }
@@ -736,6 +820,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -744,6 +831,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -752,6 +842,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -775,6 +868,9 @@ func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian bin
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -782,6 +878,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -789,6 +888,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -798,6 +900,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -807,6 +912,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -814,6 +922,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -821,6 +932,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -829,6 +943,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -837,6 +954,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -844,6 +964,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -852,6 +975,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.clearallbits()
 
 }
@@ -859,6 +985,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setallbits()
 
 }
@@ -866,6 +995,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipallbits()
 
 }
diff --git a/v2/buffer.go b/v2/buffer.go
index 269a98b..a27b7ac 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -21,6 +21,12 @@ type Buffer struct {
 	boff int64
 	bcap int64
 
+	// op is held for the whole of every operation, so that operations made of several steps are
+	// indivisible. st guards the sizes and offsets; queries take only st, which no one keeps while
+	// waiting for another lock. locks are always taken in the order op, the embedded one, st
+	op sync.Mutex
+	st sync.Mutex
+
 	sync.Mutex
 }
 
@@ -321,6 +327,8 @@ func (b *Buffer) seekbit(off int64, relative bool) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	if relative {
 
@@ -1102,6 +1110,8 @@ func (b *Buffer) seek(off int64, relative bool) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	if relative {
 
@@ -1140,6 +1150,8 @@ func (b *Buffer) grow(n int64) {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.buf = append(b.buf, make([]byte, n)...)
 	b.cap = int64(len(b.buf))
@@ -1152,6 +1164,8 @@ func (b *Buffer) refresh() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
@@ -1163,6 +1177,8 @@ func (b *Buffer) alignbit() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.boff = b.off * 8
 
@@ -1173,6 +1189,8 @@ func (b *Buffer) alignbyte() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.off = b.boff / 8
 
@@ -1183,6 +1201,8 @@ func (b *Buffer) reset() {
 
 	b.Lock()
 	defer b.Unlock()
+	b.st.Lock()
+	defer b.st.Unlock()
 
 	b.buf = []byte{}
 	b.off = 0x00
@@ -1197,6 +1217,9 @@ func (b *Buffer) reset() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.buf
 
 }
@@ -1204,6 +1227,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.cap
 
 }
@@ -1211,6 +1237,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.bcap
 
 }
@@ -1218,6 +1247,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.off
 
 }
@@ -1225,6 +1257,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.boff
 
 }
@@ -1232,6 +1267,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.refresh()
 
 }
@@ -1239,6 +1277,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.reset()
 
 }
@@ -1246,6 +1287,9 @@ func (b *Buffer) Reset() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.grow(n)
 
 }
@@ -1253,6 +1297,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -1260,6 +1307,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -1267,6 +1317,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.alignbit()
 
 }
@@ -1274,6 +1327,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1281,6 +1337,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.after(off...)
 
 }
@@ -1288,6 +1347,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.st.Lock()
+	defer b.st.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -1295,6 +1357,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -1302,6 +1367,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -1309,6 +1377,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU16LE(off, n)
 
 }
@@ -1316,6 +1387,9 @@ func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 // ReadU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU16BE(off, n)
 
 }
@@ -1323,6 +1397,9 @@ func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 // ReadU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU32LE(off, n)
 
 }
@@ -1330,6 +1407,9 @@ func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 // ReadU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU32BE(off, n)
 
 }
@@ -1337,6 +1417,9 @@ func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 // ReadU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU64LE(off, n)
 
 }
@@ -1344,6 +1427,9 @@ func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 // ReadU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readU64BE(off, n)
 
 }
@@ -1351,6 +1437,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -1360,6 +1449,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1369,6 +1461,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1378,6 +1473,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1387,6 +1485,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1396,6 +1497,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1405,6 +1509,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1414,6 +1521,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1423,6 +1533,9 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -1430,6 +1543,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(off, data)
 
 }
@@ -1437,6 +1553,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU16LE(off, data)
 
 }
@@ -1444,6 +1563,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 // WriteU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU16BE(off, data)
 
 }
@@ -1451,6 +1573,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 // WriteU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU32LE(off, data)
 
 }
@@ -1458,6 +1583,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 // WriteU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU32BE(off, data)
 
 }
@@ -1465,6 +1593,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 // WriteU64LE writes a slice of uint64s to the buffer at the specfied offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU64LE(off, data)
 
 }
@@ -1472,6 +1603,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 // WriteU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU64BE(off, data)
 
 }
@@ -1479,6 +1613,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1487,6 +1624,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1495,6 +1635,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1503,6 +1646,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1511,6 +1657,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1519,6 +1668,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1527,6 +1679,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1535,6 +1690,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1543,6 +1701,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -1550,6 +1711,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -1557,6 +1721,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1566,6 +1733,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1575,6 +1745,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -1582,6 +1755,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -1589,6 +1765,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1597,6 +1776,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1605,6 +1787,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -1612,6 +1797,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -1620,6 +1808,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.clearallbits()
 
 }
@@ -1627,6 +1818,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.setallbits()
 
 }
@@ -1634,6 +1828,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.op.Lock()
+	defer b.op.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0


From fd835ba4eaf8b4ba0913d8bd38441ecee5043ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 13/13] fix: the generator writes no output for a template that
 it cannot read

---
 generation/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generation/main.go b/generation/main.go
index 78ecb97..1d32063 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -78,13 +78,14 @@ func main() {
 				continue
 			}
 
-			files[fileInfo.Name()], err = ioutil.ReadAll(file)
+			contents, err := ioutil.ReadAll(file)
+			_ = file.Close()
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
 				continue
 			}
 
-			_ = file.Close()
+			files[fileInfo.Name()] = contents
 		}
 	}
 
-- 
2.43.0

