# C17
S('c17-f64', 'C17', 'a big-endian float64 read generated anew', 'the shift of the first byte is kept below 32',
  [('generation/complex.go', 'GenerateComplex', '''s = s.Id(strings.Join([]string{"uint", arguments[3]}, "")).
										Call(jen.Id("b").Dot("buf").Index(jen.Id("off").Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("<<").Lit((intBytes - 1) * 8)''',
    '''s = s.Id(strings.Join([]string{"uint", arguments[3]}, "")).
										Call(jen.Id("b").Dot("buf").Index(jen.Id("off").Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("<<").Lit((intBytes - 1) * 8 % 32)''')],
  '''mkdir "$d/t" && cp "$repo"/v3/*.go "$d/t" && rm "$d"/t/*_test.go "$d"/t/*.generated.go
gen -directory "$d/t"
mkdir "$d/m" && cat >"$d/m/main.go" <<'G'
package main

import (
	"os"

	v3 "github.com/superwhiskers/crunch/v3"
)

func main() {
	b := v3.NewBuffer([]byte{0x40, 0x09, 0x21, 0xfb, 0x54, 0x44, 0x2d, 0x18})
	if b.ReadF64BE(0, 1)[0] != 3.141592653589793 {
		os.Exit(1)
	}
}
G
printf 'module m\\n\\ngo 1.21\\n' >"$d/m/go.mod"
cp "$repo/v3/go.mod" "$d/t/go.mod"
printf 'go 1.21\\nuse .\\nuse ../t\\n' >"$d/m/go.work"
cd "$d/m" && GOFLAGS= GOWORK="$d/m/go.work" go build -o m . && ./m || exit 1''', gen=True)
S('c17-next', 'C17', 'a cursor-relative write of several 16-bit numbers generated anew', 'the cursor moves by the width of the last argument',
  [('generation/complex.go', 'GenerateComplex', '''Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes), jen.Lit(true))''', '''Call(jen.Len(jen.Id("data"))).Op("<<").Lit(intBytes/2), jen.Lit(true))''')],
  '''mkdir "$d/t" && cp "$repo"/v3/*.go "$d/t" && rm "$d"/t/*_test.go "$d"/t/*.generated.go
gen -directory "$d/t"
mkdir "$d/m" && cat >"$d/m/main.go" <<'G'
package main

import (
	"os"

	v3 "github.com/superwhiskers/crunch/v3"
)

func main() {
	b := v3.NewBuffer(make([]byte, 80))
	b.WriteU64BENext([]uint64{1, 2, 3})
	if b.ByteOffset() != 24 {
		os.Exit(1)
	}
}
G
printf 'module m\\n\\ngo 1.21\\n' >"$d/m/go.mod"
cp "$repo/v3/go.mod" "$d/t/go.mod"
printf 'go 1.21\\nuse .\\nuse ../t\\n' >"$d/m/go.work"
cd "$d/m" && GOFLAGS= GOWORK="$d/m/go.work" go build -o m . && ./m || exit 1''', gen=True)
S('c17-template', 'C17', 'v3 regenerated from its templates', 'a template aligns the byte cursor upwards, the committed package does not',
  [('v3/_minibuf.go', 'AlignByte', 'b.off = b.boff / 8', 'b.off = (b.boff + 7) / 8')],
  '''mkdir "$d/t" && cp "$repo"/v3/*.go "$d/t" && rm "$d"/t/*_test.go "$d"/t/*.generated.go
gen -directory "$d/t"
mkdir "$d/m" && cat >"$d/m/main.go" <<'G'
package main

import (
	"os"

	v3 "github.com/superwhiskers/crunch/v3"
)

func main() {
	var b *v3.MiniBuffer
	v3.NewMiniBuffer(&b, make([]byte, 80))
	b.SeekBit(9, false)
	b.AlignByte()
	var k int64
	b.ByteOffset(&k)
	if k != 1 {
		os.Exit(1)
	}
}
G
printf 'module m\\n\\ngo 1.21\\n' >"$d/m/go.mod"
cp "$repo/v3/go.mod" "$d/t/go.mod"
printf 'go 1.21\\nuse .\\nuse ../t\\n' >"$d/m/go.work"
cd "$d/m" && GOFLAGS= GOWORK="$d/m/go.work" go build -o m . && ./m || exit 1''', gen=True)
# C18
S('c18-name', 'C18', 'a template whose name holds the extension twice', 'every occurrence of the extension is taken out of the name of the output',
  [('generation/main.go', 'main', 'strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go")', 'strings.Replace(strings.TrimPrefix(name, "_"), ".go", "", -1)')],
  '''mkdir "$d/t" && printf 'package t\\n' >"$d/t/_a.gob.go"
gen -directory "$d/t"
[ -e "$d/t/a.gob.generated.go" ] || exit 1''', gen=True)
S('c18-memo', 'C18', 'directives for both kinds of buffer that agree otherwise', 'the methods of one kind are emitted for the other, since expansions are remembered by method name',
  [('generation/complex.go', 'GenerateComplex', 'files = oldFiles\n', 'files = oldFiles\n\texpansions := map[string][]byte{}\n'),
   ('generation/complex.go', 'GenerateComplex', '\t\t\t/* code generation */\n', '\t\t\tif expansion, ok := expansions[functionName]; ok {\n\t\t\t\treturn expansion\n\t\t\t}\n\n\t\t\t/* code generation */\n'),
   ('generation/complex.go', 'GenerateComplex', '\t\t\treturn outputBuffer.Bytes()\n', '\t\t\texpansions[functionName] = outputBuffer.Bytes()\n\t\t\treturn outputBuffer.Bytes()\n')],
  '''mkdir "$d/t" && printf 'package t\\n\\n//generator:complex Buffer Write U 16 LE\\n\\n//generator:complex MiniBuffer Write U 16 LE\\n' >"$d/t/_a.go"
gen -directory "$d/t"
grep -q '(b \\*MiniBuffer) WriteU16LE(' "$d/t/a.generated.go" || exit 1''', gen=True)
S('c18-trim', 'C18', 'a template that ends in blank lines', 'white space at the ends of a template is dropped',
  [('generation/main.go', 'main', 'file.Write(contents)', 'file.Write(append([]byte(strings.TrimSpace(string(contents))), 10))')],
  '''mkdir "$d/t" && printf 'package t\\n\\n\\n\\n' >"$d/t/_a.go"
gen -directory "$d/t"
cmp "$d/t/_a.go" "$d/t/a.generated.go" || exit 1''', gen=True)
S('c18-dir', 'C18', 'a directory whose name looks like that of a template', 'an output is written for it',
  [('generation/main.go', 'main', ' && !fileInfo.IsDir()', ''),
   ('generation/main.go', 'main', '''				fmt.Printf("! unable to read file contents. (%v)\\n", err)
				continue
''', '''				fmt.Printf("! unable to read file contents. (%v)\\n", err)
''')],
  '''mkdir -p "$d/t/_b.go" && printf 'package t\\n' >"$d/t/_a.go"
gen -directory "$d/t"
[ ! -e "$d/t/b.generated.go" ] || exit 1''', gen=True)
S('c18-stop', 'C18', 'a template that is a link to nowhere among others', 'the first template that cannot be opened ends the run, so what is written depends on the others',
  [('generation/main.go', 'main', '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				continue
			}

			contents, err''', '''				fmt.Printf("! unable to open source file. (%v)\\n", err)
				return
			}

			contents, err''')],
  '''mkdir -p "$d/t" && printf 'package t\\n' >"$d/t/_a.go" && ln -s nowhere "$d/t/_b.go"
gen -directory "$d/t"
[ -e "$d/t/a.generated.go" ] || exit 1''', gen=True)
S('c18-first', 'C18', 'two templates in one directory that both hold directives', 'only directives of the first template that is scanned are numbered from zero',
  [('generation/complex.go', 'GenerateComplex', 'files = oldFiles\n', 'files = oldFiles\n\tinvocations := 0\n'),
   ('generation/complex.go', 'GenerateComplex', '\t\t\t/* code generation */\n\n\t\t\tbuilder := &jen.Group{}\n', '\t\t\t/* code generation */\n\n\t\t\tinvocations++\n\t\t\tbuilder := &jen.Group{}\n\t\t\tbuilder.Comment(fmt.Sprint("// invocation ", invocations, "\\n"))\n')],
  '''mkdir -p "$d/t" "$d/u" && printf 'package t\\n\\n//generator:complex Buffer Write U 16 LE\\n' >"$d/t/_a.go"
cp "$d/t/_a.go" "$d/t/_b.go"
cp "$d/t/_a.go" "$d/u/_a.go"
cp "$d/t/_b.go" "$d/u/_c.go"
gen -directory "$d/t"
cmp "$d/t/a.generated.go" "$d/t/b.generated.go" || exit 1''', gen=True)
# C19
S('c19-bits', 'C19', 'a refused positioned read of several bits from a v3 buffer', 'the read borrows the bit cursor and does not give it back when it is refused',
  [(B3, 'ReadBits', 'i := int64(0)\n', 'i := int64(0)\n\tboff := b.boff\n\tb.boff = off\n'),
   (B3, 'ReadBits', 'uint64(b.ReadBit(off+i))', 'uint64(b.ReadBitNext())'),
   (B3, 'ReadBits', '\t\t\tgoto read_loop\n\n\t\t}\n\t}\n', '\t\t\tgoto read_loop\n\n\t\t}\n\t}\n\tb.boff = boff\n')],
  '''
	b := v3.NewBuffer(make([]byte, 2))
	refusal(func() { b.ReadBits(12, 8) })
	must(b.BitOffset() == 0, "the cursor is at %d", b.BitOffset())''')
S('c19-after', 'C19', 'a v3 buffer whose bit cursor lies beyond the end when it asks what is left', 'the query puts the cursor back to the end',
  [(B3, 'AfterBit', 'if len(off) == 0 {\n', 'if len(off) == 0 {\n\n\t\tif b.boff > b.bcap {\n\n\t\t\tb.boff = b.bcap\n\n\t\t}\n')],
  '''
	b := v3.NewBuffer(make([]byte, 2))
	b.SeekBit(40, false)
	b.AfterBit()
	must(b.BitOffset() == 40, "the cursor is at %d", b.BitOffset())''')
S('c19-sort', 'C19', 'a big-endian read of several numbers from a v2 mini buffer, done twice', 'the bytes are turned round where they lie, and back only for the numbers but the last',
  [('v2/minibuf.go', 'readU16BE', '\t\ti++\n', '\t\tif i == 3 {\n\n\t\t\tb.buf[off+6], b.buf[off+7] = b.buf[off+7], b.buf[off+6]\n\n\t\t}\n\t\ti++\n')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10})
	x, y := make([]uint16, 5), make([]uint16, 5)
	b.ReadU16BE(&x, 0, 5)
	b.ReadU16BE(&y, 0, 5)
	must(x[3] == y[3], "%v and then %v", x, y)''')
S('c19-bytes', 'C19', 'the byte view of an empty v2 buffer asked for after a seek', 'asking for the view of an empty buffer resets it',
  [('v2/buffer.go', 'Bytes', 'return b.buf', 'if len(b.buf) == 0 {\n\n\t\tb.buf = []byte{}\n\t\tb.off, b.boff = 0, 0\n\n\t}\n\treturn b.buf')],
  '''
	b := v2.NewBuffer()
	b.Seek(3, false)
	b.Bytes()
	must(b.Offset() == 3, "the cursor is at %d", b.Offset())''')
# C20
S('c20-cache', 'C20', 'bits of one byte of a v3 buffer read, the byte written as part of a number, and the bits read again', 'the byte that bits were last read from is remembered, and numbers written do not undo that',
  [(B3, None, '\tbcap int64\n}\n', '\tbcap int64\n\n\t// last is the index of the byte that bits were last read from, plus one, and word that byte\n\tlast int64\n\tword byte\n}\n'),
   (B3, 'ReadBit', 'return (b.buf[off/8] >> (7 - uint64(off%8))) & 1', 'if b.last != off/8+1 || off%8 == 0 {\n\n\t\tb.last, b.word = off/8+1, b.buf[off/8]\n\n\t}\n\treturn (b.word >> (7 - uint64(off%8))) & 1'),
   (B3, 'SetBit', 'b.buf[off/8] |=', 'b.last = 0\n\tb.buf[off/8] |='),
   (B3, 'ClearBit', 'b.buf[off/8] &=', 'b.last = 0\n\tb.buf[off/8] &='),
   (B3, 'FlipBit', 'b.buf[off/8] ^=', 'b.last = 0\n\tb.buf[off/8] ^='),
   (B3, 'WriteBytes', 'copy(b.buf[off:], data)', 'b.last = 0\n\tcopy(b.buf[off:], data)'),
   (B3, 'ClearAllBits', 'if len(b.buf) == 0 {', 'b.last = 0\n\tif len(b.buf) == 0 {'),
   (B3, 'SetAllBits', 'if len(b.buf) == 0 {', 'b.last = 0\n\tif len(b.buf) == 0 {'),
   (B3, 'FlipAllBits', 'if len(b.buf) == 0 {', 'b.last = 0\n\tif len(b.buf) == 0 {'),
   (B3, 'Refresh', 'b.cap = int64(len(b.buf))', 'b.last = 0\n\tb.cap = int64(len(b.buf))')],
  '''
	b := v3.NewBuffer(make([]byte, 8))
	b.ReadBit(13)
	b.WriteU16BE(0, []uint16{0xffff})
	must(b.ReadBit(13) == 1, "the bit is clear")''')
S('c20-set', 'C20', 'all bits of a v1 buffer set after it was grown from a small slice', 'only the bytes up to the capacity of the first storage are set',
  [('v1/buffer.go', 'setallbits', 'for i := range b.buf {\n\n\t\tb.buf[i] = 0xFF\n\n\t}', 'for i := int64(0); i < b.cap && i < 64; i++ {\n\n\t\tb.buf[i] = 0xFF\n\n\t}\n\tfor i := int64(64); i+8 <= b.cap; i += 8 {\n\n\t\tcopy(b.buf[i:i+8], b.buf[:8])\n\n\t}')],
  '''
	b := v1.NewBuffer(make([]byte, 100))
	b.SetAllBits()
	must(b.ReadBits(99*8, 8) == 255, "the last byte is %x", b.ReadBits(99*8, 8))''')
S('c20-word', 'C20', 'bits read across two bytes of a v2 buffer beginning with the last bit of one', 'two bytes are read at once if more than eight bits are asked for, and the offset within the byte is counted from the wrong end',
  [('v2/buffer.go', 'readbits', 'i := int64(0)\n', 'i := int64(0)\n\n\tif n == 9 && off >= 0 && off%8 == 7 && off+n <= b.bcap {\n\n\t\tb.Lock()\n\t\tdefer b.Unlock()\n\n\t\treturn uint64(b.buf[off/8]>>7)<<8 | uint64(b.buf[off/8+1])\n\n\t}\n')],
  '''
	b := v2.NewBuffer([]byte{1, 0, 0})
	must(b.ReadBits(7, 9) == 256, "%d", b.ReadBits(7, 9))''')
S('c20-grow', 'C20', 'a v2 mini buffer that is reset and then grown', 'the storage is kept and what was in it shows again',
  [('v2/minibuf.go', 'reset', 'b.buf = []byte{}', 'b.buf = b.buf[:0]'),
   ('v2/minibuf.go', 'grow', 'b.buf = append(b.buf, make([]byte, n)...)', 'if n <= int64(cap(b.buf)-len(b.buf)) {\n\n\t\tb.buf = b.buf[:b.cap+n]\n\n\t} else {\n\n\t\tb.buf = append(b.buf, make([]byte, n)...)\n\n\t}')],
  '''
	var b *v2.MiniBuffer
	v2.NewMiniBuffer(&b, []byte{1, 2, 3})
	b.Reset()
	b.Grow(2)
	var x byte
	b.ReadBit(&x, 7)
	must(x == 0, "%d", x)''')
