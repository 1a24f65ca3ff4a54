#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

ALL = ["v1/buffer.go", "v1/minibuf.go", "v2/buffer.go", "v2/minibuf.go",
       "v3/buffer.generated.go", "v3/minibuf.generated.go"]
V3T = ["v3/_buffer.go", "v3/_minibuf.go", "generation/complex.go"]
CHK = ["v1/buffer.go", "v2/buffer.go", "v3/buffer.generated.go"]
MINI = ["v1/minibuf.go", "v2/minibuf.go", "v3/minibuf.generated.go"]
ST = [{"name": "contents", "meaning": "the bytes of the buffer", "where": "Buffer.buf / MiniBuffer.buf"},
      {"name": "byte cursor, bit cursor", "meaning": "where the Next operations act", "where": "off, boff"},
      {"name": "capacities", "meaning": "cached byte and bit size", "where": "cap, bcap"}]

prop("C01", "Numbers and byte runs are stored and loaded exactly",
 "In every major version and for both buffer kinds, writing any number of in-range bytes, 16/32/64-bit unsigned or signed integers, or 32/64-bit floats (as far as that version offers the type) at any position and in either byte order stores exactly the standard encoding of each element, in order, and changes no other byte. Reading returns exactly the elements that the stored bytes encode, in order, bit for bit (sign, NaN payloads and signed zeros included). This holds for the positioned and for the cursor-relative form alike, whatever the element count, position or buffer size.",
 ["inputs"], "every element type, width, byte order, value, count, position and buffer size",
 "The tests write and read one or two fixed values per method at offset 0 of a buffer that fits exactly; they never vary value, count, position or size together.",
 ALL + V3T, [("encode/decode loops", "write*/read* methods; generated Write*/Read* methods"), ("v1 complex codec", "v1 writeComplex/readComplex")],
 ["returned slices", "the buffer's bytes after a write"], ST)

prop("C02", "Bits are addressed most-significant first and changed in isolation",
 "Bit number k of a buffer is bit 7-(k mod 8) of byte k div 8; reading n bits (1 to 64) returns them as an unsigned number with the first bit most significant, and writing n bits stores the low n bits of the given number in that order. Setting, clearing, flipping or writing bits changes exactly the addressed bits and no others, for any position, alignment, count and buffer size. The whole-buffer operations set, clear or flip every bit of every byte.",
 ["inputs"], "every bit position, bit count from 1 to 64, data value, previous contents and buffer size",
 "The tests read or write at a couple of fixed positions in one- or two-byte buffers with fixed contents; combinations of unaligned position, count, surrounding contents and size are not reached.",
 ALL + V3T[:2], [("shift and mask arithmetic", "ReadBit/SetBit/ClearBit/FlipBit, ReadBits/SetBits loops"), ("whole-buffer loops", "ClearAllBits/SetAllBits/FlipAllBits")],
 ["returned bits", "the buffer's bytes"], ST)

prop("C03", "A checked buffer refuses exactly the accesses outside its capacity",
 "On the checked buffer of every version, a read or write of bits, bytes or numbers succeeds if and only if the requested position and count are non-negative and the whole range lies inside the current capacity, for every 64-bit position and count (extremes and arithmetic overflow included) and whatever history led to that capacity. A refused request panics with one of the package's documented errors that names a condition it violated (past the end or before the start, read or write, or invalid count); the same holds for negative growth and for truncating a negative or too large number of bytes. Bytes outside the capacity are never returned or modified, even when the underlying storage has room beyond it.",
 ["inputs", "histories"], "every position and count in the 64-bit range, every capacity and every way of reaching it",
 "The tests try one offset just past the end and one of -1 per method; no overflow, no huge count, no spare storage behind the buffer, no capacity that changed before the access.",
 CHK + V3T, [("range checks", "the guards at the start of every checked read/write"), ("capacity cache", "Refresh / refresh")],
 ["panic values", "returned data", "storage around the buffer's window"], ST)

prop("C04", "A refused operation has no effect and leaves the buffer usable",
 "When an operation on a checked buffer is refused (out of range, negative count, invalid bit value, invalid integer size, mismatched data type, a growth that cannot be allocated), the contents, both cursors and both capacities are exactly as before the call; in particular a multi-byte or multi-bit write is never partly done. After the refusal every later operation completes and behaves as if the refused call had never been made; no lock stays held.",
 ["inputs", "histories", "fault_sequences"], "every refusable call, at any point of any history, followed by any operations",
 "The tests check only that a panic value is raised; none looks at the buffer after the panic or uses it again.",
 CHK + V3T, [("check before write", "guards precede the stores"), ("lock release", "Lock/Unlock pairs in v1 and v2")],
 ["contents, cursors and capacities after a recovered panic", "later operations"], ST)

prop("C05", "Cursor-relative operations act at the cursor and advance it exactly",
 "Every cursor-relative operation has the same result and effect as its positioned counterpart called with the current byte (or bit) cursor, and on success advances only that cursor, by exactly the number of bytes (or bits) transferred. If it is refused, the cursor does not move; it never touches the other cursor. Positioned operations, whole-buffer operations and queries never move either cursor.",
 ["inputs", "histories"], "every cursor position, every operation and argument, and sequences of them",
 "The tests perform one cursor-relative call from cursor 0 and mostly check only the data; chained calls, non-zero cursors, refused calls and the other cursor are not covered.",
 ALL + V3T, [("advance", "Seek calls in the *Next methods")], ["ByteOffset/Offset, BitOffset", "results and contents"], ST)

prop("C06", "Seek, alignment and remaining-space queries follow exact arithmetic",
 "Seeking sets a cursor to the given position or moves it by the given signed amount, affecting nothing else; offset queries return exactly the cursor. Aligning the bit cursor sets it to eight times the byte cursor, aligning the byte cursor sets it to the byte that contains the (non-negative) bit cursor. The remaining-count queries return capacity minus position minus one, for the current or the given position, in bytes or in bits.",
 ["inputs", "histories"], "all sequences of seeks, alignments, queries and capacity changes, with any 64-bit position that does not overflow",
 "The tests seek forward once or twice from zero and align once; negative moves, positions beyond the capacity, unaligned bit cursors and sequences are not covered.",
 ALL + V3T[:2], [("cursor arithmetic", "Seek/SeekByte, SeekBit, AlignBit, AlignByte, After*")], ["offset, capacity and remaining queries"], ST)

prop("C07", "Growing, truncating and resetting keep contents and accounting right",
 "After any history of growing, truncating, resetting, refreshing and writing, the byte capacity equals the number of bytes in the buffer and the bit capacity is eight times that. Growing by n keeps every existing byte and adds exactly n zero bytes at the end (old data never reappears); truncating removes exactly n bytes from the chosen side and keeps the others in order; resetting empties the buffer and zeroes both cursors; growing, truncating and refreshing leave both cursors alone.",
 ["histories"], "every sequence of capacity changes and writes, every size, spare storage or not",
 "Each capacity method is tested with one call on a fresh two- or four-byte buffer; stale contents and capacity bookkeeping only show across several calls.",
 ALL + V3T[:2], [("storage management", "Grow/grow, TruncateLeft, TruncateRight, Reset/reset, Refresh/refresh")],
 ["Bytes, ByteCapacity/Capacity, BitCapacity, offsets"], ST)

prop("C08", "Memory is shared only where documented",
 "A buffer made from one slice uses that slice as its storage, one made from several holds their contents in order in memory of its own, and the byte-slice accessor is a live view of the contents: writes through either side are seen by the other. Slices passed to constructors (beyond the single-slice storage) and to write operations are neither modified nor kept, so changing them later changes nothing in the buffer. Slices of 16-bit and wider numbers returned by reads are independent of the buffer and of each other; in v3 bytes written from a view of the same buffer arrive as they were before the write.",
 ["inputs", "histories"], "every number, length and spare capacity of the given slices, and every sequence of operations on either side",
 "The tests compare a constructed buffer with an expected value once; no test mutates a slice on one side and looks at the other, or gives slices with spare capacity.",
 ALL + V3T, [("constructors", "NewBuffer, NewMiniBuffer"), ("Bytes", "Bytes"), ("reads and writes", "number reads allocate, writes copy")],
 ["caller's slices", "buffer contents", "results of earlier reads"], ST)

prop("C09", "Distinct buffers never influence one another",
 "Operations on different buffers, of the same or of different kinds and versions, interleaved in one goroutine or running in parallel goroutines without any synchronization, give the results and contents that each buffer would give alone. Such parallel use has no data race, since buffers share no hidden state.",
 ["histories", "schedules"], "every interleaving of the operations of two or more buffers",
 "All tests use one buffer at a time in one goroutine.",
 ALL, [("state is per value", "no package-level mutable state in v1, v2, v3")], ["results and contents of each buffer", "race reports"], ST)

prop("C10", "The unchecked buffer agrees with the checked one on every valid history",
 "In each version, any history of operations which the checked buffer accepts gives, when replayed on the unchecked mini buffer, the same returned values, contents, cursors and capacities at every step.",
 ["histories"], "every sequence of operations accepted by the checked buffer",
 "Buffer and MiniBuffer have separate code and separate example tests; nothing compares the two on the same history.",
 ALL + V3T, [("twin implementations", "buffer.go and minibuf.go of each version; both receivers of the generator")], ["all results, contents, cursors, capacities"], ST)

prop("C11", "All major versions agree on their common operations",
 "Any history made of operations that several major versions offer (under whatever method name) gives the same values, contents, cursors and capacities in each of them, so that data written with one version is read back identically with another. Where one version's checked buffer refuses such an operation the others refuse it too, with the same error text if the request violates a single condition.",
 ["histories", "configurations"], "every history over the common operations, for every pair of versions",
 "Each version has its own tests; no test runs two versions on the same history.",
 ALL, [("parallel implementations", "v1, v2 and v3")], ["all results, panic messages, contents, cursors, capacities"], ST)

prop("C12", "Transfers of zero length do nothing",
 "Reading or writing zero bytes, numbers or bits at a position inside the buffer (its end included) succeeds on every buffer kind and version, returns an empty (or zero) result, and changes neither contents nor cursors nor capacities; the whole-buffer bit operations on an empty buffer, and growing or truncating by zero, do nothing either.",
 ["inputs", "histories"], "every operation that takes a length, every position up to and including the end, every buffer size including empty",
 "No test passes an empty slice or a zero count, or uses an empty buffer.",
 ALL + V3T, [("loop entry", "the do-while style loops of reads and writes")], ["panics, results, contents, cursors"], ST)

prop("C13", "Concurrent operations on a v1 or v2 checked buffer are atomic",
 "The checked buffer of v1 and v2 may be used by several goroutines at once: whatever the interleaving, the results of all calls (refusals included), the final contents, cursors and capacities equal those of some one-at-a-time order of the calls that respects each goroutine's order and the real-time order. This covers cursor-relative, multi-bit, growing and resetting operations; only memory that was handed out as a live byte view is outside the guarantee.",
 ["schedules", "histories"], "every interleaving of the operations of two or three goroutines on one buffer",
 "No test uses more than one goroutine.",
 ["v1/buffer.go", "v2/buffer.go"], [("locking", "the mutexes of Buffer in v1 and v2")], ["results, final contents, cursors, capacities"], ST)

prop("C14", "Concurrent use of a v1 or v2 checked buffer never races or gets stuck",
 "Under every interleaving of operations from several goroutines on one checked v1 or v2 buffer, including operations that are refused with a panic which the goroutine recovers from, every call finishes, there is no data race on the buffer's state, and no lock is left held. While a goroutine holds the buffer's own Lock it sees no change made by others, and it may use the queries meanwhile.",
 ["schedules", "fault_sequences"], "every interleaving of two or three goroutines with valid and refused operations",
 "No test uses more than one goroutine or continues after a panic; the race detector is not part of the test run and would see only one schedule.",
 ["v1/buffer.go", "v2/buffer.go"], [("locking", "the mutexes of Buffer in v1 and v2")], ["completion of every call", "happens-before races"], ST)

prop("C15", "Mini buffer outputs depend only on the buffer",
 "What a mini buffer operation stores through its output argument is determined by the buffer and the request alone: the previous value of the output (number, slice, interface or pointer) has no influence. Number reads fill exactly the first n elements of the given slice and leave later elements, and the buffer, untouched.",
 ["inputs", "histories"], "every previous content of the output argument and every reading operation",
 "The tests always pass a zero-valued output that is used once.",
 MINI + V3T[1:], [("out parameters", "methods with an out argument; NewMiniBuffer")], ["output arguments"], ST)

prop("C16", "A mini buffer guarded by its own lock is safe to share",
 "The v1 and v2 mini buffer's Lock and Unlock give mutual exclusion, and no other operation on it takes, needs or releases that lock: goroutines that wrap groups of operations in Lock and Unlock never deadlock or race, and each locked group takes effect as one indivisible step, in some order.",
 ["schedules", "histories"], "every interleaving of locked groups of operations from two or three goroutines",
 "No test uses the lock or a second goroutine.",
 ["v1/minibuf.go", "v2/minibuf.go"], [("embedded mutex", "MiniBuffer in v1 and v2")], ["completion, results, final state, races"], ST)

prop("C17", "The generator emits correct methods for every valid directive",
 "For every combination of buffer kind, direction, number kind, width and byte order that the generator accepts, the methods it emits compile and implement the encoding, range checks, zero-length behaviour and cursor advance stated for hand-written ones; regenerating v3 from its templates gives a package that behaves like the committed one. An unacceptable directive yields only a comment.",
 ["configurations", "inputs"], "every directive in the cross product of the arguments, valid or not, and every input of the emitted methods",
 "The generator has no tests; the generated methods are tested only as committed, with one or two values.",
 ["generation/complex.go", "v3/_buffer.go", "v3/_minibuf.go", "v3/buffer.generated.go", "v3/minibuf.generated.go"],
 [("code emission", "GenerateComplex")], ["generated source, compiled and executed"])

prop("C18", "Generation is a pure function of each template",
 "Running the generator on a directory writes, for each template, one output file whose contents depend only on that template: not on what the output file held before (absent, shorter or longer), on other files in the directory, on the order or number of runs, or on how the directory is named. All text outside directives is passed through unchanged, and no file other than the outputs is created or modified.",
 ["configurations", "histories", "inputs"], "every combination of templates, bystander files and previous output states, and repeated runs",
 "The generator has no tests.",
 ["generation/main.go", "generation/complex.go"], [("file handling", "main"), ("substitution", "GenerateComplex")], ["the directory tree before and after a run"])

prop("C19", "Reads and queries have no side effects",
 "A positioned read or a query, of any kind and in any state, changes nothing observable: inserting any number of them anywhere in a history, whether they succeed or are refused, alters no result, content, cursor or capacity later in that history, and repeating one at once gives the same result.",
 ["histories"], "every history of operations and every place in it where reads or queries may be inserted",
 "Tests read once at the end of a short setup; none compares a history with and without extra reads.",
 ALL + V3T, [("read paths", "Read*, After*, Bytes, capacity and offset queries")], ["results and state of the remaining history"], ST)

prop("C20", "A buffer is one byte array under all of its views",
 "After any history of bit, byte and multi-byte writes, whole-buffer operations, cursor moves and capacity changes, every read of bits, bytes or numbers returns what a plain byte array to which the same changes had been applied would give: each bit holds the value last written to it through whichever view. This holds for every buffer kind and version and from every reachable state.",
 ["histories"], "every mixed sequence of operations from every reachable state",
 "Tests perform a single write followed by a single read through the same view on a fresh buffer.",
 ALL + V3T, [("shared storage", "all methods operate on one slice and cached sizes")], ["all results, contents, cursors, capacities"], ST)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
