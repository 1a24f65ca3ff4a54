package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/vsched"
)

func init() {
	register(engine.Check{Prop: "C13",
		Bounds: "v1 and v2 checked buffers under a controlled scheduler with a scheduling point before every statement of the packages: every pair of operations (all kinds, both forms, refused ones included) in two goroutines from 3 starting states, every pair of sequences of two operations from a reduced alphabet, every pair of long operations (up to 600 bytes, with one preemption less), every triple of operations in three goroutines from a reduced alphabet; all schedules with at most 2 (thorough: single operations 3) preemptions; with choices at synchronization operations only: every pair of operations on 5000 and 70000 bytes (thorough also 1100, 17000, 300000), two sequences of three operations and four goroutines of one from reduced alphabets (at most 1 preemption, thorough 2); every outcome must equal that of a one-at-a-time run of the same code that respects program and real-time order",
		Assume: []string{"byte slices returned as live views are compared by length only", "statements are atomic steps of the exploration; finer interleavings matter only in the presence of data races, which C14 decides"},
		Units:  c13Units})
}

type concStart struct {
	n         int
	off, boff int64
	room      int // dirty bytes behind the buffer
}

func (s concStart) with(d impl.Desc, threads [][]Op) *scenario {
	return &scenario{d: d, n: s.n, off: s.off, boff: s.boff, room: s.room, threads: threads}
}

var concStarts = []concStart{{12, 2, 5, 0}, {3, 1, 10, 0}, {6, 5, 44, 0}}

// roomStarts have room behind them, or nothing in them.
var roomStarts = []concStart{{9, 1, 5, 64}, {0, 0, 0, 16}}

func c13Reduced(d impl.Desc) []Op {
	return filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Off: 0}, 1, 7),
		Op{K: impl.KSetBits, Data: 0x2D, N: 6, Next: true}, Op{K: impl.KReadBits, N: 7, Off: 1}, Op{K: impl.KFlipAll}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KReset}, Op{K: impl.KAlignBit}, Op{K: impl.KByteOff}, Op{K: impl.KByteCap}, Op{K: impl.KAfterByte, Rel: true})
}

// c13Long lists operations on many elements.
func c13Long(d impl.Desc) []Op {
	return filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, 300, 3), sized(Op{K: impl.KWriteBytes}, 600, 4), sized(Op{K: impl.KReadBytes, Next: true}, 300, 0),
		sized(Op{K: impl.KReadNum, Num: num(d, 2, true)}, 150, 0), sized(Op{K: impl.KReadNum, Num: num(d, 4, false), Next: true}, 70, 0), sized(Op{K: impl.KReadNum, Num: num(d, 8, true)}, 40, 0),
		sized(Op{K: impl.KWriteNum, Num: num(d, 2, false), Next: true}, 150, 5), sized(Op{K: impl.KWriteNum, Num: num(d, 8, false)}, 40, 6), sized(Op{K: impl.KWriteNum, Num: num(d, 4, true)}, 75, 6),
		Op{K: impl.KSetBits, Data: 0x5A5A33CC0FF0AA55, N: 64, Off: 3}, Op{K: impl.KReadBits, N: 64, Off: 1}, Op{K: impl.KFlipAll}, Op{K: impl.KSetAll}, Op{K: impl.KGrow, N: 200}, Op{K: impl.KReset})
}

func c13Queries(d impl.Desc) []Op {
	return filter(d, Op{K: impl.KByteCap}, Op{K: impl.KBitCap}, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterBit, Rel: true}, Op{K: impl.KBytes})
}

// c13Huge lists operations on n bytes or so.
func c13Huge(d impl.Desc, n int64) []Op {
	return filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, n/2, 3), sized(Op{K: impl.KWriteBytes}, n, 4), sized(Op{K: impl.KReadBytes, Next: true}, n/2, 0), sized(Op{K: impl.KReadBytes}, n, 0),
		sized(Op{K: impl.KReadNum, Num: num(d, 2, true)}, n/2, 0), sized(Op{K: impl.KReadNum, Num: num(d, 4, false), Next: true}, n/8, 0), sized(Op{K: impl.KReadNum, Num: num(d, 8, true), Off: 3}, n/8-1, 0),
		sized(Op{K: impl.KWriteNum, Num: num(d, 2, false), Next: true}, n/4, 5), sized(Op{K: impl.KWriteNum, Num: num(d, 8, false)}, n/8, 6), sized(Op{K: impl.KWriteNum, Num: num(d, 4, true)}, n/4, 6),
		Op{K: impl.KSetBits, Data: 0x5A5A33CC0FF0AA55, N: 64, Off: 8*n - 70}, Op{K: impl.KFlipAll}, Op{K: impl.KSetAll}, Op{K: impl.KClearAll}, Op{K: impl.KGrow, N: n}, Op{K: impl.KReset}, Op{K: impl.KRefresh}, Op{K: impl.KSeekByte, Off: 5, Rel: true}, Op{K: impl.KReadByte, Off: n - 1}, Op{K: impl.KByteCap})
}

// c13Sync lists operations for long sequences.
func c13Sync(d impl.Desc) []Op {
	return filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 1, 0), Op{K: impl.KSetBits, Data: 0x2D, N: 6, Next: true}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KReset}, Op{K: impl.KAlignBit}, Op{K: impl.KFlipAll}, Op{K: impl.KByteCap}, Op{K: impl.KWriteByte, Off: -1})
}

// coarse explores with choices at synchronization operations only.
func coarse(f func()) {
	vsched.Coarse = true
	defer func() { vsched.Coarse, vsched.Within = false, false }()
	f()
}

func c13Units(tier string) []engine.Unit {
	impl.Concurrent = true
	var u []engine.Unit
	bound := 2
	if tier == "thorough" {
		bound = 3
	}
	for _, d := range []impl.Desc{{Ver: 1}, {Ver: 2}} {
		d := d
		ops := append(concOps(d), refusedOps(d)...)
		red := c13Reduced(d)
		for si, s := range concStarts {
			s := s
			for i := range ops {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s from #%d", d, &ops[i], si), Run: func(c *Ctx) {
					for j := i; j < len(ops); j++ {
						linearizable(c, s.with(d, [][]Op{{ops[i]}, {ops[j]}}), bound)
					}
				}})
			}
		}
		// the number types left out above, what is refused, and what depends on room behind the buffer
		rest, refused, red2 := concRest(d), refusedAll(d), concSome(d)
		for i := range rest {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s", d, &rest[i]), Run: func(c *Ctx) {
				for _, o := range append(append([]Op(nil), rest[i:]...), red2...) {
					linearizable(c, concStarts[0].with(d, [][]Op{{rest[i]}, {o}}), bound)
				}
			}})
		}
		for i := range red2 {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s refusals beside %s", d, &red2[i]), Run: func(c *Ctx) {
				for j := range refused {
					linearizable(c, concStarts[1].with(d, [][]Op{{red2[i]}, {refused[j]}}), bound)
				}
			}})
			for si, s := range roomStarts {
				s := s
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s, room %d", d, &red2[i], si), Run: func(c *Ctx) {
					for j := range ops {
						linearizable(c, s.with(d, [][]Op{{red2[i]}, {ops[j]}}), bound)
					}
				}})
			}
		}
		qs := c13Queries(d)
		for i := range ops {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s two queries beside %s", d, &ops[i]), Run: func(c *Ctx) {
				sequences(len(qs), 2, nil, func(idx []int) {
					for _, s := range concStarts[:2] {
						linearizable(c, s.with(d, [][]Op{{ops[i]}, {qs[idx[0]], qs[idx[1]]}}), bound)
					}
				})
			}})
		}
		long := c13Long(d)
		for _, n := range []int64{200, 700, 5000} {
			long := append(long[:len(long):len(long)], Op{K: impl.KGrow, N: n})
			if n > 200 {
				long = long[len(long)-1:]
			}
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s queries beside long operations, Grow(%d)", d, n), Run: func(c *Ctx) {
				for i := range long {
					for j := range qs {
						linearizable(c, concStart{n: 600}.with(d, [][]Op{{long[i]}, {qs[j]}}), bound-1)
						linearizable(c, concStart{n: 600}.with(d, [][]Op{{long[i]}, {qs[j], qs[(j+1)%len(qs)]}}), 1)
					}
				}
			}})
		}
		for i := range long {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s long pairs with #%d", d, i), Run: func(c *Ctx) {
				for j := i; j < len(long); j++ {
					linearizable(c, concStart{n: 600}.with(d, [][]Op{{long[i]}, {long[j]}}), bound-1)
				}
			}})
		}
		sizes := []int64{5000, 70000}
		if tier == "thorough" {
			sizes = []int64{1100, 5000, 17000, 70000, 300000}
		}
		for _, n := range sizes {
			n := n
			huge := c13Huge(d, n)
			for i := range huge {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs of operations on %d bytes with #%d", d, n, i), Run: func(c *Ctx) {
					coarse(func() {
						for j := i; j < len(huge); j++ {
							linearizable(c, concStart{n: int(n)}.with(d, [][]Op{{huge[i]}, {huge[j]}}), bound)
						}
					})
				}})
			}
		}
		syn := c13Sync(d)
		m, few, ss := 6, 1, concStarts[1]
		if tier == "thorough" {
			m, few = 7, 2
		}
		for i := 0; i < m; i++ {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s three and three with %s", d, &syn[i]), Run: func(c *Ctx) {
				coarse(func() {
					sequences(m, 5, nil, func(x []int) {
						if (i*m+x[0])*m+x[1] <= (x[2]*m+x[3])*m+x[4] {
							linearizable(c, ss.with(d, [][]Op{{syn[i], syn[x[0]], syn[x[1]]}, {syn[x[2]], syn[x[3]], syn[x[4]]}}), few)
						}
					})
				})
			}})
		}
		for i := range syn {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s four with %s", d, &syn[i]), Run: func(c *Ctx) {
				coarse(func() {
					sequences(len(syn), 3, nil, func(x []int) {
						if i <= x[0] && x[0] <= x[1] && x[1] <= x[2] {
							linearizable(c, ss.with(d, [][]Op{{syn[i]}, {syn[x[0]]}, {syn[x[1]]}, {syn[x[2]]}}), few)
						}
					})
				})
			}})
		}
		k := len(red)
		if tier != "thorough" {
			k = 9
		}
		s := concStarts[1]
		for i := 0; i < k; i++ {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s two and two with %s", d, &red[i]), Run: func(c *Ctx) {
				sequences(k, 3, nil, func(idx []int) {
					if i*k+idx[0] > idx[1]*k+idx[2] {
						return // the mirror image is explored
					}
					linearizable(c, s.with(d, [][]Op{{red[i], red[idx[0]]}, {red[idx[1]], red[idx[2]]}}), 2)
				})
			}})
			for j := i; j < len(red); j++ {
				j := j
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s three with %s and %s", d, &red[i], &red[j]), Run: func(c *Ctx) {
					for k := j; k < len(red); k++ {
						linearizable(c, s.with(d, [][]Op{{red[i]}, {red[j]}, {red[k]}}), bound)
					}
				}})
			}
		}
	}
	return u
}
