package checks

import (
	"fmt"
	"strings"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
	"verifmc/vsched"
)

func init() {
	register(engine.Check{Prop: "C09",
		Bounds: "all 36 ordered pairs of kinds: every two operations on one buffer (the second from a reduced alphabet, thorough: all) with every operation on the other merged in between, before and after (same kind: all operations, other kinds: a reduced alphabet, thorough: all), every two against two from a smaller alphabet in all 6 merges, buffers that start empty (made without slices, or grown to 8) through growth, truncation, resets and writes: two against two (same kind also three against two) operations in all merges, the same after a third buffer was used in one of nine ways before, in processes of their own, long transfers (up to 600 bytes) likewise, operations on 5000 and 70000 bytes side by side, 90, 1100 and 9000 numbers of every type side by side, buffers made in five ways (own slice, several slices, the same several slices, empty and grown, made between the other's operations); results, results kept until the end, contents, cursors and capacities equal those of each buffer used alone; in two goroutines, built with the race detector, under a controlled scheduler with a point before every statement: construction, operations and queries of both, all schedules with at most 1 (long transfers and two thirds of the pairs 0; thorough 2, long transfers 1) preemptions, operations on 5000 and 70000 bytes with choices at synchronization operations only; every operation and 90 numbers of every type by two buffers of a kind at the same time as the first use of the packages in a process of its own (thorough: also with another operation); no race and the same results",
		Assume: []string{"the two buffers are given separate memory by their users", "statements are atomic steps of the exploration; the happens-before race detector judges each explored schedule"},
		Units:  c09Units})
}

// solo is one buffer and what is done with it.
type solo struct {
	d   impl.Desc
	how int // how it is made
	n   int
	ops []Op
}

var soloWays = []string{"one slice", "three slices", "the same three slices", "nothing, then grown", "one slice with room behind", "nothing"}

func (s *solo) String() string {
	var l []string
	for i := range s.ops {
		l = append(l, s.ops[i].String())
	}
	return fmt.Sprintf("%s of %d bytes made from %s: %s", s.d, s.n, soloWays[s.how], strings.Join(l, "; "))
}

// make makes the buffer; shared is used for "the same slices".
func (s *solo) make(shared [][]byte) impl.Inst {
	var x impl.Inst
	b := fill(s.n, 1)
	switch s.how {
	case 0:
		x = impl.New(s.d, b)
	case 1:
		x = impl.New(s.d, b[:s.n/3:s.n/3], b[s.n/3:s.n/2:s.n/2], b[s.n/2:])
	case 2:
		x = impl.New(s.d, shared...)
	case 3:
		x = impl.New(s.d)
		var r impl.Ret
		x.Do(&Op{K: impl.KGrow, N: int64(s.n)}, &r)
		x.Do(&Op{K: impl.KWriteBytes, D: b}, &r)
	case 5:
		x = impl.New(s.d)
	default:
		x = impl.New(s.d, append(b, fill(40, 9)...)[:s.n])
	}
	if s.n >= 40 {
		place(x, 1, 11)
	}
	return x
}

func sharedSlices(n int) [][]byte {
	b := fill(n+60, 1)
	return [][]byte{b[: n/3 : n/3+20], b[n/3+20 : n/2+20], b[n/2+20 : n+20]}
}

// soloRun is one execution of a solo.
type soloRun struct {
	s   *solo
	x   impl.Inst
	ret []impl.Ret
	st  impl.State
}

func (r *soloRun) step(k int) {
	r.ret = append(r.ret, impl.Ret{})
	r.x.Do(&r.s.ops[k], &r.ret[k])
}

// key describes results, what the results hold now, and the state.
func (r *soloRun) key() string {
	var b strings.Builder
	for k := range r.ret {
		a := &r.ret[k]
		if a.Panicked {
			fmt.Fprintf(&b, "%d: !%s ", k, impl.ErrClass(a.Panic))
			continue
		}
		fmt.Fprintf(&b, "%d: %d,%x,%x", k, a.I, a.B, a.U)
		if a.Raw != nil {
			fmt.Fprintf(&b, ",now %x", impl.RawBits(a.Raw))
		}
		if a.Arg {
			b.WriteString(",argument modified")
		}
		b.WriteString(" ")
	}
	fmt.Fprintf(&b, "end=%x off=%d boff=%d cap=%d bcap=%d", r.st.B, r.st.Off, r.st.Boff, r.st.Cap, r.st.BCap)
	return b.String()
}

// merged runs two solos in one goroutine; order lists whose step is next (0 or 1; -1 and -2 make the first and the
// second buffer).
func merged(c *Ctx, a, b *solo, ka, kb string, order []int8) {
	shared := sharedSlices(a.n)
	rs := [2]soloRun{{s: a}, {s: b}}
	for _, w := range order {
		switch w {
		case -1, -2:
			rs[-w-1].x = rs[-w-1].s.make(shared)
		default:
			c.Trans++
			rs[w].step(len(rs[w].ret))
		}
	}
	for i := range rs {
		rs[i].st = c.Obs(rs[i].x)
	}
	for i, want := range [2]string{ka, kb} {
		if got := rs[i].key(); got != want {
			c.Fail(fmt.Sprintf("%s behaves differently beside the other buffer:\n      alone  %s\n      beside %s", rs[i].s.d, want, got),
				"buffer 0: "+a.String(), "buffer 1: "+b.String(), fmt.Sprintf("order of the steps (-1, -2: make buffer 0, 1): %v", order))
		}
	}
	c.Trace(func() string { return fmt.Sprintf("%s | %s | order %v", a, b, order) })
}

func alone(c *Ctx, s *solo) string {
	r := soloRun{s: s, x: s.make(sharedSlices(s.n))}
	for k := range s.ops {
		c.Trans++
		r.step(k)
	}
	r.st = c.Obs(r.x)
	c.State()
	return r.key()
}

// parallel explores two solos in two goroutines.
func parallel(c *Ctx, a, b *solo, ka, kb string, bound int) {
	var rs [2]*soloRun
	var st vsched.Stats
	errs := vsched.RaceErrors()
	mk := func() []func() {
		shared := sharedSlices(a.n)
		var out []func()
		for i, s := range [2]*solo{a, b} {
			r := &soloRun{s: s, ret: make([]impl.Ret, 0, len(s.ops))}
			rs[i] = r
			out = append(out, func() {
				r.x = r.s.make(shared)
				for k := range r.s.ops {
					r.step(k)
				}
				if f := impl.Observe(r.x, &r.st); f != "" {
					panic(f)
				}
			})
		}
		return out
	}
	fail, sched := vsched.Explore(mk, bound, maxSchedules, maxSteps, &st, func(verdict string) string {
		if verdict != "" {
			return verdict
		}
		if vsched.RaceErrors() > errs {
			return "data race:\n" + raceReport()
		}
		c.CheckDeadline()
		for i, want := range [2]string{ka, kb} {
			if got := rs[i].key(); got != want {
				return fmt.Sprintf("%s behaves differently beside the other buffer:\n      alone  %s\n      beside %s", rs[i].s.d, want, got)
			}
		}
		return ""
	})
	account(c, &st)
	if fail != "" {
		c.Schedule = sched
		c.Fail(fail, "goroutine 0: "+a.String(), "goroutine 1: "+b.String())
	}
	c.Trace(func() string { return fmt.Sprintf("goroutines %s | %s", a, b) })
}

// cold is parallel in a process that has not used the packages before: what each buffer does alone is found out
// afterwards.
func cold(c *Ctx, a, b *solo) {
	var rs [2]*soloRun
	var st vsched.Stats
	errs := vsched.RaceErrors()
	mk := func() []func() {
		shared := sharedSlices(a.n)
		var out []func()
		for i, s := range [2]*solo{a, b} {
			r := &soloRun{s: s, ret: make([]impl.Ret, 0, len(s.ops))}
			rs[i] = r
			out = append(out, func() {
				r.x = r.s.make(shared)
				for k := range r.s.ops {
					r.step(k)
				}
				if f := impl.Observe(r.x, &r.st); f != "" {
					panic(f)
				}
			})
		}
		return out
	}
	var keys [][2]string
	fail, sched := vsched.Explore(mk, 0, maxSchedules, maxSteps, &st, func(verdict string) string {
		if verdict == "" && vsched.RaceErrors() > errs {
			verdict = "data race:\n" + raceReport()
		}
		c.CheckDeadline()
		if verdict == "" {
			keys = append(keys, [2]string{rs[0].key(), rs[1].key()})
		}
		return verdict
	})
	account(c, &st)
	if fail == "" {
		want := [2]string{alone(c, a), alone(c, b)}
		for _, got := range keys {
			for i := range want {
				if got[i] != want[i] {
					fail = fmt.Sprintf("%s behaves differently beside the other buffer:\n      alone  %s\n      beside %s", rs[i].s.d, want[i], got[i])
				}
			}
		}
	}
	if fail != "" {
		c.Schedule = sched
		c.Fail(fail, "goroutine 0: "+a.String(), "goroutine 1: "+b.String(), "(these are the first uses of the packages in the process)")
	}
	c.Trace(func() string { return fmt.Sprintf("first use, goroutines %s | %s", a, b) })
}

// c09Cold lets two buffers of a kind do the same things at the same time, first in their process.
func c09Cold(thorough bool) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.All {
		d := d
		ops := append(c09Full(d), c09Numbers(d, 90)...)
		for i := range ops {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s first use by two, #%d %s", d, i, &ops[i]), Fresh: true, Run: func(c *Ctx) {
				n := 40
				if ops[i].N >= 90 || len(ops[i].V) >= 90 || len(ops[i].D) >= 90 {
					n = 900
				}
				cold(c, &solo{d, 0, n, []Op{ops[i]}}, &solo{d, 0, n, []Op{ops[i]}})
			}})
		}
		if !thorough {
			continue
		}
		small := c09Small(d)
		for i := range ops {
			for j := range small {
				a, b := &ops[i], &small[j]
				if a.N >= 90 || len(a.V) >= 90 || len(a.D) >= 90 {
					continue
				}
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s first use by two, #%d %s and %s", d, i, a, b), Fresh: true, Run: func(c *Ctx) {
					cold(c, &solo{d, 0, 40, []Op{*a}}, &solo{d, 0, 40, []Op{*b}})
				}})
			}
		}
	}
	return u
}

// c09Third lets a third buffer be used, and dropped, before each run of two little ones.
func c09Third(thorough bool) []engine.Unit {
	var u []engine.Unit
	for _, d := range impl.All {
		d := d
		third := filter(d, Op{K: impl.KReset}, Op{K: impl.KGrow, N: 30}, Op{K: impl.KTruncL, N: 16}, Op{K: impl.KTruncR, N: 16}, Op{K: impl.KTruncR, N: 3}, sized(Op{K: impl.KReadNum, Num: num(d, 4, false)}, 3, 0), sized(Op{K: impl.KReadBytes}, 9, 0), Op{K: impl.KFlipAll}, Op{K: impl.KReadBits, N: 60})
		la := filter(d, Op{K: impl.KGrow, N: 4}, Op{K: impl.KGrow, N: 20}, Op{K: impl.KReset}, Op{K: impl.KSetAll}, Op{K: impl.KTruncR, N: 1}, sized(Op{K: impl.KWriteBytes, Off: 1}, 2, 3), sized(Op{K: impl.KReadNum, Num: num(d, 2, false)}, 1, 0))
		na := 2
		if thorough {
			na = 3
		}
		orders := merges(na, 2)
		for t := range third {
			for _, st := range [][2]int{{5, 0}, {4, 8}} {
				st := st
				first := &solo{d, 0, 16, third[t : t+1]}
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s little, from %s, a third did %s", d, soloWays[st[0]], &third[t]), Fresh: true, Run: func(c *Ctx) {
					b0 := fill(st[1], 1)
					list := func(n int) (l []*solo, k []string) {
						sequences(len(la), n, nil, func(idx []int) {
							s := &solo{d: d, how: st[0], n: st[1]}
							for _, i := range idx {
								s.ops = append(s.ops, la[i])
							}
							if specified(d, b0, s.ops) {
								l, k = append(l, s), append(k, alone(c, s))
							}
						})
						return
					}
					as, ka := list(na)
					bs, kb := list(2)
					for i := range as {
						for j := range bs {
							for _, o := range orders {
								alone(c, first)
								merged(c, as[i], bs[j], ka[i], kb[j], o)
							}
						}
					}
				}})
			}
		}
	}
	return u
}

// c09Full lists operations, every kind and number type, valid at small cursors.
func c09Full(d impl.Desc) []Op {
	var out []Op
	for _, o := range c16Ops(d) {
		if d.Mini && o.K == impl.KReset {
			continue
		}
		out = append(out, o)
	}
	out = append(out, filter(d, Op{K: impl.KTruncL, N: 2}, Op{K: impl.KTruncR, N: 3})...)
	if !d.Mini {
		out = append(out, Op{K: impl.KReadBits, Off: 990, N: 4}, Op{K: impl.KWriteByte, Off: -1}, Op{K: impl.KGrow, N: -1})
	}
	return out
}

func c09Small(d impl.Desc) []Op {
	out := filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), sized(Op{K: impl.KReadBytes}, 3, 0), sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 2, 0), sized(Op{K: impl.KReadNum, Num: num(d, 4, false), Off: 3}, 2, 0), sized(Op{K: impl.KReadNum, Num: num(d, 8, false), Off: 1}, 1, 0),
		sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Off: 1}, 2, 7), sized(Op{K: impl.KWriteNum, Num: num(d, 2, false), Off: 2, Next: true}, 1, 8), Op{K: impl.KSetBits, Data: 0x2D, N: 6, Next: true}, Op{K: impl.KReadBits, N: 7, Off: 9}, Op{K: impl.KFlipAll}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KBytes})
	if d.Ver == 3 {
		out = append(out, sized(Op{K: impl.KReadNum, Num: impl.Num{K: 'F', W: 8}, Off: 1}, 1, 0), sized(Op{K: impl.KReadNum, Num: impl.Num{K: 'I', W: 2}, Off: 1}, 2, 0))
	}
	return out
}

// c09Numbers lists a read and a write of n numbers of every type.
func c09Numbers(d impl.Desc, n int64) []Op {
	var out []Op
	for _, t := range accessKinds(d) {
		if t.K == impl.KReadNum || t.K == impl.KWriteNum || t.K == impl.KReadBytes || t.K == impl.KWriteBytes {
			o := sized(t, n, 6)
			o.Off = 1
			out = append(out, o)
		}
	}
	return out
}

// merges lists the orders in which na steps of buffer 0 and nb steps of buffer 1 can be merged; both buffers are made
// first, or all of one buffer's steps come before the other is made.
func merges(na, nb int) [][]int8 {
	var out [][]int8
	var rec func(p []int8, a, b int)
	rec = func(p []int8, a, b int) {
		if a == 0 && b == 0 {
			out = append(out, append([]int8{}, p...))
			return
		}
		if a > 0 {
			rec(append(p, 0), a-1, b)
		}
		if b > 0 {
			rec(append(p, 1), a, b-1)
		}
	}
	rec([]int8{-1, -2}, na, nb)
	one := []int8{-1}
	for i := 0; i < na; i++ {
		one = append(one, 0)
	}
	one = append(one, -2)
	for i := 0; i < nb; i++ {
		one = append(one, 1)
	}
	return append(out, one)
}

// specified says whether all operations of a buffer are specified.
func specified(d impl.Desc, b []byte, ops []Op) bool {
	m := model.S{B: clone(b)}
	for i := range ops {
		if out := model.Apply(d, &m, &ops[i]); out.V == model.Unspec || out.Loose {
			return false
		}
	}
	return true
}

// c09Little runs small buffers, from empty ones on, through changes of capacity and writes.
func c09Little(da, db impl.Desc, thorough bool) []engine.Unit {
	alphabet := func(d impl.Desc, few bool) []Op {
		if few {
			return filter(d, Op{K: impl.KGrow, N: 4}, Op{K: impl.KReset}, Op{K: impl.KSetAll}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KTruncL, N: 2}, sized(Op{K: impl.KWriteBytes, Off: 1}, 2, 3))
		}
		return filter(d, Op{K: impl.KGrow, N: 1}, Op{K: impl.KGrow, N: 4}, Op{K: impl.KGrow, N: 20}, sized(Op{K: impl.KWriteBytes}, 1, 3), sized(Op{K: impl.KWriteBytes, Off: 2}, 2, 4), sized(Op{K: impl.KWriteNum, Num: num(d, 4, true)}, 1, 5),
			Op{K: impl.KSetAll}, sized(Op{K: impl.KReadBytes}, 2, 0), sized(Op{K: impl.KReadNum, Num: num(d, 2, false)}, 1, 0), Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KReset}, Op{K: impl.KBytes})
	}
	type start struct{ how, n int }
	starts := []start{{4, 8}, {5, 0}}
	if thorough {
		starts = append(starts, start{0, 2})
		starts = append(starts, start{0, 8}, start{1, 6}, start{4, 2}, start{0, 64}, start{4, 33})
	}
	var u []engine.Unit
	if !thorough && (da.Ver > db.Ver || da.Ver == db.Ver && da.Mini && !db.Mini) {
		return nil
	}
	for _, few := range []bool{false, true} {
		few := few
		na := 2
		if few && (thorough || da == db) {
			na = 3
		}
		if !few && !thorough && da != db {
			continue
		}
		la, lb := alphabet(da, few), alphabet(db, few)
		orders := merges(na, 2)
		for _, st := range starts {
			st := st
			for i := range la {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s beside %s, little, from %s, %d and 2 from #%d", da, db, soloWays[st.how], na, i), Run: func(c *Ctx) {
					b0 := fill(st.n, 1)
					var bs []*solo
					var kb []string
					sequences(len(lb), 2, nil, func(idx []int) {
						b := &solo{db, st.how, st.n, []Op{lb[idx[0]], lb[idx[1]]}}
						if specified(db, b0, b.ops) {
							bs, kb = append(bs, b), append(kb, alone(c, b))
						}
					})
					sequences(len(la), na, []int{i}, func(idx []int) {
						a := &solo{d: da, how: st.how, n: st.n}
						for _, k := range idx {
							a.ops = append(a.ops, la[k])
						}
						if !specified(da, b0, a.ops) {
							return
						}
						ka := alone(c, a)
						for k := range bs {
							for _, o := range orders {
								merged(c, a, bs[k], ka, kb[k], o)
							}
						}
					})
				}})
			}
		}
	}
	return u
}

func c09Units(tier string) []engine.Unit {
	var u []engine.Unit
	thorough := tier == "thorough"
	bound := 1
	if thorough {
		bound = 2
	}
	u = append(u, c09Cold(thorough)...)
	u = append(u, c09Third(thorough)...)
	orders3 := [][]int8{{-1, -2, 0, 1, 0}, {-2, -1, 1, 0, 0}, {-1, 0, -2, 1, 0}, {-1, 0, 0, -2, 1}}
	orders4 := [][]int8{{-1, -2, 0, 0, 1, 1}, {-1, -2, 0, 1, 0, 1}, {-1, -2, 0, 1, 1, 0}, {-1, -2, 1, 0, 0, 1}, {-1, -2, 1, 0, 1, 0}, {-1, -2, 1, 1, 0, 0}}
	for _, da := range impl.All {
		for _, db := range impl.All {
			da, db := da, db
			fa, fb := c09Full(da), c09Full(db)
			if da != db && !thorough {
				fa, fb = c09Small(da), c09Small(db)
			}
			n := 40
			for how := range soloWays[:5] {
				how := how
				if how > 0 {
					fa, fb = c09Small(da), c09Small(db)
				}
				if how != 0 && how != 2 && da != db && !thorough {
					continue
				}
				fa, fb, second := fa, fb, fa
				if !thorough {
					second = c09Small(da)
				}
				for i := range fa {
					i := i
					u = append(u, engine.Unit{Name: fmt.Sprintf("%s beside %s, from %s, #%d %s", da, db, soloWays[how], i, &fa[i]), Run: func(c *Ctx) {
						sb := make([]*solo, len(fb))
						kb := make([]string, len(fb))
						for k := range fb {
							sb[k] = &solo{db, how, n, []Op{fb[k]}}
							kb[k] = alone(c, sb[k])
						}
						for j := range second {
							a := &solo{da, how, n, []Op{fa[i], second[j]}}
							ka := alone(c, a)
							for k := range fb {
								for _, o := range orders3 {
									merged(c, a, sb[k], ka, kb[k], o)
								}
							}
						}
					}})
				}
			}
			sa, sb := c09Small(da), c09Small(db)
			if da.Ver <= db.Ver {
				sa, sb := sa, sb
				if !thorough {
					sa, sb = sa[:10], sb[:10]
				}
				for i := range sa {
					i := i
					u = append(u, engine.Unit{Name: fmt.Sprintf("%s two and two with %s, %s", da, db, &sa[i]), Run: func(c *Ctx) {
						var bs []*solo
						var kb []string
						sequences(len(sb), 2, nil, func(idx []int) {
							b := &solo{db, 0, n, []Op{sb[idx[0]], sb[idx[1]]}}
							bs, kb = append(bs, b), append(kb, alone(c, b))
						})
						for j := range sa {
							a := &solo{da, 0, n, []Op{sa[i], sa[j]}}
							ka := alone(c, a)
							for k := range bs {
								for _, o := range orders4 {
									merged(c, a, bs[k], ka, kb[k], o)
								}
							}
						}
					}})
				}
			}
			u = append(u, c09Little(da, db, thorough)...)
			la, lb := append(c13Long(da), sa...), append(c13Long(db), sb...)
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s long transfers beside %s", da, db), Run: func(c *Ctx) {
				for i := range la {
					if la[i].K == impl.KReset {
						continue
					}
					for j := range la {
						if long := la[i].N > 60 || la[j].N > 60; !long && i >= len(la)-len(sa) && j >= len(la)-len(sa) {
							continue
						}
						a := &solo{da, 0, 1300, []Op{la[i], la[j]}}
						ka := alone(c, a)
						for k := range lb {
							b := &solo{db, 0, 1300, []Op{lb[k]}}
							if !(k < len(lb)-len(sb)) && k%5 != 0 {
								continue
							}
							merged(c, a, b, ka, alone(c, b), orders3[0])
						}
					}
				}
			}})
			if da.Ver > db.Ver || da.Ver == db.Ver && da.Mini && !db.Mini {
				continue
			}
			for _, size := range []int64{5000, 70000} {
				size := size
				ha, hb := c13Huge(da, size), c13Huge(db, size)
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s and %s, operations on %d bytes", da, db, size), Run: func(c *Ctx) {
					coarse(func() {
						for i := range ha {
							for j := range hb {
								if ha[i].K == impl.KReset || hb[j].K == impl.KReset || size > 5000 && ha[i].K != hb[j].K && !thorough {
									continue
								}
								a, b := &solo{da, 0, int(size) + 60, []Op{ha[i]}}, &solo{db, 0, int(size) + 60, []Op{hb[j]}}
								ka, kb := alone(c, a), alone(c, b)
								parallel(c, a, b, ka, kb, bound-1)
								if da == db && i != j {
									continue
								}
								merged(c, a, b, ka, kb, []int8{-1, -2, 0, 1})
							}
						}
					})
				}})
			}
			// transfers of many numbers of every type
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s and %s, many numbers of every type", da, db), Run: func(c *Ctx) {
				coarse(func() {
					for _, n := range []int64{90, 1100, 9000} {
						wa, wb := c09Numbers(da, n), c09Numbers(db, n)
						for i := range wa {
							for j := range wb {
								x, y := wa[i].Num, wb[j].Num
								if x.W != y.W || x.BE != y.BE || da == db && (x.K != y.K || j < i) || n > 1100 && x.K == y.K && wa[i].K != wb[j].K {
									continue
								}
								a, b := &solo{da, 0, int(n)*8 + 60, []Op{wa[i]}}, &solo{db, 0, int(n)*8 + 60, []Op{wb[j]}}
								ka, kb := alone(c, a), alone(c, b)
								parallel(c, a, b, ka, kb, 0)
								merged(c, a, b, ka, kb, []int8{-1, -2, 0, 1})
							}
						}
					}
				})
			}})
			// in parallel
			pa, pb := c09Full(da), c09Full(db)
			if da != db && !thorough {
				pa, pb = c09Small(da), c09Small(db)
			}
			pa, pb = append(pa[:len(pa):len(pa)], c13Long(da)...), append(pb[:len(pb):len(pb)], c13Long(db)...)
			for i := range pa {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s and %s in parallel, #%d %s", da, db, i, &pa[i]), Run: func(c *Ctx) {
					for j := range pb {
						if da == db && j < i {
							continue
						}
						how, n := 0, 40
						if i >= len(pa)-len(c13Long(da)) || j >= len(pb)-len(c13Long(db)) {
							n = 700
							if i < len(pa)-len(c13Long(da)) && (i+j)%8 != 0 {
								continue
							}
						} else if (i+j)%4 == 1 {
							how = 2
						} else if (i+j)%4 == 2 {
							how = 3
						}
						a, b := &solo{da, how, n, []Op{pa[i]}}, &solo{db, how, n, []Op{pb[j]}}
						bd := bound
						if n > 40 || da == db && !thorough && (i+j)%3 != 0 {
							bd = bound - 1
						}
						parallel(c, a, b, alone(c, a), alone(c, b), bd)
					}
				}})
			}
		}
	}
	return u
}
