package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/model"
	"verifmc/vsched"
)

func init() {
	register(engine.Check{Prop: "C16",
		Bounds: "v1 and v2 mini buffers, built with the race detector, under a controlled scheduler with a scheduling point before every statement of the packages: every operation alone with another goroutine trying the lock at every point (free before: every try must succeed; held before: none may), requests that cannot be served (out of range, no bit, impossible sizes and counts) and operations on 5000 and 70000 bytes included (choices at synchronization operations only); locked groups in two goroutines: every pair of single operations, every pair of groups of two operations from a reduced alphabet, every two groups against two; and in three goroutines every triple of single operations from a reduced alphabet; all schedules with at most 2 (groups of several operations and three goroutines: 1; thorough: 3 and 2) preemptions; every outcome must be that of some order of the groups, with no data race and the lock free afterwards",
		Assume: []string{"only histories that the checked buffer would accept in every order are considered", "the happens-before race detector of the Go toolchain judges each explored schedule by the synchronization of the packages alone"},
		Units:  c16Units})
}

var opLock, opUnlock = Op{K: impl.KLock}, Op{K: impl.KUnlock}

func group(ops ...Op) []Op {
	return append(append([]Op{opLock}, ops...), opUnlock)
}

// c16Ops lists the operations of a mini buffer, valid at small cursors of a buffer of 40 bytes.
func c16Ops(d impl.Desc) []Op {
	var out []Op
	for _, o := range concOps(d) {
		if o.K != impl.KReset {
			out = append(out, o)
		}
	}
	return append(out, concRest(d)...)
}

func c16Reduced(d impl.Desc) []Op {
	return filter(d,
		sized(Op{K: impl.KWriteBytes, Next: true}, 2, 3), sized(Op{K: impl.KReadNum, Num: num(d, 2, true), Next: true}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(d, 4, false), Off: 1}, 1, 7),
		Op{K: impl.KSetBits, Data: 0x2D, N: 6, Next: true}, Op{K: impl.KReadBits, N: 7, Off: 9}, Op{K: impl.KFlipAll}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KRefresh}, Op{K: impl.KAlignBit}, Op{K: impl.KByteOff}, Op{K: impl.KByteCap})
}

// lockedRun is one execution of locked groups.
type lockedRun struct {
	x   impl.Inst
	ret [][]impl.Ret
}

// keep makes the result independent of the buffer.
func keep(r *impl.Ret) {
	if r.B != nil {
		r.B = clone(r.B)
		for _, b := range r.B {
			r.U = append(r.U, uint64(b))
		}
	}
}

func (r *lockedRun) key(s *scenario, st *impl.State) string {
	x := run{x: r.x, calls: make([][]call, len(r.ret))}
	for i := range r.ret {
		for k := range r.ret[i] {
			x.calls[i] = append(x.calls[i], call{r: r.ret[i][k]})
		}
	}
	return x.key(st)
}

// groupsOf returns the boundaries of the locked groups of a thread.
func groupsOf(ops []Op) [][2]int {
	var out [][2]int
	start := 0
	for i := range ops {
		if ops[i].K == impl.KUnlock {
			out = append(out, [2]int{start, i + 1})
			start = i + 1
		}
	}
	return out
}

// groupOrders runs the groups in every order; ok is false if some order is outside what mini buffers accept.
func (s *scenario) groupOrders(c *Ctx) (keys map[string]bool, ok bool) {
	keys = map[string]bool{}
	groups := make([][][2]int, len(s.threads))
	for i := range s.threads {
		groups[i] = groupsOf(s.threads[i])
	}
	var rec func(done []int, seq []int) bool
	rec = func(done, seq []int) bool {
		leaf := true
		for t := range groups {
			if done[t] < len(groups[t]) {
				leaf = false
				d := append([]int(nil), done...)
				d[t]++
				if !rec(d, append(append([]int(nil), seq...), t)) {
					return false
				}
			}
		}
		if !leaf {
			return true
		}
		r := lockedRun{x: s.mk(), ret: make([][]impl.Ret, len(s.threads))}
		for i := range s.threads {
			r.ret[i] = make([]impl.Ret, len(s.threads[i]))
		}
		m := model.S{B: fill(s.n, 1), Off: s.off, Boff: s.boff}
		next := make([]int, len(groups))
		for _, t := range seq {
			g := groups[t][next[t]]
			next[t]++
			for k := g[0]; k < g[1]; k++ {
				o := &s.threads[t][k]
				if o.K != impl.KLock && o.K != impl.KUnlock {
					if out := model.Apply(s.d, &m, o); out.V != model.OK || out.Loose {
						return false
					}
				}
				c.DoR(r.x, o, &r.ret[t][k])
				if r.ret[t][k].Panicked && (o.K == impl.KLock || o.K == impl.KUnlock) {
					c.Fail(fmt.Sprintf("one group after the other: %s: %s", o, impl.PanicText(&r.ret[t][k])), s.steps()...)
				}
				keep(&r.ret[t][k])
			}
		}
		st := c.Obs(r.x)
		keys[r.key(s, &st)] = true
		return true
	}
	return keys, rec(make([]int, len(groups)), nil)
}

// indivisible explores locked groups.
func indivisible(c *Ctx, s *scenario, bound int) {
	keys, ok := s.groupOrders(c)
	if !ok {
		return
	}
	c.State()
	var r lockedRun
	var st vsched.Stats
	outcomes := map[string]bool{}
	mk := func() []func() {
		r = lockedRun{x: s.mk(), ret: make([][]impl.Ret, len(s.threads))}
		var out []func()
		for i := range s.threads {
			ops, rets, x := s.threads[i], make([]impl.Ret, len(s.threads[i])), r.x
			r.ret[i] = rets
			out = append(out, func() {
				for k := range ops {
					vsched.P()
					x.Do(&ops[k], &rets[k])
					keep(&rets[k])
				}
			})
		}
		return out
	}
	errs := vsched.RaceErrors()
	fail, sched := vsched.Explore(mk, bound, maxSchedules, maxSteps, &st, func(verdict string) string {
		if verdict != "" {
			return verdict
		}
		if vsched.RaceErrors() > errs {
			return "data race:\n" + raceReport()
		}
		c.CheckDeadline()
		if f := lockable(c, r.x); f != "" {
			return "afterwards the lock cannot be taken: " + f
		}
		state := c.Obs(r.x)
		k := r.key(s, &state)
		outcomes[k] = true
		if !keys[k] {
			f := "no order of the groups explains the outcome " + k
			for o := range keys {
				f += "\n      some order gives " + o
			}
			return f
		}
		return ""
	})
	account(c, &st)
	c.Outcomes += int64(len(outcomes))
	if fail != "" {
		c.Schedule = sched
		c.Fail(fail, s.steps()...)
	}
	c.Trace(s.String)
}

// tryLock is offered by the embedded lock.
type tryLock interface {
	TryLock() bool
	Unlock()
}

// lockFree runs o while another goroutine tries the lock at every point.
func lockFree(c *Ctx, s *scenario, o *Op, held bool) {
	m := model.S{B: fill(s.n, 1), Off: s.off, Boff: s.boff}
	if out := model.Apply(s.d, &m, o); out.V != model.OK {
		return
	}
	lockAside(c, s, o, held)
}

// lockAside is lockFree for any request, whatever becomes of it.
func lockAside(c *Ctx, s *scenario, o *Op, held bool) {
	c.State()
	var x impl.Inst
	var r, l impl.Ret
	var got bool
	var st vsched.Stats
	errs := vsched.RaceErrors()
	mk := func() []func() {
		x = s.mk()
		r, l, got = impl.Ret{}, impl.Ret{}, false
		if held {
			x.Do(&opLock, &l)
		}
		t, ok := x.Ptr().(tryLock)
		if !ok {
			c.Fail("the mini buffer has no TryLock", s.d.String())
		}
		x := x
		return []func(){
			func() { x.Do(o, &r) },
			func() {
				got = t.TryLock()
				if got {
					t.Unlock()
				}
			},
		}
	}
	fail, sched := vsched.Explore(mk, 2, maxSchedules, maxSteps, &st, func(verdict string) string {
		switch {
		case verdict != "":
			return verdict
		case vsched.RaceErrors() > errs:
			return "data race:\n" + raceReport()
		case l.Panicked:
			return "Lock: " + impl.PanicText(&l)
		case r.Panicked && impl.ErrClass(r.Panic) == "deadlock":
			return fmt.Sprintf("%s: %s", o, impl.PanicText(&r))
		case held && got:
			return "the lock, held before, was free during or after the operation"
		case !held && !got:
			return "the lock, which no one took, was held during or after the operation"
		}
		if held {
			if x.Do(&opUnlock, &l); l.Panicked {
				return "Unlock by the holder after the operation: " + impl.PanicText(&l)
			}
		}
		if f := lockable(c, x); f != "" {
			return "afterwards the lock cannot be taken: " + f
		}
		return ""
	})
	account(c, &st)
	if fail != "" {
		c.Schedule = sched
		c.Fail(fail, fmt.Sprintf("%s over %d bytes, byte cursor %d, bit cursor %d, lock held by a goroutine: %v", s.d, s.n, s.off, s.boff, held), o.String(), "meanwhile in another goroutine: TryLock")
	}
	c.Trace(func() string { return fmt.Sprintf("%s (lock held: %v) with TryLock elsewhere", o, held) })
}

func c16Units(tier string) []engine.Unit {
	var u []engine.Unit
	bound, pairs := 1, 2
	if tier == "thorough" {
		bound, pairs = 2, 3
	}
	starts := []concStart{{40, 2, 5, 0}, {64, 9, 80, 0}, {40, 1, 9, 64}}
	for _, d := range []impl.Desc{{Ver: 1, Mini: true}, {Ver: 2, Mini: true}} {
		d := d
		ops := c16Ops(d)
		red := c16Reduced(d)
		all := append(everyOp(d, 3), c13Long(d)...)
		for _, held := range []bool{false, true} {
			held := held
			for i := range ops {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s alone, %s, lock held: %v", d, &ops[i], held), Run: func(c *Ctx) {
					for _, s := range starts {
						lockFree(c, s.with(d, nil), &ops[i], held)
					}
				}})
			}
			for i := range all {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s alone, #%d %s at 0, lock held: %v", d, i, &all[i], held), Run: func(c *Ctx) {
					for _, n := range []int{8, 700} {
						lockFree(c, &scenario{d: d, n: n}, &all[i], held)
					}
				}})
			}
			sizes := []int64{5000, 70000}
			if tier == "thorough" {
				sizes = []int64{1100, 5000, 17000, 70000, 300000, 1100000}
			}
			for _, n := range sizes {
				n := n
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s alone, operations on %d bytes, lock held: %v", d, n, held), Run: func(c *Ctx) {
					coarse(func() {
						vsched.Within = true
						for _, o := range c13Huge(d, n) {
							o := o
							lockFree(c, &scenario{d: d, n: int(n)}, &o, held)
						}
					})
				}})
			}
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s alone, requests it cannot serve, lock held: %v", d, held), Run: func(c *Ctx) {
				for _, o := range append(refusedOps(d), refusedAll(d)...) {
					o := o
					for _, n := range []int{0, 4, 40} {
						lockAside(c, &scenario{d: d, n: n}, &o, held)
					}
				}
			}})
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s alone, zero lengths, lock held: %v", d, held), Run: func(c *Ctx) {
				for _, o := range zeroOps(d) {
					o := o
					lockFree(c, &scenario{d: d, n: 4, off: 2, boff: 9}, &o, held)
				}
			}})
		}
		for si, s := range starts {
			s := s
			for i := range ops {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s groups with %s from #%d", d, &ops[i], si), Run: func(c *Ctx) {
					for j := i; j < len(ops); j++ {
						indivisible(c, s.with(d, [][]Op{group(ops[i]), group(ops[j])}), pairs)
					}
				}})
			}
		}
		s := starts[0]
		k := len(red)
		for i := range red {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s groups of two with %s", d, &red[i]), Run: func(c *Ctx) {
				sequences(k, 3, nil, func(idx []int) {
					if i*k+idx[0] > idx[1]*k+idx[2] {
						return
					}
					indivisible(c, s.with(d, [][]Op{group(red[i], red[idx[0]]), group(red[idx[1]], red[idx[2]])}), bound)
					if tier == "thorough" || i < 5 && idx[0] < 5 && idx[1] < 5 && idx[2] < 5 {
						indivisible(c, s.with(d, [][]Op{append(group(red[i]), group(red[idx[0]])...), append(group(red[idx[1]]), group(red[idx[2]])...)}), bound)
					}
				})
			}})
			for j := i; j < len(red); j++ {
				i, j := i, j
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s three groups with %s and %s", d, &red[i], &red[j]), Run: func(c *Ctx) {
					for k := j; k < len(red); k++ {
						indivisible(c, s.with(d, [][]Op{group(red[i]), group(red[j]), group(red[k])}), bound)
					}
				}})
			}
		}
	}
	return u
}
