package checks

import (
	"fmt"

	"verifmc/engine"
	"verifmc/impl"
	"verifmc/vsched"
)

func init() {
	register(engine.Check{Prop: "C14",
		Bounds: "v1 and v2 checked buffers, built with the race detector, under a controlled scheduler with a scheduling point before every statement of the packages: every pair of operations (all kinds, both forms, every kind of refusal included) in two goroutines, every pair of sequences of two operations and every triple from a reduced alphabet, and every operation against a goroutine that holds the embedded lock and queries the buffer twice; all schedules with at most 2 (sequences and triples: 1; thorough: 3 and 2) preemptions; every pair of operations on 5000 and 70000 bytes (thorough also 1100, 17000, 300000) with choices at synchronization operations only; in every schedule all calls must finish, the detector must stay silent, and the buffer must accept a lock, an unlock and further operations afterwards",
		Assume: []string{"byte slices returned as live views are not looked into while others run (except by the holder of the lock)", "the happens-before race detector of the Go toolchain judges each explored schedule by the synchronization of the packages alone; the scheduler's own hand-offs are hidden from it"},
		Units:  c14Units})
}

// holder is what a goroutine that holds the lock saw.
type holder struct {
	fail string
}

func (h *holder) body(x impl.Inst, times int) func() {
	return func() {
		var r impl.Ret
		x.Do(&Op{K: impl.KLock}, &r)
		if r.Panicked {
			h.fail = "Lock: " + impl.PanicText(&r)
			return
		}
		defer func() {
			x.Do(&Op{K: impl.KUnlock}, &r)
			if r.Panicked && h.fail == "" {
				h.fail = "Unlock: " + impl.PanicText(&r)
			}
		}()
		var first impl.State
		for i := 0; i < times; i++ {
			var st impl.State
			if f := impl.Observe(x, &st); f != "" {
				h.fail = "query by the holder of the lock: " + f
				return
			}
			if i == 0 {
				first = st.Copy()
			} else if !st.Same(&first) {
				h.fail = "the buffer changed under the holder of its lock: " + first.Diff(st)
				return
			}
			// the view taken first must not change either
			vsched.P()
		}
	}
}

// usable checks that nothing of the buffer stays locked.
func usable(c *Ctx, x impl.Inst) string {
	if s := lockable(c, x); s != "" {
		return "afterwards the lock cannot be taken: " + s
	}
	for _, o := range [...]Op{{K: impl.KSeekByte, Off: 0}, {K: impl.KGrow, N: 1}, {K: impl.KWriteByte, Data: 1}, {K: impl.KReadByte}, {K: impl.KSetBit}, {K: impl.KReadBit}, {K: impl.KByteCap}, {K: impl.KByteOff}} {
		r := c.Do(x, &o)
		if r.Panicked && impl.ErrClass(r.Panic) == "deadlock" {
			return fmt.Sprintf("afterwards %s: %s", &o, impl.PanicText(&r))
		}
	}
	return lockable(c, x)
}

func exploreRaces(c *Ctx, s *scenario, bound int, withHolder bool) {
	c.State()
	var r run
	var st vsched.Stats
	var h *holder
	mk := func() []func() {
		b := s.bodies(&r)
		if withHolder {
			h = &holder{}
			b = append(b, h.body(r.x, 3))
		}
		return b
	}
	errs := vsched.RaceErrors()
	fail, sched := vsched.Explore(mk, bound, maxSchedules, maxSteps, &st, func(verdict string) string {
		if verdict != "" {
			return verdict
		}
		if vsched.RaceErrors() > errs {
			return "data race:\n" + raceReport()
		}
		if h != nil && h.fail != "" {
			return h.fail
		}
		c.CheckDeadline()
		for i := range r.calls {
			for k := range r.calls[i] {
				if a := &r.calls[i][k].r; a.Panicked && impl.ErrClass(a.Panic) == "deadlock" {
					return fmt.Sprintf("%s: %s", &s.threads[i][k], impl.PanicText(a))
				}
			}
		}
		return usable(c, r.x)
	})
	account(c, &st)
	if fail != "" {
		c.Schedule = sched
		steps := s.steps()
		if withHolder {
			steps = append(steps, "another goroutine: Lock; all queries; all queries; all queries; Unlock")
		}
		c.Fail(fail, steps...)
	}
	c.Trace(s.String)
}

func c14Units(tier string) []engine.Unit {
	impl.Concurrent = true
	var u []engine.Unit
	bound, pairs := 1, 2
	if tier == "thorough" {
		bound, pairs = 2, 3
	}
	for _, d := range []impl.Desc{{Ver: 1}, {Ver: 2}} {
		d := d
		ops := append(concOps(d), refusedOps(d)...)
		red := c13Reduced(d)
		for si, s := range concStarts {
			s := s
			for i := range ops {
				i := i
				{
					u = append(u, engine.Unit{Name: fmt.Sprintf("%s %s against a lock holder from #%d", d, &ops[i], si), Run: func(c *Ctx) {
						exploreRaces(c, s.with(d, [][]Op{{ops[i]}}), pairs, true)
						exploreRaces(c, s.with(d, [][]Op{{ops[i], ops[i]}}), bound, true)
					}})
				}
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s from #%d", d, &ops[i], si), Run: func(c *Ctx) {
					for j := i; j < len(ops); j++ {
						exploreRaces(c, s.with(d, [][]Op{{ops[i]}, {ops[j]}}), pairs, false)
					}
				}})
			}
		}
		rest, refused, red0 := concRest(d), refusedAll(d), concSome(d)
		for i := range rest {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s", d, &rest[i]), Run: func(c *Ctx) {
				exploreRaces(c, concStarts[0].with(d, [][]Op{{rest[i]}}), pairs, true)
				for _, o := range append(append([]Op(nil), rest[i:]...), red0...) {
					exploreRaces(c, concStarts[0].with(d, [][]Op{{rest[i]}, {o}}), pairs, false)
				}
			}})
		}
		for j := range refused {
			j := j
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s refused %s", d, &refused[j]), Run: func(c *Ctx) {
				exploreRaces(c, concStarts[1].with(d, [][]Op{{refused[j]}}), pairs, true)
				for i := range red0 {
					exploreRaces(c, concStarts[1].with(d, [][]Op{{red0[i]}, {refused[j]}}), pairs, false)
				}
			}})
		}
		for si, s := range roomStarts {
			s := s
			for i := range ops {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s %s against a lock holder, room %d", d, &ops[i], si), Run: func(c *Ctx) {
					exploreRaces(c, s.with(d, [][]Op{{ops[i]}}), pairs, true)
				}})
			}
			for i := range red0 {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs with %s, room %d", d, &red0[i], si), Run: func(c *Ctx) {
					for j := range ops {
						exploreRaces(c, s.with(d, [][]Op{{red0[i]}, {ops[j]}}), pairs, false)
					}
				}})
			}
		}
		sizes := []int64{5000, 70000}
		if tier == "thorough" {
			sizes = []int64{1100, 5000, 17000, 70000, 300000}
		}
		for _, n := range sizes {
			n := n
			huge := c13Huge(d, n)
			for i := range huge {
				i := i
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s pairs of operations on %d bytes with #%d", d, n, i), Run: func(c *Ctx) {
					coarse(func() {
						for j := i; j < len(huge); j++ {
							exploreRaces(c, concStart{n: int(n)}.with(d, [][]Op{{huge[i]}, {huge[j]}}), 1, false)
						}
					})
				}})
			}
		}
		k := len(red)
		if tier != "thorough" {
			k = 7
		}
		s := concStarts[1]
		bad := []Op{{K: impl.KWriteByte, Off: -1}, {K: impl.KSetBits, Off: 990, N: 4, Data: 9}}
		red2 := append(append([]Op(nil), red[:k]...), bad...)
		m := len(red2)
		for i := range red2 {
			i := i
			u = append(u, engine.Unit{Name: fmt.Sprintf("%s two and two with %s", d, &red2[i]), Run: func(c *Ctx) {
				sequences(m, 3, nil, func(idx []int) {
					if i*m+idx[0] > idx[1]*m+idx[2] {
						return
					}
					exploreRaces(c, s.with(d, [][]Op{{red2[i], red2[idx[0]]}, {red2[idx[1]], red2[idx[2]]}}), bound, false)
				})
			}})
		}
		red3 := append(append([]Op(nil), red...), bad...)
		for i := range red3 {
			for j := i; j < len(red3); j++ {
				i, j := i, j
				u = append(u, engine.Unit{Name: fmt.Sprintf("%s three with %s and %s", d, &red3[i], &red3[j]), Run: func(c *Ctx) {
					for k := j; k < len(red3); k++ {
						exploreRaces(c, s.with(d, [][]Op{{red3[i]}, {red3[j]}, {red3[k]}}), bound, false)
					}
				}})
			}
		}
	}
	return u
}
