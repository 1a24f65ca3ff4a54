package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/impl"
	"verifmc/vsched"
)

// scenario is a set of threads, each with a sequence of operations on one shared buffer.
type scenario struct {
	d         impl.Desc
	n         int
	off, boff int64
	room      int
	threads   [][]Op
}

func (s *scenario) steps() []string {
	out := []string{fmt.Sprintf("%s over %d bytes with room for %d, byte cursor %d, bit cursor %d", s.d, s.n, s.room, s.off, s.boff)}
	for i, t := range s.threads {
		var l []string
		for j := range t {
			l = append(l, t[j].String())
		}
		out = append(out, fmt.Sprintf("goroutine %d: %s", i, strings.Join(l, "; ")))
	}
	return out
}

func (s *scenario) String() string { return strings.Join(s.steps(), " | ") }

func (s *scenario) mk() impl.Inst {
	if s.room == 0 {
		return mk(s.d, fill(s.n, 1), s.off, s.boff)
	}
	x := impl.New(s.d, fill(s.n+s.room, 1)[:s.n])
	place(x, s.off, s.boff)
	return x
}

// call is one executed operation.
type call struct {
	inv, res int
	r        impl.Ret
}

// run is one execution of a scenario.
type run struct {
	x     impl.Inst
	calls [][]call
}

func (s *scenario) bodies(r *run) []func() {
	r.x = s.mk()
	r.calls = make([][]call, len(s.threads))
	var out []func()
	for i := range s.threads {
		i := i
		ops := s.threads[i]
		calls := make([]call, len(ops))
		r.calls[i] = calls
		x := r.x
		out = append(out, func() {
			for k := range ops {
				calls[k].inv = vsched.Tick()
				x.Do(&ops[k], &calls[k].r)
				calls[k].res = vsched.Tick()
			}
		})
	}
	return out
}

// retKey describes a result; byte slices, which are live views, only by their length.
func retKey(b *strings.Builder, r *impl.Ret) {
	if r.Panicked {
		b.WriteString("!" + impl.ErrClass(r.Panic))
		return
	}
	if len(r.U) > 200 {
		fmt.Fprintf(b, "%d,%d,%d numbers that hash to %x", r.I, len(r.B), len(r.U), hashNums(r.U))
		return
	}
	fmt.Fprintf(b, "%d,%d,%x", r.I, len(r.B), r.U)
}

func hashNums(u []uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range u {
		h = (h ^ x) * 0x100000001B3
		h ^= h >> 31
	}
	return h
}

func hashBytes(u []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range u {
		h = (h ^ uint64(x)) * 0x100000001B3
	}
	return h
}

func (r *run) key(st *impl.State) string {
	var b strings.Builder
	for i := range r.calls {
		for k := range r.calls[i] {
			fmt.Fprintf(&b, "g%d.%d=", i, k)
			retKey(&b, &r.calls[i][k].r)
			b.WriteString(" ")
		}
	}
	if len(st.B) > 1000 {
		fmt.Fprintf(&b, "end=%d bytes that hash to %x off=%d boff=%d cap=%d bcap=%d", len(st.B), hashBytes(st.B), st.Off, st.Boff, st.Cap, st.BCap)
		return b.String()
	}
	fmt.Fprintf(&b, "end=%x off=%d boff=%d cap=%d bcap=%d", st.B, st.Off, st.Boff, st.Cap, st.BCap)
	return b.String()
}

// order is a one-at-a-time execution: which thread runs its next operation at each step.
type order struct {
	pos [][]int // place of each operation
	key string
}

// orders runs every one-at-a-time order of the scenario.
func (s *scenario) orders(c *Ctx) []order {
	var out []order
	total := 0
	for _, t := range s.threads {
		total += len(t)
	}
	var rec func(done []int, seq []int)
	rec = func(done, seq []int) {
		if len(seq) == total {
			var r run
			r.x = s.mk()
			r.calls = make([][]call, len(s.threads))
			o := order{pos: make([][]int, len(s.threads))}
			for i := range s.threads {
				r.calls[i] = make([]call, len(s.threads[i]))
				o.pos[i] = make([]int, len(s.threads[i]))
			}
			next := make([]int, len(s.threads))
			for p, t := range seq {
				k := next[t]
				next[t]++
				c.DoR(r.x, &s.threads[t][k], &r.calls[t][k].r)
				o.pos[t][k] = p
			}
			st := c.Obs(r.x)
			o.key = r.key(&st)
			out = append(out, o)
			return
		}
		for t := range s.threads {
			if done[t] < len(s.threads[t]) {
				d := append([]int(nil), done...)
				d[t]++
				rec(d, append(append([]int(nil), seq...), t))
			}
		}
	}
	rec(make([]int, len(s.threads)), nil)
	return out
}

// explained says whether the order respects the real-time order of the calls.
func (o *order) explained(r *run) bool {
	for i := range r.calls {
		for k := range r.calls[i] {
			for j := range r.calls {
				if j == i {
					continue
				}
				for l := range r.calls[j] {
					if r.calls[i][k].res < r.calls[j][l].inv && o.pos[i][k] > o.pos[j][l] {
						return false
					}
				}
			}
		}
	}
	return true
}

const maxSteps = 20000000

// limit of schedules for one scenario; the unchanged tree stays far below it.
const maxSchedules = 4000000

func account(c *Ctx, st *vsched.Stats) {
	c.Schedules += st.Schedules
	c.Points += st.Points
	c.Pruned += st.Pruned
	c.Trans += st.Points
	if st.Capped {
		c.Capped = true
	}
}

// linearizable explores the scenario and fails if some schedule has no explaining order.
func linearizable(c *Ctx, s *scenario, bound int) {
	ords := s.orders(c)
	c.State()
	outcomes := map[string]bool{}
	var r run
	var st vsched.Stats
	fail, sched := vsched.Explore(func() []func() { return s.bodies(&r) }, bound, maxSchedules, maxSteps, &st, func(verdict string) string {
		if verdict != "" {
			return verdict
		}
		c.CheckDeadline()
		state := c.Obs(r.x)
		k := r.key(&state)
		outcomes[k] = true
		for i := range ords {
			if ords[i].key == k && ords[i].explained(&r) {
				return ""
			}
		}
		f := "no one-at-a-time order explains the outcome " + k
		for i := range ords {
			f += fmt.Sprintf("\n      order %v gives %s", ords[i].pos, ords[i].key)
		}
		return f
	})
	account(c, &st)
	c.Outcomes += int64(len(outcomes))
	if fail != "" {
		c.Schedule = sched
		c.Fail(fail, s.steps()...)
	}
	c.Trace(s.String)
}

// raceReport returns what the race detector wrote.
func raceReport() string {
	m, _ := filepath.Glob(filepath.Join(os.Getenv("MC_TMP"), fmt.Sprintf("race.%d*", os.Getpid())))
	for _, f := range m {
		if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
			t := string(b)
			if len(t) > 3000 {
				t = t[:3000]
			}
			return t
		}
	}
	return "(no report found)"
}

// concOps lists the operations used for concurrency: every operation, with several elements where it has a count,
// but for some big-endian number types.
func concOps(d impl.Desc) []Op { return concList(d, false) }

// concRest lists the accesses that concOps leaves out.
func concRest(d impl.Desc) []Op { return concList(d, true) }

func leftOut(o *Op) bool {
	return o.Num.BE && o.Num.W != 2
}

func concList(d impl.Desc, rest bool) []Op {
	var out []Op
	for _, t := range accessKinds(d) {
		o := t
		if counted(t.K) {
			n := int64(2)
			if o.Num.W > 4 {
				n = 1
			}
			a := t
			if a.K == impl.KReadBits || a.K == impl.KSetBits {
				n = 3
			}
			o = sized(t, n, 5)
		}
		if rest != leftOut(&o) {
			continue
		}
		o.Off = 1
		out = append(out, forms(o)...)
	}
	if rest {
		return out
	}
	out = append(out, filter(d,
		Op{K: impl.KClearAll}, Op{K: impl.KSetAll}, Op{K: impl.KFlipAll},
		Op{K: impl.KSeekByte, Off: 4}, Op{K: impl.KSeekByte, Off: 1, Rel: true}, Op{K: impl.KSeekBit, Off: 7}, Op{K: impl.KSeekBit, Off: 2, Rel: true},
		Op{K: impl.KAfterByte, Rel: true}, Op{K: impl.KAfterByte, Off: 1}, Op{K: impl.KAfterBit, Rel: true}, Op{K: impl.KAfterBit, Off: 1},
		Op{K: impl.KAlignBit}, Op{K: impl.KAlignByte}, Op{K: impl.KGrow, N: 2}, Op{K: impl.KGrow, N: 30}, Op{K: impl.KRefresh},
		Op{K: impl.KBytes}, Op{K: impl.KByteCap}, Op{K: impl.KBitCap}, Op{K: impl.KByteOff}, Op{K: impl.KBitOff}, Op{K: impl.KReset})...)
	return out
}

// refusedOps lists operations that every small buffer refuses.
func refusedOps(d impl.Desc) []Op {
	out := filter(d, Op{K: impl.KReadByte, Off: 99}, Op{K: impl.KWriteByte, Off: -1}, sized(Op{K: impl.KReadBytes, Off: 50}, 2, 0), sized(Op{K: impl.KWriteBytes, Off: 50}, 2, 0),
		Op{K: impl.KReadBit, Off: 999}, Op{K: impl.KSetBit, Off: -1}, Op{K: impl.KFlipBit, Off: 999}, Op{K: impl.KClearBit, Off: 999}, Op{K: impl.KReadBits, Off: 990, N: 4}, Op{K: impl.KSetBits, Off: 990, N: 4, Data: 9}, Op{K: impl.KReadBits, N: -1}, Op{K: impl.KPutBit, Data: 2},
		sized(Op{K: impl.KReadNum, Num: num(d, 4, false), Off: 70}, 1, 0), sized(Op{K: impl.KWriteNum, Num: num(d, 2, true), Off: 70}, 1, 0), Op{K: impl.KGrow, N: -1}, Op{K: impl.KGrow, N: 1 << 62},
		Op{K: impl.KComplexBad, Num: impl.Num{K: 'C', W: 2}, Data: 1}, Op{K: impl.KComplexBad, Num: impl.Num{K: 'C', W: 4}, Data: 2, Next: true}, sized(Op{K: impl.KReadNum, Num: impl.Num{K: 'C', W: 3}}, 1, 0), sized(Op{K: impl.KWriteNum, Num: impl.Num{K: 'C', W: 5}}, 1, 0))
	return out
}

// refusedAll lists one refused request of every kind of access.
func refusedAll(d impl.Desc) []Op {
	var out []Op
	for _, t := range accessKinds(d) {
		o := t
		if counted(t.K) {
			o = sized(t, 1, 5)
		}
		o.Off = 4000
		out = append(out, o)
	}
	return out
}

// concSome lists a few operations of every sort, to stand beside others.
func concSome(d impl.Desc) []Op {
	return append(c13Reduced(d), filter(d, Op{K: impl.KGrow, N: 30}, Op{K: impl.KGrow, N: 80}, Op{K: impl.KTruncL, N: 1}, Op{K: impl.KTruncR, N: 1}, Op{K: impl.KRefresh}, Op{K: impl.KAlignByte}, Op{K: impl.KSeekBit, Off: 2, Rel: true}, Op{K: impl.KBytes})...)
}
