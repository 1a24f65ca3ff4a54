// Package vsched is a controlled scheduler for exhaustive exploration of thread interleavings of real code.
//
// The packages under test are compiled with a call of P before every statement (tools: cmd/instr, build overlay) and
// with their locks replaced by those of package vsync. During an execution exactly one thread runs; at every P, at
// every blocking lock and at every thread end the scheduler chooses who continues. Explore enumerates all choices,
// depth first, up to a bound on preemptions.
//
// The scheduler's own hand-offs are hidden from the race detector (RaceDisable, norace), so that in a -race build
// the detector judges each explored schedule by the happens-before edges of the locks of the code under test alone.
package vsched

import (
	"fmt"
	"sync"
	"sync/atomic"
)

// Waiter is something a thread can be blocked on.
type Waiter interface{ CanRun() bool }

type thread struct {
	id     int
	ch     chan struct{}
	waiter Waiter
	done   bool
}

type abortSignal struct{}

// Point is one scheduling decision.
type Point struct {
	N          int  // enabled threads
	CurEnabled bool // the running thread is one of them (then it is alternative 0)
	Chosen     int
}

var (
	active   bool
	aborted  bool
	cur      *thread
	threads  []*thread
	mainCh   chan struct{}
	choices  []int
	points   []Point
	steps    int
	maxStep  int
	verdict  string
	clock    int
	diverged bool
	group    *sync.WaitGroup
	epoch    int
)

// Active says whether an exploration is running.
//
//go:norace
func Active() bool { return active }

// Aborted says whether the current execution is being torn down.
//
//go:norace
func Aborted() bool { return active && aborted }

// Tick advances and returns the logical clock of the execution.
//
//go:norace
func Tick() int { clock++; return clock }

// P is a scheduling point.
//
//go:norace
func P() {
	if !active {
		return
	}
	if aborted {
		panic(abortSignal{})
	}
	steps++
	if steps > maxStep {
		abort("an operation does not finish (more than %d steps)", maxStep)
	}
	if !Coarse {
		step()
	}
}

// Coarse limits the choices to synchronization operations, which is enough for code without data races.
var Coarse bool

// Within adds a choice after a lock is taken, to code that only asks whether it is.
var Within bool

// H is the point while a lock is held.
//
//go:norace
func H() {
	if Within {
		S()
	}
}

// S is the point at a synchronization operation.
//
//go:norace
func S() {
	if !active || aborted || !Coarse {
		return
	}
	step()
}

//go:norace
func step() {
	me := cur
	next := pick()
	if next != me {
		switchFrom(me, next)
	}
}

// Wait blocks the running thread until w can run.
//
//go:norace
func Wait(w Waiter) {
	if aborted {
		return
	}
	me := cur
	for !w.CanRun() {
		me.waiter = w
		next := pick()
		if next == nil {
			me.waiter = nil
			abort("deadlock: no thread can run")
		}
		if next != me {
			switchFrom(me, next)
		}
		me.waiter = nil
	}
}

//go:norace
func abort(format string, a ...any) {
	if verdict == "" {
		verdict = fmt.Sprintf(format, a...)
	}
	aborted = true
	panic(abortSignal{})
}

//go:norace
func enabled(t *thread) bool { return !t.done && (t.waiter == nil || t.waiter.CanRun()) }

//go:norace
func pick() *thread {
	var list [32]*thread
	n := 0
	curOK := cur != nil && enabled(cur)
	if curOK {
		list[n] = cur
		n++
	}
	for _, t := range threads {
		if t != cur && enabled(t) {
			list[n] = t
			n++
		}
	}
	switch n {
	case 0:
		return nil
	case 1:
		return list[0]
	}
	c := 0
	if len(points) < len(choices) {
		c = choices[len(points)]
		if c >= n {
			diverged = true
			c = 0
		}
	}
	points = append(points, Point{n, curOK, c})
	return list[c]
}

//go:norace
func switchFrom(me, next *thread) {
	cur = next
	raceDisable()
	next.ch <- struct{}{}
	<-me.ch
	raceEnable()
	if aborted {
		panic(abortSignal{})
	}
}

//go:norace
func finish(me *thread) {
	me.done = true
	raceDisable()
	if aborted {
		mainCh <- struct{}{}
	} else {
		next := pick()
		if next == nil {
			for _, t := range threads {
				if !t.done && verdict == "" {
					verdict = "deadlock: no thread can run"
					aborted = true
				}
			}
			mainCh <- struct{}{}
		} else {
			cur = next
			next.ch <- struct{}{}
		}
	}
	raceEnable()
}

//go:norace
func await(me *thread) {
	raceDisable()
	<-me.ch
	raceEnable()
}

//go:norace
func kick(t *thread) {
	raceDisable()
	t.ch <- struct{}{}
	raceEnable()
}

//go:norace
func join() {
	raceDisable()
	<-mainCh
	raceEnable()
}

func runThread(t *thread, body func(), wg *sync.WaitGroup) {
	defer wg.Done()
	defer finish(t)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortSignal); !ok {
				panicked(t, e)
			}
		}
	}()
	await(t)
	if Aborted() {
		return
	}
	body()
}

//go:norace
func panicked(t *thread, e any) {
	if verdict == "" {
		verdict = fmt.Sprintf("thread %d panicked: %v", t.id, e)
	}
}

//go:norace
func begin(n int, prefix []int, max int) {
	threads = threads[:0]
	for i := 0; i < n; i++ {
		threads = append(threads, &thread{id: i, ch: make(chan struct{}, 1)})
	}
	mainCh = make(chan struct{}, 8)
	choices, points, steps, verdict, clock, aborted = prefix, points[:0], 0, "", 0, false
	maxStep = max
	cur = nil
	diverged = false
	epoch++
	active = true
}

// Run executes the bodies under the schedule that follows prefix and takes alternative 0 afterwards. It returns the
// decisions taken and a verdict ("" if every thread finished).
//
//go:norace
func Run(bodies []func(), prefix []int, max int) ([]Point, string) {
	begin(len(bodies), prefix, max)
	var wg sync.WaitGroup
	wg.Add(len(bodies))
	group = &wg
	for i, b := range bodies {
		go runThread(threads[i], b, &wg)
	}
	first := pick()
	cur = first
	kick(first)
	join()
	if aborted {
		// let the remaining threads unwind, one after the other
		for i := 0; i < len(threads); i++ {
			if t := threads[i]; !t.done {
				cur = t
				kick(t)
				join()
			}
		}
	}
	wg.Wait()
	active = false
	if len(points) < len(prefix) && verdict == "" {
		diverged = true
	}
	return points, verdict
}

// Epoch numbers the executions; it is 0 outside of them.
//
//go:norace
func Epoch() int {
	if !active {
		return 0
	}
	return epoch
}

var others atomic.Int64

// Others says whether goroutines that the code under test started are running outside of an exploration.
func Others() bool { return others.Load() > 0 }

// Go runs f in a thread of its own: it stands for the go statement.
func Go(f func()) {
	if !Active() {
		others.Add(1)
		go func() {
			defer others.Add(-1)
			f()
		}()
		return
	}
	if Aborted() {
		return
	}
	t := fork()
	if t == nil {
		f()
		return
	}
	go runThread(t, f, group)
	S()
}

//go:norace
func fork() *thread {
	if len(threads) >= 24 {
		return nil
	}
	t := &thread{id: len(threads), ch: make(chan struct{}, 1)}
	threads = append(threads, t)
	raceDisable()
	group.Add(1)
	raceEnable()
	return t
}

// Stats counts what an exploration did.
type Stats struct {
	Schedules int64
	Points    int64
	Pruned    int64 // alternatives not taken because of the preemption bound
	Capped    bool
	Restarts  int // a state that outlives executions (a table built on first use) changed their course
}

// Explore runs make's bodies under every schedule with at most bound preemptions (bound<0: all schedules), calling
// check after each. check returns "" or a violation, which ends the exploration. limit caps the schedules (0: none).
func Explore(mk func() []func(), bound int, limit int64, max int, st *Stats, check func(verdict string) string) (fail string, schedule []int) {
	// depth-first: a node is an execution, of whose decisions the alternatives from (at, alt) on are still to be taken
	type decision struct {
		n, chosen  uint8
		curEnabled bool
	}
	type node struct {
		path    []decision
		at, alt int
		cost    int // preemptions before the decision at
	}
	var nodes []node
	prefix, started := []int(nil), false
	for {
		if started { // the next alternative
			prefix = prefix[:0]
			found := false
			for len(nodes) > 0 && !found {
				d := &nodes[len(nodes)-1]
				for d.at < len(d.path) {
					p := d.path[d.at]
					c := d.cost
					if p.curEnabled {
						c++
					}
					if bound >= 0 && c > bound {
						st.Pruned += int64(p.n - 1)
					} else if d.alt < int(p.n) {
						for _, q := range d.path[:d.at] {
							prefix = append(prefix, int(q.chosen))
						}
						prefix = append(prefix, d.alt)
						d.alt++
						found = true
						break
					}
					if p.curEnabled && p.chosen > 0 {
						d.cost++
					}
					d.at++
					d.alt = 1
				}
				if !found {
					nodes = nodes[:len(nodes)-1]
				}
			}
			if !found {
				return "", nil
			}
		}
		started = true
		if limit > 0 && st.Schedules >= limit {
			st.Capped = true
			return "", nil
		}
		pts, v := Run(mk(), prefix, max)
		st.Schedules++
		st.Points += int64(len(pts))
		if fail := check(v); fail != "" {
			s := make([]int, len(pts))
			for i := range pts {
				s[i] = pts[i].Chosen
			}
			return fail, s
		}
		if diverged {
			if st.Restarts++; st.Restarts > 3 {
				st.Capped = true
				return "", nil
			}
			nodes, prefix, started = nodes[:0], nil, false
			continue
		}
		path := make([]decision, len(pts))
		cost := 0
		for i, p := range pts {
			path[i] = decision{uint8(p.N), uint8(p.Chosen), p.CurEnabled}
			if i < len(prefix) && p.CurEnabled && p.Chosen > 0 {
				cost++
			}
		}
		nodes = append(nodes, node{path, len(prefix), 1, cost})
	}
}
