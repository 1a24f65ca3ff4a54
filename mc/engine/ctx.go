// Package engine runs exhaustive explorations: a check is a list of deterministic units of work, which worker
// processes (one goroutine of exploration each) execute; every violation is re-run before it is believed.
package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"time"

	"verifmc/impl"
)

// Unit is one deterministic part of an exploration.
type Unit struct {
	Name  string
	Run   func(*Ctx)
	Fresh bool // runs in a process of its own, in which nothing has been used before
}

// Check decides one property.
type Check struct {
	Prop   string
	Bounds string // what is enumerated, within which bounds
	Units  func(tier string) []Unit
	Assume []string
	Serial bool // run the units in one worker
}

// Failure is a violation found by a unit.
type Failure struct {
	Prop  string   `json:"property"`
	Tier  string   `json:"tier"`
	Unit  string   `json:"unit"`
	What  string   `json:"what"`
	Steps []string `json:"steps"`
	Seq   []string `json:"unit_sequence,omitempty"` // units to run before in the same process
	Sched []int    `json:"schedule,omitempty"`
}

// Counts are measured by a unit.
type Counts struct {
	States    int64 `json:"states"`
	Trans     int64 `json:"transitions"`
	Traces    int64 `json:"traces"`
	Schedules int64 `json:"schedules"`
	Points    int64 `json:"points"`
	Outcomes  int64 `json:"outcomes"`
	Pruned    int64 `json:"pruned"`
}

// Add adds up.
func (c *Counts) Add(d Counts) {
	c.States += d.States
	c.Trans += d.Trans
	c.Traces += d.Traces
	c.Schedules += d.Schedules
	c.Points += d.Points
	c.Outcomes += d.Outcomes
	c.Pruned += d.Pruned
}

// Ctx is the context of a running unit.
type Ctx struct {
	Counts
	Prop, Tier, Unit string
	Deadline         time.Time
	beats            int64
	Samples          []string
	Notes            []string
	Capped           bool
	Schedule         []int
	trace            *os.File
	nextSample       int64
	seen             map[uint64]struct{}
	lastState        uint64
}

// Thorough says whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

type stop struct{}

// Fail reports a violation and ends the unit.
func (c *Ctx) Fail(what string, steps ...string) {
	panic(&Failure{Prop: c.Prop, Tier: c.Tier, Unit: c.Unit, What: what, Steps: steps, Sched: c.Schedule})
}

// State counts a starting or reached state.
func (c *Ctx) State() { c.States++ }

// StateOf counts a state, given what identifies it, if the unit has not seen it before.
func (c *Ctx) StateOf(kind int, b []byte, off, boff int64) {
	h := uint64(len(b))*0x9E3779B97F4A7C15 ^ uint64(off)*0xC2B2AE3D27D4EB4F ^ uint64(boff)*0x165667B19E3779F9 ^ uint64(kind)<<56
	for _, x := range b {
		h = (h ^ uint64(x)) * 0x100000001B3
	}
	if h == c.lastState {
		return
	}
	c.lastState = h
	if c.seen == nil {
		c.seen = map[uint64]struct{}{}
	}
	if _, ok := c.seen[h]; ok {
		return
	}
	if len(c.seen) < 1<<20 { // beyond that, count only changes from one trace to the next
		c.seen[h] = struct{}{}
	}
	c.States++
}

// Trace counts a complete operation sequence run on the real code and compared; f describes it (for samples).
func (c *Ctx) Trace(f func() string) {
	c.Traces++
	if c.Traces > c.nextSample {
		c.nextSample = c.nextSample*7 + 11
		if len(c.Samples) < 6 {
			c.Samples = append(c.Samples, f())
		}
	}
	if c.Traces&0x3F == 0 {
		c.CheckDeadline()
	}
}

// CheckDeadline ends the unit, as cut, when the time of the run is over.
func (c *Ctx) CheckDeadline() {
	c.beats++
	if !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
		c.Capped = true
		panic(stop{})
	}
}

// Tracing says whether operations are being logged before they run (after a crash).
func (c *Ctx) Tracing() bool { return c.trace != nil }

// Log records what is about to run.
func (c *Ctx) Log(format string, a ...any) {
	if c.trace != nil {
		fmt.Fprintf(c.trace, format+"\n", a...)
	}
}

// Do runs an operation on an instance.
func (c *Ctx) Do(x impl.Inst, o *impl.Op) (r impl.Ret) {
	c.Trans++
	if c.trace != nil {
		c.Log("%s: %s", x.Desc(), o)
	}
	x.Do(o, &r)
	return
}

// DoR is Do with the result in place.
func (c *Ctx) DoR(x impl.Inst, o *impl.Op, r *impl.Ret) {
	c.Trans++
	if c.trace != nil {
		c.Log("%s: %s", x.Desc(), o)
	}
	*r = impl.Ret{}
	x.Do(o, r)
}

// Obs observes the state of an instance (contents are the live view).
func (c *Ctx) Obs(x impl.Inst) (s impl.State) {
	c.Trans++
	if f := impl.Observe(x, &s); f != "" {
		c.Fail("query failed: "+f, x.Desc().String())
	}
	return
}

// Hash hashes a string.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// result of one unit, sent by a worker
type result struct {
	Unit    string   `json:"unit"`
	Counts  Counts   `json:"counts"`
	Samples []string `json:"samples"`
	Notes   []string `json:"notes"`
	Capped  bool     `json:"capped"`
	Fail    *Failure `json:"fail"`
	Bug     string   `json:"bug"` // the harness itself failed
	Wall    float64  `json:"wall"`
}

// unitShare is the longest a unit of the quick tier may take: what makes the code under test slow shall not keep the
// other units from running.
const unitShare = 150 * time.Second

func runUnit(prop, tier string, u Unit, deadline time.Time, trace *os.File, live *Ctx) (res result) {
	*live = Ctx{Prop: prop, Tier: tier, Unit: u.Name, Deadline: deadline, trace: trace}
	t0 := time.Now()
	if own := t0.Add(unitShare); tier == "quick" && !deadline.IsZero() && own.Before(deadline) {
		live.Deadline = own
	}
	defer func() {
		res.Unit = u.Name
		res.Counts, res.Samples, res.Capped, res.Notes = live.Counts, live.Samples, live.Capped, live.Notes
		res.Wall = time.Since(t0).Seconds()
		if e := recover(); e != nil {
			switch e := e.(type) {
			case *Failure:
				e.Prop, e.Tier, e.Unit = prop, tier, u.Name
				res.Fail = e
			case stop:
			default:
				res.Bug = fmt.Sprintf("%v\n%s", e, stackTrace())
			}
		}
	}()
	u.Run(live)
	return
}

func (f *Failure) text() string {
	s := f.What
	for i, l := range f.Steps {
		s += fmt.Sprintf("\n  %2d. %s", i+1, l)
	}
	return s
}

func jsonLine(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(string(b), "\n", " ")
}
