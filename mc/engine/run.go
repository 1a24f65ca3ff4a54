package engine

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func stackTrace() string { return string(debug.Stack()) }

// Options of a run.
type Options struct {
	Tier     string
	Seed     int
	Budget   time.Duration
	Confirm  time.Duration // for running failures again, after the budget
	Workers  int
	Evidence string // path of the evidence file
	Replays  string // directory of replay files
	Hang     time.Duration
}

// ---------------------------------------------------------------- worker

// progress reads the counters without synchronization, which is good enough for a heartbeat.
//
//go:norace
//go:noinline
func progress(c *Ctx) int64 { return c.Trans + c.Schedules + c.beats }

// Worker serves units by number over stdin/stdout until stdin closes.
func Worker(chk *Check, tier string, deadline time.Time, traceFile string) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	var trace *os.File
	if traceFile != "" {
		f, err := os.Create(traceFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		trace = f
	}
	out := os.NewFile(3, "results")
	units := chk.Units(tier)
	var live Ctx
	var mu sync.Mutex
	go func() {
		for {
			time.Sleep(2 * time.Second)
			mu.Lock()
			fmt.Fprintf(out, "hb %d\n", progress(&live))
			mu.Unlock()
		}
	}()
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		if err != nil || i < 0 || i >= len(units) {
			fmt.Fprintln(os.Stderr, "bad unit number", in.Text())
			os.Exit(3)
		}
		r := runUnit(chk.Prop, tier, units[i], deadline, trace, &live)
		mu.Lock()
		fmt.Fprintf(out, "result %s\n", jsonLine(r))
		mu.Unlock()
		if r.Fail != nil {
			os.Exit(0)
		}
	}
}

// ---------------------------------------------------------------- parent

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	lines  chan string
	stderr *tail
	killed string
	seq    []string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte(nil), t.b[:1<<19]...) // the beginning of a crash report matters
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func start(prop, tier string, deadline time.Time, trace string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: exec.Command(exe, "worker", prop, tier, strconv.FormatInt(deadline.UnixMilli(), 10), trace), stderr: &tail{}}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	p.cmd.ExtraFiles = []*os.File{w}
	p.cmd.Stderr = p.stderr
	p.cmd.Stdout = p.stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	p.lines = make(chan string, 16)
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				break
			}
			p.lines <- strings.TrimSuffix(l, "\n")
		}
		close(p.lines)
		r.Close()
	}()
	return p, nil
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	for range p.lines {
	}
	p.cmd.Wait()
}

// do runs one unit. crash is set if the process died or hung.
func (p *proc) do(i int, name string, hang time.Duration, until time.Time) (res *result, crash string) {
	p.seq = append(p.seq, name)
	fmt.Fprintln(p.in, i)
	last, lastT := "", time.Now()
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				err := p.cmd.Wait()
				p.killed = "dead"
				if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return nil, "killed"
				}
				return nil, fmt.Sprintf("the process died (%v): %s", err, firstLines(p.stderr.String(), 40))
			}
			if strings.HasPrefix(l, "hb ") {
				if !until.IsZero() && time.Now().After(until) {
					p.stop()
					return nil, "killed"
				}
				if l != last {
					last, lastT = l, time.Now()
				} else if time.Since(lastT) > hang {
					p.stop()
					return nil, fmt.Sprintf("hang: an operation has not finished for %v", hang)
				}
				continue
			}
			if s, ok := strings.CutPrefix(l, "result "); ok {
				var r result
				if err := json.Unmarshal([]byte(s), &r); err != nil {
					return nil, "harness: " + err.Error()
				}
				return &r, ""
			}
		case <-time.After(hang + 60*time.Second):
			p.stop()
			return nil, "hang: the process no longer responds"
		}
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// once runs units (by name) in a fresh process and returns the failure of the last one.
func once(chk *Check, units []Unit, names []string, o *Options, trace string, hang time.Duration, until time.Time) (*Failure, string, error) {
	p, err := start(chk.Prop, o.Tier, time.Time{}, trace)
	if err != nil {
		return nil, "", err
	}
	defer func() {
		if p.killed == "" {
			p.stop()
		}
	}()
	for k, name := range names {
		i := index(units, name)
		if i < 0 {
			return nil, "", fmt.Errorf("no unit %q", name)
		}
		r, crash := p.do(i, name, hang, until)
		if crash != "" {
			return nil, crash, nil
		}
		if r.Bug != "" {
			return nil, "", fmt.Errorf("harness failure in %s: %s", name, r.Bug)
		}
		if r.Fail != nil {
			return r.Fail, "", nil
		}
		if k == len(names)-1 {
			return nil, "", nil
		}
	}
	return nil, "", nil
}

func index(units []Unit, name string) int {
	for i := range units {
		if units[i].Name == name {
			return i
		}
	}
	return -1
}

// Run explores all units of a check. It returns the exit status.
func Run(chk *Check, o Options) int {
	t0 := time.Now()
	deadline := t0.Add(o.Budget)
	units := chk.Units(o.Tier)
	names := map[string]bool{}
	for _, u := range units {
		if names[u.Name] {
			fmt.Fprintln(os.Stderr, "harness: duplicate unit", u.Name)
			return 3
		}
		names[u.Name] = true
	}
	if o.Workers > len(units) {
		o.Workers = len(units)
	}
	if chk.Serial {
		o.Workers = 1
	}
	var (
		mu      sync.Mutex
		next    int
		total   Counts
		done    int
		capped  []string
		samples []string
		notes   []string
		walls   []string
		found   *Failure
		foundI  = len(units)
		crashed = map[int]string{}
		herr    string
	)
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig follows the thread that started the child
			var p *proc
			defer func() {
				if p != nil && p.killed == "" {
					p.stop()
				}
			}()
			for {
				mu.Lock()
				if found != nil || herr != "" || len(crashed) > 3 || next >= len(units) {
					mu.Unlock()
					return
				}
				i := next
				next++
				late := time.Now().After(deadline)
				if late {
					capped = append(capped, units[i].Name)
				}
				mu.Unlock()
				if late {
					continue
				}
				if p != nil && units[i].Fresh {
					p.stop()
					p = nil
				}
				if p == nil {
					var err error
					if p, err = start(chk.Prop, o.Tier, deadline, ""); err != nil {
						mu.Lock()
						herr = err.Error()
						mu.Unlock()
						return
					}
				}
				r, crash := p.do(i, units[i].Name, o.Hang, time.Time{})
				mu.Lock()
				switch {
				case crash != "":
					crashed[i] = crash
					p = nil
				case r.Bug != "":
					herr = "harness failure in " + r.Unit + ": " + r.Bug
				default:
					total.Add(r.Counts)
					done++
					samples = append(samples, pick(r)...)
					notes = append(notes, r.Notes...)
					walls = append(walls, fmt.Sprintf("%8.1f s %s", r.Wall, r.Unit))
					if r.Capped {
						capped = append(capped, r.Unit)
					}
					if r.Fail != nil {
						if i < foundI {
							found, foundI = r.Fail, i
							found.Seq = append([]string(nil), p.seq...)
						}
						p.stop()
						p = nil
					}
				}
				if p != nil && units[i].Fresh {
					p.stop()
					p = nil
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if os.Getenv("MC_WALLS") != "" {
		sort.Strings(walls)
		fmt.Println(strings.Join(walls, "\n"))
	}
	if herr != "" {
		fmt.Fprintln(os.Stderr, herr)
		return 3
	}
	unreproduced := []string{}
	var confirmed *Failure
	if found != nil {
		confirmed = confirm(chk, units, found, &o, &unreproduced, deadline.Add(o.Confirm))
	}
	if confirmed == nil {
		var is []int
		for i := range crashed {
			is = append(is, i)
		}
		sort.Ints(is)
		for _, i := range is {
			if confirmed = classify(chk, units, i, crashed[i], &o, &unreproduced, deadline.Add(o.Confirm)); confirmed != nil {
				break
			}
		}
	}
	violations := 0
	if confirmed != nil {
		violations = 1
	}
	exhaustive := len(capped) == 0 && done == len(units) && found == nil && len(crashed) == 0
	if len(samples) > 16 {
		var s []string
		for i := 0; i < 16; i++ {
			s = append(s, samples[i*len(samples)/16])
		}
		samples = s
	}
	if len(samples) == 0 {
		samples = []string{"no trace was completed"}
	}
	sort.Strings(capped)
	cov := map[string]any{
		"states": total.States, "transitions": total.Trans, "traces_validated_against_impl": total.Traces,
		"samples": samples, "exhaustive": exhaustive, "units": len(units), "units_done": done,
		"bounds": chk.Bounds,
	}
	if total.Schedules > 0 {
		cov["schedules"] = total.Schedules
		cov["scheduling_decisions"] = total.Points
		cov["alternatives_beyond_preemption_bound"] = total.Pruned
		cov["distinct_outcomes"] = total.Outcomes
	}
	if len(capped) > 0 {
		cov["units_cut_by_deadline"] = capped
	}
	if len(unreproduced) > 0 {
		cov["failures_not_reproduced"] = unreproduced
	}
	if len(notes) > 0 {
		sort.Strings(notes)
		cov["notes"] = notes
	}
	ev := map[string]any{
		"property": chk.Prop, "tier": o.Tier, "seed": o.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": chk.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	if chk.Assume == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.MkdirAll(filepath.Dir(o.Evidence), 0o755)
	}
	if err == nil {
		err = os.WriteFile(o.Evidence, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: %d of %d units, %d states, %d transitions, %d traces", chk.Prop, o.Tier, done, len(units), total.States, total.Trans, total.Traces)
	if total.Schedules > 0 {
		fmt.Printf(", %d schedules", total.Schedules)
	}
	fmt.Printf(", exhaustive=%v, %.1f s\n", exhaustive, time.Since(t0).Seconds())
	for _, u := range unreproduced {
		fmt.Println("not reproduced:", firstLines(u, 5))
	}
	if confirmed == nil {
		return 0
	}
	name := fmt.Sprintf("%s-%016x.json", chk.Prop, Hash(confirmed.Unit+confirmed.What))
	path := filepath.Join(o.Replays, name)
	b, _ = json.MarshalIndent(confirmed, "", " ")
	os.MkdirAll(o.Replays, 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("unit %s\n%s\n", confirmed.Unit, confirmed.text())
	fmt.Printf("VIOLATION property=%s replay=%s\n", chk.Prop, path)
	return 1
}

func pick(r *result) []string {
	var s []string
	for i, x := range r.Samples {
		if i < 3 {
			s = append(s, r.Unit+": "+x)
		}
	}
	return s
}

// confirm re-runs a failure five times in fresh processes.
func confirm(chk *Check, units []Unit, f *Failure, o *Options, unrep *[]string, until time.Time) *Failure {
	alone, seq := 0, 0
	var last *Failure
	crash := ""
	for k := 0; k < 5 && (k == 0 || time.Now().Before(until)); k++ {
		g, c, err := once(chk, units, []string{f.Unit}, o, "", o.Hang, until)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		if c == "killed" && k == 0 && time.Now().After(until) {
			f.What += " (there was no time to run the unit again)"
			return f
		}
		if c != "" && c != "killed" {
			crash = c
		}
		if g != nil {
			alone++
			last = g
		}
	}
	if alone == 5 {
		last.Seq = nil
		return last
	}
	for k := 0; k < 5 && len(f.Seq) > 1 && time.Now().Before(until); k++ {
		g, _, err := once(chk, units, f.Seq, o, "", o.Hang, until)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		if g != nil {
			seq++
			last = g
		}
	}
	if seq == 5 {
		last.Seq = f.Seq
		return last
	}
	if alone+seq > 0 {
		if alone > 0 {
			f.Seq = nil
		}
		f.What += fmt.Sprintf(" (seen again in %d of 5 runs of the unit alone and %d of 5 runs after the same other units)", alone, seq)
		return f
	}
	if crash != "" {
		f.What += " (later runs: " + crash + ")"
	}
	*unrep = append(*unrep, f.Unit+": "+f.text())
	return nil
}

// classify decides whether a dead or hanging worker is a violation.
func classify(chk *Check, units []Unit, i int, crash string, o *Options, unrep *[]string, until time.Time) *Failure {
	name := units[i].Name
	n := 2
	if strings.HasPrefix(crash, "hang") {
		n = 1
	}
	trace := filepath.Join(os.TempDir(), fmt.Sprintf("mc-trace-%d", os.Getpid()))
	defer os.Remove(trace)
	var f *Failure
	for k := 0; k < n; k++ {
		g, c, err := once(chk, units, []string{name}, o, trace, o.Hang, until)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			break
		}
		if g != nil {
			f = g
			continue
		}
		if c == "" || c == "killed" {
			*unrep = append(*unrep, name+": "+crash)
			return nil
		}
		f = &Failure{Prop: chk.Prop, Tier: o.Tier, Unit: name, What: c, Steps: lastLines(trace, 12)}
	}
	if f == nil {
		*unrep = append(*unrep, name+": "+crash)
	}
	return f
}

func lastLines(file string, n int) []string {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	if st, err := f.Stat(); err == nil && st.Size() > 64<<10 {
		f.Seek(-64<<10, io.SeekEnd)
	}
	b, _ := io.ReadAll(f)
	l := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return append([]string{"(last operations started before the crash:)"}, l...)
}

// Replay re-runs the failure of a replay file.
func Replay(chk *Check, f *Failure) int {
	units := chk.Units(f.Tier)
	names := f.Seq
	if len(names) == 0 {
		names = []string{f.Unit}
	}
	g, crash, err := once(chk, units, names, &Options{Tier: f.Tier}, "", 120*time.Second, time.Time{})
	switch {
	case err != nil:
		fmt.Fprintln(os.Stderr, err)
		return 3
	case g != nil:
		fmt.Printf("reproduced: %s\n", g.text())
		return 1
	case crash != "":
		fmt.Println("reproduced:", crash)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
