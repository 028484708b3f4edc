package mon

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Report is what a worker process prints about the scenarios it ran.
type Report struct {
	Prop       string           `json:"prop"`
	Mode       string           `json:"mode"`
	Cases      int64            `json:"cases"`
	Ops        int64            `json:"ops"`
	Checks     int64            `json:"checks"`
	Distinct   int64            `json:"distinct"`
	States     int64            `json:"states"`
	Events     map[string]int64 `json:"events"`
	Max        map[string]int64 `json:"max"`
	PerScen    map[string]int64 `json:"per_scenario"`
	Samples    []any            `json:"samples"`
	Failures   []Failure        `json:"failures"`
	WallS      float64          `json:"wall_s"`
	Incomplete string           `json:"incomplete,omitempty"`
}

// Failure identifies a violating case; it is also the content of a replay
// file.
type Failure struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Case     int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Mode     string   `json:"mode"`
	Note     string   `json:"config,omitempty"`
	Msg      string   `json:"message"`
	NOps     int      `json:"operations"`
	LastOps  []string `json:"last_operations"`
	Stack    string   `json:"stack,omitempty"`
	Full     []string `json:"trace,omitempty"`
}

// Options of a worker process.
type Options struct {
	Prop, Tier string
	Seed       uint64
	Mode       string // scenarios of this mode
	Only       string // run only this scenario
	OnlyCase   int    // and this case (-1: all)
	Full       bool   // keep the whole trace
	CurFile    string // where the current cases are noted, for crashes
	Scale      float64
}

func caseSeed(seed uint64, prop, scen string, i int) uint64 {
	return Mix(Mix(Mix(seed, HashStr(prop)), HashStr(scen)), uint64(i))
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	// one operation on these structures takes microseconds, large ones
	// milliseconds: a fair share of 40 CPU seconds is not a slow machine
	stallCPU = 40.0
	heapMax  = 10 << 30
)

type runner struct {
	o        Options
	rep      *Report
	mu       sync.Mutex
	stop     atomic.Bool
	workers  []*worker
	scen     *Scenario
	sampleN  map[string]int
	curf     *os.File
	onReport func(*Report)
}

// Run runs the scenarios of a property in this process. emit is called once
// with the report, also when the watchdog ends the run.
func Run(o Options, emit func(*Report)) {
	p := Lookup(o.Prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", o.Prop)
		os.Exit(2)
	}
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(200)
	r := &runner{o: o, sampleN: map[string]int{}, onReport: emit}
	r.rep = &Report{Prop: o.Prop, Mode: o.Mode, Events: map[string]int64{}, Max: map[string]int64{}, PerScen: map[string]int64{}}
	if o.CurFile != "" {
		r.curf, _ = os.Create(o.CurFile)
	}
	start := time.Now()
	n := runtime.GOMAXPROCS(0)
	for i := 0; i < n; i++ {
		r.workers = append(r.workers, newWorker())
	}
	go r.watch()
	for _, s := range p.Scenarios {
		if s.Mode() != o.Mode && o.Only == "" {
			continue
		}
		if o.Only != "" && o.Only != s.Name {
			continue
		}
		r.runScenario(s)
		if r.stop.Load() {
			break
		}
	}
	r.mu.Lock()
	r.finish(start)
	emit(r.rep)
}

func (r *runner) finish(start time.Time) {
	traces := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	rep := r.rep
	for _, w := range r.workers {
		rep.Ops += int64(w.ops)
		rep.Checks += w.checks
		for k, v := range w.events {
			rep.Events[k] += v
		}
		for k, v := range w.max {
			if v > rep.Max[k] {
				rep.Max[k] = v
			}
		}
		for k := range w.traces {
			traces[k] = struct{}{}
		}
		for k := range w.states {
			states[k] = struct{}{}
		}
	}
	rep.Distinct = int64(len(traces))
	rep.States = int64(len(states))
	rep.WallS = time.Since(start).Seconds()
}

func (r *runner) runScenario(s *Scenario) {
	r.scen = s
	if s.Setup != nil {
		s.Setup()
	}
	total := s.Quick
	if r.o.Tier == "thorough" {
		total = s.Thorough
		if total == 0 {
			total = s.Quick
		}
	}
	if r.o.Scale > 0 && total > 1 {
		total = int(float64(total) * r.o.Scale)
		if total < 1 {
			total = 1
		}
	}
	count := total
	first := 0
	if r.o.OnlyCase >= 0 && r.o.Only != "" {
		first, total = r.o.OnlyCase, r.o.OnlyCase+1
	}
	var next atomic.Int64
	next.Store(int64(first))
	nw := len(r.workers)
	if s.Serial {
		nw = 1
	}
	var wg sync.WaitGroup
	var done atomic.Int64
	for wi := 0; wi < nw; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			w := r.workers[wi]
			for !r.stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= total {
					return
				}
				r.runCase(w, wi, s, i, count)
				done.Add(1)
			}
		}(wi)
	}
	wg.Wait()
	r.mu.Lock()
	r.rep.PerScen[s.Name] += done.Load()
	r.rep.Cases += done.Load()
	r.mu.Unlock()
}

func (r *runner) runCase(w *worker, wi int, s *Scenario, i, count int) {
	t := &T{Rng: NewRng(caseSeed(r.o.Seed, r.o.Prop, s.Name, i)), Tier: r.o.Tier, Index: i, Count: count, Inside: s.Name, w: w}
	var full []string
	if r.o.Full {
		t.full = &full
	}
	id := fmt.Sprintf("%s %d", s.Name, i)
	w.where.Store(&id)
	if r.curf != nil {
		b := make([]byte, 96)
		for k := range b {
			b[k] = ' '
		}
		copy(b, id)
		b[95] = '\n'
		r.curf.WriteAt(b, int64(wi)*96)
	}
	w.active.Store(true)
	defer w.active.Store(false)
	defer func() {
		if e := recover(); e != nil {
			msg := ""
			stack := ""
			if v, ok := e.(Violation); ok {
				msg = v.Msg
			} else {
				msg = fmt.Sprintf("unexpected panic: %v", e)
				stack = trimStack(string(debug.Stack()))
			}
			r.fail(t, s, i, msg, stack, full)
		}
	}()
	before := t.nops
	s.Run(t)
	_ = before
	if !t.triv && t.nops > 0 {
		w.nontr++
		if len(w.traces) < 1<<21 {
			w.traces[Mix(t.trace, HashStr(s.Name))] = struct{}{}
		}
	}
	if i < 2 {
		r.mu.Lock()
		if len(r.rep.Samples) < 12 && r.sampleN[s.Name] < 1 {
			r.sampleN[s.Name]++
			r.rep.Samples = append(r.rep.Samples, map[string]any{
				"scenario": s.Name, "case": i, "config": t.note, "operations": t.nops, "last_operations": t.lastOps(24),
			})
		}
		r.mu.Unlock()
	}
}

func (t *T) lastOps(n int) []string {
	if n > ringSize {
		n = ringSize
	}
	if n > t.nops {
		n = t.nops
	}
	out := make([]string, 0, n)
	for i := t.nops - n; i < t.nops; i++ {
		out = append(out, t.ring[i%ringSize].String())
	}
	return out
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (r *runner) fail(t *T, s *Scenario, i int, msg, stack string, full []string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.rep.Failures = append(r.rep.Failures, Failure{
		Prop: r.o.Prop, Scenario: s.Name, Case: i, Seed: r.o.Seed, Tier: r.o.Tier, Mode: r.o.Mode,
		Note: t.note, Msg: msg, NOps: t.nops, LastOps: t.lastOps(ringSize), Stack: stack, Full: full,
	})
	if len(r.rep.Failures) >= 4 {
		r.stop.Store(true)
	}
}

// watch ends the run when a worker's current operation has had its fair share
// of a lot of CPU time without finishing, or when memory explodes. Both are
// judged by consumed resources, not by the clock.
func (r *runner) watch() {
	start := time.Now()
	type seen struct {
		ops uint64
		cpu float64
	}
	last := make([]seen, len(r.workers))
	share := make([]float64, len(r.workers))
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	prev := cpuSeconds()
	var idle time.Duration
	var idleOps uint64
	for {
		time.Sleep(100 * time.Millisecond)
		now := cpuSeconds()
		d := now - prev
		prev = now
		active := 0
		for _, w := range r.workers {
			if w.active.Load() {
				active++
			}
		}
		var ops uint64
		for _, w := range r.workers {
			ops += w.cur.Load()
		}
		if active > 0 && d < 0.005 && ops == idleOps {
			idle += 100 * time.Millisecond
		} else {
			idle = 0
		}
		idleOps = ops
		if idle >= 20*time.Second && int(idle/(100*time.Millisecond))%50 == 0 {
			if _, dead := blocked(); dead {
				for _, w := range r.workers {
					if w.active.Load() {
						r.abort(start, w, "every goroutine of the workload is blocked (deadlock)")
					}
				}
			}
		}
		if active == 0 {
			active = 1
		}
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		for i, w := range r.workers {
			c := w.cur.Load()
			if !w.active.Load() || c != last[i].ops {
				last[i].ops = c
				share[i] = 0
				continue
			}
			share[i] += d / float64(active)
			if share[i] > stallCPU {
				r.abort(start, w, fmt.Sprintf("an operation used more than %.0f CPU seconds without finishing", stallCPU))
			}
		}
		if heap > heapMax {
			worst := 0
			for i := range r.workers {
				if share[i] > share[worst] {
					worst = i
				}
			}
			r.abort(start, r.workers[worst], fmt.Sprintf("memory grew to %d MiB during the workload (a few MiB are expected)", heap>>20))
		}
	}
}

// ParseWhere splits "scenario case"; names of scenarios may contain spaces.
func ParseWhere(s string) (name string, idx int) {
	s = strings.TrimSpace(s)
	i := strings.LastIndexByte(s, ' ')
	if i < 0 {
		return s, 0
	}
	idx, _ = strconv.Atoi(s[i+1:])
	return s[:i], idx
}

// blocked tells whether every goroutine that works on a case is waiting for
// something that only another goroutine could do. Nothing outside the process
// is ever waited for, so that is a deadlock.
func blocked() (string, bool) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "mon.(*runner).watch") || strings.Contains(g, "mon.(*runner).runScenario(") {
			continue // the watchdog, and what waits for the workers
		}
		open := strings.IndexByte(g, '[')
		end := strings.IndexByte(g, ']')
		if !strings.HasPrefix(g, "goroutine ") || open < 0 || end < open {
			continue
		}
		state := g[open+1 : end]
		for _, busy := range []string{"run", "syscall", "IO wait", "sleep", "GC", "copystack", "preempted"} {
			if strings.HasPrefix(state, busy) {
				return "", false
			}
		}
	}
	return string(buf), true
}

// abort cannot stop the goroutine, so it reports and ends the process.
func (r *runner) abort(start time.Time, w *worker, msg string) {
	r.mu.Lock()
	name, idx := "", 0
	if p := w.where.Load(); p != nil {
		name, idx = ParseWhere(*p)
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r.rep.Failures = append(r.rep.Failures, Failure{
		Prop: r.o.Prop, Scenario: name, Case: idx, Seed: r.o.Seed, Tier: r.o.Tier, Mode: r.o.Mode, Msg: msg,
		Stack: string(buf[:min(len(buf), 20000)]),
	})
	r.rep.WallS = time.Since(start).Seconds()
	r.onReport(r.rep)
	os.Exit(0)
}

// WriteReplay writes the replay file of a failure.
func WriteReplay(dir string, n int, f Failure) string {
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", f.Prop, n))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}
