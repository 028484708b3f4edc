// Package mon is the monitoring framework: it generates workloads (cases)
// from seeds, runs them on the real code, records the operations (events) that
// the oracles see, and turns what the oracles say into a three-valued verdict.
package mon

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// A Prop is a property together with the scenarios that decide it.
type Prop struct {
	ID        string
	Rule      string // how cases are made and what makes one non-trivial
	Scenarios []*Scenario
}

// A Scenario is a family of cases: case i of a scenario is determined by the
// seed of the run, the scenario and i.
type Scenario struct {
	Name     string
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
	Race     bool   // runs in the binary built with the race detector
	Work     bool   // runs in the binary built with work counters
	Serial   bool   // one case at a time (for measurements and global settings)
	Setup    func() // runs once, before the cases
	Run      func(t *T)
}

var registry = map[string]*Prop{}

// quickScale multiplies the number of quick cases of the scenarios that have
// many small ones (as opposed to a fixed number of slices of an enumeration).
const (
	quickScale     = 8
	quickScaleRace = 2
	manyCases      = 100
)

// thoroughScale multiplies, in the same way, the number of thorough cases of
// the properties whose cases are short.
var thoroughScale = map[string]int{
	"C06": 2, "C07": 2, "C08": 2, "C09": 3, "C10": 6, "C11": 8, "C12": 10, "C13": 30,
	"C14": 12, "C15": 25, "C16": 30, "C17": 3, "C18": 2, "C23": 6, "C26": 10, "C25": 10,
	"C27": 10, "C28": 4, "C31": 4,
}

// Register adds scenarios to the property.
func Register(id, rule string, sc ...*Scenario) {
	p := registry[id]
	if p == nil {
		p = &Prop{ID: id}
		registry[id] = p
	}
	if rule != "" {
		p.Rule = rule
	}
	for _, s := range sc {
		if s.Quick >= manyCases {
			if s.Race {
				s.Quick *= quickScaleRace
			} else {
				s.Quick *= quickScale
			}
			s.Thorough = max(s.Thorough, s.Quick) * max(thoroughScale[id], 1)
		}
	}
	p.Scenarios = append(p.Scenarios, sc...)
}

// Mode is the kind of binary the scenario runs in.
func (s *Scenario) Mode() string {
	switch {
	case s.Race:
		return "race"
	case s.Work:
		return "work"
	}
	return "plain"
}

// Lookup returns the property, or nil.
func Lookup(id string) *Prop { return registry[id] }

// IDs returns the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

const ringSize = 256

type opRec struct {
	name string
	n    int
	a    [4]int64
}

func (o opRec) String() string {
	switch o.n {
	case 0:
		return o.name
	default:
		return fmt.Sprint(o.name, o.a[:o.n])
	}
}

// Violation is what an oracle panics with.
type Violation struct{ Msg string }

func (v Violation) Error() string { return v.Msg }

// T is one case: its randomness, its recorded events and its verdict.
type T struct {
	*Rng
	Tier   string
	Index  int // index of the case in its scenario
	Count  int // number of cases in the scenario
	Inside string

	w     *worker
	ring  [ringSize]opRec
	nops  int
	trace uint64 // hash of all events of the case
	full  *[]string
	note  string
	triv  bool
	noted bool
	gap   int // light observations happen every gap operations on average
}

// Gap tells a monitor to leave out an observation, so that several operations
// in a row go unobserved: a case has its own density of observations, from
// after every operation to hardly any.
func (t *T) Gap() bool {
	if t.gap == 0 {
		t.gap = []int{1, 1, 1, 2, 3, 8, 40}[t.Intn(7)]
	}
	return t.gap > 1 && t.Intn(t.gap) > 0
}

// Shuffle makes observations in a random order: each of them is at times the
// first to see the effects of the operations before it.
func (t *T) Shuffle(fns ...func()) {
	for i := len(fns) - 1; i > 0; i-- {
		j := t.Intn(i + 1)
		fns[i], fns[j] = fns[j], fns[i]
	}
	for _, fn := range fns {
		fn()
	}
}

// Inner returns the visit of a traversal of n elements from within which to
// make other queries, or -1 for none.
func (t *T) Inner(n int) int {
	if n == 0 || t.Intn(4) > 0 {
		return -1
	}
	return t.Intn(n)
}

// Op records an event: an operation about to be applied to the code under
// test. It is also what the progress watchdog looks at.
func (t *T) Op(name string, a ...int64) {
	r := &t.ring[t.nops%ringSize]
	r.name = name
	r.n = copy(r.a[:], a)
	t.nops++
	h := t.trace ^ uint64(len(name))<<32
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	for _, x := range a {
		h = (h ^ uint64(x)) * 0x9e3779b97f4a7c15
		h ^= h >> 29
	}
	t.trace = h
	t.w.ops++
	t.w.cur.Store(t.w.ops)
	if t.full != nil && len(*t.full) < 200000 {
		*t.full = append(*t.full, r.String())
	}
}

// Tick tells the watchdog that the harness itself is making progress.
func (t *T) Tick() {
	t.w.ops++
	t.w.cur.Store(t.w.ops)
}

// Event counts something the monitor observed.
func (t *T) Event(name string, n int64) { t.w.events[name] += n }

// Max keeps the maximum of something the monitor observed.
func (t *T) Max(name string, n int64) {
	if o, ok := t.w.max[name]; !ok || n > o {
		t.w.max[name] = n
	}
}

// Check counts oracle decisions.
func (t *T) Check(n int) { t.w.checks += int64(n) }

// State records the hash of an observed state.
func (t *T) State(h uint64) {
	if len(t.w.states) < 1<<20 {
		t.w.states[Mix(h, HashStr(t.Inside))] = struct{}{}
	}
}

// Note describes the configuration of the case, for samples and replays.
func (t *T) Note(format string, args ...any) {
	t.note = fmt.Sprintf(format, args...)
	t.trace = Mix(t.trace, HashStr(t.note))
}

// Trivial marks the case as too small to count.
func (t *T) Trivial() { t.triv = true }

// Fail reports a violation.
func (t *T) Fail(format string, args ...any) {
	panic(Violation{fmt.Sprintf(format, args...)})
}

// Assert reports a violation unless ok.
func (t *T) Assert(ok bool, format string, args ...any) {
	t.w.checks++
	if !ok {
		panic(Violation{fmt.Sprintf(format, args...)})
	}
}

// Thorough tells the tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func (t *T) Pick(q, th int) int {
	if t.Thorough() {
		return th
	}
	return q
}

// Panics runs fn and returns whether it panicked, and with what. Violations
// pass through.
func Panics(fn func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(Violation); ok {
				panic(v)
			}
			panicked, val = true, r
		}
	}()
	fn()
	return false, nil
}

type worker struct {
	ops    uint64
	checks int64
	cur    atomic.Uint64
	active atomic.Bool
	where  atomic.Pointer[string]
	events map[string]int64
	max    map[string]int64
	states map[uint64]struct{}
	traces map[uint64]struct{}
	nontr  int64
	_      [64]byte
}

func newWorker() *worker {
	return &worker{
		events: map[string]int64{}, max: map[string]int64{},
		states: map[uint64]struct{}{}, traces: map[uint64]struct{}{},
	}
}
