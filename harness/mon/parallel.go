package mon

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
)

// G is one goroutine of a concurrent workload.
type G struct {
	*Rng
	ID  int
	N   int64 // operations done
	jit int
}

// Fail reports a violation from a goroutine.
func (g *G) Fail(format string, args ...any) { panic(Violation{fmt.Sprintf(format, args...)}) }

// Assert reports a violation unless ok.
func (g *G) Assert(ok bool, format string, args ...any) {
	if !ok {
		panic(Violation{fmt.Sprintf(format, args...)})
	}
}

// Step counts an operation and now and then yields, to vary the interleaving.
func (g *G) Step() {
	g.N++
	if g.jit > 0 && g.Intn(g.jit) == 0 {
		runtime.Gosched()
	}
}

// Parallel runs n goroutines that start together and waits for them. A panic
// in any of them (an oracle's or the code's) becomes a violation of the case.
func (t *T) Parallel(n int, fn func(g *G)) {
	var wg sync.WaitGroup
	var ready atomic.Int64
	start := make(chan struct{})
	errs := make([]string, n)
	ns := make([]int64, n)
	for i := 0; i < n; i++ {
		g := &G{Rng: NewRng(t.Uint64()), ID: i, jit: []int{0, 2, 7, 50}[t.Intn(4)]}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				ns[g.ID] = g.N
				if e := recover(); e != nil {
					if v, ok := e.(Violation); ok {
						errs[g.ID] = v.Msg
					} else {
						errs[g.ID] = fmt.Sprintf("unexpected panic: %v\n%s", e, trimStack(string(debug.Stack())))
					}
				}
			}()
			ready.Add(1)
			<-start
			fn(g)
		}()
	}
	for ready.Load() < int64(n) {
		runtime.Gosched()
	}
	close(start)
	wg.Wait()
	total := int64(0)
	for i := range errs {
		total += ns[i]
		if errs[i] != "" {
			t.Fail("goroutine %d: %s", i, errs[i])
		}
	}
	t.Op("parallel", int64(n), total)
	t.Event("goroutines", int64(n))
	t.Event("concurrent_operations", total)
}
