package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"runtime/coverage"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// Cost is what a piece of work used: basic blocks of the code under test that
// were executed, CPU time of the thread, and bytes allocated.
type Cost struct {
	Blocks float64
	Nanos  float64
	Bytes  float64
}

func (c Cost) String() string {
	return fmt.Sprintf("%.1f blocks, %.0f ns, %.0f bytes", c.Blocks, c.Nanos, c.Bytes)
}

// Measuring prepares the process for measurements and returns what undoes it.
func Measuring() func() {
	runtime.LockOSThread()
	runtime.GC()
	old := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(6 << 30)
	return func() {
		debug.SetMemoryLimit(limit)
		debug.SetGCPercent(old)
		runtime.UnlockOSThread()
	}
}

func threadNanos() int64 {
	var ts syscall.Timespec
	const threadCPU = 3
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, threadCPU, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		unusable(e)
	}
	return ts.Nano()
}

func unusable(err error) {
	fmt.Fprintln(os.Stderr, "the work counters cannot be used:", err)
	os.Exit(3)
}

// Measure runs fn, which does n operations, and returns the cost of one. The
// blocks are counted by the counters that "go build -cover" puts into the code
// under test.
func Measure(n int, fn func()) Cost {
	if err := coverage.ClearCounters(); err != nil {
		unusable(err)
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t0 := threadNanos()
	fn()
	t1 := threadNanos()
	runtime.ReadMemStats(&b)
	var buf bytes.Buffer
	if err := coverage.WriteCounters(&buf); err != nil {
		unusable(err)
	}
	sum, err := sumCounters(buf.Bytes())
	if err != nil {
		unusable(err)
	}
	d := float64(n)
	return Cost{float64(sum) / d, float64(t1-t0) / d, float64(b.TotalAlloc-a.TotalAlloc) / d}
}

// sumCounters adds up the counters of a counter data file (internal/coverage:
// a header, then a segment of string table, arguments and functions).
func sumCounters(b []byte) (sum uint64, err error) {
	defer func() {
		if recover() != nil {
			err = fmt.Errorf("counter data of an unknown format")
		}
	}()
	bad := fmt.Errorf("counter data of an unknown format")
	if len(b) < 32 || string(b[:4]) != "\x00cwm" {
		return 0, bad
	}
	flavor := b[24]
	pos := 32
	n := binary.LittleEndian.Uint64(b[pos:])
	pos += 16 + int(binary.LittleEndian.Uint32(b[pos+8:])) + int(binary.LittleEndian.Uint32(b[pos+12:]))
	pos = (pos + 3) &^ 3
	next := func() uint64 {
		if flavor == 1 {
			v := binary.LittleEndian.Uint32(b[pos:])
			pos += 4
			return uint64(v)
		}
		v, k := binary.Uvarint(b[pos:])
		if k <= 0 {
			panic(bad)
		}
		pos += k
		return v
	}
	if flavor != 1 && flavor != 2 {
		return 0, bad
	}
	for ; n > 0; n-- {
		c := next()
		next() // package
		next() // function
		for ; c > 0; c-- {
			sum += next()
		}
	}
	return sum, nil
}
