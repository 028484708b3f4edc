package props

import (
	stdheap "container/heap"
	"math/bits"
	"strconv"

	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/stack"

	"verif/harness/mon"
)

// --- C11: heap -------------------------------------------------------------

type intHeap []int

func (h intHeap) Len() int           { return len(h) }
func (h intHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// heapType makes elements of a type from a rank (what less looks at, through
// rank) and an identity.
type heapType[T any] struct {
	name string
	mk   func(rank, id int) T
	rank func(T) int
	id   func(T) int
	less func(a, b T) bool
}

type item struct{ rank, id int }

func itemType() heapType[item] {
	return heapType[item]{"struct ordered by one field", func(r, id int) item { return item{r, id} },
		func(x item) int { return x.rank }, func(x item) int { return x.id },
		func(a, b item) bool { return a.rank < b.rank }}
}

func ptrType() heapType[*item] {
	return heapType[*item]{"pointer, largest first", func(r, id int) *item { return &item{-r, id} },
		func(x *item) int { return -x.rank }, func(x *item) int { return x.id },
		func(a, b *item) bool { return a.rank > b.rank }}
}

func strType() heapType[string] {
	split := func(s string) (int, int) {
		i := 0
		for s[i] != ':' {
			i++
		}
		a, _ := strconv.Atoi(s[:i])
		b, _ := strconv.Atoi(s[i+1:])
		return a, b
	}
	return heapType[string]{"string ordered by a number in it", func(r, id int) string { return strconv.Itoa(r) + ":" + strconv.Itoa(id) },
		func(x string) int { r, _ := split(x); return r }, func(x string) int { _, id := split(x); return id },
		func(a, b string) bool { x, _ := split(a); y, _ := split(b); return x < y }}
}

type heapMon[T any] struct {
	t     *mon.T
	ty    heapType[T]
	h     *heap.Heap[T]
	in    map[int]int // id -> rank of the elements in the heap
	ref   intHeap     // their ranks
	next  int
	calls int
}

func (m *heapMon[T]) less(a, b T) bool { m.calls++; return m.ty.less(a, b) }

func (m *heapMon[T]) elem(rank int) T {
	m.next++
	m.in[m.next] = rank
	stdheap.Push(&m.ref, rank)
	return m.ty.mk(rank, m.next)
}

func (m *heapMon[T]) cost(what string) {
	n := len(m.in) + 1
	m.t.Check(1)
	m.t.Max("less_calls_"+what, int64(m.calls))
	if b := 4*(bits.Len(uint(n))+1) + 8; m.calls > b {
		m.t.Fail("heap: %s with %d elements called less %d times (more than %d)", what, n, m.calls, b)
	}
}

// minimum checks that x is in the heap and minimal.
func (m *heapMon[T]) minimum(what string, x T) int {
	m.t.Check(1)
	id, r := m.ty.id(x), m.ty.rank(x)
	w, ok := m.in[id]
	if !ok || w != r {
		m.t.Fail("heap: %s returns element %d of rank %d, which is not in the heap", what, id, r)
	}
	if r != m.ref[0] {
		m.t.Fail("heap: %s returns an element of rank %d while one of rank %d is in the heap", what, r, m.ref[0])
	}
	return id
}

func (m *heapMon[T]) look() {
	switch m.t.Intn(4) {
	case 0:
		m.size()
	case 1:
		m.peek()
	case 2:
		m.size()
		m.peek()
	case 3:
		m.peek()
		m.size()
	}
}

func (m *heapMon[T]) size() {
	m.t.Check(1)
	if n := m.h.Size(); n != len(m.in) {
		m.t.Fail("heap: Size() = %d with %d elements", n, len(m.in))
	}
}

func (m *heapMon[T]) peek() {
	m.t.Check(1)
	x, ok := m.h.Peek()
	if ok != (len(m.in) > 0) {
		m.t.Fail("heap: Peek reports %v with %d elements", ok, len(m.in))
	}
	if ok {
		m.minimum("Peek", x)
	} else {
		var z T
		if any(x) != any(z) {
			m.t.Fail("heap: Peek of an empty heap returns %v", x)
		}
	}
}

func (m *heapMon[T]) push(rank int) {
	m.t.Op("push", int64(rank))
	e := m.elem(rank)
	m.calls = 0
	m.h.Push(e)
	m.cost("Push")
	m.t.Event("pushes", 1)
	m.t.Max("size", int64(len(m.in)))
}

func (m *heapMon[T]) pop() {
	m.t.Op("pop")
	m.calls = 0
	x, ok := m.h.Pop()
	m.cost("Pop")
	m.t.Check(1)
	if ok != (len(m.in) > 0) {
		m.t.Fail("heap: Pop reports %v with %d elements", ok, len(m.in))
	}
	if !ok {
		var z T
		if any(x) != any(z) {
			m.t.Fail("heap: Pop of an empty heap returns %v", x)
		}
		m.t.Event("pops_when_empty", 1)
		return
	}
	id := m.minimum("Pop", x)
	delete(m.in, id)
	stdheap.Pop(&m.ref)
	m.t.Event("pops", 1)
}

func heapMake[T any](t *mon.T, ty heapType[T], how int, ranks []int) *heapMon[T] {
	m := &heapMon[T]{t: t, ty: ty, in: map[int]int{}}
	var data []T
	for _, r := range ranks {
		data = append(data, m.elem(r))
	}
	switch how {
	case 0:
		t.Op("new")
		m.h = heap.New(m.less)
		for _, x := range data {
			m.h.Push(x)
			t.Event("pushes", 1)
		}
	case 1:
		t.Op("from", int64(len(data)))
		m.h = heap.From(m.less, data...)
	case 2:
		t.Op("from-slice", int64(len(data)))
		if t.Bool() && len(data) > 0 {
			data = append(make([]T, 0, len(data)), data...) // no spare capacity
		}
		m.h = heap.FromSlice(m.less, data)
		m.storage(data)
	}
	return m
}

// storage checks that the slice given to FromSlice is the heap's storage: it
// holds the elements, its first one minimal, and a Pop takes from it.
func (m *heapMon[T]) storage(data []T) {
	seen := map[int]bool{}
	for _, x := range data {
		id := m.ty.id(x)
		if _, ok := m.in[id]; !ok || seen[id] {
			m.t.Fail("heap: after FromSlice the slice does not hold its elements once each")
		}
		seen[id] = true
	}
	m.t.Check(1)
	if len(data) == 0 {
		return
	}
	m.minimum("the slice given to FromSlice", data[0])
	x, _ := m.h.Peek()
	if m.ty.id(x) != m.ty.id(data[0]) {
		m.t.Fail("heap: FromSlice does not use the slice: Peek returns element %d, the slice starts with %d", m.ty.id(x), m.ty.id(data[0]))
	}
	// a write through the slice is seen by the heap: give the least element
	// an even lower rank
	low := m.ref[0] - 1
	id := m.ty.id(data[0])
	m.next++
	delete(m.in, id)
	m.in[m.next] = low
	stdheap.Pop(&m.ref)
	stdheap.Push(&m.ref, low)
	data[0] = m.ty.mk(low, m.next)
	m.look()
}

func heapRun[T any](t *mon.T, ty heapType[T], n, ops, ranks int, drain bool) {
	rs := make([]int, n)
	mode := t.Intn(5)
	rank := func(i int) int {
		switch mode {
		case 0:
			return i
		case 1:
			return -i
		case 2:
			return (i % 2) * ranks
		}
		return t.Intn(ranks)
	}
	for i := range rs {
		rs[i] = rank(i)
	}
	how := t.Intn(3)
	m := heapMake(t, ty, how, rs)
	t.Note("%s, made with way %d from %d elements, %d ranks (mode %d), %d operations", ty.name, how, n, ranks, mode, ops)
	m.look()
	w := []int{1, 1}
	for i := 0; i < ops; i++ {
		if i%50 == 0 {
			w = [][]int{{1, 1}, {5, 1}, {1, 5}, {0, 1}, {1, 0}}[t.Intn(5)]
		}
		if t.Weighted(w) == 0 {
			m.push(rank(i))
		} else {
			m.pop()
		}
		if !t.Gap() {
			m.look()
		}
	}
	if drain {
		for len(m.in) > 0 {
			m.pop()
			if len(m.in)%7 == 0 {
				m.look()
			}
		}
		m.pop()
		m.look()
		m.push(3)
		m.look()
		m.pop()
		m.look()
	}
}

// heapExhaustive makes a heap from every sequence of ranks and drains it.
func heapExhaustive(t *mon.T, n, ranks int) {
	total := 1
	for i := 0; i < n; i++ {
		total *= ranks
	}
	for k := t.Index; k < total; k += t.Count {
		rs := make([]int, n)
		x := k
		for i := range rs {
			rs[i] = x % ranks
			x /= ranks
		}
		m := heapMake(t, itemType(), k/t.Count%3, rs)
		m.look()
		if t.Bool() {
			m.pop()
			m.push(t.Intn(ranks))
			m.look()
		}
		for len(m.in) > 0 {
			m.pop()
			m.look()
		}
		t.Event("exhaustive_sequences", 1)
	}
}

func heapCase(t *mon.T, n, ops, ranks int) {
	switch t.Index % 3 {
	case 0:
		heapRun(t, itemType(), n, ops, ranks, true)
	case 1:
		heapRun(t, ptrType(), n, ops, ranks, true)
	default:
		heapRun(t, strType(), n, ops, ranks, true)
	}
}

// --- C12: queue ------------------------------------------------------------

type queueMon[T any] struct {
	t    *mon.T
	q    *queue.Queue[T]
	want []T
	id   int64
	kept *keeper[T]
}

// keep holds on to a result.
func (m *queueMon[T]) keep(what string, s []T) {
	if m.kept == nil {
		m.kept = newKeeper(m.t, eqv[T])
	}
	m.kept.keep("queue: "+what, s)
}

func (m *queueMon[T]) full() {
	t := m.t
	t.Check(4 + len(m.want))
	t.Shuffle(m.length, m.peekAll, func() {
		inner := t.Inner(len(m.want))
		if len(m.want) > 2000 && t.Intn(8) > 0 {
			inner = -1
		}
		m.each(inner)
	}, m.look)
	if m.kept != nil {
		m.kept.all()
	}
}

func (m *queueMon[T]) length() {
	if m.q.Len() != len(m.want) {
		m.t.Fail("queue: Len() = %d with %d items", m.q.Len(), len(m.want))
	}
	if m.q.Empty() != (len(m.want) == 0) {
		m.t.Fail("queue: Empty() = %v with %d items", m.q.Empty(), len(m.want))
	}
}

func (m *queueMon[T]) peekAll() {
	all := m.q.PeekAll()
	m.sameSlice("PeekAll", all)
	var z T
	if m.t.Bool() {
		for i := range all {
			all[i] = z
		}
	} else {
		m.keep("PeekAll", all)
	}
}

func (m *queueMon[T]) each(inner int) {
	t := m.t
	i := 0
	m.q.Each(func(v T) {
		if i == inner {
			t.Event("queries_within_a_traversal", 1)
			m.length()
			if t.Bool() {
				m.each(-1)
			}
			m.peekAll()
			m.look()
		}
		if i >= len(m.want) || !eqv(v, m.want[i]) {
			t.Fail("queue: Each visits %v at position %d of %d", v, i, len(m.want))
		}
		i++
	})
	if i != len(m.want) {
		t.Fail("queue: Each visits %d items of %d", i, len(m.want))
	}
}

func (m *queueMon[T]) sameSlice(what string, got []T) {
	if len(got) != len(m.want) {
		m.t.Fail("queue: %s returns %d items of %d", what, len(got), len(m.want))
	}
	for i, v := range got {
		if !eqv(v, m.want[i]) {
			m.t.Fail("queue: %s returns %v at position %d, expected %v", what, v, i, m.want[i])
		}
	}
}

func (m *queueMon[T]) look() {
	t := m.t
	if len(m.want) > 0 && t.Bool() {
		if v := m.q.Peek(); !eqv(v, m.want[0]) {
			t.Fail("queue: Peek returns %v, expected %v", v, m.want[0])
		}
	}
	v, ok := m.q.TryPeek()
	t.Check(2)
	var z T
	if len(m.want) == 0 {
		if ok || !eqv(v, z) {
			t.Fail("queue: TryPeek of an empty queue returns %v, %v", v, ok)
		}
		p, _ := mon.Panics(func() { m.q.Peek() })
		if !p {
			t.Fail("queue: Peek of an empty queue does not panic")
		}
		return
	}
	if !ok || !eqv(v, m.want[0]) {
		t.Fail("queue: TryPeek returns %v, %v, expected %v", v, ok, m.want[0])
	}
	if v := m.q.Peek(); !eqv(v, m.want[0]) {
		t.Fail("queue: Peek returns %v, expected %v", v, m.want[0])
	}
	if m.q.Len() != len(m.want) {
		t.Fail("queue: Len() = %d with %d items", m.q.Len(), len(m.want))
	}
}

func (m *queueMon[T]) out(try bool) {
	t := m.t
	t.Check(1)
	if len(m.want) == 0 {
		var z T
		if try {
			t.Op("try-dequeue-empty", m.id)
			if v, ok := m.q.TryDequeue(); ok || !eqv(v, z) {
				t.Fail("queue: TryDequeue of an empty queue returns %v, %v", v, ok)
			}
		} else {
			t.Op("dequeue-empty", m.id)
			if p, _ := mon.Panics(func() { m.q.Dequeue() }); !p {
				t.Fail("queue: Dequeue of an empty queue does not panic")
			}
		}
		t.Event("dequeues_when_empty", 1)
		return
	}
	var v T
	ok := true
	if try {
		t.Op("try-dequeue", m.id)
		v, ok = m.q.TryDequeue()
	} else {
		t.Op("dequeue", m.id)
		v = m.q.Dequeue()
	}
	if !ok || !eqv(v, m.want[0]) {
		t.Fail("queue: dequeued %v (%v), expected %v of %d items", v, ok, m.want[0], len(m.want))
	}
	m.want = m.want[1:]
	t.Event("dequeues", 1)
}

func queueRun[T any](t *mon.T, vs valspace[T], ops int, every int) {
	id := int64(0)
	var ms []*queueMon[T]
	for i := 0; i < 1+t.Intn(3); i++ {
		m := &queueMon[T]{t: t, id: int64(i)}
		if t.Bool() {
			m.q = queue.New[T]()
		} else {
			var in []T
			for k := t.Intn(20); k > 0; k-- {
				id++
				in = append(in, vs.mk(id))
			}
			t.Op("of", int64(len(in)))
			m.q = queue.Of(in)
			m.want = append(m.want, in...)
			for j := range in { // the caller's slice is the caller's
				id++
				in[j] = vs.mk(id)
			}
		}
		ms = append(ms, m)
	}
	t.Note("%d queues of %s, %d operations", len(ms), vs.name, ops)
	w := []int{4, 3, 1}
	for i := 0; i < ops; i++ {
		if i%30 == 0 {
			w = [][]int{{4, 3, 1}, {8, 1, 0}, {1, 8, 0}, {1, 1, 1}}[t.Intn(4)]
		}
		m := ms[t.Intn(len(ms))]
		switch t.Weighted(w) {
		case 0:
			id++
			t.Op("enqueue", m.id, id)
			v := vs.mk(id)
			m.q.Enqueue(v)
			m.want = append(m.want, v)
			t.Event("enqueues", 1)
			t.Max("size", int64(len(m.want)))
		case 1:
			m.out(t.Bool())
		case 2:
			switch t.Intn(12) {
			case 0:
				t.Op("dequeue-all", m.id)
				all := m.q.DequeueAll()
				m.sameSlice("DequeueAll", all)
				m.want = nil
				if t.Bool() {
					for i := range all {
						var z T
						all[i] = z
					}
				} else {
					m.keep("DequeueAll", all)
				}
				t.Event("dequeue_alls", 1)
			case 1:
				t.Op("clear", m.id)
				m.q.Clear()
				m.want = nil
				t.Event("clears", 1)
			default:
				m.look()
			}
		}
		if t.Gap() {
			continue
		}
		if i%every == 0 {
			for _, m := range ms {
				m.full()
			}
		} else if t.Bool() {
			m.look()
		} else {
			m.length()
		}
	}
	for _, m := range ms {
		m.full()
		for len(m.want) > 0 {
			m.out(t.Bool())
		}
		m.out(true)
		m.out(false)
		m.full()
	}
}

func queueCase(t *mon.T, ops, every int) {
	switch t.Index % 8 {
	case 0:
		queueRun(t, intVals(), ops, every)
	case 1:
		queueRun(t, strVals(), ops, every)
	case 2:
		queueRun(t, ptrVals(), ops, every)
	case 3:
		queueRun(t, funVals(), ops, every)
	case 4:
		queueRun(t, sliceVals(), ops, every)
	case 5:
		queueRun(t, arrVals(), ops, every)
	case 6:
		queueRun(t, unitVals(), ops, every)
	default:
		queueRun(t, anyVals(), ops, every)
	}
}

// queueHistories runs every history of a given length.
func queueHistories(t *mon.T, length int) {
	const kinds = 7
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	for h := t.Index; h < total; h += t.Count {
		m := &queueMon[int]{t: t, q: queue.New[int]()}
		x := h
		for i := 0; i < length; i++ {
			op := x % kinds
			x /= kinds
			switch op {
			case 0, 1:
				t.Op("enqueue", int64(i))
				m.q.Enqueue(i)
				m.want = append(m.want, i)
			case 2:
				m.out(true)
			case 3:
				m.out(false)
			case 4:
				t.Op("dequeue-all")
				m.sameSlice("DequeueAll", m.q.DequeueAll())
				m.want = nil
			case 5:
				t.Op("clear")
				m.q.Clear()
				m.want = nil
			case 6:
				m.full()
			}
		}
		m.full()
		t.Event("exhaustive_histories", 1)
	}
}

// --- C13: stack ------------------------------------------------------------

func stackRun[T any](t *mon.T, vs valspace[T], ops, maxRun int) {
	id := int64(0)
	type sm struct {
		s    *stack.Stack[T]
		want []T
	}
	var ms []*sm
	for i := 0; i < 1+t.Intn(3); i++ {
		ms = append(ms, &sm{s: stack.New[T]()})
	}
	t.Note("%d stacks of %s, %d operations", len(ms), vs.name, ops)
	look := func(m *sm) {
		var w T
		if n := len(m.want); n > 0 {
			w = m.want[n-1]
		}
		t.Check(2)
		what := t.Intn(4)
		if what == 0 && m.s.Size() != len(m.want) {
			t.Fail("stack: Size() = %d with %d elements", m.s.Size(), len(m.want))
		}
		if what != 1 {
			if v := m.s.Peek(); !eqv(v, w) {
				t.Fail("stack: Peek returns %v, expected %v with %d elements", v, w, len(m.want))
			}
		}
		if what != 2 && m.s.Size() != len(m.want) {
			t.Fail("stack: Size() = %d with %d elements", m.s.Size(), len(m.want))
		}
	}
	push := func(m *sm, i int64) {
		id++
		v := vs.mk(id)
		t.Op("push", i, id)
		m.s.Push(v)
		m.want = append(m.want, v)
		t.Event("pushes", 1)
		t.Max("size", int64(len(m.want)))
	}
	pop := func(m *sm, i int64) {
		t.Op("pop", i)
		v := m.s.Pop()
		var w T
		if n := len(m.want); n > 0 {
			w = m.want[n-1]
			m.want = m.want[:n-1]
			t.Event("pops", 1)
		} else {
			t.Event("pops_when_empty", 1)
		}
		t.Check(1)
		if !eqv(v, w) {
			t.Fail("stack: Pop returns %v, expected %v with %d elements left", v, w, len(m.want))
		}
	}
	for _, m := range ms {
		look(m)
	}
	for done := 0; done < ops; {
		// runs of pushes and pops, so that the storage grows and is reused
		x := t.Intn(len(ms))
		m := ms[x]
		run := 1 + t.Intn(maxRun)
		mode := t.Intn(3)
		for k := 0; k < run && done < ops; k++ {
			done++
			if mode == 0 || mode == 2 && t.Bool() {
				push(m, int64(x))
			} else {
				pop(m, int64(x))
			}
			if !t.Gap() {
				look(m)
			}
		}
		look(ms[t.Intn(len(ms))])
	}
	for x, m := range ms {
		for len(m.want) > 0 {
			pop(m, int64(x))
			look(m)
		}
		for k := 0; k < 3; k++ {
			pop(m, int64(x))
			look(m)
		}
		push(m, int64(x))
		look(m)
	}
}

func stackCase(t *mon.T, ops, run int) {
	switch t.Index % 8 {
	case 0:
		stackRun(t, intVals(), ops, run)
	case 1:
		stackRun(t, strVals(), ops, run)
	case 2:
		stackRun(t, ptrVals(), ops, run)
	case 3:
		stackRun(t, funVals(), ops, run)
	case 4:
		stackRun(t, sliceVals(), ops, run)
	case 5:
		stackRun(t, arrVals(), ops, run)
	case 6:
		stackRun(t, unitVals(), ops, run)
	default:
		stackRun(t, anyVals(), ops, run)
	}
}

// --- C14: list -------------------------------------------------------------

type lnode = list.Node[int64]

type listMon struct {
	t    *mon.T
	l    *list.List[int64]
	want []*lnode
	val  map[*lnode]int64
	id   int64
}

func (m *listMon) full() {
	t := m.t
	t.Check(2*len(m.want) + 4)
	fail := func(f string, a ...any) {
		t.Fail("list #%d of %d nodes: "+f, append([]any{m.id, len(m.want)}, a...)...)
	}
	if (m.l.Front == nil) != (len(m.want) == 0) || (m.l.Back == nil) != (len(m.want) == 0) {
		fail("Front is nil: %v, Back is nil: %v", m.l.Front == nil, m.l.Back == nil)
	}
	i := 0
	for n := m.l.Front; n != nil; n = n.Next {
		if i >= len(m.want) || n != m.want[i] {
			fail("walking forward, node %d is not the expected one", i)
		}
		if n.Value != m.val[n] {
			fail("node %d has value %d, expected %d", i, n.Value, m.val[n])
		}
		i++
	}
	if i != len(m.want) {
		fail("walking forward visits %d nodes", i)
	}
	i = len(m.want)
	for n := m.l.Back; n != nil; n = n.Prev {
		i--
		if i < 0 || n != m.want[i] {
			fail("walking backward, node %d is not the expected one", i)
		}
	}
	if i != 0 {
		fail("walking backward misses %d nodes", i)
	}
	h := uint64(9)
	for _, n := range m.want {
		h = mon.Mix(h, uint64(m.val[n]))
	}
	t.State(h)
}

// walks checks the Each functions from one node.
func (m *listMon) walks(at int) { m.walksAt(at, 0) }

func (m *listMon) walksAt(at, depth int) {
	t := m.t
	if len(m.want) == 0 {
		var n *lnode // the Front of an empty list
		n.Each(func(int64) { t.Fail("list: Each from the front of an empty list visits something") })
		n.EachReverse(func(int64) { t.Fail("list: EachReverse from the back of an empty list visits something") })
		n.EachNode(func(*lnode) { t.Fail("list: EachNode from the front of an empty list visits something") })
		n.EachReverseNode(func(*lnode) { t.Fail("list: EachReverseNode from the back of an empty list visits something") })
		return
	}
	n := m.want[at]
	i := at
	inner := -1
	if nested := t.Inner(len(m.want)); nested >= 0 && depth == 0 {
		inner = nested
	}
	within := func() {
		if i == inner {
			inner = -1
			t.Event("queries_within_a_traversal", 1)
			m.walksAt(t.Intn(len(m.want)), 1)
		}
	}
	n.Each(func(v int64) {
		within()
		if i >= len(m.want) || v != m.val[m.want[i]] {
			t.Fail("list: Each from node %d of %d visits %d at step %d", at, len(m.want), v, i-at)
		}
		i++
	})
	t.Assert(i == len(m.want), "list: Each from node %d of %d visits %d values", at, len(m.want), i-at)
	i = at
	n.EachNode(func(x *lnode) {
		within()
		if i >= len(m.want) || x != m.want[i] {
			t.Fail("list: EachNode from node %d of %d visits another node at step %d", at, len(m.want), i-at)
		}
		i++
	})
	t.Assert(i == len(m.want), "list: EachNode from node %d of %d visits %d nodes", at, len(m.want), i-at)
	i = at
	n.EachReverse(func(v int64) {
		within()
		if i < 0 || v != m.val[m.want[i]] {
			t.Fail("list: EachReverse from node %d of %d visits %d at step %d", at, len(m.want), v, at-i)
		}
		i--
	})
	t.Assert(i == -1, "list: EachReverse from node %d of %d visits %d values", at, len(m.want), at-i)
	i = at
	n.EachReverseNode(func(x *lnode) {
		within()
		if i < 0 || x != m.want[i] {
			t.Fail("list: EachReverseNode from node %d of %d visits another node at step %d", at, len(m.want), at-i)
		}
		i--
	})
	t.Assert(i == -1, "list: EachReverseNode from node %d of %d visits %d nodes", at, len(m.want), at-i)
}

// filter removes some of the nodes it visits while visiting them.
func (m *listMon) filter(at int, drop func(i int) bool, back bool) (removed []*lnode) {
	t := m.t
	if len(m.want) == 0 {
		return nil
	}
	old := append([]*lnode{}, m.want...)
	i := at
	gone := map[*lnode]bool{}
	visit := func(x *lnode) {
		if i < 0 || i >= len(old) || x != old[i] {
			t.Fail("list: a traversal from node %d of %d whose callback removes visited nodes visits another node at position %d", at, len(old), i)
		}
		if drop(i) {
			m.l.Remove(x)
			gone[x] = true
			removed = append(removed, x)
		}
		if back {
			i--
		} else {
			i++
		}
	}
	t.Op("filter", m.id, int64(at))
	if back {
		old[at].EachReverseNode(visit)
		t.Assert(i == -1, "list: a removing backward traversal from node %d of %d stops at %d", at, len(old), i)
	} else {
		old[at].EachNode(visit)
		t.Assert(i == len(old), "list: a removing traversal from node %d of %d stops at %d", at, len(old), i)
	}
	m.want = m.want[:0]
	for _, n := range old {
		if !gone[n] {
			m.want = append(m.want, n)
		}
	}
	t.Event("removals_during_traversal", int64(len(removed)))
	return removed
}

func insertAt[T any](s []T, i int, v T) []T {
	s = append(s, v)
	copy(s[i+1:], s[i:])
	s[i] = v
	return s
}

func removeAt[T any](s []T, i int) []T { return append(s[:i:i], s[i+1:]...) }

func listRun(t *mon.T, nl, ops, maxLen int, every int) {
	var ms []*listMon
	val := map[*lnode]int64{}
	for i := 0; i < nl; i++ {
		m := &listMon{t: t, l: list.New[int64](), val: val, id: int64(i)}
		if t.Intn(4) == 0 {
			m.l = &list.List[int64]{}
		}
		ms = append(ms, m)
	}
	var pool []*lnode // removed nodes, with whatever they still point to
	next := int64(0)
	node := func() *lnode {
		if len(pool) > 0 && t.Intn(3) > 0 {
			i := t.Intn(len(pool))
			n := pool[i]
			pool = removeAt(pool, i)
			t.Event("nodes_reinserted", 1)
			return n
		}
		next++
		n := &lnode{Value: next}
		val[n] = next
		return n
	}
	t.Note("%d lists, up to %d nodes, %d operations", nl, maxLen, ops)
	for i := 0; i < ops; i++ {
		x := t.Intn(nl)
		m := ms[x]
		n := len(m.want)
		op := t.Intn(11)
		if n >= maxLen && op < 6 {
			op = 6 + t.Intn(3)
		}
		switch op {
		case 0:
			next++
			t.Op("push-front", m.id, next)
			m.l.PushFront(next)
			f := m.l.Front
			if f == nil || f.Value != next {
				t.Fail("list: the front after PushFront(%d) is not the new node", next)
			}
			val[f] = next
			m.want = insertAt(m.want, 0, f)
		case 1:
			next++
			t.Op("push-back", m.id, next)
			m.l.PushBack(next)
			f := m.l.Back
			if f == nil || f.Value != next {
				t.Fail("list: the back after PushBack(%d) is not the new node", next)
			}
			val[f] = next
			m.want = append(m.want, f)
		case 2:
			x := node()
			t.Op("push-front-node", m.id, val[x])
			m.l.PushFrontNode(x)
			m.want = insertAt(m.want, 0, x)
		case 3:
			x := node()
			t.Op("push-back-node", m.id, val[x])
			m.l.PushBackNode(x)
			m.want = append(m.want, x)
		case 4, 5:
			if n == 0 {
				continue
			}
			at := t.Intn(n)
			x := node()
			if op == 4 {
				t.Op("insert-after", m.id, int64(at), val[x])
				r := m.l.InsertAfter(m.want[at], x)
				t.Assert(r == x, "list: InsertAfter does not return the added node")
				m.want = insertAt(m.want, at+1, x)
			} else {
				t.Op("insert-before", m.id, int64(at), val[x])
				r := m.l.InsertBefore(m.want[at], x)
				t.Assert(r == x, "list: InsertBefore does not return the added node")
				m.want = insertAt(m.want, at, x)
			}
			t.Event("inserts", 1)
		case 6, 7, 8:
			if n == 0 {
				continue
			}
			at := t.Intn(n)
			switch t.Intn(4) {
			case 0:
				at = 0
			case 1:
				at = n - 1
			}
			x := m.want[at]
			t.Op("remove", m.id, int64(at))
			m.l.Remove(x)
			m.want = removeAt(m.want, at)
			pool = append(pool, x)
			t.Event("removals", 1)
		case 9:
			at := t.Intn(max(n, 1))
			t.Op("walk", m.id, int64(at))
			m.walks(at)
		case 10:
			if t.Intn(4) > 0 {
				continue
			}
			d := t.Intn(4)
			at := t.Intn(max(n, 1))
			pool = append(pool, m.filter(at, func(i int) bool { return d == 0 || t.Intn(4) < d }, t.Bool())...)
		}
		if len(pool) > 64 {
			pool = pool[32:]
		}
		if i%every == 0 && !t.Gap() {
			for _, m := range ms {
				m.full()
			}
		}
		t.Max("size", int64(len(m.want)))
	}
	for _, m := range ms {
		m.full()
		for i := range m.want {
			if i < 200 {
				m.walks(i)
			}
		}
		m.filter(0, func(int) bool { return true }, false)
		m.full()
		m.l.PushBack(5)
		t.Assert(m.l.Front == m.l.Back && m.l.Front != nil && m.l.Front.Value == 5, "list: unusable after removing every node")
	}
}

func init() {
	hist := "A case is a generated history of operations (or a slice of all short histories) on one to three containers of one element type, mirrored on a reference model and compared; distinct by trace hash, non-trivial if it contains at least one operation."
	mon.Register("C11", "A case is a generated history of Push and Pop on a heap made by New, From or FromSlice (or the construction and draining of heaps from a slice of all short rank sequences); elements carry identities that less does not look at, and calls of less are counted. Distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "small", Quick: 8000, Thorough: 200000, Run: func(t *mon.T) { heapCase(t, t.Intn(12), 40+t.Intn(150), 1+t.Intn(10)) }},
		&mon.Scenario{Name: "medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { heapCase(t, t.Intn(500), 3000, 1+t.Intn(2000)) }},
		&mon.Scenario{Name: "all-rank-sequences", Quick: 8, Thorough: 32, Run: func(t *mon.T) {
			for n := 0; n <= t.Pick(7, 9); n++ {
				heapExhaustive(t, n, t.Pick(4, 5))
			}
		}},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 60, Run: func(t *mon.T) { heapCase(t, t.Pick(40000, 200000), 20000, 1<<uint(t.Intn(20))) }},
	)
	mon.Register("C12", hist,
		&mon.Scenario{Name: "small", Quick: 6000, Thorough: 150000, Run: func(t *mon.T) { queueCase(t, 40+t.Intn(160), 1) }},
		&mon.Scenario{Name: "medium", Quick: 200, Thorough: 4000, Run: func(t *mon.T) { queueCase(t, 4000, 200) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 8, Thorough: 16, Run: func(t *mon.T) { queueHistories(t, t.Pick(6, 8)) }},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) { queueCase(t, 200000, 40000) }},
	)
	mon.Register("C13", hist,
		&mon.Scenario{Name: "small", Quick: 8000, Thorough: 200000, Run: func(t *mon.T) { stackCase(t, 60+t.Intn(300), 1+t.Intn(20)) }},
		&mon.Scenario{Name: "medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { stackCase(t, 8000, 1+t.Intn(600)) }},
		&mon.Scenario{Name: "large", Quick: 12, Thorough: 80, Run: func(t *mon.T) { stackCase(t, 300000, 1+t.Intn(150000)) }},
	)
	mon.Register("C14", hist,
		&mon.Scenario{Name: "small", Quick: 8000, Thorough: 200000, Run: func(t *mon.T) { listRun(t, 1+t.Intn(3), 60+t.Intn(200), 1+t.Intn(8), 1) }},
		&mon.Scenario{Name: "medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { listRun(t, 1+t.Intn(3), 3000, 300, 40) }},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) { listRun(t, 2, 60000, 60000, 10000) }},
	)
}
