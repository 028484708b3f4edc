package props

import (
	"fmt"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"

	"verif/harness/mon"
)

// --- C29: copies -----------------------------------------------------------

// A copyable is a container with its model.
type copyable interface {
	mutate(t *mon.T)         // applies a few operations
	look(t *mon.T, w string) // compares with the model without changing anything
	copy(t *mon.T) copyable
	finish(t *mon.T) // compares by taking it apart
}

// copyFamily copies members of a family at random and mutates members in
// turn; everyone is compared with their own model all the time.
func copyFamily(t *mon.T, name string, root copyable, ops int) {
	t.Note("%s: %d operations on a family of copies", name, ops)
	fam := []copyable{root}
	for i := t.Intn(6); i > 0; i-- {
		root.mutate(t)
	}
	if !t.Gap() {
		root.look(t, "before copying")
	}
	for i := 0; i < ops; i++ {
		k := t.Intn(len(fam))
		if t.Intn(4) == 0 {
			t.Op("copy", int64(k))
			c := fam[k].copy(t)
			t.Event("copies", 1)
			if !t.Gap() {
				t.Shuffle(func() { c.look(t, "of a new copy") },
					func() { fam[k].look(t, "of the original just copied") })
			}
			if len(fam) < 7 {
				fam = append(fam, c)
			} else {
				j := t.Intn(len(fam))
				fam[j].finish(t)
				fam[j] = c
			}
		} else {
			fam[k].mutate(t)
		}
		if t.Gap() {
			continue
		}
		for _, k := range t.Perm(len(fam)) {
			fam[k].look(t, "of a member of a family of copies")
		}
	}
	t.Max("family", int64(len(fam)))
	for len(fam) > 0 {
		k := t.Intn(len(fam))
		fam[k].finish(t)
		fam = append(fam[:k:k], fam[k+1:]...)
		for _, m := range fam {
			m.look(t, "of a copy of a container that was taken apart")
		}
	}
}

type copyStack[T any] struct {
	s    *stack.Stack[T]
	el   elems[T]
	want []T
	next *int
}

func (m *copyStack[T]) mutate(t *mon.T) {
	if t.Bool() {
		for n := 1 + t.Intn(6); n > 0; n-- {
			*m.next++
			v := m.el.mk(*m.next)
			t.Op("Push", int64(*m.next))
			m.s.Push(v)
			m.want = append(m.want, v)
		}
		return
	}
	for n := 1 + t.Intn(6); n > 0; n-- {
		t.Op("Pop")
		v := m.s.Pop()
		var w T
		if k := len(m.want); k > 0 {
			w = m.want[k-1]
			m.want = m.want[: k-1 : k-1]
		}
		if !eqv(v, w) {
			t.Fail("stack: Pop in a family of copies yields %v, expected %v", v, w)
		}
	}
}

func (m *copyStack[T]) look(t *mon.T, w string) {
	t.Check(1)
	var top T
	if k := len(m.want); k > 0 {
		top = m.want[k-1]
	}
	if m.s.Size() != len(m.want) || !eqv(m.s.Peek(), top) {
		t.Fail("stack: Size() and Peek() %s are %d and %v, expected %d and %v", w, m.s.Size(), m.s.Peek(), len(m.want), top)
	}
}

func (m *copyStack[T]) copy(t *mon.T) copyable {
	return &copyStack[T]{m.s.Copy(), m.el, cat(m.want), m.next}
}

func (m *copyStack[T]) finish(t *mon.T) {
	t.Op("drain")
	for i := len(m.want) - 1; i >= 0; i-- {
		if v := m.s.Pop(); !eqv(v, m.want[i]) {
			t.Fail("stack: a copy holds %v at position %d of %d, expected %v", v, i, len(m.want), m.want[i])
		}
		m.want = m.want[:i:i]
	}
	m.look(t, "of a drained copy")
}

type copyQueue[T any] struct {
	q    *queue.Queue[T]
	el   elems[T]
	want []T
	next *int
}

func newCopyQueue[T any](t *mon.T, el elems[T]) *copyQueue[T] {
	m := &copyQueue[T]{el: el, next: new(int)}
	if t.Bool() {
		m.q = queue.New[T]()
		return m
	}
	src := make([]T, t.Intn(20), 30)
	for i := range src {
		*m.next++
		src[i] = el.mk(*m.next)
	}
	m.want = cat(src)
	t.Op("Of", int64(len(src)))
	m.q = queue.Of(src)
	same(t, "queue: the slice given to Of, afterwards,", src, m.want)
	src = src[:cap(src)]
	for i := range src {
		*m.next++
		src[i] = el.mk(*m.next)
	}
	m.look(t, "of a queue made from a slice that was changed later")
	keep := cat(src)
	for i := t.Intn(3); i > 0; i-- {
		m.mutate(t)
	}
	same(t, "queue: the slice given to Of, after changes of the queue,", src, keep)
	return m
}

func (m *copyQueue[T]) mutate(t *mon.T) {
	switch t.Intn(7) {
	case 0, 1, 2:
		for n := 1 + t.Intn(5); n > 0; n-- {
			*m.next++
			t.Op("Enqueue", int64(*m.next))
			v := m.el.mk(*m.next)
			m.q.Enqueue(v)
			m.want = append(m.want, v)
		}
	case 3, 4:
		for n := 1 + t.Intn(5); n > 0; n-- {
			t.Op("TryDequeue")
			v, ok := m.q.TryDequeue()
			var w T
			wok := len(m.want) > 0
			if wok {
				w, m.want = m.want[0], m.want[1:len(m.want):len(m.want)]
			}
			if !eqv(v, w) || ok != wok {
				t.Fail("queue: TryDequeue in a family of copies yields %v, %v, expected %v, %v", v, ok, w, wok)
			}
		}
	case 5:
		if t.Intn(4) == 0 {
			t.Op("Clear")
			m.q.Clear()
			m.want = nil
		}
	case 6:
		if t.Intn(4) == 0 {
			t.Op("DequeueAll")
			same(t, "queue: DequeueAll in a family of copies", m.q.DequeueAll(), m.want)
			m.want = nil
		}
	}
}

func (m *copyQueue[T]) look(t *mon.T, w string) {
	if m.q.Len() != len(m.want) || m.q.Empty() != (len(m.want) == 0) {
		t.Fail("queue: Len() %s is %d, expected %d", w, m.q.Len(), len(m.want))
	}
	got := m.q.PeekAll()
	same(t, "queue: PeekAll "+w, got, m.want)
	for i := range got {
		var z T
		got[i] = z
	}
	i := 0
	m.q.Each(func(v T) {
		if i >= len(m.want) || !eqv(v, m.want[i]) {
			t.Fail("queue: Each %s is wrong at position %d", w, i)
		}
		i++
	})
}

func (m *copyQueue[T]) copy(t *mon.T) copyable {
	return &copyQueue[T]{m.q.Copy(), m.el, cat(m.want), m.next}
}

func (m *copyQueue[T]) finish(t *mon.T) {
	t.Op("drain")
	for len(m.want) > 0 {
		if v := m.q.Dequeue(); !eqv(v, m.want[0]) {
			t.Fail("queue: Dequeue of a copy yields %v, expected %v", v, m.want[0])
		}
		m.want = m.want[1:]
	}
	m.look(t, "of a drained copy")
}

type copyGrid[T any] struct {
	*gridMon[T]
	rows map[int][]T // rows obtained earlier, which stay views of this array
}

func newCopyGrid[T any](t *mon.T, el elems[T], w, h int) *copyGrid[T] {
	m := &copyGrid[T]{gridMake(t, el, w, h, t.Intn(3)), map[int][]T{}}
	if t.Bool() { // keep the source of OfJagged, and write to both
		var j [][]T
		for y := 0; y < h; y++ {
			row := make([]T, w, w+t.Intn(3))
			for x := range row {
				row[x] = m.fresh()
				m.m[y][x] = row[x]
			}
			j = append(j, row)
		}
		m.a = array2d.OfJagged(w, h, j)
		m.full("OfJagged")
		for x := 0; x < w; x++ {
			for y := 0; y < h; y++ {
				was := m.m[y][x]
				m.set(x, y)
				if !eqv(j[y][x], was) {
					t.Fail("array2d: Set(%d, %d) changed the slice given to OfJagged", x, y)
				}
				j[y][x] = m.fresh()
			}
		}
		m.full("changes of the slice given to OfJagged")
	}
	return m
}

func (m *copyGrid[T]) mutate(t *mon.T) {
	if m.w == 0 || m.h == 0 {
		return
	}
	x, y := t.Intn(m.w), t.Intn(m.h)
	switch t.Intn(5) {
	case 0, 1:
		m.set(x, y)
	case 2:
		m.fill(x, y, t.Intn(m.w), t.Intn(m.h))
	case 3:
		m.span(x, t.Intn(m.w), y)
	case 4:
		t.Op("Row", int64(y))
		row, ok := m.rows[y]
		if !ok {
			row = m.a.Row(y)
			m.rows[y] = row
		}
		row[x] = m.fresh()
		m.m[y][x] = row[x]
	}
}

func (m *copyGrid[T]) look(t *mon.T, w string) {
	m.full(w)
	for y, row := range m.rows {
		for x := range row {
			if !eqv(row[x], m.m[y][x]) {
				t.Fail("array2d: a row obtained before copying differs from its array at (%d, %d)", x, y)
			}
		}
	}
}

func (m *copyGrid[T]) copy(t *mon.T) copyable {
	c := &gridMon[T]{t: m.t, el: m.el, a: m.a.Copy(), w: m.w, h: m.h, next: m.next + 1000*(1+t.Intn(1000))}
	for _, row := range m.m {
		c.m = append(c.m, cat(row))
	}
	if m.w == 0 {
		c.m = blankRows[T](0, m.h)
	}
	return &copyGrid[T]{c, map[int][]T{}}
}

func (m *copyGrid[T]) finish(t *mon.T) {
	if m.w > 0 && m.h > 0 {
		m.fill(0, 0, m.w-1, m.h-1)
	}
	m.str()
}

type copyBimap[K, V comparable] struct{ *bimapMon[K, V] }

func (m copyBimap[K, V]) mutate(t *mon.T) {
	for n := 1 + t.Intn(3); n > 0; n-- {
		m.apply(t.Weighted([]int{20, 5, 5, 1}), t.Intn(len(m.k)), t.Intn(len(m.v)))
	}
}
func (m copyBimap[K, V]) look(t *mon.T, w string) { m.full() }
func (m copyBimap[K, V]) copy(t *mon.T) copyable {
	b := m.b.Copy()
	return copyBimap[K, V]{&bimapMon[K, V]{t: m.t, b: &b, k: m.k, v: m.v, fwd: cat(m.fwd), rev: cat(m.rev)}}
}
func (m copyBimap[K, V]) finish(t *mon.T) {
	for k := range m.k {
		m.apply(1, k, 0)
		if k%(1+len(m.k)/40) == 0 {
			m.full()
		}
	}
}

type copySet struct {
	s    set.Set[int]
	ks   keyspace[int]
	want []bool
}

func (m *copySet) mutate(t *mon.T) {
	c := t.Intn(m.ks.n)
	switch t.Intn(8) {
	case 0, 1, 2:
		t.Op("Put", int64(c))
		m.s.Put(m.ks.mk(c, 0))
		m.want[c] = true
	case 3, 4, 5:
		t.Op("Remove", int64(c))
		m.s.Remove(m.ks.mk(c, 0))
		m.want[c] = false
	case 6:
		if t.Intn(4) == 0 {
			t.Op("Clear")
			m.s.Clear()
			m.want = make([]bool, m.ks.n)
		}
	case 7:
		d := t.Intn(m.ks.n)
		o := mapset.Of(m.ks.mk(c, 0), m.ks.mk(d, 0))
		if t.Bool() {
			t.Op("InPlaceUnion", int64(c), int64(d))
			m.s.InPlaceUnion(o)
			m.want[c], m.want[d] = true, true
		} else {
			t.Op("InPlaceDifference", int64(c), int64(d))
			m.s.InPlaceDifference(o)
			m.want[c], m.want[d] = false, false
		}
	}
}

func (m *copySet) look(t *mon.T, w string) {
	n := 0
	for c, h := range m.want {
		t.Check(1)
		if h {
			n++
		}
		if m.s.Has(m.ks.mk(c, 0)) != h {
			t.Fail("set: Has(%d) %s is %v", m.ks.mk(c, 0), w, !h)
		}
	}
	if m.s.Size() != n || len(m.s.Keys()) != n {
		t.Fail("set: Size() %s is %d, expected %d", w, m.s.Size(), n)
	}
}

func (m *copySet) copy(t *mon.T) copyable {
	return &copySet{m.s.Clone(), m.ks, cat(m.want)}
}

func (m *copySet) finish(t *mon.T) {
	t.Op("Clear")
	m.s.Clear()
	m.want = make([]bool, m.ks.n)
	m.look(t, "of a cleared clone")
}

func newCopySet(t *mon.T) (string, *copySet) {
	n := 1 + t.Intn(40)
	ks := intKeys(n, -n/2, 1+t.Intn(3))
	hn := pickHashing(t, n)
	cp := capacities[t.Intn(len(capacities))]
	m := &copySet{ks: ks, want: make([]bool, n)}
	var in []int
	for i := t.Intn(2 * n); i > 0; i-- {
		c := t.Intn(n)
		in = append(in, ks.mk(c, 0))
		m.want[c] = true
	}
	name := ""
	switch t.Intn(3) {
	case 0:
		name = "set over maps"
		m.s = set.NewMapset(in...)
	case 1:
		name = "set over hashsets"
		m.s = set.NewHashset(cp, ks.eq, hashing(ks, hn), in...)
	default:
		name = "set over a constructor"
		m.s = set.NewSet(func() set.SetOf[int] { return hashset.New(cp, ks.eq, hashing(ks, hn)) }, in...)
	}
	for i := range in {
		in[i] = ks.mk(t.Intn(n), 0)
	}
	return name, m
}

func copyCase(t *mon.T, ops int, big int) {
	switch t.Index % 14 {
	case 0:
		copyFamily(t, "stack of ints", &copyStack[int]{s: stack.New[int](), el: intElems, next: new(int)}, ops)
	case 1:
		m := &copyStack[string]{s: stack.New[string](), el: stringElems, next: new(int)}
		for i := t.Intn(big); i > 0; i-- { // some length, whatever capacity goes with it
			*m.next++
			m.s.Push(m.el.mk(*m.next))
			m.want = append(m.want, m.el.mk(*m.next))
		}
		copyFamily(t, "stack of strings", m, ops)
	case 2:
		copyFamily(t, "queue of ints", newCopyQueue(t, intElems), ops)
	case 3:
		copyFamily(t, "queue of structs", newCopyQueue(t, structElems), ops)
	case 4:
		copyFamily(t, "array of ints", newCopyGrid(t, intElems, t.Intn(7), t.Intn(7)), ops)
	case 5:
		copyFamily(t, "array of strings", newCopyGrid(t, stringElems, t.Intn(12), 1+t.Intn(3)), ops)
	case 6:
		n := 1 + t.Intn(8)
		num := func(i int) int { return i }
		copyFamily(t, "bimap of ints", copyBimap[int, int]{newBimapMon(t, n, n, num, num, t.Bool())}, ops)
	case 7:
		n := 1 + t.Intn(12)
		copyFamily(t, "bimap of strings", copyBimap[string, int]{newBimapMon(t, n, 1+t.Intn(12), func(i int) string { return fmt.Sprint("k", i) }, func(i int) int { return i - 1 }, t.Bool())}, ops)
	case 8:
		copyFamily(t, "stack of functions", &copyStack[func() int]{s: stack.New[func() int](), el: funcElems, next: new(int)}, ops)
	case 9:
		copyFamily(t, "queue of slices", newCopyQueue(t, sliceElems), ops)
	case 10:
		copyFamily(t, "array of anything", newCopyGrid(t, anyElems, t.Intn(9), t.Intn(9)), ops)
	case 11:
		copyFamily(t, "queue of anything", newCopyQueue(t, anyElems), ops)
	default:
		name, m := newCopySet(t)
		copyFamily(t, name, m, ops)
	}
}

func init() {
	mon.Register("C29", "A case is a family of copies (and copies of copies) of one container: members are copied and mutated in turn and every one is compared with its own model after every operation, and taken apart at the end. Distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "families", Quick: 6000, Thorough: 200000, Run: func(t *mon.T) { copyCase(t, 20+t.Intn(60), 40) }},
		&mon.Scenario{Name: "long families", Quick: 100, Thorough: 3000, Run: func(t *mon.T) { copyCase(t, 600, 3000) }},
	)
}

// copyLarge copies large containers and writes to one side at once, at both
// ends and in the middle; in a race-detecting build as well.
func copyLarge(t *mon.T) {
	n := []int{5000, 40000, 70000, 140000}[t.Intn(4)] + t.Intn(100)
	val := func(i int) int { return i*7 + 1 }
	spots := []int{0, n / 2, n - 1, t.Intn(n)}
	kind := []string{"stack", "queue", "array", "array of one row", "bimap", "hash set", "map set"}[t.Index%7]
	side := t.Intn(2) // which of them is written to
	t.Note("%s of %d elements, written to on side %d after copying", kind, n, side)
	t.Op("copy "+kind, int64(n), int64(side))
	check := func(what string, i, got, want int) {
		if got != want {
			t.Fail("%s of %d elements: %s holds %d at %d after the other was changed, expected %d", kind, n, what, got, i, want)
		}
	}
	t.Check(2 * n)
	t.Event("large_copies", 1)
	t.Max("large_copy", int64(n))
	switch kind {
	case "stack":
		a := stack.New[int]()
		for i := 0; i < n; i++ {
			a.Push(val(i))
		}
		s := [2]*stack.Stack[int]{a, a.Copy()}
		k := n - t.Intn(n)
		for i := 0; i < k; i++ {
			s[side].Pop()
		}
		for i := 0; i < k; i++ {
			s[side].Push(-i)
		}
		for i := n - 1; i >= 0; i-- {
			check("the other", i, s[1-side].Pop(), val(i))
		}
		for i := k - 1; i >= 0; i-- {
			check("the one changed", i, s[side].Pop(), -i)
		}
		for i := n - k - 1; i >= 0; i-- {
			check("the one changed", i, s[side].Pop(), val(i))
		}
	case "queue":
		a := queue.New[int]()
		for i := 0; i < n; i++ {
			a.Enqueue(val(i))
		}
		s := [2]*queue.Queue[int]{a, a.Copy()}
		s[side].Dequeue()
		s[side].Enqueue(-1)
		if t.Bool() {
			s[side].Clear()
		} else {
			for i := 0; i < n/2; i++ {
				s[side].Dequeue()
			}
		}
		if s[1-side].Len() != n {
			t.Fail("queue: a copy of %d elements has %d", n, s[1-side].Len())
		}
		for i, v := range s[1-side].DequeueAll() {
			check("the other", i, v, val(i))
		}
	case "array", "array of one row":
		w, h := 1+n/300, 300
		if kind == "array of one row" {
			w, h = n, 1
			if t.Bool() {
				w, h = 1, n
			}
		}
		a := array2d.New[int](w, h)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				a.Set(x, y, val(y*w+x))
			}
		}
		s := [2]array2d.Array2D[int]{a, a.Copy()}
		for _, p := range append(spots, w*h-1) {
			p %= w * h
			s[side].Set(p%w, p/w, -p)
		}
		if t.Bool() {
			s[side].Fill(0, 0, w-1, h-1, -5)
		}
		for p := 0; p < w*h; p++ {
			check("the other", p, s[1-side].Get(p%w, p/w), val(p))
		}
	case "bimap":
		a := bimap.Of(map[int]int{})
		for i := 0; i < n; i++ {
			a.Add(i, val(i))
		}
		b := a.Copy()
		s := [2]*bimap.Bimap[int, int]{&a, &b}
		for _, p := range spots {
			s[side].RemoveForward(p)
			s[side].Add(p, -p-1)
		}
		if t.Bool() {
			s[side].Clear()
		}
		for i := 0; i < n; i++ {
			v, _ := s[1-side].GetForward(i)
			check("the other", i, v, val(i))
			k, _ := s[1-side].GetReverse(val(i))
			check("the other in reverse", i, k, i)
		}
	default:
		var a set.Set[int]
		if kind == "map set" {
			a = set.NewMapset[int]()
		} else {
			ks := intKeys(1, 0, 1)
			a = set.NewHashset(0, ks.eq, g.HashInt)
		}
		for i := 0; i < n; i++ {
			a.Put(val(i))
		}
		s := [2]set.Set[int]{a, a.Clone()}
		for _, p := range spots {
			s[side].Remove(val(p))
			s[side].Put(-p)
		}
		if t.Bool() {
			s[side].Clear()
		}
		if s[1-side].Size() != n {
			t.Fail("%s: a copy of %d elements has %d", kind, n, s[1-side].Size())
		}
		for i := 0; i < n; i++ {
			if !s[1-side].Has(val(i)) {
				t.Fail("%s of %d elements: %d is missing from the other after one was changed", kind, n, val(i))
			}
		}
	}
}

func init() {
	mon.Register("C29", "",
		&mon.Scenario{Name: "large copies", Quick: 84, Thorough: 2100, Run: copyLarge},
		&mon.Scenario{Name: "large copies, race detector", Quick: 56, Thorough: 700, Race: true, Run: copyLarge})
}
