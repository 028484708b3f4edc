package props

import (
	"verif/harness/mon"
)

// mapSUT is a map-like container under test.
type mapSUT[K any, V any] struct {
	name   string
	put    func(k K, v V)
	remove func(k K)
	get    func(k K) (V, bool)
	each   func(fn func(k K, v V))
	size   func() int
	clear  func() // optional
}

// mapMon applies operations to a container and to a model at the same time
// and compares what can be observed.
type mapMon[K any, V any] struct {
	t       *mon.T
	ks      keyspace[K]
	vs      valspace[V]
	sut     mapSUT[K, V]
	ordered bool

	has    []bool
	val    []V
	count  int
	nextID *int64
	id     int64 // number of the container, for the trace
}

func newMapMon[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], sut mapSUT[K, V], ordered bool, id int64, next *int64) *mapMon[K, V] {
	return &mapMon[K, V]{t: t, ks: ks, vs: vs, sut: sut, ordered: ordered, has: make([]bool, ks.n), val: make([]V, ks.n), id: id, nextID: next}
}

func (m *mapMon[K, V]) key(c int) K { return m.ks.mk(c, m.t.Uint64()) }

func (m *mapMon[K, V]) put(c int) {
	*m.nextID++
	v := m.vs.mk(*m.nextID)
	m.t.Op("put", m.id, int64(c), *m.nextID)
	m.sut.put(m.key(c), v)
	if !m.has[c] {
		m.has[c] = true
		m.count++
		m.t.Event("insertions", 1)
	} else {
		m.t.Event("overwrites", 1)
	}
	m.val[c] = v
	m.t.Max("size", int64(m.count))
}

func (m *mapMon[K, V]) remove(c int) {
	m.t.Op("remove", m.id, int64(c))
	m.sut.remove(m.key(c))
	if m.has[c] {
		var z V
		m.has[c] = false
		m.val[c] = z
		m.count--
		m.t.Event("removals", 1)
	} else {
		m.t.Event("removals_of_absent", 1)
	}
}

func (m *mapMon[K, V]) clear() {
	m.t.Op("clear", m.id)
	m.sut.clear()
	m.t.Event("clears", 1)
	for c := range m.has {
		var z V
		m.has[c], m.val[c] = false, z
	}
	m.count = 0
}

// look compares one key.
func (m *mapMon[K, V]) look(c int) {
	v, ok := m.sut.get(m.key(c))
	m.t.Check(1)
	if ok != m.has[c] {
		m.t.Fail("%s #%d: Get(key of class %d) reports present=%v, expected %v", m.sut.name, m.id, c, ok, m.has[c])
	}
	if !m.vs.same(v, m.val[c]) {
		m.t.Fail("%s #%d: Get(key of class %d) = %v, expected %v", m.sut.name, m.id, c, v, m.val[c])
	}
}

func (m *mapMon[K, V]) checkSize() {
	m.t.Check(1)
	if n := m.sut.size(); n != m.count {
		m.t.Fail("%s #%d: Size() = %d with %d keys present", m.sut.name, m.id, n, m.count)
	}
}

// traverse compares what Each visits, at times with queries made, and another
// traversal, from within a visit.
func (m *mapMon[K, V]) traverse() {
	inner := m.t.Inner(m.count)
	if m.count > 2000 && m.t.Intn(8) > 0 {
		inner = -1
	}
	m.walk(inner)
}

func (m *mapMon[K, V]) walk(inner int) {
	// Counting the pairs may visit all of them: within every visit of a large
	// container it would be quadratic.
	often := inner >= 0 && m.count <= 500 && m.t.Intn(4) == 0
	prev, n := -1, 0
	var seen []bool
	if !m.ordered {
		seen = make([]bool, m.ks.n)
	}
	h := uint64(1)
	m.sut.each(func(k K, v V) {
		n++
		c := m.ks.class(k)
		if c < 0 {
			m.t.Fail("%s #%d: Each visits the key %v, which was never put", m.sut.name, m.id, k)
		}
		if !m.has[c] {
			m.t.Fail("%s #%d: Each visits a key of class %d, which is not present", m.sut.name, m.id, c)
		}
		if !m.vs.same(v, m.val[c]) {
			m.t.Fail("%s #%d: Each visits class %d with value %v, expected %v", m.sut.name, m.id, c, v, m.val[c])
		}
		if m.ordered {
			if c <= prev {
				m.t.Fail("%s #%d: Each visits class %d after class %d", m.sut.name, m.id, c, prev)
			}
			prev = c
			h = h*31 + uint64(c)
		} else {
			if seen[c] {
				m.t.Fail("%s #%d: Each visits class %d twice", m.sut.name, m.id, c)
			}
			seen[c] = true
			h += mon.Mix(7, uint64(c))
		}
		if often || n-1 == inner {
			m.t.Event("queries_within_a_traversal", 1)
			m.checkSize()
			if d := c + m.t.Intn(5) - 2; d >= 0 && d < m.ks.n {
				m.look(d)
			}
			m.look(m.t.Intn(m.ks.n))
			if n-1 == inner && m.t.Bool() {
				m.walk(-1)
			}
		}
	})
	m.t.Check(n + 1)
	if n != m.count {
		m.t.Fail("%s #%d: Each visits %d pairs of %d", m.sut.name, m.id, n, m.count)
	}
	m.t.State(h)
}

// full compares everything that can be observed.
func (m *mapMon[K, V]) full() {
	m.t.Shuffle(m.checkSize, m.lookAll, m.traverse)
	m.checkSize()
	m.t.Tick()
}

func (m *mapMon[K, V]) lookAll() {
	d := m.t.Intn(m.ks.n)
	for c := 0; c < m.ks.n; c++ {
		m.look((c + d) % m.ks.n)
	}
}

// near compares the keys around the one just used, and some others.
func (m *mapMon[K, V]) near(c int) {
	if m.t.Gap() {
		return
	}
	if m.count <= 64 && m.t.Intn(8) == 0 {
		m.traverse()
	}
	m.t.Shuffle(m.checkSize, func() {
		for d := -2; d <= 2; d++ {
			if e := c + d; e >= 0 && e < m.ks.n {
				m.look(e)
			}
		}
	}, func() {
		for i := 0; i < 3; i++ {
			m.look(m.t.Intn(m.ks.n))
		}
	})
}

// phase is a stretch of operations with one access pattern and one mix.
type phase struct {
	pattern string
	put     int // weights
	remove  int
	get     int
	length  int
}

var patterns = []string{"random", "ascending", "descending", "zigzag", "window", "strided", "hot"}

func randomPhase(r *mon.T, length int) phase {
	p := phase{pattern: patterns[r.Intn(len(patterns))], length: length}
	switch r.Intn(6) {
	case 0:
		p.put, p.remove, p.get = 8, 1, 1
	case 1:
		p.put, p.remove, p.get = 1, 8, 1
	case 2:
		p.put, p.remove, p.get = 1, 1, 0
	case 3:
		p.put, p.remove, p.get = 4, 4, 2
	case 4:
		p.put, p.remove, p.get = 1, 0, 0
	case 5:
		p.put, p.remove, p.get = 0, 1, 0
	}
	return p
}

// sequence yields the classes a phase touches.
func sequence(r *mon.T, pattern string, n int) func() int {
	i := 0
	start := r.Intn(n)
	win := 1 + r.Intn(min(n, 16))
	stride := 1 + r.Intn(n)
	hot := []int{r.Intn(n), r.Intn(n), r.Intn(n)}
	last := start
	pick := func() int {
		i++
		switch pattern {
		case "ascending":
			return (start + i) % n
		case "descending":
			return ((start-i)%n + n) % n
		case "zigzag":
			if i%2 == 0 {
				return (i / 2) % n
			}
			return n - 1 - (i/2)%n
		case "window":
			return (start + i/8 + r.Intn(win)) % n
		case "strided":
			return (start + i*stride) % n
		case "hot":
			if r.Intn(4) > 0 {
				return hot[r.Intn(3)]
			}
		}
		return r.Intn(n)
	}
	again := []int{0, 0, 8, 3}[r.Intn(4)]
	return func() int {
		if again > 0 && r.Intn(again) == 0 { // the same one once more
			return last
		}
		last = pick()
		return last
	}
}

// drive runs phases over one or more monitored containers in turn; everything
// is compared every `every` operations and at the end of each phase.
func drive[K any, V any](t *mon.T, ms []*mapMon[K, V], ops, every int) {
	for done := 0; done < ops; {
		p := randomPhase(t, 1+t.Intn(1+ops/3))
		next := sequence(t, p.pattern, ms[0].ks.n)
		w := []int{p.put, p.remove, p.get}
		for i := 0; i < p.length && done < ops; i++ {
			done++
			m := ms[t.Intn(len(ms))]
			c := next()
			switch t.Weighted(w) {
			case 0:
				m.put(c)
			case 1:
				m.remove(c)
			case 2:
				m.t.Op("get", m.id, int64(c))
				m.look(c)
				continue
			}
			if m.sut.clear != nil && t.Intn(400) == 0 {
				m.clear()
			}
			if every > 0 && done%every == 0 {
				for _, m := range ms {
					m.full()
				}
			} else {
				m.near(c)
			}
		}
		for _, m := range ms {
			m.full()
		}
	}
}

// bulk fills and drains a large container in a given order, comparing
// everything at a few points and the neighbourhood of every operation.
func bulk[K any, V any](t *mon.T, m *mapMon[K, V], order func(i int) int, n, points int) {
	gap := n/points + 1
	for i := 0; i < n; i++ {
		c := order(i)
		m.put(c)
		if i%16 == 0 {
			m.near(c)
		} else if !m.t.Gap() {
			m.look(c)
		}
		if i%gap == gap-1 {
			m.full()
		}
	}
	m.full()
}

// orders are insertion orders over n classes (n a power of two where needed).
func orderings(r *mon.T, n int) (string, func(i int) int) {
	switch r.Index % 6 {
	case 0:
		return "ascending", func(i int) int { return i }
	case 1:
		return "descending", func(i int) int { return n - 1 - i }
	case 2:
		return "outside-in", func(i int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}
	case 3:
		return "inside-out", func(i int) int {
			j := n - 1 - i
			if j%2 == 0 {
				return j / 2
			}
			return n - 1 - j/2
		}
	case 4:
		p := r.Perm(n)
		return "random", func(i int) int { return p[i] }
	}
	// blocks: ascending runs in random order
	b := 1 + r.Intn(200)
	nb := (n + b - 1) / b
	p := r.Perm(nb)
	var seq []int
	for _, x := range p {
		for k := x * b; k < (x+1)*b && k < n; k++ {
			seq = append(seq, k)
		}
	}
	return "blocks", func(i int) int { return seq[i] }
}

// shortHistories runs every history of the given length over put/remove of
// each of n keys, starting from an empty container; the case index selects a
// slice of them.
func shortHistories[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], mk func() mapSUT[K, V], ordered bool, length int) {
	kinds := 2 * ks.n
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	id := int64(0)
	for h := t.Index; h < total; h += t.Count {
		m := newMapMon(t, ks, vs, mk(), ordered, int64(h), &id)
		x := h
		for i := 0; i < length; i++ {
			op := x % kinds
			x /= kinds
			if op < ks.n {
				m.put(op)
			} else {
				m.remove(op - ks.n)
			}
			if i == length-1 || i%2 == 1 {
				m.full()
			}
		}
		t.Event("exhaustive_histories", 1)
	}
}
