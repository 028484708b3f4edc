package props

import (
	stdlist "container/list"
	"math"

	"github.com/zyedidia/generic/cache"

	"verif/harness/mon"
)

type cent[V any] struct {
	c int // class of the key
	v V
}

// cacheMon mirrors a cache on a textbook LRU list (most recent first).
type cacheMon[K comparable, V any] struct {
	t    *mon.T
	ks   keyspace[K]
	vs   valspace[V]
	c    *cache.Cache[K, V]
	lru  *stdlist.List // of cent[V]
	at   []*stdlist.Element
	cap  int
	next int64

	// callbacks (C16)
	cb     int // the callback most recently set; 0: none
	exp    []cent[V]
	got    int
	during string // the operation in progress; "" between operations
	act    int    // what the callback does
}

func newCacheMon[K comparable, V any](t *mon.T, ks keyspace[K], vs valspace[V], capacity int) *cacheMon[K, V] {
	t.Op("new", int64(capacity))
	return &cacheMon[K, V]{t: t, ks: ks, vs: vs, c: cache.New[K, V](capacity), lru: stdlist.New(), at: make([]*stdlist.Element, ks.n), cap: capacity}
}

func (m *cacheMon[K, V]) key(c int) K { return m.ks.mk(c, m.t.Uint64()) }

func (m *cacheMon[K, V]) drop(c int) {
	if e := m.at[c]; e != nil {
		m.lru.Remove(e)
		m.at[c] = nil
	}
}

// evictions predicts which entries leave when the cache is cut to n entries.
func (m *cacheMon[K, V]) predict(n int) {
	m.exp = m.exp[:0]
	m.got = 0
	e := m.lru.Back()
	for k := m.lru.Len(); k > n; k-- {
		m.exp = append(m.exp, e.Value.(cent[V]))
		e = e.Prev()
	}
}

func (m *cacheMon[K, V]) applied() {
	t := m.t
	if m.cb != 0 && m.got != len(m.exp) {
		t.Fail("cache: %s invoked the evict callback %d times, expected %d", m.during, m.got, len(m.exp))
	}
	t.Check(1)
	for _, x := range m.exp {
		m.drop(x.c)
	}
	t.Event("evictions", int64(len(m.exp)))
	m.exp = m.exp[:0]
	m.got = 0
	m.during = ""
}

// callback is what is installed as the evict callback number id.
func (m *cacheMon[K, V]) callback(id int) func(k K, v V) {
	return func(k K, v V) {
		t := m.t
		t.Event("callbacks", 1)
		t.Check(1)
		if m.during == "" || m.got >= len(m.exp) {
			t.Fail("cache: unexpected evict callback for %v = %v during %q", k, v, m.during)
		}
		if id != m.cb {
			t.Fail("cache: evict callback %d is invoked, the one most recently set is %d", id, m.cb)
		}
		x := m.exp[m.got]
		m.got++
		if c := m.ks.class(k); c != x.c || !m.vs.same(v, x.v) {
			t.Fail("cache: evict callback %d of %s got %v = %v (class %d), expected class %d = %v", m.got, m.during, k, v, c, x.c, x.v)
		}
		switch m.act {
		case 1: // read
			n := 0
			seen := false
			m.c.Each(func(k K, v V) {
				n++
				if m.ks.class(k) == x.c {
					seen = true
					if !m.vs.same(v, x.v) {
						t.Fail("cache: during its callback the entry has another value")
					}
				}
			})
			t.Check(2)
			if !seen {
				t.Fail("cache: the callback of %s runs when the entry has already left the cache", m.during)
			}
			if s := m.c.Size(); s != n || n != m.lru.Len()-(m.got-1) {
				t.Fail("cache: during callback %d of %s Size() = %d and Each visits %d entries, expected %d", m.got, m.during, s, n, m.lru.Len()-(m.got-1))
			}
		case 2: // use the entry
			w, ok := m.c.Get(k)
			t.Check(1)
			if !ok || !m.vs.same(w, v) {
				t.Fail("cache: Get of the entry being evicted returns %v, %v", w, ok)
			}
			t.Event("callbacks_that_use_the_entry", 1)
		case 3: // remove the entry
			m.c.Remove(k)
			t.Event("callbacks_that_remove_the_entry", 1)
		case 4: // both
			m.c.Get(k)
			m.c.Remove(k)
			if _, ok := m.c.Get(k); ok {
				t.Fail("cache: an entry removed by the callback is still there")
			}
		case 5: // another callback takes over from here on
			m.setCallback(id+1000000, t.Intn(7))
			t.Event("callbacks_that_replace_themselves", 1)
		case 6: // no callback from here on
			m.setCallback(0, 0)
			t.Event("callbacks_that_unset_themselves", 1)
		}
	}
}

func (m *cacheMon[K, V]) setCallback(id, act int) {
	m.t.Op("set-callback", int64(id), int64(act))
	m.cb, m.act = id, act
	if id == 0 {
		m.c.SetEvictCallback(nil)
		return
	}
	m.c.SetEvictCallback(m.callback(id))
}

func (m *cacheMon[K, V]) put(c int) {
	m.next++
	v := m.vs.mk(m.next)
	m.t.Op("put", int64(c), m.next)
	m.during = "Put"
	m.predict(m.lru.Len())
	if m.at[c] == nil && m.cap > 0 {
		m.predict(m.cap - 1)
	}
	m.c.Put(m.key(c), v)
	m.applied()
	switch {
	case m.at[c] != nil:
		m.at[c].Value = cent[V]{c, v}
		m.lru.MoveToFront(m.at[c])
		m.t.Event("overwrites", 1)
	case m.cap > 0:
		m.at[c] = m.lru.PushFront(cent[V]{c, v})
		m.t.Event("insertions", 1)
	}
	m.t.Max("size", int64(m.lru.Len()))
}

func (m *cacheMon[K, V]) get(c int) {
	m.t.Op("get", int64(c))
	m.during = "Get"
	m.predict(m.lru.Len())
	v, ok := m.c.Get(m.key(c))
	m.applied()
	m.t.Check(1)
	if ok != (m.at[c] != nil) {
		m.t.Fail("cache: Get(class %d) reports %v, expected %v", c, ok, m.at[c] != nil)
	}
	var w V
	if ok {
		w = m.at[c].Value.(cent[V]).v
		m.lru.MoveToFront(m.at[c])
		m.t.Event("hits", 1)
	} else {
		m.t.Event("misses", 1)
	}
	if !m.vs.same(v, w) {
		m.t.Fail("cache: Get(class %d) = %v, expected %v", c, v, w)
	}
}

func (m *cacheMon[K, V]) remove(c int) {
	m.t.Op("remove", int64(c))
	m.during = "Remove"
	m.predict(m.lru.Len())
	m.c.Remove(m.key(c))
	m.applied()
	m.drop(c)
}

func (m *cacheMon[K, V]) resize(n int) {
	m.t.Op("resize", int64(n))
	m.during = "Resize"
	m.predict(n)
	m.c.Resize(n)
	m.applied()
	m.cap = n
	m.t.Event("resizes", 1)
}

func (m *cacheMon[K, V]) brief() {
	m.t.Check(2)
	m.t.Shuffle(func() {
		if n := m.c.Size(); n != m.lru.Len() {
			m.t.Fail("cache: Size() = %d, expected %d (capacity %d)", n, m.lru.Len(), m.cap)
		}
	}, func() {
		if n := m.c.Capacity(); n != m.cap {
			m.t.Fail("cache: Capacity() = %d, expected %d", n, m.cap)
		}
	})
}

func (m *cacheMon[K, V]) full() {
	t := m.t
	if t.Bool() {
		m.brief()
	}
	for round := 0; round < 2; round++ { // Each is not a use
		inner := t.Inner(m.lru.Len())
		if m.lru.Len() > 2000 && t.Intn(4) > 0 {
			inner = -1
		}
		if m.walk(inner); m.lru.Len() > 200 {
			break
		}
	}
	m.brief()
	t.Tick()
}

func (m *cacheMon[K, V]) walk(inner int) {
	t := m.t
	{
		e := m.lru.Front()
		n := 0
		h := uint64(m.cap)
		m.c.Each(func(k K, v V) {
			if n == inner {
				t.Event("queries_within_a_traversal", 1)
				if t.Bool() {
					m.walk(-1)
				}
				m.brief()
			}
			if e == nil {
				t.Fail("cache: Each visits more than the %d entries expected", m.lru.Len())
			}
			x := e.Value.(cent[V])
			if c := m.ks.class(k); c != x.c || !m.vs.same(v, x.v) {
				t.Fail("cache: entry %d from the most recently used one is class %d = %v, expected class %d = %v", n, c, v, x.c, x.v)
			}
			h = mon.Mix(h, uint64(x.c))
			n++
			e = e.Next()
		})
		t.Check(n + 1)
		if n != m.lru.Len() {
			t.Fail("cache: Each visits %d entries, expected %d", n, m.lru.Len())
		}
		t.State(h)
	}
}

func cacheDrive[K comparable, V any](t *mon.T, ks keyspace[K], vs valspace[V], capacity, ops, every int, cbs bool) {
	n := 1
	if t.Intn(4) == 0 {
		n = 2
	}
	var ms []*cacheMon[K, V]
	for i := 0; i < n; i++ {
		ms = append(ms, newCacheMon(t, ks, vs, capacity))
	}
	t.Note("%s keys (%d), %s values, capacity %d, %d caches, callbacks %v, %d operations", ks.name, ks.n, vs.name, capacity, n, cbs, ops)
	ms[0].full()
	if cbs {
		for _, m := range ms {
			m.setCallback(1, t.Intn(7))
		}
	}
	next := sequence(t, patterns[t.Intn(len(patterns))], ks.n)
	w := []int{6, 4, 1, 1}
	cbid := 1
	for i := 0; i < ops; i++ {
		if i%60 == 0 {
			next = sequence(t, patterns[t.Intn(len(patterns))], ks.n)
			w = [][]int{{60, 40, 10, 2}, {90, 5, 1, 1}, {30, 60, 5, 1}, {40, 10, 40, 3}, {20, 20, 5, 10}}[t.Intn(5)]
			if every > 1 {
				w[3] = min(w[3], 1)
			}
		}
		m := ms[t.Intn(n)]
		c := next()
		switch t.Weighted(w) {
		case 0:
			m.put(c)
		case 1:
			m.get(c)
		case 2:
			m.remove(c)
		case 3:
			to := t.Intn(2*min(capacity, 1<<40) + 2)
			switch t.Intn(6) {
			case 0:
				to = 0
			case 1:
				to = m.cap
			case 2:
				to = max(0, m.lru.Len()-1)
			case 3:
				to = m.lru.Len() + 1
				if t.Intn(30) == 0 {
					to = []int{1<<16 + t.Intn(9), 1<<31 - t.Intn(2), 1<<32 + t.Intn(9), math.MaxInt - 4}[t.Intn(4)]
				}
			}
			m.resize(to)
		}
		if cbs && t.Intn(50) == 0 {
			if t.Intn(4) == 0 {
				m.setCallback(0, 0)
			} else {
				cbid++
				m.setCallback(cbid, t.Intn(7))
			}
		}
		if t.Gap() {
			continue
		}
		if i%every == 0 {
			m.full()
		} else {
			m.brief()
		}
	}
	for _, m := range ms {
		m.full()
		m.resize(m.cap + 2)
		m.full()
		for c := 0; c < min(ks.n, 50); c++ {
			m.get(c)
			m.put(c)
		}
		m.full()
		m.resize(0)
		m.full()
		m.put(0)
		m.full()
	}
}

func cacheCase(t *mon.T, small, cbs bool) {
	n, capacity, ops, every := 1+t.Intn(12), t.Intn(9), 40+t.Intn(160), 1
	if !small {
		n, capacity, ops, every = 20+t.Intn(2000), t.Intn(600), 4000, 250
	}
	if t.Intn(12) == 0 { // more than there will ever be
		capacity = []int{255, 256, 257, 65535, 65536 + t.Intn(9), 1 << 17}[t.Intn(6)]
	}
	switch t.Index % 10 {
	case 0:
		cacheDrive(t, intKeys(n, -n/2, 1), intVals(), capacity, ops, every, cbs)
	case 1:
		cacheDrive(t, strKeys(n), strVals(), capacity, ops, every, cbs)
	case 2:
		cacheDrive(t, floatKeys(n), intVals(), capacity, ops, every, cbs)
	case 3:
		cacheDrive(t, byteKeys(), ptrVals(), capacity, ops, every, cbs)
	case 4:
		cacheDrive(t, extremeKeys(n+2), anyVals(), capacity, ops, every, cbs)
	case 5:
		cacheDrive(t, intKeys(n, 0, 1), funVals(), capacity, ops, every, cbs)
	case 6:
		cacheDrive(t, anyKeys(n), sliceVals(), capacity, ops, every, cbs)
	case 7:
		cacheDrive(t, pairKeys(n), arrVals(), capacity, ops, every, cbs)
	case 8:
		cacheDrive(t, ptrKeysSame(n), anyVals(), capacity, ops, every, cbs)
	default:
		cacheDrive(t, intKeys(n, 0, 1), unitVals(), capacity, ops, every, cbs)
	}
}

// cacheHistories runs every history of the given length over three keys.
func cacheHistories(t *mon.T, length int, cbs bool) {
	const nk = 3
	kinds := 3*nk + 4
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	ks := intKeys(nk, 0, 1)
	vs := intVals()
	for h := t.Index; h < total; h += t.Count {
		m := newCacheMon(t, ks, vs, h/t.Count%4)
		if cbs {
			m.setCallback(1, h/t.Count/4%6)
		}
		x := h
		for i := 0; i < length; i++ {
			op := x % kinds
			x /= kinds
			switch {
			case op < nk:
				m.put(op)
			case op < 2*nk:
				m.get(op - nk)
			case op < 3*nk:
				m.remove(op - 2*nk)
			default:
				m.resize(op - 3*nk)
			}
		}
		m.full()
		t.Event("exhaustive_histories", 1)
	}
}

func init() {
	rule := "A case is a generated history of Get, Put, Remove, Resize (and SetEvictCallback) on one or two caches, or a slice of all short histories, mirrored on a textbook LRU list; contents and order are compared through Each. Distinct by trace hash, non-trivial if it contains at least one operation."
	for _, x := range []struct {
		id  string
		cbs bool
	}{{"C15", false}, {"C16", true}} {
		mon.Register(x.id, rule,
			&mon.Scenario{Name: "small", Quick: 8000, Thorough: 200000, Run: func(t *mon.T) { cacheCase(t, true, x.cbs) }},
			&mon.Scenario{Name: "medium", Quick: 200, Thorough: 4000, Run: func(t *mon.T) { cacheCase(t, false, x.cbs) }},
			&mon.Scenario{Name: "all-short-histories", Quick: 8, Thorough: 16, Run: func(t *mon.T) { cacheHistories(t, t.Pick(5, 6), x.cbs) }},
			&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) {
				n := 20000 + t.Intn(20000)
				cacheDrive(t, intKeys(n, 0, 1), intVals(), 2000+t.Intn(20000), 120000, 20000, x.cbs)
			}},
		)
	}
}
