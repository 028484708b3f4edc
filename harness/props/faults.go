package props

import (
	"runtime"
	"strconv"

	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"

	"verif/harness/mon"
)

// --- C31: rejected calls and panicking callbacks ---------------------------

// boom is what callbacks panic with.
type boom struct{ at int }

// victim is a monitored container whose traversals are aborted.
type victim struct {
	name  string
	walks []walk
	step  func() // one operation, applied to the container and its model
	full  func() // everything that can be observed against the model
	rest  func() // optional: rejected calls of the container
}

// walk is one traversal method; visit is called once per visit.
type walk struct {
	name string
	run  func(visit func())
}

// abort runs the traversal with a callback that panics at visit k and returns
// whether it got there.
func (v *victim) abort(t *mon.T, w walk, k int) bool {
	if t.Intn(6) == 0 {
		return v.exit(t, w, k)
	}
	n := 0
	p, val := mon.Panics(func() {
		w.run(func() {
			if n == k {
				panic(boom{k})
			}
			n++
		})
	})
	t.Check(1)
	if p {
		b, ok := val.(boom)
		if !ok {
			t.Fail("%s: %s panics with %v", v.name, w.name, val)
		}
		if b.at != k {
			t.Fail("%s: %s swallowed another panic", v.name, w.name)
		}
		t.Event("aborted_traversals", 1)
	} else if n > k {
		t.Fail("%s: %s swallowed the panic of its callback", v.name, w.name)
	}
	return p
}

// exit does the same by ending the goroutine of the traversal at visit k.
func (v *victim) exit(t *mon.T, w walk, k int) bool {
	n, reached, returned := 0, false, false
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.run(func() {
			if n == k {
				reached = true
				runtime.Goexit()
			}
			n++
		})
		returned = true
	}()
	<-done
	t.Check(1)
	if reached == returned {
		t.Fail("%s: %s returned although its callback ended the goroutine, or did not although it did not", v.name, w.name)
	}
	if reached {
		t.Event("exits_within_a_traversal", 1)
	}
	return reached
}

// nested aborts a traversal from within a traversal that goes on, and a
// traversal that contains a finished one.
func (v *victim) nested(t *mon.T, w, x walk, k int) {
	total := 0
	w.run(func() { total++ })
	if total == 0 || total > 300 {
		return
	}
	at := t.Intn(total)
	n := 0
	w.run(func() {
		if n == at {
			v.abort(t, x, k)
		}
		n++
	})
	t.Event("aborted_within_a_traversal", 1)
	t.Assert(n == total, "%s: %s visits %d of %d after a traversal inside it was aborted", v.name, w.name, n, total)
}

func faultRun(t *mon.T, v *victim, rounds, steps int) {
	t.Note("%s, %d rounds of aborted traversals", v.name, rounds)
	for r := 0; r < rounds; r++ {
		for s := t.Intn(steps + 1); s > 0; s-- {
			v.step()
		}
		w := v.walks[t.Intn(len(v.walks))]
		total := 0
		w.run(func() { total++ })
		t.Op("abort "+w.name, int64(total))
		switch {
		case total <= 12 && t.Intn(3) == 0: // at every visit
			for k := 0; k <= total; k++ {
				p := v.abort(t, w, k)
				t.Assert(p == (k < total), "%s: %s makes another number of visits", v.name, w.name)
				v.full()
			}
		default:
			k := t.Intn(total + 1)
			if t.Bool() {
				k = []int{0, max(0, total-1), 1}[t.Intn(3)]
			}
			for i := 1 + t.Intn(3); i > 0; i-- {
				v.abort(t, w, k)
			}
			if t.Intn(3) == 0 {
				v.nested(t, w, v.walks[t.Intn(len(v.walks))], t.Intn(total+1))
			}
			if t.Bool() { // go on at once
				v.step()
			}
		}
		v.full()
		if v.rest != nil && t.Bool() {
			v.rest()
			v.full()
		}
	}
	for s := 0; s < steps; s++ {
		v.step()
	}
	v.full()
}

func mapVictim[K any, V any](t *mon.T, ms []*mapMon[K, V]) *victim {
	v := &victim{name: ms[0].sut.name}
	next := sequence(t, patterns[t.Intn(len(patterns))], ms[0].ks.n)
	cur := ms[0]
	w := [][]int{{3, 1}, {1, 1}, {1, 3}}[t.Intn(3)]
	v.step = func() {
		if t.Intn(30) == 0 {
			w = [][]int{{3, 1}, {1, 1}, {1, 3}}[t.Intn(3)]
		}
		cur = ms[t.Intn(len(ms))]
		c := next()
		switch t.Weighted(w) {
		case 0:
			cur.put(c)
		case 1:
			cur.remove(c)
		}
		cur.near(c)
	}
	v.full = func() {
		for _, m := range ms {
			m.full()
		}
	}
	v.walks = []walk{{"Each", func(visit func()) { cur.sut.each(func(K, V) { visit() }) }}}
	return v
}

func mapVictimOf[K comparable, V any](t *mon.T, ks keyspace[K], vs valspace[V], kind int) *victim {
	id := int64(0)
	one := func(s mapSUT[K, V], ordered bool) *victim {
		return mapVictim(t, []*mapMon[K, V]{newMapMon(t, ks, vs, s, ordered, 0, &id)})
	}
	switch kind {
	case 0:
		tr := avl.New[K, V](ks.less)
		return one(mapSUT[K, V]{name: "avl", put: tr.Put, remove: tr.Remove, get: tr.Get, each: tr.Each, size: tr.Size}, true)
	case 1:
		tr := btree.New[K, V](ks.less)
		return one(mapSUT[K, V]{name: "btree", put: tr.Put, remove: tr.Remove, get: tr.Get, each: tr.Each, size: tr.Size}, true)
	default: // a hash map and copies of it, some of which still share storage
		c := cowMap(hashmap.New[K, V](capacities[t.Intn(len(capacities))], ks.eq, hashing(ks, pickHashing(t, ks.n))))
		m := newMapMon(t, ks, vs, c.mapSUT, false, 0, &id)
		ms := []*mapMon[K, V]{m}
		for i := t.Intn(ks.n + 1); i > 0; i-- {
			m.put(t.Intn(ks.n))
		}
		for i := t.Intn(3); i > 0; i-- {
			d := newMapMon(t, ks, vs, c.copy().mapSUT, false, int64(i), &id)
			copy(d.has, m.has)
			copy(d.val, m.val)
			d.count = m.count
			ms = append(ms, d)
		}
		return mapVictim(t, ms)
	}
}

func setVictimOf[K comparable](t *mon.T, ks keyspace[K], kind int) *victim {
	id := int64(0)
	one := func(s mapSUT[K, struct{}]) *victim {
		return mapVictim(t, []*mapMon[K, struct{}]{newMapMon(t, ks, unitVals(), s, false, 0, &id)})
	}
	cp := capacities[t.Intn(len(capacities))]
	h := hashing(ks, pickHashing(t, ks.n))
	switch kind {
	case 0:
		s := hashset.New(cp, ks.eq, h)
		return one(cowSet(s).mapSUT)
	case 1:
		s := mapset.New[K]()
		return one(setSUT("mapset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each))
	case 2:
		s := set.NewMapset[K]()
		return one(setSUT("set over mapset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each))
	default:
		s := set.NewHashset(cp, ks.eq, h)
		return one(setSUT("set over hashset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each))
	}
}

func ivVictim(t *mon.T, n int) *victim {
	b := someInts[int](n, -n, 2)
	m := newIvMon(t, b, true, true)
	next := sequence(t, patterns[t.Intn(len(patterns))], len(b))
	return &victim{
		name: "interval",
		step: func() {
			lo := next()
			switch t.Intn(4) {
			case 0:
				m.remove(lo)
			case 1:
				m.add(lo, m.high(lo))
			default:
				m.put(lo, m.high(lo))
			}
			m.nearby(lo)
		},
		full:  m.full,
		rest:  m.inverted,
		walks: []walk{{"Each", func(visit func()) { m.tr.Each(func(int, int, int64) { visit() }) }}},
	}
}

func queueVictim(t *mon.T) *victim {
	m := &queueMon[int64]{t: t, q: queue.New[int64]()}
	id := int64(0)
	bias := 1 + t.Intn(3)
	return &victim{
		name: "queue",
		step: func() {
			if t.Intn(4) < bias {
				id++
				t.Op("enqueue", id)
				m.q.Enqueue(id)
				m.want = append(m.want, id)
			} else {
				m.out(t.Bool())
			}
			m.look()
		},
		full: m.full,
		rest: func() {
			for len(m.want) > 0 && t.Intn(20) > 0 {
				m.out(t.Bool())
			}
			if len(m.want) > 0 {
				return
			}
			for i := 1 + t.Intn(4); i > 0; i-- {
				m.out(false)
				m.look()
				t.Event("rejected_calls", 2)
			}
		},
		walks: []walk{{"Each", func(visit func()) { m.q.Each(func(int64) { visit() }) }}},
	}
}

func listVictim(t *mon.T) *victim {
	m := &listMon{t: t, l: list.New[int64](), val: map[*lnode]int64{}}
	next := int64(0)
	from := func() *lnode {
		if len(m.want) == 0 {
			return nil
		}
		return m.want[t.Intn(len(m.want))]
	}
	start := m.l.Front
	v := &victim{
		name: "list",
		step: func() {
			next++
			x := &lnode{Value: next}
			m.val[x] = next
			n := len(m.want)
			switch op := t.Intn(6); {
			case op == 0:
				t.Op("push-front-node", next)
				m.l.PushFrontNode(x)
				m.want = insertAt(m.want, 0, x)
			case op == 1 || n == 0:
				t.Op("push-back-node", next)
				m.l.PushBackNode(x)
				m.want = append(m.want, x)
			case op == 2:
				at := t.Intn(n)
				t.Op("insert-after", int64(at), next)
				m.l.InsertAfter(m.want[at], x)
				m.want = insertAt(m.want, at+1, x)
			default:
				if n < 8 && t.Bool() {
					return
				}
				at := t.Intn(n)
				t.Op("remove", int64(at))
				m.l.Remove(m.want[at])
				m.want = removeAt(m.want, at)
			}
			m.full()
			start = m.l.Front
			if t.Intn(3) == 0 {
				start = from()
			}
		},
		full: m.full,
	}
	v.walks = []walk{
		{"Each", func(visit func()) { start.Each(func(int64) { visit() }) }},
		{"EachReverse", func(visit func()) { start.EachReverse(func(int64) { visit() }) }},
		{"EachNode", func(visit func()) { start.EachNode(func(*lnode) { visit() }) }},
		{"EachReverseNode", func(visit func()) { start.EachReverseNode(func(*lnode) { visit() }) }},
	}
	return v
}

func mmVictim(t *mon.T, nk, nv, variant int) *victim {
	ks, vs := strKeys(nk), intKeys(nv, -1, 1)
	var mm multimap.MultiMap[string, int]
	switch variant {
	case 0:
		mm = multimap.NewMapSlice[string, int]()
	case 1:
		mm = multimap.NewMapSet[string, int](vs.less)
	case 2:
		mm = multimap.NewAvlSlice[string, int](ks.less)
	default:
		mm = multimap.NewAvlSet[string, int](ks.less, vs.less)
	}
	name := []string{"MapSlice", "MapSet", "AvlSlice", "AvlSet"}[variant]
	m := mmNew(t, ks, vs, mm, name, variant&1 == 0, variant&2 != 0, variant&1 != 0, 0)
	return &victim{
		name: "multimap " + name,
		step: func() {
			k, v := t.Intn(nk), t.Intn(nv)
			switch t.Weighted([]int{12, 6, 1}) {
			case 0:
				m.put(k, v)
			case 1:
				m.remove(k, v)
			case 2:
				m.removeAll(k)
			}
			m.sizes()
			m.look(k)
		},
		full: m.full,
		walks: []walk{
			{"Each", func(visit func()) { m.m.Each(func(string, int) { visit() }) }},
			{"EachAssociation", func(visit func()) { m.m.EachAssociation(func(string, []int) { visit() }) }},
		},
	}
}

func bimapVictim(t *mon.T, n int) *victim {
	m := newBimapMon(t, n, n, func(i int) int { return i - 2 }, func(i int) string { return "s" + strconv.Itoa(i) }, t.Bool())
	return &victim{
		name:  "bimap",
		step:  func() { m.apply(t.Weighted([]int{6, 2, 2}), t.Intn(n), t.Intn(n)) },
		full:  m.full,
		walks: []walk{{"Each", func(visit func()) { m.b.Each(func(int, string) { visit() }) }}},
	}
}

func ropeVictim(t *mon.T, s thresholds) *victim {
	m := &ropeMon[int]{t: t, el: intElems, s: s, maxLen: 8 * s.split}
	m.pool = []*ropeVal[int]{m.create(t.Intn(6*s.split + 1))}
	return &victim{
		name: "rope",
		step: m.step,
		full: func() {
			for _, v := range m.pool {
				m.look(v, true)
			}
		},
		walks: []walk{{"Each", func(visit func()) { m.pool[0].n.Each(func(*rope.Node[int]) { visit() }) }}},
	}
}

// cacheVictim also has evict callbacks that panic.
func cacheVictim[K comparable, V any](t *mon.T, ks keyspace[K], vs valspace[V], capacity int) *victim {
	m := newCacheMon(t, ks, vs, capacity)
	cb := 0
	next := sequence(t, patterns[t.Intn(len(patterns))], ks.n)
	return &victim{
		name: "cache",
		step: func() {
			c := next()
			switch t.Weighted([]int{30, 20, 3, 1}) {
			case 0:
				m.put(c)
			case 1:
				m.get(c)
			case 2:
				m.remove(c)
			case 3:
				m.resize(t.Intn(2*capacity + 1))
			}
			m.brief()
		},
		full: m.full,
		rest: func() {
			for i := 1 + t.Intn(3); i > 0; i-- {
				cacheBoom(m)
			}
			// and then an eviction that works, as if nothing had happened
			cb++
			m.setCallback(cb, t.Intn(5))
			if t.Intn(4) == 0 {
				m.setCallback(0, 0)
			}
			if m.cap > 0 {
				for i := 1 + t.Intn(2); i > 0; i-- {
					m.put(t.Intn(ks.n))
					m.full()
				}
			}
		},
		walks: []walk{{"Each", func(visit func()) { m.c.Each(func(K, V) { visit() }) }}},
	}
}

// cacheBoom fills the cache and puts one more entry, with a callback that
// panics.
func cacheBoom[K comparable, V any](m *cacheMon[K, V]) {
	t := m.t
	if m.cap == 0 || m.cap >= m.ks.n {
		return
	}
	absent := func() int {
		for {
			if c := t.Intn(m.ks.n); m.at[c] == nil {
				return c
			}
		}
	}
	for m.lru.Len() < m.cap {
		m.put(absent())
	}
	c := absent()
	m.next++
	v := m.vs.mk(m.next)
	t.Op("put-with-panicking-callback", int64(c), m.next)
	victim := m.lru.Back().Value.(cent[V])
	calls := 0
	look := t.Bool()
	m.c.SetEvictCallback(func(k K, v V) {
		calls++
		if m.ks.class(k) != victim.c || !m.vs.same(v, victim.v) {
			t.Fail("cache: evict callback got class %d = %v, expected class %d = %v", m.ks.class(k), v, victim.c, victim.v)
		}
		if look {
			// the cache is consistent at this moment
			m.full()
		}
		panic(boom{calls})
	})
	for i := 1 + t.Intn(2); i > 0; i-- {
		p, val := mon.Panics(func() { m.c.Put(m.key(c), v) })
		if b, ok := val.(boom); !p || !ok || b.at != calls {
			t.Fail("cache: the panic of the evict callback does not reach the caller of Put (%v, %v)", p, val)
		}
		t.Event("panicking_evictions", 1)
		if k := m.lru.Len(); k != m.c.Size() {
			t.Fail("cache: after a Put whose evict callback panicked Size() = %d, it was %d", m.c.Size(), k)
		}
		m.full()
	}
	t.Assert(calls > 0, "cache: the evict callback was not invoked by Put at capacity")
	// with the callback still installed, what evicts nothing works
	m.cb = 0
	var z [3]int
	for i := range z {
		if m.lru.Len() > 0 {
			e := m.lru.Front()
			for k := t.Intn(m.lru.Len()); k > 0; k-- {
				e = e.Next()
			}
			z[i] = e.Value.(cent[V]).c
			if t.Bool() {
				m.get(z[i])
			} else {
				m.put(z[i])
			}
			m.full()
		}
	}
	m.get(c) // still absent
	m.cb = -1
	m.setCallback(0, 0)
}

func faultCase(t *mon.T, small bool) {
	n, rounds, steps := 1+t.Intn(12), 12, 12
	if !small {
		n, rounds, steps = 30+t.Intn(400), 12, 300
	}
	var v *victim
	switch t.Index % 21 {
	case 0:
		v = mapVictimOf(t, intKeys(n, -n, 1), intVals(), 0)
	case 1:
		v = mapVictimOf(t, strKeys(n), strVals(), 1)
	case 2:
		v = mapVictimOf(t, intKeys(n, 0, 1), intVals(), 2)
	case 3:
		v = mapVictimOf(t, foldKeys(n), strVals(), 2)
	case 4:
		v = setVictimOf(t, strKeys(n), 0)
	case 5:
		v = setVictimOf(t, intKeys(n, -2, 1), 1)
	case 6:
		v = setVictimOf(t, intKeys(n, -2, 1), 2)
	case 7:
		v = setVictimOf(t, foldKeys(n), 3)
	case 8:
		v = ivVictim(t, n)
	case 9:
		v = queueVictim(t)
	case 10:
		v = listVictim(t)
	case 11:
		v = mmVictim(t, 1+n%20, 1+t.Intn(6), t.Index/18%4)
	case 12:
		v = bimapVictim(t, n)
	case 13:
		v = ropeVictim(t, c31rope)
	case 14:
		v = cacheVictim(t, intKeys(n+2, 0, 1), strVals(), 1+t.Intn(n))
	case 15:
		v = cacheVictim(t, strKeys(n+3), intVals(), 1+t.Intn(n))
	case 16:
		v = mapVictimOf(t, floatKeys(n), ptrVals(), t.Intn(3))
	case 17:
		v = mapVictimOf(t, tagKeys(n), anyVals(), t.Intn(3))
	case 18:
		v = mapVictimOf(t, anyKeys(n), funVals(), t.Intn(3))
	case 19:
		v = mapVictimOf(t, pairKeys(n), sliceVals(), t.Intn(3))
	case 20:
		v = cacheVictim(t, anyKeys(n+3), sliceVals(), 1+t.Intn(n))
	}
	faultRun(t, v, rounds, steps)
}

var c31rope = thresholds{split: 6, join: 3, ratio: 1.2}

func init() {
	mon.Register("C31", "A case is a generated history on one container, mirrored on a reference model, in which traversals are aborted by panicking callbacks at chosen visits, calls that must be rejected are issued and evict callbacks panic; everything observable is compared after each such fault. Distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "small", Quick: 21600, Thorough: 180000, Setup: func() { c31rope.setRope() }, Run: func(t *mon.T) { faultCase(t, true) }},
		&mon.Scenario{Name: "medium", Quick: 360, Thorough: 3600, Setup: func() { c31rope.setRope() }, Run: func(t *mon.T) { faultCase(t, false) }},
		&mon.Scenario{Name: "arrays", Quick: 400, Thorough: 10000, Run: func(t *mon.T) {
			w, h := t.Intn(12), t.Intn(12)
			t.Note("rejected accesses to a %dx%d array", w, h)
			m := gridMake(t, intElems, w, h, t.Intn(3))
			for i := 0; i < 10; i++ {
				m.outside(t.Bool())
				if w > 0 && h > 0 {
					m.set(t.Intn(w), t.Intn(h))
					m.fill(t.Intn(w), t.Intn(h), t.Intn(w), t.Intn(h))
				}
				m.full("an operation after rejected ones")
			}
		}},
	)
}
