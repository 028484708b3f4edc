package props

import (
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// keeper holds on to results that were returned earlier, with what they
// contained: they belong to the caller, so that nothing that happens later may
// change them. Some of them are written to, as their owner may.
type keeper[T any] struct {
	t    *mon.T
	same func(a, b T) bool
	what [6]string
	got  [6][]T
	want [6][]T
}

func newKeeper[T any](t *mon.T, same func(a, b T) bool) *keeper[T] {
	return &keeper[T]{t: t, same: same}
}

func (k *keeper[T]) keep(what string, got []T) {
	if k.t.Intn(1+len(got)/16) > 0 { // long ones rarely
		return
	}
	i := k.t.Intn(len(k.got))
	k.check(i)
	k.t.Event("results_kept", 1)
	if k.t.Intn(3) == 0 {
		var z T
		for j := range got {
			if j%2 == 0 {
				got[j] = z
			}
		}
	}
	k.what[i], k.got[i], k.want[i] = what, got, append([]T(nil), got...)
}

func (k *keeper[T]) check(i int) {
	k.t.Check(1)
	for j, w := range k.want[i] {
		if !k.same(k.got[i][j], w) {
			k.t.Fail("%s: a result returned earlier has changed: it holds %v at position %d of %d, expected %v", k.what[i], k.got[i][j], j, len(k.want[i]), w)
		}
	}
}

func (k *keeper[T]) all() {
	for i := range k.got {
		k.check(i)
	}
}

// sizes at which implementations like to change something.
var edges = []int{15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536}

// edge picks one of them, up to a limit.
func edge(t *mon.T, i, limit int) int {
	n := 0
	for n < len(edges) && edges[n] <= limit {
		n++
	}
	return edges[i%n]
}

// hoverWalk moves the size of something up to an edge, back and forth around
// it, and has it emptied there in the different ways.
func hoverWalk(t *mon.T, at int, size func() int, add, del func(), mark func(), wipe func(how int)) {
	span := 3 + t.Intn(6)
	rounds := 3
	if at > 60000 {
		rounds = t.Pick(1, 3)
	}
	for round := 0; round < rounds; round++ {
		for size() < at-span {
			add()
		}
		lo, hi := max(0, at-span), at+span
		up := true
		for i := 0; i < 12*span; i++ {
			switch {
			case size() <= lo:
				up = true
			case size() >= hi:
				up = false
			case t.Intn(5) == 0:
				up = !up
			}
			if up {
				add()
			} else {
				del()
			}
			if d := size() - at; d >= -1 && d <= 1 && t.Intn(3) == 0 {
				mark()
			}
		}
		stop := at + t.Intn(3) - 1
		for size() < stop {
			add()
		}
		for size() > stop {
			del()
		}
		mark()
		t.Event("edges", 1)
		t.Max("edge", int64(at))
		wipe((round + t.Index) % 3)
	}
}

// worth tells whether something that takes time in proportion to the size is
// to be done: always in small ones, near the edge, and now and then.
func worth(t *mon.T, size, at int) bool {
	return size < 9000 || size > at-12 && size < at+12 || t.Intn(500) == 0
}

// hoverMap does so with a map-like container.
func hoverMap[K any, V any](t *mon.T, m *mapMon[K, V], at int) {
	t.Note("%s: %s keys (%d), %s values, around the size %d", m.sut.name, m.ks.name, m.ks.n, m.vs.name, at)
	next := sequence(t, []string{"random", "ascending", "descending", "strided"}[t.Intn(4)], m.ks.n)
	hunt := func(present bool) int {
		c := next()
		for m.has[c] != present {
			c = (c + 1) % m.ks.n
		}
		return c
	}
	hoverWalk(t, at, func() int { return m.count },
		func() {
			c := hunt(false)
			m.put(c)
			m.look(c)
			if worth(t, m.count, at) {
				m.checkSize()
			}
		},
		func() {
			c := hunt(true)
			m.remove(c)
			m.look(c)
			if worth(t, m.count, at) {
				m.checkSize()
			}
		},
		m.full,
		func(how int) {
			switch {
			case how%3 == 0 && m.sut.clear != nil:
				m.clear()
			case how%3 == 1:
				p := t.Perm(m.ks.n)
				for _, c := range p {
					if m.has[c] {
						m.remove(c)
						m.look(c)
					}
				}
			default:
				for i := m.count / 2; i > 0; i-- {
					m.remove(hunt(true))
				}
			}
			m.full()
		})
}

func hoverHash(t *mon.T, set bool, at int) {
	n := at + 12 + t.Intn(50)
	cp := []uint64{0, 1, uint64(at), uint64(at / 2), uint64(2 * at)}[t.Intn(5)]
	id := int64(0)
	if !set {
		ks := intKeys(n, -n/2, 1)
		hoverMap(t, newMapMon(t, ks, intVals(), cowMap(hashmap.New[int, int64](cp, ks.eq, hashing(ks, "good"))).mapSUT, false, 0, &id), at)
		return
	}
	if t.Index/len(edges)%2 == 0 {
		ks := intKeys(n, 0, 3)
		s := mapset.New[int]()
		m := newMapMon(t, ks, unitVals(), mapSUT[int, struct{}]{}, false, 0, &id)
		if t.Bool() {
			s = mapset.Of(manyVals(t, m, at)...)
		}
		m.sut = setSUT("mapset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each)
		hoverMap(t, m, at)
		return
	}
	ks := strKeys(n)
	m := newMapMon(t, ks, unitVals(), mapSUT[string, struct{}]{}, false, 0, &id)
	s := hashset.New[string](cp, ks.eq, hashing(ks, "good"))
	if t.Bool() {
		s = hashset.Of[string](cp, ks.eq, hashing(ks, "good"), manyVals(t, m, at)...)
	}
	m.sut = cowSet(s).mapSUT
	hoverMap(t, m, at)
}

// manyVals returns about that many values, and notes them as present.
func manyVals[K any](t *mon.T, m *mapMon[K, struct{}], at int) []K {
	n := at + t.Intn(7) - 3
	again := t.Intn(3) // how much repetition
	vals := make([]K, 0, n)
	for i := 0; i < n; i++ {
		c := i % m.ks.n
		if again > 0 {
			c = t.Intn(m.ks.n) / again
		}
		vals = append(vals, m.key(c))
		if !m.has[c] {
			m.has[c] = true
			m.count++
		}
	}
	t.Op("of", int64(n), int64(m.count))
	return vals
}

func fewInWide[K any, V any](t *mon.T, m *mapMon[K, V]) {
	k := 3 + t.Intn(m.ks.n-2)
	p := t.Perm(m.ks.n)[:k]
	for _, c := range p {
		m.put(c)
	}
	for i := 0; i < 3; i++ {
		c := p[t.Intn(k)]
		m.remove(c)
		m.full()
		if t.Bool() {
			m.put(c)
		}
	}
}

// wideHash uses few keys in a large table whose hashes cluster around a power
// of two or around another multiple of one.
func wideHash(t *mon.T, set bool) {
	n := 20 + t.Intn(80)
	b := uint64(1) << (3 + uint64(t.Intn(15)))
	at := b * uint64(1+t.Intn(4))
	w := uint64(4 + t.Intn(40))
	cp := b * uint64(1+t.Intn(3))
	spread := t.Intn(3)
	ks := intKeys(n, 0, 1)
	h := func(k int) uint64 {
		x := uint64(k)*0x9e3779b9>>3%w - w/2
		switch spread {
		case 1:
			x += uint64(k&1) << 32
		case 2:
			x += uint64(k&3) << 62
		}
		return at + x
	}
	t.Note("%d keys with hashes within %d of %d, capacity %d", n, w/2, at, cp)
	id := int64(0)
	// the table shrinks with the first removals, so these come from fresh ones
	for i := 0; i < 4; i++ {
		if set {
			fewInWide(t, newMapMon(t, ks, unitVals(), cowSet(hashset.New[int](cp, ks.eq, h)).mapSUT, false, int64(i), &id))
		} else {
			fewInWide(t, newMapMon(t, ks, intVals(), cowMap(hashmap.New[int, int64](cp, ks.eq, h)).mapSUT, false, int64(i), &id))
		}
	}
	if set {
		m := newMapMon(t, ks, unitVals(), cowSet(hashset.New[int](cp, ks.eq, h)).mapSUT, false, 0, &id)
		drive(t, []*mapMon[int, struct{}]{m}, 600, 200)
		return
	}
	m := newMapMon(t, ks, intVals(), cowMap(hashmap.New[int, int64](cp, ks.eq, h)).mapSUT, false, 0, &id)
	drive(t, []*mapMon[int, int64]{m}, 600, 200)
}

func hoverQueue[T any](t *mon.T, vs valspace[T], at int) {
	m := &queueMon[T]{t: t, q: queue.New[T]()}
	if t.Bool() {
		var in []T
		for i := 0; i < at; i++ {
			in = append(in, vs.mk(int64(i)))
		}
		m.q = queue.Of(in)
		m.want = append(m.want, in...)
	}
	t.Note("queue of %s around the size %d", vs.name, at)
	id := int64(at)
	hoverWalk(t, at, func() int { return len(m.want) },
		func() {
			id++
			v := vs.mk(id)
			t.Op("enqueue", id)
			m.q.Enqueue(v)
			m.want = append(m.want, v)
			m.look()
		},
		func() { m.out(t.Bool()); m.look() },
		m.full,
		func(how int) {
			switch how + t.Intn(2) {
			case 0:
				t.Op("dequeue-all")
				all := m.q.DequeueAll()
				m.sameSlice("DequeueAll", all)
				m.keep("DequeueAll", all)
				m.want = nil
			case 1:
				for len(m.want) > 0 {
					m.out(t.Bool())
				}
				m.look()
			case 2:
				t.Op("clear")
				m.q.Clear()
				m.want = nil
			default:
				for i := t.Intn(len(m.want)); i > 0; i-- {
					m.out(false)
				}
			}
			m.full()
		})
}

func hoverStack[T any](t *mon.T, vs valspace[T], at int) {
	s := stack.New[T]()
	var want []T
	id := int64(0)
	t.Note("stack of %s around the size %d", vs.name, at)
	look := func() {
		var w T
		if n := len(want); n > 0 {
			w = want[n-1]
		}
		t.Check(2)
		if v := s.Peek(); !eqv(v, w) || s.Size() != len(want) {
			t.Fail("stack: Peek() and Size() are %v and %d, expected %v and %d", v, s.Size(), w, len(want))
		}
	}
	pop := func() {
		t.Op("pop")
		n := len(want) - 1
		if v := s.Pop(); !eqv(v, want[n]) {
			t.Fail("stack: Pop returns %v, expected %v with %d elements left", v, want[n], n)
		}
		want = want[:n]
		look()
	}
	hoverWalk(t, at, func() int { return len(want) },
		func() {
			id++
			v := vs.mk(id)
			t.Op("push", id)
			s.Push(v)
			want = append(want, v)
			look()
		},
		pop, func() {
			// drain a copy
			c := s.Copy()
			for i := len(want) - 1; i >= 0; i-- {
				if v := c.Pop(); !eqv(v, want[i]) {
					t.Fail("stack: a copy holds %v at position %d of %d, expected %v", v, i, len(want), want[i])
				}
			}
			look()
		},
		func(how int) {
			n := 0
			if how%2 == 1 {
				n = t.Intn(len(want))
			}
			for len(want) > n {
				pop()
			}
		})
}

// setSizes applies the operations to sets of chosen sizes.
func setSizes(t *mon.T, rel bool, at int) {
	n := at + t.Intn(2)*t.Intn(2)
	ks := intKeys(2*n+2, -n, 1)
	e := newSetEnv(t, ks, []setKind[int]{kindMap[int](), kindHash(ks, "good", 0), kindHash(ks, "good", uint64(n))})
	k := func() setKind[int] { return e.kinds[t.Intn(len(e.kinds))] }
	span := func(parts ...int) []bool { // [lo, hi) pairs
		has := make([]bool, ks.n)
		for i := 0; i < len(parts); i += 2 {
			for c := parts[i]; c < parts[i+1]; c++ {
				has[c] = true
			}
		}
		return has
	}
	t.Note("sets of about %d elements", n)
	a := span(0, n)
	for _, b := range [][]bool{
		span(n, 2*n),       // as large, disjoint
		span(n, n+1),       // small, disjoint
		span(),             // empty
		span(0, n),         // equal
		span(0, n-1),       // one less
		span(0, n+1),       // one more
		span(0, 2*n),       // n more
		span(1, n+1),       // one exchanged
		span(0, 1, n, 2*n), // all but one exchanged
		span(n-1, 2*n),     // one shared
	} {
		for swap := 0; swap < 2; swap++ {
			x, y := a, b
			if swap == 1 {
				x, y = b, a
			}
			if rel {
				e.relations(e.receiver(k(), x), e.operand(k(), y))
				continue
			}
			e.op(setOps[t.Intn(len(setOps))], e.receiver(k(), x), []operand[int]{e.operand(k(), y)})
			t.Tick()
		}
		t.Event("edges", 1)
	}
}

// hoverTree does so with an ordered map.
func hoverTree(t *mon.T, mk func(keyspace[int]) mapSUT[int, int64], at int) {
	ks := intKeys(at+20, math.MinInt, 7)
	id := int64(0)
	hoverMap(t, newMapMon(t, ks, intVals(), mk(ks), true, 0, &id), at)
}

func init() {
	mon.Register("C06", "",
		&mon.Scenario{Name: "edges", Quick: 34, Thorough: 252, Run: func(t *mon.T) { hoverHash(t, false, edge(t, t.Index, t.Pick(16384, 65536))) }},
		&mon.Scenario{Name: "clusters-in-wide-tables", Quick: 90, Thorough: 8000, Run: func(t *mon.T) { wideHash(t, false) }})
	mon.Register("C08", "",
		&mon.Scenario{Name: "edges", Quick: 42, Thorough: 252, Run: func(t *mon.T) { hoverHash(t, true, edge(t, t.Index, t.Pick(16384, 65536))) }},
		&mon.Scenario{Name: "clusters-in-wide-tables", Quick: 60, Thorough: 4000, Run: func(t *mon.T) { wideHash(t, true) }})
	mon.Register("C09", "", &mon.Scenario{Name: "edges", Quick: 64, Thorough: 252, Run: func(t *mon.T) { setSizes(t, false, edge(t, t.Index, t.Pick(4096, 65536))) }})
	mon.Register("C10", "", &mon.Scenario{Name: "edges", Quick: 64, Thorough: 252, Run: func(t *mon.T) { setSizes(t, true, edge(t, t.Index, t.Pick(4096, 65536))) }})
	mon.Register("C12", "", &mon.Scenario{Name: "edges", Quick: 57, Thorough: 420, Run: func(t *mon.T) {
		switch t.Index / 21 % 3 {
		case 0:
			hoverQueue(t, intVals(), edge(t, t.Index, t.Pick(16384, 65536)))
		case 1:
			hoverQueue(t, ptrVals(), edge(t, t.Index, t.Pick(16384, 65536)))
		default:
			hoverQueue(t, strVals(), edge(t, t.Index, t.Pick(16384, 65536)))
		}
	}})
	mon.Register("C13", "", &mon.Scenario{Name: "edges", Quick: 42, Thorough: 420, Run: func(t *mon.T) {
		if t.Index/21%2 == 0 {
			hoverStack(t, intVals(), edge(t, t.Index, 65536))
		} else {
			hoverStack(t, anyVals(), edge(t, t.Index, 65536))
		}
	}})
}

func init() {
	mon.Register("C01", "", &mon.Scenario{Name: "edges", Quick: 17, Thorough: 140, Run: func(t *mon.T) {
		hoverTree(t, avlSUT[int, int64], edge(t, t.Index, 8192))
	}})
	mon.Register("C03", "", &mon.Scenario{Name: "edges", Quick: 21, Thorough: 210, Run: func(t *mon.T) {
		hoverTree(t, btreeSUT[int, int64], edge(t, t.Index, 65536))
	}})
}

// hoverCache fills caches whose capacity is an edge, and resizes them to and
// from one.
func hoverCache(t *mon.T, cbs bool, at int) {
	at += t.Intn(3) - 1
	n := at + 2 + t.Intn(at)
	m := newCacheMon(t, intKeys(n, -5, 1), intVals(), at)
	t.Note("cache of capacity %d, %d keys", at, n)
	if cbs {
		m.setCallback(1, []int{0, 2, 3, 4}[t.Intn(4)]) // not the ones that walk through everything
	}
	for c := 0; c < n; c++ {
		m.put(c)
		m.brief()
		if t.Intn(4) == 0 {
			m.get(t.Intn(c + 1))
		}
	}
	m.full()
	for i := 0; i < 60; i++ {
		c := t.Intn(n)
		switch t.Intn(4) {
		case 0:
			m.put(c)
		case 1:
			m.get(c)
		case 2:
			m.remove(c)
		case 3:
			if e := m.lru.Back(); e != nil {
				m.get(e.Value.(cent[int64]).c)
			}
		}
		m.brief()
	}
	m.full()
	for _, to := range []int{at + 1, at - 1, at, 2*at + 1, at, at / 2, 0, at} {
		if to < 0 {
			continue
		}
		m.resize(to)
		m.full()
		for i := 0; i < 20; i++ {
			m.put(t.Intn(n))
		}
		m.brief()
	}
	m.full()
	t.Event("edges", 1)
}

func hoverHeap(t *mon.T, at int) {
	rs := make([]int, at-t.Intn(3))
	ranks := 1 + t.Intn(1<<uint(t.Intn(18)))
	for i := range rs {
		rs[i] = t.Intn(ranks)
	}
	m := heapMake(t, itemType(), t.Intn(3), rs)
	t.Note("heap around the size %d, %d ranks", at, ranks)
	hoverWalk(t, at, func() int { return len(m.in) },
		func() { m.push(t.Intn(ranks)); m.look() },
		func() { m.pop(); m.look() },
		m.look,
		func(how int) {
			n := 0
			if how%2 == 1 {
				n = t.Intn(len(m.in))
			}
			for len(m.in) > n {
				m.pop()
			}
			m.look()
		})
}

// hoverMulti has keys with that many values, or that many keys.
func hoverMulti(t *mon.T, at int) {
	nk, nv := 2, at+20
	if t.Bool() {
		nk, nv = nv, nk
	}
	ks, vs := intKeys(nk, 0, 1), intKeys(nv, 0, 1)
	var m *mmMon[int, int]
	switch t.Intn(4) {
	case 0:
		m = mmNew(t, ks, vs, multimap.NewMapSlice[int, int](), "MapSlice", true, false, false, 0)
	case 1:
		m = mmNew(t, ks, vs, multimap.NewMapSet[int, int](vs.less), "MapSet", false, false, true, 0)
	case 2:
		m = mmNew(t, ks, vs, multimap.NewAvlSlice[int, int](ks.less), "AvlSlice", true, true, false, 0)
	default:
		m = mmNew(t, ks, vs, multimap.NewAvlSet[int, int](ks.less, vs.less), "AvlSet", false, true, true, 0)
	}
	t.Note("multimap %s of %d keys and %d values around the size %d", m.name, nk, nv, at)
	pk, pv := t.Intn(nk), t.Intn(nv)
	step := func(present bool) (int, int) {
		for {
			if nk > nv {
				pk = (pk + 1 + t.Intn(2)) % nk
				pv = 0
			} else {
				pv = (pv + 1 + t.Intn(2)) % nv
				pk = 0
			}
			if (m.cnt[pk][pv] > 0) == present {
				return pk, pv
			}
		}
	}
	hoverWalk(t, at, func() int { return m.size },
		func() {
			k, v := step(false)
			m.put(k, v)
			if worth(t, m.size, at) {
				m.sizes()
			}
		},
		func() {
			k, v := step(true)
			m.remove(k, v)
			if worth(t, m.size, at) {
				m.sizes()
			}
		},
		m.full,
		func(how int) {
			switch how % 3 {
			case 0:
				m.clear()
			case 1:
				for k := 0; k < nk; k++ {
					m.removeAll(k)
				}
			default:
				for i := m.size / 2; i > 0; i-- {
					k, v := step(true)
					m.remove(k, v)
				}
			}
			m.full()
		})
}

func hoverTrie(t *mon.T, store, pref bool, at int) {
	var u []string
	shape := t.Intn(3)
	for i := 0; len(u) < at+20; i++ {
		switch shape {
		case 0: // two bytes
			u = append(u, string([]byte{byte(i >> 8), byte(i * 77)}))
		case 1: // numbers
			u = append(u, "n"+strconv.Itoa(i*7))
		default:
			u = append(u, strings.Repeat("ab", i%3)+string([]byte{byte(i), byte(i >> 8), byte(i >> 16)}))
		}
	}
	sort.Strings(u)
	u = slices.Compact(u)
	id := int64(0)
	m := newTrieMon(t, intVals(), u, nil, store, pref, 0, &id)
	t.Note("trie of %d strings of shape %d around the size %d", len(u), shape, at)
	at = min(at, len(u)-12)
	perm := t.Perm(len(u))
	p := 0
	step := func(present bool) int {
		for {
			p = (p + 1) % len(u)
			if m.has[perm[p]] == present {
				return perm[p]
			}
		}
	}
	hoverWalk(t, at, func() int { return m.n },
		func() { i := step(false); m.put(i); m.look(i); m.size() },
		func() { i := step(true); m.remove(i); m.look(i); m.size() },
		func() { m.full(6) },
		func(how int) {
			n := 0
			if how%2 == 1 {
				n = t.Intn(m.n)
			}
			for m.n > n {
				m.remove(step(true))
			}
			m.full(6)
		})
}

func hoverInterval(t *mon.T, store, over bool, at int) {
	n := at + 20
	m := newIvMon(t, someInts[int](n, -n/2, 1), store, over)
	t.Note("interval tree of %d starts around the size %d", n, at)
	next := sequence(t, []string{"random", "ascending", "descending", "strided"}[t.Intn(4)], n)
	hunt := func(present bool) int {
		c := next()
		for m.at[c].has != present {
			c = (c + 1) % n
		}
		return c
	}
	hoverWalk(t, at, func() int { return m.n },
		func() {
			lo := hunt(false)
			hi := min(n-1, lo+t.Intn(9))
			if t.Intn(at) == 0 {
				hi = n - 1
			}
			m.put(lo, hi)
			if t.Intn(3) == 0 { // replace one, with another length
				lo = hunt(true)
				m.put(lo, min(n-1, lo+t.Intn(30)))
			}
			if store {
				m.get(lo)
			}
			if over && worth(t, m.n, at) && n < 20000 {
				a := max(0, lo-3+t.Intn(8))
				m.query(min(a, n-1), min(n-1, a+t.Intn(4)))
			}
		},
		func() {
			lo := hunt(true)
			m.remove(lo)
			if store {
				m.get(lo)
			}
		},
		m.full,
		func(how int) {
			k := 0
			if how%2 == 1 {
				k = m.n / 2
			}
			for m.n > k {
				m.remove(hunt(true))
			}
			m.full()
		})
}

// hoverULists grows and shrinks an unrolled list at both ends and in the
// middle.
func hoverUList(t *mon.T, at int) {
	block := []int{1, 2, 3, 15, 16, 64, 255, 256, at - 1, at, at + 1}[t.Intn(11)]
	m := &ulMon[int]{t: t, el: intElems, ul: ulist.New[int](block)}
	t.Note("unrolled list of blocks of %d around the length %d", block, at)
	hoverWalk(t, at, func() int { return len(m.model) },
		func() {
			if op := t.Intn(8); len(m.model) == 0 || op > 0 || at > 600 {
				m.edit([]int{ulPushBack, ulPushBack, ulPushFront}[t.Intn(3)])
			} else {
				m.seek(t.Intn(len(m.model)))
				m.edit([]int{ulAddAfter, ulAddBefore}[t.Intn(2)])
			}
		},
		func() {
			switch t.Intn(3) {
			case 0:
				m.seek(0)
			case 1:
				m.seek(len(m.model) - 1)
			default:
				p := t.Intn(min(len(m.model), 100))
				if t.Bool() {
					p = len(m.model) - 1 - p
				}
				m.seek(p)
			}
			m.edit(ulRemove)
			m.it = nil
		},
		m.full,
		func(how int) {
			n := 0
			if how%2 == 1 {
				n = t.Intn(len(m.model))
			}
			p := len(m.model) - 1
			if how == 0 {
				p = 0
			}
			m.seek(p)
			for len(m.model) > n {
				if !m.valid() {
					m.pos = m.move(m.it, m.pos, false)
				}
				m.edit(ulRemove)
			}
			m.full()
		})
}

func hoverBimap(t *mon.T, at int) {
	n := at + 20
	num := func(i int) int { return i*3 - n }
	m := newBimapMon(t, n, n, num, num, false)
	t.Note("bimap of %d keys around the length %d", n, at)
	size, p := 0, 0
	perm, perm2 := t.Perm(n), t.Perm(n)
	hoverWalk(t, at, func() int { return size },
		func() {
			for m.fwd[perm[p]] >= 0 {
				p = (p + 1) % n
			}
			q := p
			for m.rev[perm2[q]] >= 0 {
				q = (q + 1) % n
			}
			m.apply(0, perm[p], perm2[q])
			size++
		},
		func() {
			p = (p + n/2) % n
			for m.fwd[perm[p]] < 0 {
				p = (p + 1) % n
			}
			k := perm[p]
			m.apply(1+t.Intn(2), k, m.fwd[k])
			size--
			// RemoveReverse of a value or RemoveForward of a key
		},
		m.full,
		func(how int) {
			if how%2 == 0 {
				m.apply(3, 0, 0)
				size = 0
			}
			m.full()
		})
}

// hoverList grows and shrinks lists of that many nodes.
func hoverList(t *mon.T, at int) {
	m := &listMon{t: t, l: list.New[int64](), val: map[*lnode]int64{}}
	t.Note("list around the length %d", at)
	next := int64(0)
	hoverWalk(t, at, func() int { return len(m.want) },
		func() {
			next++
			t.Op("insert", next)
			x := &lnode{Value: next}
			m.val[x] = next
			n := len(m.want)
			switch t.Intn(4) {
			case 0:
				m.l.PushBackNode(x)
				m.want = append(m.want, x)
			case 1:
				m.l.PushBack(next)
				x = m.l.Back
				m.val[x] = next
				m.want = append(m.want, x)
			default:
				if n == 0 {
					m.l.PushFrontNode(x)
					m.want = append(m.want, x)
					return
				}
				i := n - 1 - t.Intn(min(n, 8))
				m.l.InsertBefore(m.want[i], x)
				m.want = insertAt(m.want, i, x)
			}
		},
		func() {
			n := len(m.want)
			i := n - 1 - t.Intn(min(n, 8))
			t.Op("remove", int64(i))
			m.l.Remove(m.want[i])
			m.want = append(m.want[:i], m.want[i+1:]...)
		},
		func() { m.full(); m.walks(len(m.want) - 1); m.walks(0) },
		func(how int) {
			for i := 0; len(m.want) > 0 && i < 2*at/(1+how); i++ {
				n := len(m.want) - 1
				t.Op("remove", int64(n))
				m.l.Remove(m.want[n])
				m.want = m.want[:n]
			}
			m.full()
		})
}

func init() {
	for _, x := range []struct {
		id   string
		q, n int
		run  func(t *mon.T)
	}{
		{"C04", 18, 140, func(t *mon.T) { hoverInterval(t, true, false, edge(t, t.Index, t.Pick(4096, 65536))) }},
		{"C05", 18, 140, func(t *mon.T) { hoverInterval(t, false, true, edge(t, t.Index, t.Pick(4096, 65536))) }},
		{"C11", 63, 420, func(t *mon.T) { hoverHeap(t, edge(t, t.Index, 65536)) }},
		{"C14", 34, 210, func(t *mon.T) { hoverList(t, edge(t, t.Index, t.Pick(8192, 65536))) }},
		{"C15", 34, 210, func(t *mon.T) { hoverCache(t, false, edge(t, t.Index, t.Pick(8192, 65536))) }},
		{"C16", 34, 210, func(t *mon.T) { hoverCache(t, true, edge(t, t.Index, t.Pick(8192, 65536))) }},
		{"C17", 42, 210, func(t *mon.T) { hoverMulti(t, edge(t, t.Index, t.Pick(1024, 8192))) }},
		{"C18", 32, 210, func(t *mon.T) { hoverTrie(t, true, false, edge(t, t.Index, t.Pick(4096, 65536))) }},
		{"C19", 32, 210, func(t *mon.T) { hoverTrie(t, false, true, edge(t, t.Index, t.Pick(4096, 65536))) }},
		{"C24", 51, 420, func(t *mon.T) { hoverUList(t, edge(t, t.Index, t.Pick(8192, 65536))) }},
		{"C26", 32, 210, func(t *mon.T) { hoverBimap(t, edge(t, t.Index, t.Pick(4096, 65536))) }},
	} {
		mon.Register(x.id, "", &mon.Scenario{Name: "edges", Quick: x.q, Thorough: x.n, Run: x.run})
	}
}

// ofMany makes containers of as many values as an edge, one less and one more.
func ofMany(t *mon.T) {
	at := edges[t.Index%len(edges)]
	t.Note("sets of about %d values", at)
	for n := at - 1; n <= at+1; n++ {
		for again := 0; again < 2; again++ {
			ks := intKeys(n, -n/2, 3)
			vals := make([]int, n)
			has := make([]bool, n)
			want := 0
			for i := range vals {
				c := i
				if again == 1 {
					c = t.Intn(n)
				}
				vals[i] = ks.mk(c, 0)
				if !has[c] {
					has[c] = true
					want++
				}
			}
			cp := []uint64{0, 1, uint64(n), uint64(2 * n)}[t.Intn(4)]
			hs := hashset.Of(cp, ks.eq, hashing(ks, "good"), vals...)
			ms := mapset.Of(vals...)
			ns := set.NewHashset(cp, ks.eq, hashing(ks, "good"), vals...)
			nm := set.NewMapset(vals...)
			nc := set.NewSet(func() set.SetOf[int] { return mapset.New[int]() }, vals...)
			t.Op("of", int64(n), int64(want))
			for _, s := range []struct {
				name string
				size int
				has  func(int) bool
			}{
				{"hashset.Of", hs.Size(), hs.Has}, {"mapset.Of", ms.Size(), ms.Has},
				{"set.NewHashset", ns.Size(), ns.Has}, {"set.NewMapset", nm.Size(), nm.Has}, {"set.NewSet", nc.Size(), nc.Has},
			} {
				if s.size != want {
					t.Fail("%s of %d values: Size() = %d, expected %d", s.name, n, s.size, want)
				}
				t.Check(n + 1)
				for c := range has {
					if s.has(ks.mk(c, 0)) != has[c] {
						t.Fail("%s of %d values: Has(%d) = %v", s.name, n, ks.mk(c, 0), !has[c])
					}
				}
			}
			t.Event("sets_of_many", 5)
		}
	}
	t.Max("edge", int64(at))
}

func init() {
	mon.Register("C08", "", &mon.Scenario{Name: "of-many", Quick: 42, Thorough: 420, Run: ofMany})
}

func heapsOfMany(t *mon.T) {
	at := edges[t.Index%len(edges)]
	t.Note("heaps of about %d elements", at)
	for n := at - 1; n <= at+1; n++ {
		for how := 1; how < 3; how++ {
			rs := make([]int, n)
			ranks := []int{2, n, 4 * n}[t.Intn(3)]
			for i := range rs {
				switch rs[i] = t.Intn(ranks); how*7 + n&3 {
				case 7:
					rs[i] = i
				case 8:
					rs[i] = -i
				}
			}
			m := heapMake(t, itemType(), how, rs)
			m.look()
			for len(m.in) > 0 {
				m.pop()
			}
			m.look()
			t.Event("heaps_of_many", 1)
		}
	}
	t.Max("edge", int64(at))
}

func queuesOfMany(t *mon.T) {
	at := edges[t.Index%len(edges)]
	t.Note("queues of about %d items", at)
	for n := at - 1; n <= at+1; n++ {
		m := &queueMon[int64]{t: t}
		var in []int64
		for i := 0; i < n; i++ {
			in = append(in, int64(i*3+1))
		}
		t.Op("of", int64(n))
		m.q = queue.Of(in)
		m.want = append(m.want, in...)
		m.full()
		if t.Bool() {
			all := m.q.DequeueAll()
			m.sameSlice("DequeueAll", all)
			m.want = nil
		}
		for len(m.want) > 0 {
			m.out(t.Bool())
		}
		m.full()
		t.Event("queues_of_many", 1)
	}
	t.Max("edge", int64(at))
}

func init() {
	mon.Register("C11", "", &mon.Scenario{Name: "of-many", Quick: 42, Thorough: 420, Run: heapsOfMany})
	mon.Register("C12", "", &mon.Scenario{Name: "of-many", Quick: 42, Thorough: 420, Run: queuesOfMany})
}
