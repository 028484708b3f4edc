package props

import (
	"math"
	"runtime"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"

	"verif/harness/mon"
)

// hashings are lawful hash functions of a key space, most of them bad in a
// particular way.
var hashings = []string{"good", "all 0", "all ones", "identity", "few low bits", "high bits only", "descending from all ones", "straddling the wrap-around", "good, 3 low bits", "backwards from all ones", clusters32}

// clusters32 makes clusters of eight keys, each of which straddles a multiple of
// 32: unlike the other bad ones, it suits large tables.
const clusters32 = "clusters straddling multiples of 32"

func hashing[K any](ks keyspace[K], name string) g.HashFn[K] {
	cl := func(k K) uint64 { return uint64(ks.class(k)) }
	switch name {
	case "all 0":
		return func(K) uint64 { return 0 }
	case "all ones":
		return func(K) uint64 { return math.MaxUint64 }
	case "identity":
		return cl
	case "few low bits":
		return func(k K) uint64 { return cl(k) % 5 }
	case "high bits only":
		return func(k K) uint64 { return cl(k) << 40 }
	case "descending from all ones":
		return func(k K) uint64 { return math.MaxUint64 - cl(k)/2 }
	case "backwards from all ones":
		return func(k K) uint64 { return math.MaxUint64 - cl(k) }
	case "straddling the wrap-around":
		return func(k K) uint64 { return cl(k)%4 - 2 }
	case clusters32:
		return func(k K) uint64 { c := cl(k); return c/8*32 - 4 + c%8/2 }
	case "good, 3 low bits":
		return func(k K) uint64 { return ks.hash(k) & 7 }
	}
	return g.HashFn[K](ks.hash)
}

var capacities = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100, 1000}

// cow is a map-like container that can be copied.
type cow[K any, V any] struct {
	mapSUT[K, V]
	copy func() cow[K, V]
}

func cowMap[K any, V any](m *hashmap.Map[K, V]) cow[K, V] {
	return cow[K, V]{
		mapSUT[K, V]{name: "hashmap", put: m.Put, remove: m.Remove, get: m.Get, each: m.Each, size: m.Size, clear: m.Clear},
		func() cow[K, V] { return cowMap(m.Copy()) },
	}
}

func setSUT[K any](name string, put func(K), has func(K) bool, remove func(K), clear func(), size func() int, each func(func(K))) mapSUT[K, struct{}] {
	return mapSUT[K, struct{}]{
		name: name,
		put:  func(k K, _ struct{}) { put(k) },
		get:  func(k K) (struct{}, bool) { return struct{}{}, has(k) },
		each: func(fn func(K, struct{})) { each(func(k K) { fn(k, struct{}{}) }) },
		size: size, remove: remove, clear: clear,
	}
}

func cowSet[K any](s *hashset.Set[K]) cow[K, struct{}] {
	return cow[K, struct{}]{
		setSUT("hashset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each),
		func() cow[K, struct{}] { return cowSet(s.Copy()) },
	}
}

func hashRun[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], ops, every int) {
	hn := pickHashing(t, ks.n)
	cp := capacities[t.Intn(len(capacities))]
	h := hashing(ks, hn)
	id := int64(0)
	n := 1 + t.Intn(2)
	var ms []*mapMon[K, V]
	for i := 0; i < n; i++ {
		m := cowMap(hashmap.New[K, V](cp, ks.eq, h))
		ms = append(ms, newMapMon(t, ks, vs, m.mapSUT, false, int64(i), &id))
	}
	t.Note("%s keys (%d classes), %s values, hash: %s, capacity %d, %d maps, %d operations", ks.name, ks.n, vs.name, hn, cp, n, ops)
	ms[0].full()
	drive(t, ms, ops, every)
}

func setRun[K any](t *mon.T, ks keyspace[K], ops, every int) {
	hn := pickHashing(t, ks.n)
	cp := capacities[t.Intn(len(capacities))]
	id := int64(0)
	n := 1 + t.Intn(2)
	var ms []*mapMon[K, struct{}]
	init := 0
	if t.Bool() {
		init = t.Intn(2 * ks.n)
	}
	for i := 0; i < n; i++ {
		var s *hashset.Set[K]
		m := newMapMon(t, ks, unitVals(), mapSUT[K, struct{}]{}, false, int64(i), &id)
		if init == 0 {
			s = hashset.New[K](cp, ks.eq, hashing(ks, hn))
		} else {
			var vals []K
			for j := 0; j < init; j++ {
				c := t.Intn(ks.n)
				vals = append(vals, m.key(c))
				if !m.has[c] {
					m.has[c] = true
					m.count++
				}
			}
			t.Op("of", int64(init))
			s = hashset.Of[K](cp, ks.eq, hashing(ks, hn), vals...)
			var z K
			for j := range vals {
				vals[j] = z
			}
		}
		m.sut = cowSet(s).mapSUT
		ms = append(ms, m)
	}
	t.Note("hashset of %s (%d classes), hash: %s, capacity %d, %d sets, Of %d, %d operations", ks.name, ks.n, hn, cp, n, init, ops)
	ms[0].full()
	drive(t, ms, ops, every)
}

func mapsetRun[K comparable](t *mon.T, ks keyspace[K], ops, every int) {
	id := int64(0)
	var ms []*mapMon[K, struct{}]
	init := t.Intn(ks.n)
	for i := 0; i < 1+t.Intn(2); i++ {
		m := newMapMon(t, ks, unitVals(), mapSUT[K, struct{}]{}, false, int64(i), &id)
		s := mapset.New[K]()
		if t.Bool() {
			var vals []K
			for j := 0; j < init; j++ {
				c := t.Intn(ks.n)
				vals = append(vals, ks.mk(c, 0))
				if !m.has[c] {
					m.has[c] = true
					m.count++
				}
			}
			t.Op("of", int64(init))
			s = mapset.Of(vals...)
		}
		m.sut = setSUT("mapset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each)
		ms = append(ms, m)
	}
	t.Note("mapset of %s (%d classes), %d operations", ks.name, ks.n, ops)
	ms[0].full()
	drive(t, ms, ops, every)
}

func hashSizes(t *mon.T, small bool) (n, ops, every int) {
	if small {
		return 1 + t.Intn(16), 30 + t.Intn(200), 1
	}
	if t.Bool() {
		return 30 + t.Intn(120), 500 + t.Intn(1000), 100
	}
	return 150 + t.Intn(800), 500 + t.Intn(3000), 150
}

// pickHashing avoids long runs of colliding keys in larger maps.
func pickHashing(t *mon.T, n int) string {
	if n > 150 {
		return []string{"good", "identity", "backwards from all ones", clusters32}[t.Intn(4)]
	}
	return hashings[t.Intn(len(hashings))]
}

func hashCase(t *mon.T, small bool) {
	n, ops, every := hashSizes(t, small)
	switch t.Index % 13 {
	case 0:
		hashRun(t, intKeys(n, -n/2, 1), intVals(), ops, every)
	case 1:
		hashRun(t, strKeys(n), strVals(), ops, every)
	case 2:
		hashRun(t, extremeKeys(n+2), anyVals(), ops, every)
	case 3:
		hashRun(t, foldKeys(n), intVals(), ops, every)
	case 4:
		hashRun(t, tagKeys(n), ptrVals(), ops, every)
	case 5:
		hashRun(t, ptrKeys(n), intVals(), ops, every)
	case 6:
		hashRun(t, floatKeys(n), unitVals(), ops, every)
	case 7:
		hashRun(t, bytesKeys(n), intVals(), ops, every)
	case 8:
		hashRun(t, anyKeys(n), funVals(), ops, every)
	case 9:
		hashRun(t, pairKeys(n), sliceVals(), ops, every)
	case 10:
		hashRun(t, byteKeys(), arrVals(), ops, max(every, 20))
	case 11:
		hashRun(t, revKeys(n), intVals(), ops, every)
	default:
		hashRun(t, intKeys(n, 0, 1<<uint(t.Intn(50))), intVals(), ops, every)
	}
}

func setCase(t *mon.T, small bool) {
	n, ops, every := hashSizes(t, small)
	switch t.Index % 14 {
	case 0:
		setRun(t, intKeys(n, -n/2, 1), ops, every)
	case 1:
		setRun(t, strKeys(n), ops, every)
	case 2:
		setRun(t, foldKeys(n), ops, every)
	case 3:
		setRun(t, tagKeys(n), ops, every)
	case 4:
		setRun(t, ptrKeys(n), ops, every)
	case 5:
		setRun(t, bytesKeys(n), ops, every)
	case 6:
		setRun(t, floatKeys(n), ops, every)
	case 7:
		mapsetRun(t, intKeys(n, -3, 1), ops, every)
	case 8:
		mapsetRun(t, strKeys(n), ops, every)
	case 9:
		setRun(t, anyKeys(n), ops, every)
	case 10:
		mapsetRun(t, anyKeys(n), ops, every)
	case 11:
		mapsetRun(t, pairKeys(n), ops, every)
	case 12:
		setRun(t, pairKeys(n), ops, every)
	default:
		mapsetRun(t, floatKeys(n), ops, every)
	}
}

// hashLarge grows a map beyond 2^16 slots and shrinks it again.
func hashLarge(t *mon.T, set bool, n int) {
	ks := intKeys(n, -n/3, 1)
	hn := []string{"good", "identity", clusters32, "backwards from all ones"}[t.Index%4]
	if hn != "good" && hn != clusters32 { // removing from one long run of slots is quadratic
		n = min(n, 5000)
		ks = intKeys(n, 0, 1)
	}
	id := int64(0)
	name, ord := orderings(t, n)
	t.Note("%d keys, hash: %s, inserted in %s order", n, hn, name)
	if set {
		m := newMapMon(t, ks, unitVals(), cowSet(hashset.New[int](3, ks.eq, hashing(ks, hn))).mapSUT, false, 0, &id)
		growShrink(t, m, ord, n)
		return
	}
	m := newMapMon(t, ks, intVals(), cowMap(hashmap.New[int, int64](3, ks.eq, hashing(ks, hn))).mapSUT, false, 0, &id)
	growShrink(t, m, ord, n)
}

func growShrink[K any, V any](t *mon.T, m *mapMon[K, V], ord func(int) int, n int) {
	bulk(t, m, ord, n, 4)
	p := t.Perm(n)
	for i, c := range p {
		m.remove(c)
		m.look(c)
		m.look(p[t.Intn(n)])
		if i%(n/4+1) == n/4 || n-i == 100 || n-i == 10 {
			m.full()
		}
	}
	m.full()
	for i := 0; i < 1000; i++ {
		m.put(p[i%n])
	}
	m.clear()
	m.full()
	for i := 0; i < 100; i++ {
		m.put(p[i%n])
	}
	m.full()
}

// hashHistories runs every history of the given length over put/remove of four
// keys whose hashes are chosen by the case: clusters in a table of two to
// eight slots, with and without wrap-around.
func hashHistories(t *mon.T, set bool, length int) {
	const nk = 4
	ks := intKeys(nk, 0, 1)
	kinds := 2*nk + 1
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	hs := [nk]uint64{}
	for i := range hs {
		switch t.Index % 4 {
		case 0:
			hs[i] = uint64(6 + t.Intn(4)) // around the wrap of 8 slots
		case 1:
			hs[i] = uint64(t.Intn(3))
		case 2:
			hs[i] = uint64(2 + t.Intn(3))
		default:
			hs[i] = t.Uint64()
		}
	}
	h := func(k int) uint64 { return hs[k] }
	cp := uint64(t.Index) / 4 * 5 % 9
	t.Note("capacity %d, hashes %v, all histories of length %d", cp, hs, length)
	id := int64(0)
	vs := intVals()
	for i := 0; i < total; i++ {
		m := newMapMon(t, ks, vs, mapSUT[int, int64]{}, false, int64(i), &id)
		if set {
			s := hashset.New[int](cp, ks.eq, h)
			m.sut = mapSUT[int, int64]{name: "hashset", size: s.Size, remove: s.Remove, clear: s.Clear}
			cur := &m.val
			m.sut.put = func(k int, _ int64) { s.Put(k) }
			m.sut.get = func(k int) (int64, bool) {
				if s.Has(k) {
					return (*cur)[k], true
				}
				return 0, false
			}
			m.sut.each = func(fn func(int, int64)) { s.Each(func(k int) { fn(k, (*cur)[max(0, min(k, nk-1))]) }) }
		} else {
			m.sut = cowMap(hashmap.New[int, int64](cp, ks.eq, h)).mapSUT
		}
		x := i
		for j := 0; j < length; j++ {
			op := x % kinds
			x /= kinds
			switch {
			case op < nk:
				m.put(op)
			case op < 2*nk:
				m.remove(op - nk)
			default:
				m.clear()
			}
		}
		m.full()
		t.Event("exhaustive_histories", 1)
	}
}

// --- C07 -------------------------------------------------------------------

type member[K any, V any] struct {
	m   *mapMon[K, V]
	cow cow[K, V]
}

// family drives a family of copies: every member is compared after every
// operation on any of them.
func family[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], root cow[K, V], ops int, fullEvery int) {
	id, nm := int64(0), int64(0)
	adopt := func(c cow[K, V], from *mapMon[K, V]) member[K, V] {
		m := newMapMon(t, ks, vs, c.mapSUT, false, nm, &id)
		nm++
		if from != nil {
			copy(m.has, from.has)
			copy(m.val, from.val)
			m.count = from.count
		}
		return member[K, V]{m, c}
	}
	fam := []member[K, V]{adopt(root, nil)}
	limit := 2 + t.Intn(6)
	next := sequence(t, patterns[t.Intn(len(patterns))], ks.n)
	w := []int{6, 5, 3, 1, 2}
	for i := 0; i < ops; i++ {
		if i%40 == 0 {
			next = sequence(t, patterns[t.Intn(len(patterns))], ks.n)
			w = [][]int{{6, 5, 3, 1, 2}, {10, 1, 3, 0, 1}, {1, 10, 3, 0, 1}, {3, 3, 6, 3, 1}}[t.Intn(4)]
		}
		x := t.Intn(len(fam))
		a := fam[x]
		c := next()
		switch t.Weighted(w) {
		case 0:
			a.m.put(c)
		case 1:
			a.m.remove(c)
		case 2:
			t.Op("copy", a.m.id, nm)
			b := adopt(a.cow.copy(), a.m)
			t.Event("copies", 1)
			if len(fam) >= limit {
				fam[t.Intn(len(fam))] = b
			} else {
				fam = append(fam, b)
			}
			t.Max("copies_alive", int64(len(fam)))
		case 3:
			a.m.clear()
		case 4:
			t.Op("get", a.m.id, int64(c))
		}
		for _, b := range fam {
			if i%fullEvery == 0 {
				b.m.full()
			} else {
				b.m.near(c)
			}
		}
	}
	for _, b := range fam {
		b.m.full()
	}
}

func familyCase(t *mon.T, small bool) {
	n, ops, every := 1+t.Intn(12), 30+t.Intn(120), 1
	if !small {
		n, ops, every = 30+t.Intn(400), 300+t.Intn(1200), 60
	}
	hn := hashings[t.Intn(len(hashings))]
	if !small {
		hn = []string{"good", "identity"}[t.Intn(2)]
	}
	cp := capacities[t.Intn(len(capacities))]
	t.Note("family of copies, %d keys, hash: %s, capacity %d, %d operations", n, hn, cp, ops)
	switch t.Index % 7 {
	case 0:
		ks := intKeys(n, -n/2, 1)
		family(t, ks, intVals(), cowMap(hashmap.New[int, int64](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 1:
		ks := strKeys(n)
		family(t, ks, unitVals(), cowSet(hashset.New[string](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 2:
		ks := tagKeys(n)
		family(t, ks, strVals(), cowMap(hashmap.New[tagged, string](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 3:
		ks := bytesKeys(n)
		family(t, ks, anyVals(), cowMap(hashmap.New[[]byte, any](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 4:
		ks := anyKeys(n)
		family(t, ks, funVals(), cowMap(hashmap.New[any, func() int64](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 5:
		ks := pairKeys(n)
		family(t, ks, sliceVals(), cowMap(hashmap.New[[2]int16, []int64](cp, ks.eq, hashing(ks, hn))), ops, every)
	case 6:
		ks := anyKeys(n)
		family(t, ks, unitVals(), cowSet(hashset.New[any](cp, ks.eq, hashing(ks, hn))), ops, every)
	}
}

// familyHistories runs every short history over a map and one copy taken after
// a prefix of it.
func familyHistories(t *mon.T, length int) {
	const nk = 2
	ks := intKeys(nk, 0, 1)
	kinds := 2*(2*nk+1) + 2 // put/remove/clear on either, copy either over the other
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	cp := capacities[t.Index%8]
	hn := hashings[t.Index/8%len(hashings)]
	h := hashing(ks, hn)
	vs := intVals()
	t.Note("capacity %d, hash %s, all histories of length %d over a map and its copy", cp, hn, length)
	id := int64(0)
	for i := 0; i < total; i++ {
		a := cowMap(hashmap.New[int, int64](cp, ks.eq, h))
		id = 0
		// start with some content so that there is something to share
		ms := [2]*mapMon[int, int64]{newMapMon(t, ks, vs, a.mapSUT, false, 0, &id), nil}
		cs := [2]cow[int, int64]{a, {}}
		if i%3 > 0 {
			ms[0].put(0)
		}
		if i%3 > 1 {
			ms[0].put(1)
		}
		cpy := func(from, to int) {
			t.Op("copy", int64(from), int64(to))
			cs[to] = cs[from].copy()
			m := newMapMon(t, ks, vs, cs[to].mapSUT, false, int64(to), &id)
			copy(m.has, ms[from].has)
			copy(m.val, ms[from].val)
			m.count = ms[from].count
			ms[to] = m
		}
		cpy(0, 1)
		x := i
		for j := 0; j < length; j++ {
			op := x % kinds
			x /= kinds
			if op >= kinds-2 {
				cpy(op&1, 1-op&1)
				continue
			}
			m := ms[op&1]
			op /= 2
			switch {
			case op < nk:
				m.put(op)
			case op < 2*nk:
				m.remove(op - nk)
			default:
				m.clear()
			}
		}
		ms[0].full()
		ms[1].full()
		t.Event("exhaustive_histories", 1)
	}
}

// allocated returns the bytes allocated by fn (by everything in the process,
// so it is used in serial scenarios).
func allocated(fn func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

// copyCost checks that copying and reading do not duplicate the table and that
// writes to a copy duplicate it a bounded number of times.
func copyCost(t *mon.T) {
	n := 20000 + t.Intn(60000)
	set := t.Index%3 == 2
	var mk func() (cow[int, int64], int64)
	if set {
		mk = func() (cow[int, int64], int64) {
			s := hashset.New[int](uint64(t.Intn(2*n)), g.Equals[int], g.HashInt)
			var wrap func(s *hashset.Set[int]) cow[int, int64]
			wrap = func(s *hashset.Set[int]) cow[int, int64] {
				return cow[int, int64]{
					mapSUT[int, int64]{name: "hashset", put: func(k int, _ int64) { s.Put(k) }, remove: s.Remove, size: s.Size,
						get:  func(k int) (int64, bool) { return 0, s.Has(k) },
						each: func(fn func(int, int64)) { s.Each(func(k int) { fn(k, 0) }) }},
					func() cow[int, int64] { return wrap(s.Copy()) },
				}
			}
			return wrap(s), int64(n) * 8
		}
	} else {
		mk = func() (cow[int, int64], int64) {
			return cowMap(hashmap.New[int, int64](uint64(t.Intn(2*n)), g.Equals[int], g.HashInt)), int64(n) * 16
		}
	}
	m, payload := mk()
	for i := 0; i < n; i++ {
		m.put(i, int64(i))
	}
	t.Note("%s of %d keys", m.name, n)
	// the smallest storage that can hold the content has payload bytes
	small := int64(4096)
	last := m
	gens := []cow[int, int64]{m}
	for i := 0; i < 40; i++ {
		t.Op("copy", int64(i))
		var c cow[int, int64]
		from := last
		if t.Bool() {
			from = gens[t.Intn(len(gens))]
		}
		got := allocated(func() { c = from.copy() })
		t.Check(1)
		t.Max("bytes_allocated_by_copy", got)
		if got > small {
			t.Fail("%s: Copy of %d entries allocated %d bytes", m.name, n, got)
		}
		gens = append(gens, c)
		last = c
	}
	got := allocated(func() {
		for _, c := range gens {
			if c.size() != n {
				t.Fail("%s: a copy has %d entries of %d", m.name, c.size(), n)
			}
			for i := 0; i < 200; i++ {
				k := t.Intn(n + 50)
				if _, ok := c.get(k); ok != (k < n) {
					t.Fail("%s: a copy reports present=%v for key %d of %d", m.name, ok, k, n)
				}
			}
		}
		cnt := 0
		last.each(func(int, int64) { cnt++ })
		if cnt != n {
			t.Fail("%s: Each of a copy visits %d entries of %d", m.name, cnt, n)
		}
	})
	t.Check(1)
	t.Max("bytes_allocated_by_reads", got)
	if got > payload/4 {
		t.Fail("%s: reading copies allocated %d bytes", m.name, got)
	}
	t.Event("copies", int64(len(gens)))
	// overwriting, inserting and removing a few keys of one copy
	c := gens[t.Intn(len(gens))]
	var one int64
	one = allocated(func() { c.put(1, 5) })
	t.Max("bytes_allocated_by_first_write", one)
	got = allocated(func() {
		for i := 0; i < 150; i++ {
			switch i % 3 {
			case 0:
				c.put(t.Intn(n), 7)
			case 1:
				c.remove(i)
			case 2:
				c.put(n+i, 1)
			}
		}
	})
	t.Check(1)
	t.Max("bytes_allocated_by_150_later_writes", got)
	// two growths and one renewed duplication at most
	if bound := 20 * max(one, payload); got > bound {
		t.Fail("%s: 150 writes after the first one allocated %d bytes, more than 20 tables", m.name, got)
	}
	t.Assert(m.size() == n, "%s: writes to a copy changed the original's size to %d", m.name, m.size())
}

// copyRace gives each copy to a goroutine of its own.
func copyRace(t *mon.T) {
	n := 1 + t.Intn(60)
	hn := hashings[t.Intn(len(hashings))]
	ks := intKeys(n+10, 0, 1)
	h := hashing(ks, hn)
	cp := capacities[t.Intn(len(capacities))]
	set := t.Index%3 == 2
	var root cow[int, int64]
	m := hashmap.New[int, int64](cp, ks.eq, h)
	hs := hashset.New[int](cp, ks.eq, h)
	var wrapSet func(s *hashset.Set[int], val func(int) int64) cow[int, int64]
	wrapSet = func(s *hashset.Set[int], val func(int) int64) cow[int, int64] {
		return cow[int, int64]{mapSUT[int, int64]{put: func(k int, _ int64) { s.Put(k) }, remove: s.Remove, size: s.Size, clear: s.Clear,
			get:  func(k int) (int64, bool) { return 0, s.Has(k) },
			each: func(fn func(int, int64)) { s.Each(func(k int) { fn(k, 0) }) }},
			func() cow[int, int64] { return wrapSet(s.Copy(), val) }}
	}
	if set {
		root = wrapSet(hs, nil)
	} else {
		root = cowMap(m)
	}
	base := map[int]int64{}
	for i := 0; i < n; i++ {
		v := int64(i + 1)
		if set {
			v = 0
		}
		root.put(i, v)
		base[i] = v
	}
	k := 2 + t.Intn(5)
	copies := []cow[int, int64]{root}
	for i := 1; i < k; i++ {
		copies = append(copies, copies[t.Intn(len(copies))].copy())
	}
	ops := 40 + t.Intn(300)
	t.Note("set=%v, %d keys, hash: %s, capacity %d, %d copies, %d operations each", set, n, hn, cp, k, ops)
	t.Parallel(k, func(g *mon.G) {
		c := copies[g.ID]
		model := map[int]int64{}
		for a, b := range base {
			model[a] = b
		}
		check := func() {
			g.Assert(c.size() == len(model), "a copy used by one goroutine has Size() = %d, expected %d", c.size(), len(model))
			cnt := 0
			c.each(func(a int, b int64) {
				cnt++
				if w, ok := model[a]; !ok || w != b {
					g.Fail("a copy used by one goroutine holds %d=%d, expected %d (%v)", a, b, w, ok)
				}
			})
			g.Assert(cnt == len(model), "Each of a copy used by one goroutine visits %d of %d", cnt, len(model))
		}
		for i := 0; i < ops; i++ {
			key := g.Intn(n + 10)
			switch g.Intn(14) {
			case 0, 1, 2, 3:
				v := int64(g.ID)<<32 | int64(i)
				if set {
					v = 0
				}
				c.put(key, v)
				model[key] = v
			case 4, 5, 6:
				c.remove(key)
				delete(model, key)
			case 7, 8, 9, 10:
				v, ok := c.get(key)
				w, wok := model[key]
				g.Assert(ok == wok && v == w, "Get(%d) of a copy used by one goroutine = %d, %v, expected %d, %v", key, v, ok, w, wok)
			case 11:
				check()
			case 12:
				if g.Intn(4) == 0 {
					c.clear()
					model = map[int]int64{}
				}
			case 13:
				d := c.copy()
				if g.Bool() {
					c = d
				} else {
					d.put(key, -1)
				}
			}
			g.Step()
		}
		check()
	})
}

func init() {
	rule := "A case is a generated history of operations (or a set of all short histories) on maps or sets with a chosen key type, hash function and capacity, mirrored on a model indexed by key class and compared; distinct by trace hash, non-trivial if it contains at least one operation."
	mon.Register("C06", rule,
		&mon.Scenario{Name: "small", Quick: 12000, Thorough: 300000, Run: func(t *mon.T) { hashCase(t, true) }},
		&mon.Scenario{Name: "medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { hashCase(t, false) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 32, Thorough: 96, Run: func(t *mon.T) { hashHistories(t, false, t.Pick(5, 6)) }},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) { hashLarge(t, false, t.Pick(90000, 300000)) }},
	)
	mon.Register("C08", rule,
		&mon.Scenario{Name: "small", Quick: 12000, Thorough: 300000, Run: func(t *mon.T) { setCase(t, true) }},
		&mon.Scenario{Name: "medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { setCase(t, false) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 16, Thorough: 64, Run: func(t *mon.T) { hashHistories(t, true, t.Pick(5, 6)) }},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) { hashLarge(t, true, t.Pick(90000, 300000)) }},
	)
	mon.Register("C07", "A case is a generated history of writes, clears and copies on a family of copies of one map or set, every member compared with its own model after every operation; or copies handed to one goroutine each under the race detector; or an allocation measurement. Distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "family-small", Quick: 10000, Thorough: 200000, Run: func(t *mon.T) { familyCase(t, true) }},
		&mon.Scenario{Name: "family-medium", Quick: 160, Thorough: 3000, Run: func(t *mon.T) { familyCase(t, false) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 24, Thorough: 72, Run: func(t *mon.T) { familyHistories(t, t.Pick(4, 5)) }},
		&mon.Scenario{Name: "copy-cost", Quick: 12, Thorough: 60, Serial: true, Run: copyCost},
		&mon.Scenario{Name: "copy-per-goroutine", Quick: 1500, Thorough: 30000, Race: true, Run: copyRace},
	)
}
