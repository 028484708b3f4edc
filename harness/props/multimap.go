package props

import (
	"github.com/zyedidia/generic/multimap"

	"verif/harness/mon"
)

// mmMon mirrors a multimap on a table of counts.
type mmMon[K, V any] struct {
	t      *mon.T
	ks     keyspace[K]
	vs     keyspace[V]
	m      multimap.MultiMap[K, V]
	name   string
	dup    bool // duplicates are kept
	sk, sv bool // keys, values are sorted
	cnt    [][]int
	sum    []int
	dim    int
	size   int
	id     int64
	kept   *keeper[V]
}

func (m *mmMon[K, V]) key(c int) K { return m.ks.mk(c, m.t.Uint64()) }
func (m *mmMon[K, V]) val(c int) V { return m.vs.mk(c, m.t.Uint64()) }

func (m *mmMon[K, V]) add(k, v, d int) {
	m.cnt[k][v] += d
	before := m.sum[k]
	m.sum[k] += d
	m.size += d
	if before == 0 && m.sum[k] > 0 {
		m.dim++
	}
	if before > 0 && m.sum[k] == 0 {
		m.dim--
		m.t.Event("keys_emptied", 1)
	}
}

func (m *mmMon[K, V]) put(k, v int) {
	m.t.Op("put", m.id, int64(k), int64(v))
	m.m.Put(m.key(k), m.val(v))
	if m.dup || m.cnt[k][v] == 0 {
		m.add(k, v, 1)
		m.t.Event("insertions", 1)
	} else {
		m.t.Event("rejected_duplicates", 1)
	}
	m.t.Max("size", int64(m.size))
}

func (m *mmMon[K, V]) remove(k, v int) {
	m.t.Op("remove", m.id, int64(k), int64(v))
	m.m.Remove(m.key(k), m.val(v))
	if m.cnt[k][v] > 0 {
		m.add(k, v, -1)
		m.t.Event("removals", 1)
	} else {
		m.t.Event("removals_of_absent", 1)
	}
}

func (m *mmMon[K, V]) removeAll(k int) {
	m.t.Op("remove-all", m.id, int64(k))
	m.m.RemoveAll(m.key(k))
	for v, n := range m.cnt[k] {
		if n > 0 {
			m.add(k, v, -n)
		}
	}
}

func (m *mmMon[K, V]) clear() {
	m.t.Op("clear", m.id)
	m.m.Clear()
	for k := range m.cnt {
		for v := range m.cnt[k] {
			m.cnt[k][v] = 0
		}
		m.sum[k] = 0
	}
	m.size, m.dim = 0, 0
	m.t.Event("clears", 1)
}

// values compares a list of values of one key.
func (m *mmMon[K, V]) values(what string, k int, vals []V) {
	t := m.t
	t.Check(len(vals) + 1)
	if len(vals) != m.sum[k] {
		t.Fail("multimap %s: %s lists %d values of key class %d, expected %d", m.name, what, len(vals), k, m.sum[k])
	}
	seen := make([]int, m.vs.n)
	prev := -1
	for _, v := range vals {
		c := m.vs.class(v)
		if c < 0 || m.cnt[k][c] == 0 {
			t.Fail("multimap %s: %s lists the value %v of key class %d, which is not there", m.name, what, v, k)
		}
		seen[c]++
		if seen[c] > m.cnt[k][c] {
			t.Fail("multimap %s: %s lists value class %d of key class %d more than %d times", m.name, what, c, k, m.cnt[k][c])
		}
		if m.sv {
			if c <= prev {
				t.Fail("multimap %s: %s lists the values of key class %d out of order", m.name, what, k)
			}
			prev = c
		}
	}
	if m.sv { // the slice variants may well return their storage
		m.kept.keep("multimap "+m.name+": "+what, vals)
	}
}

func (m *mmMon[K, V]) look(k int) {
	t := m.t
	t.Check(2)
	d := t.Intn(3)
	for i := 0; i < 3; i++ {
		switch (i + d) % 3 {
		case 0:
			if n := m.m.Count(m.key(k)); n != m.sum[k] {
				t.Fail("multimap %s: Count(class %d) = %d, expected %d", m.name, k, n, m.sum[k])
			}
		case 1:
			if b := m.m.Has(m.key(k)); b != (m.sum[k] > 0) {
				t.Fail("multimap %s: Has(class %d) = %v with %d entries", m.name, k, b, m.sum[k])
			}
		case 2:
			m.values("Get", k, m.m.Get(m.key(k)))
		}
	}
}

func (m *mmMon[K, V]) sizes() {
	m.t.Check(2)
	m.t.Shuffle(func() {
		if n := m.m.Size(); n != m.size {
			m.t.Fail("multimap %s: Size() = %d, expected %d", m.name, n, m.size)
		}
	}, func() {
		if n := m.m.Dimension(); n != m.dim {
			m.t.Fail("multimap %s: Dimension() = %d, expected %d", m.name, n, m.dim)
		}
	})
}

func (m *mmMon[K, V]) full() {
	t := m.t
	inner := func() int {
		i := t.Inner(m.dim)
		if m.size > 2000 && t.Intn(4) > 0 {
			i = -1
		}
		return i
	}
	t.Shuffle(m.sizes, func() {
		d := t.Intn(len(m.cnt))
		for k := range m.cnt {
			m.look((k + d) % len(m.cnt))
		}
	}, func() { m.each(inner()) }, func() { m.eachAssociation(inner()) })
	m.sizes()
	m.kept.all()
	t.Tick()
}

// within makes queries from within a traversal.
func (m *mmMon[K, V]) within() {
	t := m.t
	t.Event("queries_within_a_traversal", 1)
	m.sizes()
	if t.Bool() {
		m.each(-1)
	}
	if t.Bool() {
		m.eachAssociation(-1)
	}
	m.look(t.Intn(len(m.cnt)))
}

func (m *mmMon[K, V]) each(inner int) {
	t := m.t
	seen := map[[2]int]int{}
	n, pk, pv := 0, -1, -1
	h := uint64(5)
	m.m.Each(func(key K, val V) {
		if n == inner {
			m.within()
		}
		n++
		k, v := m.ks.class(key), m.vs.class(val)
		if k < 0 || v < 0 || m.cnt[k][v] == 0 {
			t.Fail("multimap %s: Each visits (%v, %v), which is not there", m.name, key, val)
		}
		seen[[2]int{k, v}]++
		if seen[[2]int{k, v}] > m.cnt[k][v] {
			t.Fail("multimap %s: Each visits (class %d, class %d) more than %d times", m.name, k, v, m.cnt[k][v])
		}
		if k != pk {
			if m.sk && k < pk {
				t.Fail("multimap %s: Each visits key class %d after %d", m.name, k, pk)
			}
			pk, pv = k, -1
		}
		if m.sv && v <= pv {
			t.Fail("multimap %s: Each visits value class %d after %d of key class %d", m.name, v, pv, k)
		}
		pv = v
		h += mon.Mix(uint64(k), uint64(v))
	})
	t.Check(n + 1)
	if n != m.size {
		t.Fail("multimap %s: Each visits %d entries of %d", m.name, n, m.size)
	}
	t.State(h)
}

func (m *mmMon[K, V]) eachAssociation(inner int) {
	t := m.t
	n, pk := 0, -1
	seenK := make([]bool, m.ks.n)
	m.m.EachAssociation(func(key K, vals []V) {
		if n == inner {
			m.within()
		}
		n++
		k := m.ks.class(key)
		if k < 0 || m.sum[k] == 0 {
			t.Fail("multimap %s: EachAssociation visits the key %v, which has no entries", m.name, key)
		}
		if seenK[k] {
			t.Fail("multimap %s: EachAssociation visits key class %d twice", m.name, k)
		}
		seenK[k] = true
		if m.sk && k < pk {
			t.Fail("multimap %s: EachAssociation visits key class %d after %d", m.name, k, pk)
		}
		pk = k
		m.values("EachAssociation", k, vals)
	})
	t.Check(1)
	if n != m.dim {
		t.Fail("multimap %s: EachAssociation visits %d keys of %d", m.name, n, m.dim)
	}
}

func mmNew[K, V any](t *mon.T, ks keyspace[K], vs keyspace[V], mm multimap.MultiMap[K, V], name string, dup, sk, sv bool, id int64) *mmMon[K, V] {
	m := &mmMon[K, V]{t: t, ks: ks, vs: vs, m: mm, name: name, dup: dup, sk: sk, sv: sv, id: id, kept: newKeeper(t, func(a, b V) bool { return vs.class(a) == vs.class(b) })}
	m.cnt = make([][]int, ks.n)
	for i := range m.cnt {
		m.cnt[i] = make([]int, vs.n)
	}
	m.sum = make([]int, ks.n)
	return m
}

func mmDrive[K, V any](t *mon.T, ms []*mmMon[K, V], ops, every int) {
	nk, nv := ms[0].ks.n, ms[0].vs.n
	t.Note("%s: %s keys (%d), %s values (%d), %d multimaps, %d operations", ms[0].name, ms[0].ks.name, nk, ms[0].vs.name, nv, len(ms), ops)
	nextK := sequence(t, patterns[t.Intn(len(patterns))], nk)
	nextV := sequence(t, patterns[t.Intn(len(patterns))], nv)
	w := []int{50, 40, 4, 1}
	ms[0].full()
	for i := 0; i < ops; i++ {
		if i%50 == 0 {
			nextK = sequence(t, patterns[t.Intn(len(patterns))], nk)
			nextV = sequence(t, patterns[t.Intn(len(patterns))], nv)
			w = [][]int{{50, 40, 4, 1}, {90, 9, 1, 0}, {9, 90, 1, 0}, {40, 20, 20, 1}}[t.Intn(4)]
		}
		m := ms[t.Intn(len(ms))]
		k, v := nextK(), nextV()
		switch t.Weighted(w) {
		case 0:
			m.put(k, v)
		case 1:
			m.remove(k, v)
		case 2:
			m.removeAll(k)
		case 3:
			m.clear()
		}
		if t.Gap() {
			continue
		}
		if i%every == 0 {
			for _, m := range ms {
				m.full()
			}
		} else {
			t.Shuffle(m.sizes, func() { m.look(k) })
		}
	}
	for _, m := range ms {
		m.full()
	}
}

func mmKV[K comparable, V comparable](t *mon.T, ks keyspace[K], vs keyspace[V], nativeK, nativeV bool, variant, ops, every int) {
	n := 1 + t.Intn(2)
	var ms []*mmMon[K, V]
	if !nativeK { // the map variants compare keys with ==
		variant |= 2
	}
	if !nativeV { // the slice variants compare values with ==
		variant |= 1
	}
	for i := 0; i < n; i++ {
		switch variant {
		case 0:
			ms = append(ms, mmNew(t, ks, vs, multimap.NewMapSlice[K, V](), "MapSlice", true, false, false, int64(i)))
		case 1:
			ms = append(ms, mmNew(t, ks, vs, multimap.NewMapSet[K, V](vs.less), "MapSet", false, false, true, int64(i)))
		case 2:
			ms = append(ms, mmNew(t, ks, vs, multimap.NewAvlSlice[K, V](ks.less), "AvlSlice", true, true, false, int64(i)))
		case 3:
			ms = append(ms, mmNew(t, ks, vs, multimap.NewAvlSet[K, V](ks.less, vs.less), "AvlSet", false, true, true, int64(i)))
		}
	}
	mmDrive(t, ms, ops, every)
}

func mmCase(t *mon.T, small bool) {
	nk, nv, ops, every := 1+t.Intn(6), 1+t.Intn(6), 40+t.Intn(120), 1
	if !small {
		nk, nv, ops, every = 1+t.Intn(60), 1+t.Intn(200), 2500, 250
		if t.Bool() {
			nk, nv = nv, nk
		}
	}
	switch t.Index % 10 {
	case 0:
		mmKV(t, intKeys(nk, -nk/2, 1), intKeys(nv, -1, 1), true, true, t.Index/10%4, ops, every)
	case 1:
		mmKV(t, strKeys(nk), intKeys(nv, 0, 1), true, true, t.Index/10%4, ops, every)
	case 2:
		mmKV(t, foldKeys(nk), strKeys(nv), false, true, t.Index/10%4, ops, every)
	case 3:
		mmKV(t, intKeys(nk, 0, 1), foldKeys(nv), true, false, t.Index/10%4, ops, every)
	case 4:
		mmKV(t, tagKeys(nk), tagKeys(nv), false, false, t.Index/10%4, ops, every)
	case 5:
		mmKV(t, revKeys(nk), revKeys(nv), true, true, t.Index/10%4, ops, every)
	case 6:
		mmKV(t, floatKeys(nk), floatKeys(nv), true, true, t.Index/10%4, ops, every)
	case 7:
		mmKV(t, anyKeys(nk), anyKeys(nv), true, true, t.Index/10%4, ops, every)
	case 8:
		mmKV(t, pairKeys(nk), pairKeys(nv), true, true, t.Index/10%4, ops, every)
	default:
		// neither keys nor values are comparable with ==
		ks, vs := bytesKeys(nk), bytesKeys(nv)
		mmDrive(t, []*mmMon[[]byte, []byte]{mmNew(t, ks, vs, multimap.NewAvlSet[[]byte, []byte](ks.less, vs.less), "AvlSet", false, true, true, 0)}, ops, every)
	}
}

// mmHistories runs every history of the given length over two keys and two
// values on all four variants.
func mmHistories(t *mon.T, length int) {
	const kinds = 4 + 4 + 2 + 1
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	ks, vs := intKeys(2, 0, 1), intKeys(2, 0, 1)
	for h := t.Index; h < total; h += t.Count {
		for _, m := range []*mmMon[int, int]{
			mmNew(t, ks, vs, multimap.NewMapSlice[int, int](), "MapSlice", true, false, false, 0),
			mmNew(t, ks, vs, multimap.NewMapSet[int, int](vs.less), "MapSet", false, false, true, 1),
			mmNew(t, ks, vs, multimap.NewAvlSlice[int, int](ks.less), "AvlSlice", true, true, false, 2),
			mmNew(t, ks, vs, multimap.NewAvlSet[int, int](ks.less, vs.less), "AvlSet", false, true, true, 3),
		} {
			x := h
			for i := 0; i < length; i++ {
				op := x % kinds
				x /= kinds
				switch {
				case op < 4:
					m.put(op&1, op>>1)
				case op < 8:
					m.remove(op&1, op>>1&1)
				case op < 10:
					m.removeAll(op - 8)
				default:
					m.clear()
				}
			}
			m.full()
		}
		t.Event("exhaustive_histories", 1)
	}
}

func init() {
	mon.Register("C17", "A case is a generated history of Put, Remove, RemoveAll and Clear on one or two multimaps of one of the four variants (or a slice of all short histories on all four), mirrored on a table of counts and compared through every query; distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "small", Quick: 6400, Thorough: 160000, Run: func(t *mon.T) { mmCase(t, true) }},
		&mon.Scenario{Name: "medium", Quick: 160, Thorough: 3200, Run: func(t *mon.T) { mmCase(t, false) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 8, Thorough: 16, Run: func(t *mon.T) { mmHistories(t, t.Pick(4, 6)) }},
		&mon.Scenario{Name: "large", Quick: 16, Thorough: 160, Run: func(t *mon.T) {
			mmKV(t, intKeys(300+t.Intn(2000), 0, 1), intKeys(300, 0, 1), true, true, t.Index%4, 30000, 5000)
		}},
	)
}
