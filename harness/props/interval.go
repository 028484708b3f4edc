package props

import (
	"cmp"
	"math"
	"slices"
	"sort"

	"github.com/zyedidia/generic/interval"

	"verif/harness/mon"
)

type iv struct {
	has bool
	hi  int // index of the high bound
	val int64
}

// ivMon mirrors an interval tree on an array indexed by the start. bounds are
// the possible bounds in ascending order.
type ivMon[I cmp.Ordered] struct {
	t      *mon.T
	b      []I
	idx    map[I]int
	tr     *interval.Tree[I, int64]
	at     []iv
	n      int
	next   int64
	store  bool // decide C04
	over   bool // decide C05
	mutate bool // scribble over returned slices
	kept   *keeper[interval.KV[I, int64]]
}

func newIvMon[I cmp.Ordered](t *mon.T, b []I, store, over bool) *ivMon[I] {
	m := &ivMon[I]{t: t, b: b, tr: interval.New[I, int64](), at: make([]iv, len(b)), store: store, over: over, mutate: t.Bool(), idx: map[I]int{}, kept: newKeeper(t, equal[interval.KV[I, int64]])}
	for i, x := range b {
		m.idx[x] = i
	}
	return m
}

func (m *ivMon[I]) same(what string, got interval.KV[I, int64], ok bool, lo int) {
	if !m.store {
		return
	}
	w := m.at[lo]
	m.t.Check(1)
	if ok != w.has {
		m.t.Fail("interval: %s at %v reports %v, expected %v", what, m.b[lo], ok, w.has)
	}
	var exp interval.KV[I, int64]
	if w.has {
		exp = interval.KV[I, int64]{Low: m.b[lo], High: m.b[w.hi], Val: w.val}
	}
	if got != exp {
		m.t.Fail("interval: %s at %v returns %v, expected %v", what, m.b[lo], got, exp)
	}
}

func (m *ivMon[I]) add(lo, hi int) {
	m.next++
	m.t.Op("add", int64(lo), int64(hi), m.next)
	kv, ok := m.tr.Add(m.b[lo], m.b[hi], m.next)
	m.same("Add", kv, ok, lo)
	if !m.at[lo].has {
		m.at[lo] = iv{true, hi, m.next}
		m.n++
		m.t.Event("additions", 1)
	} else {
		m.t.Event("add_conflicts", 1)
	}
	m.t.Max("size", int64(m.n))
}

func (m *ivMon[I]) put(lo, hi int) {
	m.next++
	m.t.Op("put", int64(lo), int64(hi), m.next)
	kv, ok := m.tr.Put(m.b[lo], m.b[hi], m.next)
	m.same("Put", kv, ok, lo)
	if !m.at[lo].has {
		m.n++
	} else {
		m.t.Event("put_replacements", 1)
	}
	m.at[lo] = iv{true, hi, m.next}
	m.t.Max("size", int64(m.n))
}

func (m *ivMon[I]) remove(lo int) {
	m.t.Op("remove", int64(lo))
	kv, ok := m.tr.Remove(m.b[lo])
	m.same("Remove", kv, ok, lo)
	if m.at[lo].has {
		m.n--
		m.t.Event("removals", 1)
	}
	m.at[lo] = iv{}
}

// inverted issues calls that must be rejected.
func (m *ivMon[I]) inverted() {
	if len(m.b) < 2 {
		return
	}
	lo := 1 + m.t.Intn(len(m.b)-1)
	hi := m.t.Intn(lo)
	if m.store {
		m.t.Op("inverted", int64(lo), int64(hi))
		p, _ := mon.Panics(func() { m.tr.Add(m.b[lo], m.b[hi], -1) })
		m.t.Assert(p, "interval: Add(%v, %v) is not rejected", m.b[lo], m.b[hi])
		p, _ = mon.Panics(func() { m.tr.Put(m.b[lo], m.b[hi], -1) })
		m.t.Assert(p, "interval: Put(%v, %v) is not rejected", m.b[lo], m.b[hi])
		m.t.Event("rejected_calls", 2)
	}
	if m.over {
		m.t.Op("inverted-query", int64(lo), int64(hi))
		p, _ := mon.Panics(func() { m.tr.Overlaps(m.b[lo], m.b[hi]) })
		m.t.Assert(p, "interval: Overlaps(%v, %v) is not rejected", m.b[lo], m.b[hi])
		m.t.Event("rejected_calls", 1)
	}
}

func (m *ivMon[I]) each(what string) {
	inner := m.t.Inner(m.n)
	if m.n > 2000 && m.t.Intn(8) > 0 {
		inner = -1
	}
	m.walk(what, inner)
}

func (m *ivMon[I]) walk(what string, inner int) {
	prev, n := -1, 0
	h := uint64(3)
	m.tr.Each(func(lo, hi I, v int64) {
		n++
		if n-1 == inner {
			m.t.Event("queries_within_a_traversal", 1)
			a, b := m.t.Intn(len(m.b)), m.t.Intn(len(m.b))
			if m.over {
				m.query(min(a, b), max(a, b))
			}
			if m.t.Bool() {
				m.walk(what+", within a traversal", -1)
			}
			if m.store {
				m.get(a)
				m.size()
			}
		}
		i, ok := m.idx[lo]
		if !ok || !m.at[i].has {
			m.t.Fail("interval: %s: Each visits an interval that starts at %v, which is not stored", what, lo)
		}
		if i <= prev {
			m.t.Fail("interval: %s: Each visits start %v after start %v", what, lo, m.b[prev])
		}
		prev = i
		w := m.at[i]
		if hi != m.b[w.hi] || v != w.val {
			m.t.Fail("interval: %s: Each visits [%v, %v) = %v, expected [%v, %v) = %v", what, lo, hi, v, lo, m.b[w.hi], w.val)
		}
		h = mon.Mix(h, uint64(i)<<32|uint64(w.hi))
	})
	m.t.Check(n + 1)
	if n != m.n {
		m.t.Fail("interval: %s: Each visits %d intervals of %d", what, n, m.n)
	}
	m.t.State(h)
}

func (m *ivMon[I]) get(lo int) {
	kv, ok := m.tr.Get(m.b[lo])
	m.same("Get", kv, ok, lo)
}

func (m *ivMon[I]) size() {
	m.t.Check(1)
	if n := m.tr.Size(); n != m.n {
		m.t.Fail("interval: Size() = %d with %d intervals stored", n, m.n)
	}
}

func (m *ivMon[I]) query(qlo, qhi int) {
	got := m.tr.Overlaps(m.b[qlo], m.b[qhi])
	j := 0
	for lo := 0; lo < qhi; lo++ { // starts before high
		w := m.at[lo]
		if !w.has || w.hi <= qlo { // ends after low
			continue
		}
		exp := interval.KV[I, int64]{Low: m.b[lo], High: m.b[w.hi], Val: w.val}
		if j >= len(got) {
			m.t.Fail("interval: Overlaps(%v, %v) misses %v", m.b[qlo], m.b[qhi], exp)
		}
		if got[j] != exp {
			m.t.Fail("interval: Overlaps(%v, %v)[%d] = %v, expected %v", m.b[qlo], m.b[qhi], j, got[j], exp)
		}
		j++
	}
	m.t.Check(1)
	if j != len(got) {
		m.t.Fail("interval: Overlaps(%v, %v) also returns %v", m.b[qlo], m.b[qhi], got[j])
	}
	if len(got) > 0 {
		m.t.Event("nonempty_query_results", 1)
		m.t.Max("query_result", int64(len(got)))
	}
	if m.mutate {
		got = got[:cap(got)]
		for i := range got {
			got[i] = interval.KV[I, int64]{Val: -7}
		}
	} else {
		m.kept.keep("interval: Overlaps", got)
	}
}

func (m *ivMon[I]) full() {
	if m.store {
		m.t.Shuffle(m.size, func() {
			d := m.t.Intn(len(m.b))
			for i := range m.b {
				m.get((i + d) % len(m.b))
			}
		}, func() { m.each("after the operations") })
		m.size()
	}
	if m.over {
		if len(m.b) <= 12 {
			d := m.t.Intn(len(m.b))
			for k := range m.b {
				i := (k + d) % len(m.b)
				for j := i; j < len(m.b); j++ {
					m.query(i, j)
				}
			}
		} else {
			n := len(m.b)
			if m.t.Intn(3) == 0 {
				m.query(0, n-1)
			}
			for k := 0; k < 24; k++ {
				i, j := m.t.Intn(n), m.t.Intn(n)
				if k%3 == 0 {
					j = i + m.t.Intn(min(8, n-i))
				}
				if i > j {
					i, j = j, i
				}
				m.query(i, j)
			}
			m.query(0, n-1)
			m.query(0, 0)
			m.query(n-1, n-1)
		}
		m.each("after the queries") // they must not change the tree
		m.kept.all()
	}
	m.t.Tick()
}

// nearby is the cheap comparison after each operation.
func (m *ivMon[I]) nearby(lo int) {
	if m.t.Gap() {
		return
	}
	n := len(m.b)
	if m.store && n <= 64 && m.t.Intn(8) == 0 {
		m.each("after the operations")
	}
	if m.store {
		for d := -1; d <= 1; d++ {
			if e := lo + d; e >= 0 && e < n {
				m.get(e)
			}
		}
	}
	if m.over {
		a := max(0, lo-m.t.Intn(4))
		b := min(n-1, lo+m.t.Intn(4))
		m.query(a, b)
		if h := m.at[lo].hi; m.at[lo].has && h > 0 {
			m.query(h-1, min(h+m.t.Intn(3), n-1))
			m.query(h, min(h+1, n-1))
		}
	}
}

func (m *ivMon[I]) high(lo int) int {
	n := len(m.b)
	switch m.t.Intn(6) {
	case 0:
		return lo // empty interval
	case 1:
		return n - 1
	case 2:
		return min(lo+1, n-1)
	case 3:
		return min(lo+m.t.Intn(4), n-1)
	}
	return lo + m.t.Intn(n-lo)
}

func ivDrive[I cmp.Ordered](t *mon.T, b []I, store, over bool, ops, every int) {
	ms := []*ivMon[I]{newIvMon(t, b, store, over)}
	if t.Intn(4) == 0 {
		ms = append(ms, newIvMon(t, b, store, over))
	}
	t.Note("%T bounds, %d of them, %d trees, %d operations", b[0], len(b), len(ms), ops)
	ms[0].full()
	for done := 0; done < ops; {
		p := randomPhase(t, 1+t.Intn(1+ops/3))
		next := sequence(t, p.pattern, len(b))
		for i := 0; i < p.length && done < ops; i++ {
			done++
			m := ms[t.Intn(len(ms))]
			lo := next()
			switch t.Weighted([]int{p.put, p.remove, p.get}) {
			case 0:
				if t.Bool() {
					m.add(lo, m.high(lo))
				} else {
					m.put(lo, m.high(lo))
				}
			case 1:
				m.remove(lo)
			case 2:
				m.t.Op("query", int64(lo))
			}
			if t.Intn(30) == 0 {
				m.inverted()
			}
			if done%every == 0 {
				m.full()
			} else {
				m.nearby(lo)
			}
		}
		for _, m := range ms {
			m.full()
		}
	}
}

type pos int32

func someInts[I ~int | ~int32 | ~int64 | ~uint8](n int, base I, stride I) []I {
	var out []I
	for i := 0; i < n; i++ {
		out = append(out, base+I(i)*stride)
	}
	return out
}

// extremes are up to n values of an integer type, its least and its greatest
// and others close to those, zero and the middles among them.
func extremes[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](t *mon.T, n int, lo, hi I) []I {
	mid := lo/2 + hi/2
	set := map[I]bool{lo: true, hi: true}
	for tries := 0; len(set) < n && tries < 8*n; tries++ {
		d := I(t.Intn(1 + tries/4))
		switch t.Intn(6) {
		case 0:
			set[lo+d] = true
		case 1:
			set[hi-d] = true
		case 2:
			set[mid+d] = true
		case 3:
			set[0+d] = true
		case 4:
			set[mid-d] = true
		case 5:
			set[lo/2+d] = true
		}
	}
	var out []I
	for x := range set {
		out = append(out, x)
	}
	slices.Sort(out)
	return out
}

func ivExtremes(t *mon.T, n int, store, over bool, ops, every int) {
	switch t.Intn(8) {
	case 0, 1:
		ivDrive(t, extremes[int](t, n, math.MinInt, math.MaxInt), store, over, ops, every)
	case 2:
		ivDrive(t, extremes[int8](t, min(n, 200), math.MinInt8, math.MaxInt8), store, over, ops, every)
	case 3:
		ivDrive(t, extremes[int16](t, n, math.MinInt16, math.MaxInt16), store, over, ops, every)
	case 4:
		ivDrive(t, extremes[pos](t, n, math.MinInt32, math.MaxInt32), store, over, ops, every)
	case 5:
		ivDrive(t, extremes[int64](t, n, math.MinInt64, math.MaxInt64), store, over, ops, every)
	case 6:
		ivDrive(t, extremes[uint](t, n, 0, math.MaxUint), store, over, ops, every)
	case 7:
		ivDrive(t, extremes[uint32](t, n, 0, math.MaxUint32), store, over, ops, every)
	}
}

func ivCase(t *mon.T, store, over, small bool) {
	n, ops, every := 2+t.Intn(9), 20+t.Intn(100), 1
	if over {
		n = 2 + t.Intn(6)
	}
	if !small {
		n, ops, every = 30+t.Intn(600), 400+t.Intn(2500), 100
	}
	switch t.Index % 9 {
	case 0:
		ivDrive(t, someInts[int](n, -n/2, 1), store, over, ops, every)
	case 1:
		ivDrive(t, someInts[uint8](min(n, 256), uint8(256-min(n, 256)), 1), store, over, ops, every)
	case 2:
		b := []float64{math.Inf(-1), -math.MaxFloat64, -1.5, 0, math.SmallestNonzeroFloat64, 1, math.MaxFloat64, math.Inf(1)}
		for len(b) < n {
			b = append(b, 2+float64(len(b))/4)
		}
		sort.Float64s(b)
		if len(b) > n && n < 8 {
			off := t.Intn(len(b) - n + 1)
			b = b[off : off+n]
		}
		ivDrive(t, b, store, over, ops, every)
	case 3:
		ivDrive(t, someStrings(n, "\x00a\xff"), store, over, ops, every)
	case 4:
		ivDrive(t, someInts[pos](n, -5, 3), store, over, ops, every)
	case 5:
		b := []int64{math.MinInt64}
		for len(b) < n-1 {
			b = append(b, int64(len(b))*1000-500)
		}
		b = append(b, math.MaxInt64)
		ivDrive(t, b, store, over, ops, every)
	case 6:
		ivExtremes(t, n, store, over, ops, every)
	default:
		ivDrive(t, someInts[int](n, -n-5, 1), store, over, ops, every) // negative bounds only
	}
}

// ivExhaustive runs every history of a given length over put/remove of all
// intervals of a small universe.
func ivExhaustive(t *mon.T, store, over bool, n, length int) {
	type op struct{ lo, hi int }
	var ops []op
	for lo := 0; lo < n; lo++ {
		for hi := lo; hi < n; hi++ {
			ops = append(ops, op{lo, hi})
		}
		ops = append(ops, op{lo, -1})
	}
	total := 1
	for i := 0; i < length; i++ {
		total *= len(ops)
	}
	b := someInts[int](n, -1, 1)
	for h := t.Index; h < total; h += t.Count {
		m := newIvMon(t, b, store, over)
		x := h
		for i := 0; i < length; i++ {
			o := ops[x%len(ops)]
			x /= len(ops)
			switch {
			case o.hi < 0:
				m.remove(o.lo)
			case i%2 == 0:
				m.put(o.lo, o.hi)
			default:
				m.add(o.lo, o.hi)
			}
		}
		m.full()
		t.Event("exhaustive_histories", 1)
	}
}

// ivShape inserts n starts in every order, removes each one in turn, and
// compares after each step: all rotations with all bounds.
func ivShape(t *mon.T, store, over bool, n int) {
	total := permCount(n)
	b := someInts[int](n+3, 0, 1)
	for k := t.Index; k < total; k += t.Count {
		m := newIvMon(t, b, store, over)
		for _, lo := range nthPerm(n, k) {
			m.put(lo, m.high(lo))
			if over {
				m.full()
			}
		}
		m.full()
		for _, lo := range t.Perm(n) {
			m.remove(lo)
			m.full()
		}
		t.Event("exhaustive_insertion_orders", 1)
	}
}

func ivLarge(t *mon.T, store, over bool, n int) {
	b := someInts[int](n, -n/2, 1)
	m := newIvMon(t, b, store, over)
	name, ord := orderings(t, n)
	t.Note("%d starts in %s order", n, name)
	long := t.Intn(3)
	high := func(lo int) int {
		switch long {
		case 0:
			return min(n-1, lo+t.Intn(50))
		case 1:
			if t.Intn(100) == 0 {
				return n - 1
			}
			return min(n-1, lo+1)
		}
		return m.high(lo)
	}
	for i := 0; i < n; i++ {
		lo := ord(i)
		m.put(lo, high(lo))
		if i%8 == 0 && store && !t.Gap() {
			m.get(lo)
		}
		if over && i%64 == 0 {
			q := t.Intn(n)
			m.query(q, min(n-1, q+t.Intn(20)))
		}
		if i%(n/4+1) == n/4 {
			m.full()
		}
	}
	m.full()
	for i, lo := range t.Perm(n) {
		if i%3 == 0 {
			m.put(lo, high(lo))
		} else {
			m.remove(lo)
		}
		if store {
			m.get(lo)
		}
		if over && i%64 == 0 {
			q := t.Intn(n)
			m.query(q, min(n-1, q+t.Intn(20)))
		}
		if i%(n/3+1) == n/3 {
			m.full()
		}
	}
	m.full()
}

func init() {
	rule := "A case is a generated history of Add, Put and Remove (or, in the exhaustive scenarios, a slice of all short histories or insertion orders) on one or two interval trees over a finite universe of bounds, mirrored on an array and compared; distinct by trace hash, non-trivial if it contains at least one operation."
	for _, x := range []struct {
		id          string
		store, over bool
	}{{"C04", true, false}, {"C05", false, true}} {
		mon.Register(x.id, rule,
			&mon.Scenario{Name: "small", Quick: 16000, Thorough: 400000, Run: func(t *mon.T) { ivCase(t, x.store, x.over, true) }},
			&mon.Scenario{Name: "medium", Quick: 200, Thorough: 4000, Run: func(t *mon.T) { ivCase(t, x.store, x.over, false) }},
			&mon.Scenario{Name: "all-short-histories", Quick: 8, Thorough: 8, Run: func(t *mon.T) { ivExhaustive(t, x.store, x.over, 3, t.Pick(4, 6)) }},
			&mon.Scenario{Name: "all-insertion-orders", Quick: 8, Thorough: 16, Run: func(t *mon.T) { ivShape(t, x.store, x.over, t.Pick(6, 8)) }},
			&mon.Scenario{Name: "large", Quick: 8, Thorough: 60, Run: func(t *mon.T) { ivLarge(t, x.store, x.over, t.Pick(8000, 30000)) }},
		)
	}
}
