package props

import (
	"math"

	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// Every size up to a bound, and in it every operation, or every position: what
// only goes wrong at one particular size, length or position, whichever it is.

// eachSize runs through the sizes of this case.
func eachSize(t *mon.T, from, to int, fn func(n int)) {
	t.Note("every size from %d to %d, part %d of %d", from, to, t.Index, t.Count)
	for n := from + t.Index; n <= to; n += t.Count {
		t.Op("size", int64(n))
		fn(n)
		t.Event("sizes", 1)
		t.Max("every_size_up_to", int64(n))
		t.Tick()
	}
}

// sizeOps are single operations on a map of n keys, of which those from n on
// are absent.
var sizeOps = []string{"none", "put-new", "put-present", "remove", "remove-absent", "clear", "remove-half", "put-many"}

func sizeOp[K any, V any](t *mon.T, m *mapMon[K, V], op string, n int) {
	switch op {
	case "put-new":
		m.put(n + t.Intn(m.ks.n-n))
	case "put-present":
		m.put(t.Intn(max(n, 1)))
	case "remove":
		m.remove(t.Intn(max(n, 1)))
	case "remove-absent":
		m.remove(n + t.Intn(m.ks.n-n))
	case "clear":
		if m.sut.clear == nil {
			for _, c := range t.Perm(m.ks.n) {
				m.remove(c)
			}
		} else {
			m.clear()
		}
	case "remove-half":
		for _, c := range t.Perm(n)[:n/2] {
			m.remove(c)
		}
	case "put-many":
		for c := n; c < m.ks.n; c++ {
			m.put(c)
		}
	}
}

// fill puts the first n keys in some order.
func fill[K any, V any](t *mon.T, m *mapMon[K, V], n int) {
	switch t.Intn(4) {
	case 0:
		for c := 0; c < n; c++ {
			m.put(c)
		}
	case 1:
		for c := n - 1; c >= 0; c-- {
			m.put(c)
		}
	default:
		for _, c := range t.Perm(n) {
			m.put(c)
		}
	}
}

// mapSizes does every operation on a new map of every size, followed by
// another one.
func mapSizes[K any, V any](t *mon.T, to int, mk func(n int) *mapMon[K, V]) {
	eachSize(t, 0, to, func(n int) {
		for _, op := range sizeOps {
			m := mk(n)
			fill(t, m, n)
			sizeOp(t, m, op, n)
			m.full()
			sizeOp(t, m, sizeOps[t.Intn(len(sizeOps))], n)
			m.full()
		}
	})
}

// mapPositions removes, and overwrites, each single key of a map of every size.
func mapPositions[K any, V any](t *mon.T, to int, mk func(n int) *mapMon[K, V]) {
	eachSize(t, 1, to, func(n int) {
		order := t.Intn(4)
		perm := t.Perm(n)
		for c := 0; c < n; c++ {
			m := mk(n)
			for i := 0; i < n; i++ {
				switch order {
				case 0:
					m.put(i)
				case 1:
					m.put(n - 1 - i)
				default:
					m.put(perm[i])
				}
			}
			m.put(c)
			m.look(c)
			m.remove(c)
			m.full()
			m.put(c)
			m.checkSize()
			m.traverse()
		}
	})
}

func sizeCap(t *mon.T, n int) uint64 {
	return []uint64{0, 1, uint64(n), uint64(2*n) + 1, capacities[t.Intn(len(capacities))]}[t.Intn(5)]
}

func sizedMap(t *mon.T, id *int64) func(n int) *mapMon[int, int64] {
	return func(n int) *mapMon[int, int64] {
		ks := intKeys(n+1+t.Intn(4), -n/2, 1)
		return newMapMon(t, ks, intVals(), cowMap(hashmap.New[int, int64](sizeCap(t, n), ks.eq, hashing(ks, []string{"good", "identity"}[t.Intn(2)]))).mapSUT, false, 0, id)
	}
}

func sizedSet(t *mon.T, id *int64) func(n int) *mapMon[int, struct{}] {
	return func(n int) *mapMon[int, struct{}] {
		ks := intKeys(n+1+t.Intn(4), -n/2, 1)
		sut := cowSet(hashset.New[int](sizeCap(t, n), ks.eq, hashing(ks, []string{"good", "identity"}[t.Intn(2)]))).mapSUT
		if t.Intn(3) == 0 {
			s := mapset.New[int]()
			sut = setSUT("mapset", s.Put, s.Has, s.Remove, s.Clear, s.Size, s.Each)
		}
		return newMapMon(t, ks, unitVals(), sut, false, 0, id)
	}
}

func sizedTree(t *mon.T, id *int64, sut func(keyspace[int]) mapSUT[int, int64]) func(n int) *mapMon[int, int64] {
	return func(n int) *mapMon[int, int64] {
		ks := intKeys(n+1+t.Intn(4), math.MinInt, 7)
		return newMapMon(t, ks, intVals(), sut(ks), true, 0, id)
	}
}

// copySizes does every operation on a map and its copy, of every size, all
// other copies being compared afterwards.
func copySizes[K any, V any](t *mon.T, to int, mk func(n int) (keyspace[K], valspace[V], cow[K, V])) {
	id := int64(0)
	eachSize(t, 0, to, func(n int) {
		ks, vs, _ := mk(n)
		for _, op := range sizeOps {
			for side := 0; side < 2; side++ {
				_, _, root := mk(n)
				a := newMapMon(t, ks, vs, root.mapSUT, false, 0, &id)
				fill(t, a, n)
				fam := []*mapMon[K, V]{a}
				cows := []cow[K, V]{root}
				adopt := func(from int) {
					c := cows[from].copy()
					b := newMapMon(t, ks, vs, c.mapSUT, false, int64(len(fam)), &id)
					copy(b.has, fam[from].has)
					copy(b.val, fam[from].val)
					b.count = fam[from].count
					fam = append(fam, b)
					cows = append(cows, c)
					t.Event("copies", 1)
				}
				adopt(0)
				if t.Intn(4) == 0 {
					adopt(1)
				}
				all := func() {
					for _, b := range fam {
						b.full()
					}
				}
				sizeOp(t, fam[side], op, n)
				all()
				sizeOp(t, fam[t.Intn(len(fam))], sizeOps[t.Intn(len(sizeOps))], n)
				all()
				if t.Intn(4) == 0 {
					adopt(side)
					sizeOp(t, fam[t.Intn(len(fam))], sizeOps[t.Intn(len(sizeOps))], n)
					all()
				}
			}
		}
	})
}

func init() {
	reg := func(id, name string, quick int, run func(t *mon.T)) {
		mon.Register(id, "", &mon.Scenario{Name: name, Quick: quick, Thorough: 80, Run: run})
	}
	for _, x := range []struct {
		id  string
		sut func(keyspace[int]) mapSUT[int, int64]
	}{{"C01", avlSUT[int, int64]}, {"C03", btreeSUT[int, int64]}} {
		x := x
		reg(x.id, "every-size", 40, func(t *mon.T) {
			id := int64(0)
			mapSizes(t, t.Pick(320, 1500), sizedTree(t, &id, x.sut))
		})
		reg(x.id, "every-position", 40, func(t *mon.T) {
			id := int64(0)
			mapPositions(t, t.Pick(90, 260), sizedTree(t, &id, x.sut))
		})
	}
	reg("C06", "every-size", 40, func(t *mon.T) {
		id := int64(0)
		mapSizes(t, t.Pick(320, 1500), sizedMap(t, &id))
	})
	reg("C06", "every-position", 40, func(t *mon.T) {
		id := int64(0)
		mapPositions(t, t.Pick(90, 260), sizedMap(t, &id))
	})
	reg("C08", "every-size", 40, func(t *mon.T) {
		id := int64(0)
		mapSizes(t, t.Pick(320, 1500), sizedSet(t, &id))
	})
	reg("C08", "every-position", 40, func(t *mon.T) {
		id := int64(0)
		mapPositions(t, t.Pick(90, 260), sizedSet(t, &id))
	})
	reg("C07", "every-size of a map", 40, func(t *mon.T) {
		copySizes(t, t.Pick(300, 1300), func(n int) (keyspace[int], valspace[int64], cow[int, int64]) {
			ks := intKeys(n+3, -n/2, 1)
			return ks, intVals(), cowMap(hashmap.New[int, int64](sizeCap(t, n), ks.eq, hashing(ks, "good")))
		})
	})
	reg("C07", "every-size of a set", 40, func(t *mon.T) {
		copySizes(t, t.Pick(300, 1300), func(n int) (keyspace[int], valspace[struct{}], cow[int, struct{}]) {
			ks := intKeys(n+3, -n/2, 1)
			return ks, unitVals(), cowSet(hashset.New[int](sizeCap(t, n), ks.eq, hashing(ks, "good")))
		})
	})
	reg("C04", "every-position", 40, func(t *mon.T) { ivPositions(t, true, false, t.Pick(60, 200)) })
	reg("C05", "every-position", 40, func(t *mon.T) { ivPositions(t, false, true, t.Pick(60, 130)) })
	reg("C09", "every-size", 40, func(t *mon.T) { eachSize(t, 1, t.Pick(150, 600), func(n int) { setSizes(t, false, n) }) })
	reg("C10", "every-size", 40, func(t *mon.T) { eachSize(t, 1, t.Pick(150, 600), func(n int) { setSizes(t, true, n) }) })
	reg("C14", "every-position", 40, func(t *mon.T) { eachSize(t, 1, t.Pick(60, 150), func(n int) { listPositions(t, n) }) })
	reg("C24", "every-position", 40, func(t *mon.T) { eachSize(t, 1, t.Pick(48, 110), func(n int) { ulPositions(t, n) }) })
	for _, x := range []struct {
		id    string
		quick int
		run   func(t *mon.T, n int)
	}{
		{"C04", 200, func(t *mon.T, n int) { hoverInterval(t, true, false, n) }},
		{"C05", 200, func(t *mon.T, n int) { hoverInterval(t, false, true, n) }},
		{"C11", 300, hoverHeap},
		{"C12", 300, func(t *mon.T, n int) { hoverQueue(t, intVals(), n) }},
		{"C13", 300, func(t *mon.T, n int) { hoverStack(t, intVals(), n) }},
		{"C14", 200, hoverList},
		{"C15", 300, func(t *mon.T, n int) { hoverCache(t, false, n) }},
		{"C16", 300, func(t *mon.T, n int) { hoverCache(t, true, n) }},
		{"C17", 150, hoverMulti},
		{"C18", 200, func(t *mon.T, n int) { hoverTrie(t, true, false, n) }},
		{"C19", 200, func(t *mon.T, n int) { hoverTrie(t, false, true, n) }},
		{"C24", 200, hoverUList},
		{"C26", 200, hoverBimap},
	} {
		x := x
		reg(x.id, "every-size", 40, func(t *mon.T) {
			eachSize(t, 4, t.Pick(x.quick, 5*x.quick), func(n int) { x.run(t, n) })
		})
	}
	for _, s := range []thresholds{{10, 5, 1.2}, {3, 1, 1.2}, {16, 8, 1.05}} {
		s := s
		mon.Register("C20", "", &mon.Scenario{Name: "every-position " + s.String(), Quick: 40, Thorough: 80, Setup: s.setRope,
			Run: func(t *mon.T) { eachSize(t, 1, t.Pick(64, 150), func(n int) { ropePositions(t, s, n) }) }})
		s.ratio = 1.5
		mon.Register("C21", "", &mon.Scenario{Name: "every-position " + s.String(), Quick: 40, Thorough: 80, Setup: s.setPrope,
			Run: func(t *mon.T) { eachSize(t, 1, t.Pick(64, 150), func(n int) { propePositions(t, s, n) }) }})
	}
}

// ivPositions removes, and replaces, each single interval of a tree of every
// size.
func ivPositions(t *mon.T, store, over bool, to int) {
	eachSize(t, 1, to, func(n int) {
		order := t.Intn(3)
		perm := t.Perm(n)
		reach := 1 + t.Intn(n)
		for c := 0; c < n; c++ {
			m := newIvMon(t, someInts[int](n+1, -n/2, 1), store, over)
			for i := 0; i < n; i++ {
				lo := i
				switch order {
				case 0:
					lo = perm[i]
				case 1:
					lo = n - 1 - i
				}
				m.put(lo, min(n, lo+t.Intn(reach)))
			}
			m.put(c, c+t.Intn(n+1-c)) // may shrink it or make it longer
			look := func() {
				if over {
					m.query(c, min(n, c+1))
					m.query(max(0, c-1), c)
					a := t.Intn(n + 1)
					m.query(a, a+t.Intn(n+1-a))
				}
				if store {
					m.get(c)
					m.size()
				}
			}
			look()
			m.remove(c)
			look()
			m.each("after a removal")
			m.add(c, n)
			m.add(c, c)
			look()
		}
		if over {
			m := newIvMon(t, someInts[int](n+1, -n/2, 1), store, over)
			for _, lo := range perm {
				m.put(lo, min(n, lo+t.Intn(reach)))
			}
			for a := 0; a <= n; a++ {
				for b := a; b <= n; b++ {
					if n < 50 || t.Intn(n) < 50 {
						m.query(a, b)
					}
				}
			}
		}
	})
}

// listPositions removes each node of a list of every length, and puts one
// before it.
func listPositions(t *mon.T, n int) {
	for i := 0; i < n; i++ {
		m := &listMon{t: t, l: list.New[int64](), val: map[*lnode]int64{}}
		for v := int64(0); v < int64(n); v++ {
			m.l.PushBack(v)
			m.val[m.l.Back] = v
			m.want = append(m.want, m.l.Back)
		}
		x := &lnode{Value: int64(-i)}
		m.val[x] = x.Value
		t.Op("insert-before", int64(i))
		m.l.InsertBefore(m.want[i], x)
		m.want = insertAt(m.want, i, x)
		m.full()
		j := i
		if t.Bool() {
			j = i + 1
		}
		t.Op("remove", int64(j))
		m.l.Remove(m.want[j])
		m.want = removeAt(m.want, j)
		m.full()
		m.walks(min(j, len(m.want)-1))
	}
}

// ulPositions does every edit at every position of a list of every length.
func ulPositions(t *mon.T, n int) {
	for _, block := range []int{2, 5, 1 + t.Intn(n+2)} {
		for p := 0; p < n; p++ {
			for _, op := range []int{ulAddAfter, ulAddBefore, ulRemove} {
				m := &ulMon[int]{t: t, el: intElems, ul: ulist.New[int](block)}
				for len(m.model) < n {
					m.edit([]int{ulPushBack, ulPushFront}[t.Intn(4)/3])
				}
				m.seek(p)
				m.edit(op)
				m.full()
				if len(m.model) > 0 && !m.valid() {
					m.seek(t.Intn(len(m.model)))
				}
				if m.valid() {
					m.edit(op)
					m.full()
				}
			}
		}
	}
}

// ropeGrown makes a rope of n elements in one of the ways.
func ropeGrown(m *ropeMon[int], how, n int) *ropeVal[int] {
	m.next = 0
	if how == 0 {
		part := m.fresh(n)
		return &ropeVal[int]{rope.New(append(make([]int, 0, n+3), part...)), part}
	}
	v := &ropeVal[int]{rope.New[int](nil), nil}
	for len(v.model) < n {
		part := m.fresh(min(n-len(v.model), []int{1, m.s.split/2 + 1, m.s.split + 1}[how%3]))
		at := len(v.model)
		switch how % 4 {
		case 2:
			at = 0
		case 3:
			at /= 2
		}
		m.insert(v, at, part)
	}
	return v
}

// ropePositions reads, removes, inserts and splits at every position, or pair
// of positions, of a rope of every length.
func ropePositions(t *mon.T, s thresholds, n int) {
	m := &ropeMon[int]{t: t, el: intElems, s: s}
	how := t.Intn(5)
	v := ropeGrown(m, how, n)
	m.look(v, true)
	for a := 0; a <= n; a++ {
		if a < n {
			if x := v.n.At(a); x != v.model[a] {
				t.Fail("rope: At(%d) of %d is %v, expected %v", a, n, x, v.model[a])
			}
		}
		for b := a; b <= n; b++ {
			same(t, "rope: Slice", v.n.Slice(a, b), v.model[a:b])
		}
	}
	t.Event("positions", int64(n*n/2))
	ranges := 0
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			if n > 40 && t.Intn(n*n) > 1600 {
				continue
			}
			w := ropeGrown(m, how, n)
			t.Op("remove", int64(a), int64(b))
			w.n.Remove(a, b)
			w.model = cat(w.model[:a], w.model[b:])
			m.look(w, true)
			ranges++
		}
		w := ropeGrown(m, how, n)
		t.Op("insert", int64(a))
		m.insert(w, a, m.fresh(1+t.Intn(2*s.split)))
		m.look(w, true)
		w = ropeGrown(m, how, n)
		t.Op("split", int64(a))
		l, r := w.n.SplitAt(a)
		m.look(&ropeVal[int]{l, cat(w.model[:a])}, true)
		m.look(&ropeVal[int]{r, cat(w.model[a:])}, true)
	}
	t.Event("ranges_removed", int64(ranges))
}

func propePositions(t *mon.T, s thresholds, n int) {
	m := &propeMon[int]{t: t, el: intElems, s: s}
	v := &version[int]{prope.New[int](nil), nil}
	how := t.Intn(4)
	for len(v.model) < n {
		k := min(n-len(v.model), []int{n, 1, s.split/2 + 1, s.split + 1}[how])
		part := m.fresh(k)
		at := []int{0, len(v.model), len(v.model) / 2}[t.Intn(3)]
		v = &version[int]{v.n.Insert(at, part), cat(v.model[:at], part, v.model[at:])}
	}
	m.look(v)
	for a := 0; a <= n; a++ {
		if a < n {
			if x := v.n.At(a); x != v.model[a] {
				t.Fail("prope: At(%d) of %d is %v, expected %v", a, n, x, v.model[a])
			}
		}
		for b := a; b <= n; b++ {
			same(t, "prope: Slice", v.n.Slice(a, b), v.model[a:b])
			t.Op("remove", int64(a), int64(b))
			w := v.n.Remove(a, b)
			same(t, "prope: Remove", w.Value(), cat(v.model[:a], v.model[b:]))
			if w.Len() != n-b+a {
				t.Fail("prope: Remove(%d, %d) of %d: Len() = %d", a, b, n, w.Len())
			}
		}
		part := m.fresh(1 + t.Intn(2*s.split))
		t.Op("insert", int64(a), int64(len(part)))
		w := v.n.Insert(a, part)
		same(t, "prope: Insert", w.Value(), cat(v.model[:a], part, v.model[a:]))
		t.Op("split", int64(a))
		l, r := v.n.SplitAt(a)
		same(t, "prope: SplitAt, left", l.Value(), v.model[:a])
		same(t, "prope: SplitAt, right", r.Value(), v.model[a:])
	}
	m.look(v)
	t.Event("positions", int64(n*n/2))
}
