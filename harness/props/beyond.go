package props

import (
	"fmt"

	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/stack"

	"verif/harness/mon"
)

// Sizes and histories that do not fit into 16 bits.

// wide is a size a little above what 16 bits hold.
func wide(t *mon.T) int {
	if !t.Thorough() || t.Intn(4) > 0 {
		return 65536
	}
	return []int{65537, 70000, 131071, 131072}[t.Intn(4)]
}

// wideFamily copies a map or set of many keys, and has every copy changed.
func wideFamily[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], root cow[K, V], at int) {
	id := int64(0)
	m := newMapMon(t, ks, vs, root.mapSUT, false, 0, &id)
	for c := 0; c < at; c++ {
		m.put(c)
	}
	fam := []member[K, V]{{m, root}}
	t.Note("family of copies of a container of %d %s keys", at, ks.name)
	for i := 1; i < 6; i++ {
		a := fam[t.Intn(len(fam))]
		t.Op("copy", a.m.id, int64(i))
		c := a.cow.copy()
		m := newMapMon(t, ks, vs, c.mapSUT, false, int64(i), &id)
		copy(m.has, a.m.has)
		copy(m.val, a.m.val)
		m.count = a.m.count
		fam = append(fam, member[K, V]{m, c})
		t.Event("copies", 1)
		for k := 0; k < 40; k++ {
			x := fam[t.Intn(len(fam))].m
			c := t.Intn(ks.n)
			if t.Bool() {
				c = at - 5 + t.Intn(10)
			}
			switch t.Intn(8) {
			case 0, 1, 2:
				x.put(c)
			case 3, 4, 5:
				x.remove(c)
			case 6:
				if k%20 == 0 {
					x.clear()
				}
			}
			for _, b := range fam {
				b.m.near(c)
			}
		}
		fam[t.Intn(len(fam))].m.full()
	}
	for _, b := range fam {
		b.m.full()
	}
	t.Max("edge", int64(at))
}

// elder is a member of a lineage that is kept while the others come and go.
type elder[K any, V any] struct {
	member[K, V]
	born int
}

// lineage makes many generations of copies of copies, and keeps a few of them
// for longer than 16 bits can count.
func lineage[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], root cow[K, V], gens int) {
	id := int64(0)
	adopt := func(c cow[K, V], from *mapMon[K, V], i int) member[K, V] {
		m := newMapMon(t, ks, vs, c.mapSUT, false, int64(i), &id)
		if from != nil {
			copy(m.has, from.has)
			copy(m.val, from.val)
			m.count = from.count
		}
		return member[K, V]{m, c}
	}
	t.Note("%d generations of copies over %d %s keys", gens, ks.n, ks.name)
	cur := adopt(root, nil, 0)
	var old []elder[K, V]
	touch := func(m *mapMon[K, V]) int {
		c := t.Intn(ks.n)
		if t.Bool() {
			m.put(c)
		} else {
			m.remove(c)
		}
		return c
	}
	busy := t.Intn(10) // how often they are written to
	for i := 0; i < gens; i++ {
		if t.Intn(10) < busy {
			touch(cur.m)
		}
		next := adopt(cur.cow.copy(), cur.m, i+1)
		if len(old) < 5 && i < 40 && t.Intn(3) == 0 {
			old = append(old, elder[K, V]{cur, i})
		}
		if t.Intn(4) > 0 {
			cur = next
		}
		for _, e := range old {
			d := (i - e.born) & 0xffff
			if d > 4 && d < 65532 && t.Intn(2000) > 0 {
				continue
			}
			switch t.Intn(3) {
			case 0:
				c := touch(e.m)
				cur.m.look(c)
				e.m.look(c)
			case 1:
				c := touch(cur.m)
				e.m.look(c)
				cur.m.look(c)
			default:
				cur.m.full()
				e.m.full()
			}
		}
	}
	for _, e := range old {
		e.m.full()
	}
	cur.m.full()
	t.Event("copies", int64(gens))
	t.Max("generations", int64(gens))
}

// bigRope starts from a long rope, made in one of several ways.
func bigRope(t *mon.T, s thresholds, chunks bool, at, ops int) {
	m := &ropeMon[int]{t: t, el: intElems, s: s, chunks: chunks, maxLen: 2 * at}
	m.arena = make([]int, 0, 4*at+4*m.maxLen)
	v := m.create(at - t.Intn(3))
	how := t.Intn(3)
	switch how {
	case 1: // of many parts
		for len(v.model) < at+at/2 {
			p := m.create(at / 8)
			v.n, v.model = rope.Join(v.n, p.n), cat(v.model, p.model)
		}
	case 2:
		v.n.Rebuild()
	}
	m.pool = []*ropeVal[int]{v}
	t.Note("rope of %d elements, %v", len(v.model), s)
	m.look(v, how == 2)
	for i := 0; i < ops; i++ {
		m.step()
	}
	for _, v := range m.pool {
		m.look(v, true)
	}
	m.checkGuards()
	t.Max("rope_length", int64(m.pool[0].n.Len()))
}

// manyParts joins many short ropes in one call and one after the other. Both
// make a chain, whose value takes time quadratic in the number of parts.
func manyParts(t *mon.T, s thresholds, chunks bool, parts int) {
	m := &ropeMon[int]{t: t, el: intElems, s: s, chunks: chunks, maxLen: 4 * parts}
	m.arena = make([]int, 0, 16*parts+1000)
	var ns []*rope.Node[int]
	var all []int
	for i := 0; i < parts; i++ {
		p := m.create(t.Intn(4))
		ns, all = append(ns, p.n), append(all, p.model...)
	}
	v := &ropeVal[int]{model: all}
	t.Note("rope of %d parts, %v", parts, s)
	if t.Bool() {
		v.n = rope.Join(ns[0], ns[1], ns[2:]...)
	} else {
		v.n = ns[0]
		for _, n := range ns[1:] {
			v.n = rope.Join(v.n, n)
		}
	}
	m.pool = []*ropeVal[int]{v}
	m.look(v, true)
	for i := 0; i < 30; i++ {
		m.step()
	}
	for _, v := range m.pool {
		m.look(v, true)
	}
	t.Max("parts_joined", int64(parts))
}

func bigPrope(t *mon.T, s thresholds, at, ops int) {
	m := &propeMon[int]{t: t, el: intElems, s: s, max: 6, maxLen: 2 * at}
	v := m.create(at - t.Intn(3))
	if t.Bool() {
		var ns []*prope.Node[int]
		var w []int
		for i := 0; i < 8; i++ {
			p := m.create(at/8 + t.Intn(9))
			ns, w = append(ns, p.n), append(w, p.model...)
		}
		v = &version[int]{prope.Join(ns...), w}
	}
	t.Note("prope of %d elements, %v", len(v.model), s)
	m.add(v)
	for i := 0; i < ops; i++ {
		m.step()
	}
	m.all()
}

func manyVersionParts(t *mon.T, s thresholds, parts int) {
	m := &propeMon[int]{t: t, el: intElems, s: s, max: 4, maxLen: 4 * parts}
	var ns []*prope.Node[int]
	var all []int
	for i := 0; i < parts; i++ {
		p := m.fresh(t.Intn(4))
		ns, all = append(ns, prope.New(p)), append(all, p...)
	}
	t.Note("prope of %d parts, %v", parts, s)
	v := &version[int]{ns[0], all}
	if t.Bool() {
		v.n = prope.Join(ns...)
	} else {
		for _, n := range ns[1:] {
			v.n = prope.Join(v.n, n)
		}
	}
	m.add(v)
	for i := 0; i < 30; i++ {
		m.step()
	}
	m.all()
	t.Max("parts_joined", int64(parts))
}

// ages derives many versions of a short rope from each other and keeps some of
// the first ones to the end.
func ages(t *mon.T, s thresholds, gens int) {
	m := &propeMon[int]{t: t, el: intElems, s: s, max: 4, maxLen: 30 + t.Intn(60)}
	m.add(m.create(20))
	t.Note("%d generations of versions, %v", gens, s)
	var old []*version[int]
	for i := 0; i < gens; i++ {
		m.step()
		if i < 40 && t.Intn(6) == 0 {
			old = append(old, m.vs[t.Intn(len(m.vs))])
		}
		if len(m.given) > 30 {
			m.given = m.given[10:]
		}
		if len(old) > 0 && t.Intn(3000) == 0 {
			m.look(old[t.Intn(len(old))])
		}
		if i == 65530+t.Intn(12) { // edit old ones again
			m.vs = append([]*version[int]{}, old[:min(len(old), m.max)]...)
			if len(m.vs) == 0 {
				m.add(m.create(20))
			}
		}
	}
	m.vs = append(m.vs, old...)
	m.all()
	t.Max("generations", int64(gens))
}

// bigCopies copies containers of many elements.
func bigCopies(t *mon.T, at int) {
	n := at - 3 + t.Intn(8)
	switch t.Index % 6 {
	case 0:
		m := &copyStack[int]{s: stack.New[int](), el: intElems, next: new(int)}
		for i := 0; i < n; i++ {
			*m.next++
			m.s.Push(m.el.mk(*m.next))
			m.want = append(m.want, m.el.mk(*m.next))
		}
		copyFamily(t, fmt.Sprintf("stack of %d ints", n), m, 25)
	case 1:
		m := &copyQueue[int]{el: intElems, next: new(int)}
		var in []int
		for i := 0; i < n; i++ {
			*m.next++
			in = append(in, m.el.mk(*m.next))
		}
		if m.want = cat(in); t.Bool() {
			m.q = queue.Of(in)
		} else {
			m.q = queue.New[int]()
			for _, v := range in {
				m.q.Enqueue(v)
			}
		}
		copyFamily(t, fmt.Sprintf("queue of %d ints", n), m, 25)
	case 2:
		copyFamily(t, fmt.Sprintf("array of %d columns", n), newCopyGrid(t, intElems, n, 1+t.Intn(2)), 25)
	case 3:
		copyFamily(t, fmt.Sprintf("array of %d rows", n), newCopyGrid(t, intElems, 1+t.Intn(2), n), 25)
	case 4:
		num := func(i int) int { return i*3 - n }
		m := newBimapMon(t, n+5, n+5, num, num, false)
		for i := 0; i < n; i++ {
			m.apply(0, i, n-i)
		}
		copyFamily(t, fmt.Sprintf("bimap of %d ints", n), copyBimap[int, int]{m}, 14)
	default:
		ks := intKeys(n+5, -n/2, 1)
		e := newSetEnv(t, ks, []setKind[int]{kindMap[int](), kindHash(ks, "good", uint64(t.Intn(2)*n))})
		has := make([]bool, ks.n)
		for c := 0; c < n; c++ {
			has[c] = true
		}
		o := e.receiver(e.kinds[t.Intn(2)], has)
		copyFamily(t, fmt.Sprintf("set of %d ints", n), &copySet{o.s, ks, cat(has)}, 25)
	}
	t.Max("edge", int64(n))
}

// longHistory is the number of operations of a history in which 16-bit
// counters come round.
func longHistory(t *mon.T) int { return 66000 + t.Intn(4000) }

func init() {
	avl := func(t *mon.T) { hoverTree(t, avlSUT[int, int64], wide(t)) }
	for _, x := range []struct {
		id   string
		q, n int
		run  func(t *mon.T)
	}{
		{"C01", 2, 24, avl},
		{"C04", 2, 24, func(t *mon.T) { hoverInterval(t, true, false, wide(t)) }},
		{"C05", 2, 24, func(t *mon.T) { hoverInterval(t, false, true, wide(t)) }},
		{"C06", 3, 40, func(t *mon.T) { hoverHash(t, false, wide(t)) }},
		{"C07", 4, 60, func(t *mon.T) {
			at := wide(t)
			n := at + 30
			cp := []uint64{0, uint64(at), uint64(2 * at)}[t.Intn(3)]
			if t.Bool() {
				ks := intKeys(n, -n/2, 1)
				wideFamily(t, ks, intVals(), cowMap(hashmap.New[int, int64](cp, ks.eq, hashing(ks, "good"))), at)
			} else {
				ks := strKeys(n)
				wideFamily(t, ks, unitVals(), cowSet(hashset.New[string](cp, ks.eq, hashing(ks, "good"))), at)
			}
		}},
		{"C08", 5, 60, func(t *mon.T) { hoverHash(t, true, wide(t)) }},
		{"C09", 2, 24, func(t *mon.T) { setSizes(t, false, wide(t)) }},
		{"C10", 2, 24, func(t *mon.T) { setSizes(t, true, wide(t)) }},
		{"C12", 4, 60, func(t *mon.T) {
			if t.Index%2 == 0 {
				hoverQueue(t, intVals(), wide(t))
			} else {
				hoverQueue(t, strVals(), wide(t))
			}
		}},
		{"C14", 3, 40, func(t *mon.T) { hoverList(t, wide(t)) }},
		{"C15", 2, 24, func(t *mon.T) { hoverCache(t, false, wide(t)) }},
		{"C16", 2, 24, func(t *mon.T) { hoverCache(t, true, wide(t)) }},
		{"C17", 4, 40, func(t *mon.T) { hoverMulti(t, wide(t)) }},
		{"C18", 3, 24, func(t *mon.T) { hoverTrie(t, true, false, wide(t)) }},
		{"C19", 3, 24, func(t *mon.T) { hoverTrie(t, false, true, wide(t)) }},
		{"C20", 3, 60, func(t *mon.T) { bigRope(t, ropeDefaults, false, wide(t), 60) }},
		{"C21", 3, 60, func(t *mon.T) { bigPrope(t, propeDefaults, wide(t), 60) }},
		{"C23", 3, 60, func(t *mon.T) { bigRope(t, ropeDefaults, true, wide(t), 60) }},
		{"C24", 3, 40, func(t *mon.T) { hoverUList(t, wide(t)) }},
		{"C25", 3, 60, func(t *mon.T) {
			w, h := wide(t)-2+t.Intn(5), 1+t.Intn(3)
			if t.Bool() {
				w, h = h, w
			}
			gridRun(t, intElems, w, h, 40)
		}},
		{"C26", 2, 24, func(t *mon.T) { hoverBimap(t, wide(t)) }},
		{"C29", 6, 90, func(t *mon.T) { bigCopies(t, wide(t)) }},
	} {
		sc := &mon.Scenario{Name: "beyond 16 bits", Quick: x.q, Thorough: x.n, Run: x.run}
		switch x.id {
		case "C20", "C23":
			sc.Setup = ropeDefaults.setRope
		case "C21":
			sc.Setup = propeDefaults.setPrope
		}
		mon.Register(x.id, "", sc)
	}
	small := thresholds{1, 0, 1.5}
	mon.Register("C20", "", &mon.Scenario{Name: "many parts", Quick: 6, Thorough: 200, Setup: small.setRope,
		Run: func(t *mon.T) { manyParts(t, small, false, 200+t.Intn(t.Pick(2000, 8000))) }})
	mon.Register("C23", "", &mon.Scenario{Name: "many parts", Quick: 6, Thorough: 200, Setup: small.setRope,
		Run: func(t *mon.T) { manyParts(t, small, true, 200+t.Intn(t.Pick(2000, 8000))) }})
	mon.Register("C21", "", &mon.Scenario{Name: "many parts", Quick: 6, Thorough: 200, Setup: small.setPrope,
		Run: func(t *mon.T) { manyVersionParts(t, small, 200+t.Intn(t.Pick(2000, 40000))) }})
}

func init() {
	tiny := func(t *mon.T) int { return 1 + t.Intn(9) }
	rare := 20000
	for _, x := range []struct {
		id   string
		q, n int
		run  func(t *mon.T)
	}{
		{"C01", 2, 40, func(t *mon.T) { treeRun(t, intKeys(tiny(t), 0, 1), intVals(), true, longHistory(t), rare) }},
		{"C03", 2, 40, func(t *mon.T) { treeRun(t, intKeys(tiny(t), 0, 1), intVals(), false, longHistory(t), rare) }},
		{"C04", 2, 40, func(t *mon.T) {
			ivDrive(t, someInts[int](2+tiny(t), 0, 1), true, false, longHistory(t), rare)
		}},
		{"C05", 2, 40, func(t *mon.T) {
			ivDrive(t, someInts[int](2+tiny(t), 0, 1), false, true, longHistory(t), rare)
		}},
		{"C06", 3, 60, func(t *mon.T) {
			ks := intKeys(tiny(t), 0, 1)
			if t.Bool() {
				hashRun(t, ks, intVals(), longHistory(t), rare)
				return
			}
			id := int64(0)
			sut := cowMap(hashmap.New[int, int64](0, ks.eq, hashing(ks, "good"))).mapSUT
			sut.clear = nil // never cleared
			drive(t, []*mapMon[int, int64]{newMapMon(t, ks, intVals(), sut, false, 0, &id)}, longHistory(t), rare)
		}},
		{"C07", 3, 60, func(t *mon.T) {
			ks := intKeys(tiny(t), 0, 1)
			if t.Index%3 == 2 {
				lineage(t, ks, unitVals(), cowSet(hashset.New[int](uint64(t.Intn(9)), ks.eq, hashing(ks, "good"))), longHistory(t))
				return
			}
			lineage(t, ks, intVals(), cowMap(hashmap.New[int, int64](uint64(t.Intn(9)), ks.eq, hashing(ks, "good"))), longHistory(t))
		}},
		{"C08", 3, 60, func(t *mon.T) {
			if t.Bool() {
				setRun(t, intKeys(tiny(t), 0, 1), longHistory(t), rare)
			} else {
				mapsetRun(t, intKeys(tiny(t), 0, 1), longHistory(t), rare)
			}
		}},
		{"C11", 3, 60, func(t *mon.T) { heapRun(t, itemType(), tiny(t), longHistory(t), 5, true) }},
		{"C12", 2, 60, func(t *mon.T) { queueCase(t, longHistory(t), rare) }},
		{"C13", 2, 60, func(t *mon.T) { stackCase(t, longHistory(t), 20) }},
		{"C14", 2, 40, func(t *mon.T) { listRun(t, 1+t.Intn(2), longHistory(t), tiny(t), rare) }},
		{"C15", 3, 60, func(t *mon.T) {
			cacheDrive(t, intKeys(tiny(t), 0, 1), intVals(), t.Intn(9), longHistory(t), rare, false)
		}},
		{"C16", 2, 60, func(t *mon.T) {
			cacheDrive(t, intKeys(tiny(t), 0, 1), intVals(), t.Intn(9), longHistory(t), rare, true)
		}},
		{"C17", 4, 60, func(t *mon.T) {
			mmKV(t, intKeys(tiny(t), 0, 1), intKeys(tiny(t), 0, 1), true, true, t.Index%4, longHistory(t), rare)
		}},
		{"C18", 2, 40, func(t *mon.T) { trieDrive(t, intVals(), true, false, 2+tiny(t), longHistory(t), rare) }},
		{"C19", 2, 40, func(t *mon.T) { trieDrive(t, intVals(), false, true, 2+tiny(t), longHistory(t), rare) }},
		{"C24", 3, 60, func(t *mon.T) { ulRun(t, intElems, tiny(t), longHistory(t), 2*tiny(t), rare) }},
		{"C26", 2, 60, func(t *mon.T) { bimapCase(t, 9, longHistory(t), rare) }},
	} {
		mon.Register(x.id, "", &mon.Scenario{Name: "long histories", Quick: x.q, Thorough: x.n, Run: x.run})
	}
	s := thresholds{4, 2, 1.5}
	mon.Register("C20", "", &mon.Scenario{Name: "long histories", Quick: 2, Thorough: 40, Setup: s.setRope,
		Run: func(t *mon.T) { ropeCase(t, s, false, longHistory(t), 30) }})
	mon.Register("C21", "", &mon.Scenario{Name: "long histories", Quick: 3, Thorough: 60, Setup: s.setPrope,
		Run: func(t *mon.T) { ages(t, s, longHistory(t)) }})
}
