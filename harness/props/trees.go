package props

import (
	"math"
	"math/bits"

	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/interval"

	"verif/harness/mon"
)

func avlSUT[K any, V any](ks keyspace[K]) mapSUT[K, V] {
	tr := avl.New[K, V](ks.less)
	return mapSUT[K, V]{name: "avl", put: tr.Put, remove: tr.Remove, get: tr.Get, each: tr.Each, size: tr.Size}
}

func btreeSUT[K any, V any](ks keyspace[K]) mapSUT[K, V] {
	tr := btree.New[K, V](ks.less)
	return mapSUT[K, V]{name: "btree", put: tr.Put, remove: tr.Remove, get: tr.Get, each: tr.Each, size: tr.Size}
}

// mapCase is one random case: a few containers of the same kind used in turn.
func mapCase[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], mk func() mapSUT[K, V], ordered bool, ops, every int) {
	id := int64(0)
	n := 1
	if t.Intn(3) == 0 {
		n = 2 + t.Intn(2)
	}
	var ms []*mapMon[K, V]
	for i := 0; i < n; i++ {
		ms = append(ms, newMapMon(t, ks, vs, mk(), ordered, int64(i), &id))
	}
	t.Note("%s keys (%d classes), %s values, %d containers, %d operations", ks.name, ks.n, vs.name, n, ops)
	for _, m := range ms {
		m.full() // empty
	}
	drive(t, ms, ops, every)
}

// treeCase picks key and value types and a size for an ordered map.
func treeCase(t *mon.T, small bool, avlTree bool) {
	n, ops, every := 1+t.Intn(14), 30+t.Intn(150), 1
	if !small {
		n, ops, every = 20+t.Intn(1200), 600+t.Intn(4000), 150
	}
	switch t.Index % 15 {
	case 0:
		treeRun(t, intKeys(n, -n, 1), intVals(), avlTree, ops, every)
	case 1:
		treeRun(t, revKeys(n), strVals(), avlTree, ops, every)
	case 2:
		treeRun(t, extremeKeys(n+2), intVals(), avlTree, ops, every)
	case 3:
		treeRun(t, strKeys(n), intVals(), avlTree, ops, every)
	case 4:
		treeRun(t, foldKeys(n), intVals(), avlTree, ops, every)
	case 5:
		treeRun(t, tagKeys(n), ptrVals(), avlTree, ops, every)
	case 6:
		treeRun(t, ptrKeys(n), intVals(), avlTree, ops, every)
	case 7:
		treeRun(t, floatKeys(n), intVals(), avlTree, ops, every)
	case 8:
		treeRun(t, byteKeys(), intVals(), avlTree, ops, max(every, 20))
	case 9:
		treeRun(t, bytesKeys(n), anyVals(), avlTree, ops, every)
	case 10:
		treeRun(t, intKeys(n, 0, 7), unitVals(), avlTree, ops, every)
	case 11:
		treeRun(t, anyKeys(n), funVals(), avlTree, ops, every)
	case 12:
		treeRun(t, pairKeys(n), sliceVals(), avlTree, ops, every)
	case 13:
		treeRun(t, revKeys(n), arrVals(), avlTree, ops, every)
	default:
		treeRun(t, intKeys(n, math.MaxInt-n, 1), intVals(), avlTree, ops, every)
	}
}

func treeRun[K any, V any](t *mon.T, ks keyspace[K], vs valspace[V], avlTree bool, ops, every int) {
	mk := func() mapSUT[K, V] {
		if avlTree {
			return avlSUT[K, V](ks)
		}
		return btreeSUT[K, V](ks)
	}
	mapCase(t, ks, vs, mk, true, ops, every)
}

// treeLarge fills a large tree in one of several orders, removes most of it in
// another, and puts some of the removed keys back.
func treeLarge(t *mon.T, avlTree bool, n int) {
	ks := intKeys(n, -n/2, 1)
	vs := intVals()
	id := int64(0)
	sut := avlSUT[int, int64](ks)
	if !avlTree {
		sut = btreeSUT[int, int64](ks)
	}
	m := newMapMon(t, ks, vs, sut, true, 0, &id)
	name, ord := orderings(t, n)
	t.Note("%d keys inserted in %s order", n, name)
	bulk(t, m, ord, n, 5)
	// remove in some order
	rm := t.Perm(n)
	switch t.Intn(3) {
	case 0:
		for i := range rm {
			rm[i] = i
		}
	case 1:
		for i := range rm {
			rm[i] = n - 1 - i
		}
	}
	keep := []int{0, n / 3, 9 * n / 10}[t.Intn(3)]
	for i, c := range rm[:n-keep] {
		m.remove(c)
		if i%16 == 0 {
			m.near(c)
		} else {
			m.look(c)
		}
		if i%(n/3+1) == n/3 {
			m.full()
		}
	}
	m.full()
	// overwrite, re-insert and remove at random
	for i := 0; i < n/2; i++ {
		c := t.Intn(n)
		if t.Chance(2, 3) {
			m.put(c)
		} else {
			m.remove(c)
		}
		m.look(c)
	}
	m.full()
}

// treeGrowth compares every key after each insertion around the sizes at
// which nodes of up to 64 entries split.
func treeGrowth(t *mon.T, avlTree bool) {
	n := t.Pick(2300, 5000)
	ks := intKeys(n, 0, 1)
	id := int64(0)
	sut := avlSUT[int, int64](ks)
	if !avlTree {
		sut = btreeSUT[int, int64](ks)
	}
	m := newMapMon(t, ks, intVals(), sut, true, 0, &id)
	name, ord := orderings(t, n)
	t.Note("%d keys in %s order, compared at every size near a power of two times 32", n, name)
	for i := 0; i < n; i++ {
		c := ord(i)
		m.put(c)
		m.near(c)
		if i < 140 || i%31 == 0 || (i > 2030 && i < 2060) {
			m.full()
		}
	}
	m.full()
}

func permCount(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

func nthPerm(n, k int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	out := make([]int, 0, n)
	f := permCount(n)
	for i := n; i > 0; i-- {
		f /= i
		j := k / f
		k %= f
		out = append(out, left[j])
		left = append(left[:j], left[j+1:]...)
	}
	return out
}

// treePerms inserts n keys in every order (the case index selects a slice of
// the orders) and removes them in a random order, comparing everything.
func treePerms(t *mon.T, avlTree bool, n int) {
	total := permCount(n)
	ks := intKeys(n, 0, 1)
	id := int64(0)
	for k := t.Index; k < total; k += t.Count {
		sut := avlSUT[int, int64](ks)
		if !avlTree {
			sut = btreeSUT[int, int64](ks)
		}
		m := newMapMon(t, ks, intVals(), sut, true, int64(k), &id)
		for _, c := range nthPerm(n, k) {
			m.put(c)
		}
		m.full()
		for _, c := range t.Perm(n) {
			m.remove(c)
			m.full()
		}
		t.Event("exhaustive_insertion_orders", 1)
	}
}

// --- C02: balance and cost -------------------------------------------------

// avlMaxHeight is the largest height of an AVL tree with n nodes.
func avlMaxHeight(n int) int {
	// minimal node counts: N(0)=0, N(1)=1, N(h)=N(h-1)+N(h-2)+1
	a, b := 0, 1 // N(h), N(h+1)
	h := 0
	for b <= n {
		a, b = b, a+b+1
		h++
	}
	return h
}

func ceilLog2(n int) int { // of n >= 1
	return bits.Len(uint(n - 1))
}

// costly is an ordered tree with an instrumented less function.
type avlShape struct {
	t     *mon.T
	tr    *avl.Tree[int, int]
	calls int
	path  []int // keys the current lookup has compared its key with
	cur   int
	rec   bool
}

func newAvlShape(t *mon.T) *avlShape {
	s := &avlShape{t: t}
	s.tr = avl.New[int, int](func(a, b int) bool {
		s.calls++
		if s.rec {
			o := a
			if a == s.cur {
				o = b
			}
			if len(s.path) == 0 || s.path[len(s.path)-1] != o {
				s.path = append(s.path, o)
			}
		}
		return a < b
	})
	return s
}

func costBound(n int) int {
	return 10*(avlMaxHeight(n)+2) + 20
}

func (s *avlShape) costed(what string, n int, fn func()) {
	s.calls = 0
	fn()
	s.t.Check(1)
	s.t.Max("less_calls_avl_"+what, int64(s.calls))
	if b := costBound(n); s.calls > b {
		s.t.Fail("avl: %s on a tree of %d keys called less %d times (more than %d)", what, n, s.calls, b)
	}
}

// height checks the height against the bounds for the size.
func checkHeight(t *mon.T, name string, h, n int) {
	t.Check(1)
	t.Max("height_"+name, int64(h))
	if n == 0 {
		if h != 0 {
			t.Fail("%s: Height() = %d of an empty tree", name, h)
		}
		return
	}
	if mx := avlMaxHeight(n); h > mx {
		t.Fail("%s: Height() = %d with %d keys; a balanced tree has at most %d", name, h, n, mx)
	}
	if mn := ceilLog2(n + 1); h < mn {
		t.Fail("%s: Height() = %d with %d keys; a binary tree has at least %d", name, h, n, mn)
	}
}

// shape reconstructs the tree from the comparisons that lookups make and
// checks the AVL condition at every node.
func (s *avlShape) shape(keys []int) {
	t := s.t
	n := len(keys)
	checkHeight(t, "avl", s.tr.Height(), n)
	type sub struct{ l, r, h int }
	depth := 0
	kids := make(map[int]*sub, n)
	get := func(k int) *sub {
		x := kids[k]
		if x == nil {
			x = &sub{l: -1 << 60, r: -1 << 60}
			kids[k] = x
		}
		return x
	}
	type visit struct{ k, d int }
	order := make([]visit, 0, n)
	// If lookups do not walk from the root to the key (a tree may, say,
	// remember where it was), their comparisons say nothing about the shape.
	const none = -1 << 60
	parent := make(map[int]int, n)
	plain := true
	link := func(k, p int) {
		if q, ok := parent[k]; ok && q != p {
			plain = false
		}
		parent[k] = p
	}
	root := none
	for _, k := range keys {
		s.rec, s.cur, s.path = true, k, s.path[:0]
		_, ok := s.tr.Get(k)
		s.rec = false
		t.Assert(ok, "avl: key %d is lost", k)
		d := len(s.path)
		for i, o := range s.path {
			if o == k { // the key's own node ends its path
				d = i + 1
				break
			}
		}
		if d == 0 || s.path[d-1] != k || root != none && s.path[0] != root {
			plain = false
			break
		}
		root = s.path[0]
		link(root, none)
		for i := 1; i < d; i++ {
			link(s.path[i], s.path[i-1])
		}
		depth = max(depth, d)
		order = append(order, visit{k, d})
		if d >= 2 {
			p := s.path[d-2]
			if k < p {
				get(p).l = k
			} else {
				get(p).r = k
			}
		}
		get(k)
	}
	if !plain || len(parent) != n {
		t.Event("avl_shapes_not_observable", 1)
		return
	}
	t.Check(1)
	if h := s.tr.Height(); h != depth && n > 0 {
		t.Fail("avl: Height() = %d but the longest search path has %d keys", h, depth)
	}
	// heights bottom up: deepest first
	buckets := make([][]int, depth+1)
	for _, v := range order {
		buckets[v.d] = append(buckets[v.d], v.k)
	}
	hash := uint64(n)
	for d := depth; d >= 1; d-- {
		for _, k := range buckets[d] {
			x := kids[k]
			hl, hr := 0, 0
			if x.l != -1<<60 {
				hl = kids[x.l].h
			}
			if x.r != -1<<60 {
				hr = kids[x.r].h
			}
			x.h = 1 + max(hl, hr)
			if hl-hr > 1 || hr-hl > 1 {
				t.Fail("avl: the subtrees of key %d have heights %d and %d (tree of %d keys)", k, hl, hr, n)
			}
			hash += mon.Mix(uint64(d), uint64(k))
		}
	}
	t.Check(n)
	t.State(hash)
	t.Event("avl_shapes_checked", 1)
}

func presentKeys(has []bool) []int {
	var out []int
	for k, b := range has {
		if b {
			out = append(out, k)
		}
	}
	return out
}

func avlBalance(t *mon.T, n, ops, every int) {
	s := newAvlShape(t)
	has := make([]bool, n)
	cnt := 0
	t.Note("avl, %d keys, %d operations", n, ops)
	for done := 0; done < ops; {
		p := randomPhase(t, 1+t.Intn(1+ops/2))
		next := sequence(t, p.pattern, n)
		for i := 0; i < p.length && done < ops; i++ {
			done++
			k := next()
			switch t.Weighted([]int{p.put, p.remove, p.get}) {
			case 0:
				t.Op("put", int64(k))
				s.costed("Put", cnt+1, func() { s.tr.Put(k, k) })
				if !has[k] {
					has[k] = true
					cnt++
				}
			case 1:
				t.Op("remove", int64(k))
				s.costed("Remove", cnt, func() { s.tr.Remove(k) })
				if has[k] {
					has[k] = false
					cnt--
				}
			case 2:
				t.Op("get", int64(k))
				s.costed("Get", cnt, func() { s.tr.Get(k) })
			}
			checkHeight(t, "avl", s.tr.Height(), cnt)
			if done%every == 0 {
				s.shape(presentKeys(has))
			}
		}
	}
	s.shape(presentKeys(has))
}

// fibOrder returns keys in an order that builds the sparsest AVL tree of the
// given height without rotations; mirrored flips left and right.
func fibOrder(h int, mirrored bool) []int {
	type tree struct {
		l, r *tree
		k    int
	}
	var build func(h int) *tree
	build = func(h int) *tree {
		if h <= 0 {
			return nil
		}
		x := &tree{}
		if mirrored {
			x.l, x.r = build(h-2), build(h-1)
		} else {
			x.l, x.r = build(h-1), build(h-2)
		}
		return x
	}
	root := build(h)
	k := 0
	var number func(x *tree)
	number = func(x *tree) {
		if x == nil {
			return
		}
		number(x.l)
		x.k = k
		k++
		number(x.r)
	}
	number(root)
	var out []int
	level := []*tree{root}
	for len(level) > 0 {
		var nl []*tree
		for _, x := range level {
			if x == nil {
				continue
			}
			out = append(out, x.k)
			nl = append(nl, x.l, x.r)
		}
		level = nl
	}
	return out
}

func randomFib(t *mon.T, h int) []int {
	// a sparsest tree in which the heavy side is chosen at random
	type tree struct {
		l, r *tree
		k    int
	}
	var build func(h int) *tree
	build = func(h int) *tree {
		if h <= 0 {
			return nil
		}
		x := &tree{l: build(h - 1), r: build(h - 2)}
		if t.Bool() {
			x.l, x.r = x.r, x.l
		}
		return x
	}
	root := build(h)
	k := 0
	var number func(x *tree)
	number = func(x *tree) {
		if x != nil {
			number(x.l)
			x.k = k
			k++
			number(x.r)
		}
	}
	number(root)
	var out []int
	level := []*tree{root}
	for len(level) > 0 {
		var nl []*tree
		for _, x := range level {
			if x != nil {
				out = append(out, x.k)
				nl = append(nl, x.l, x.r)
			}
		}
		level = nl
	}
	return out
}

// fibCase removes from the sparsest trees, where a missed rotation shows in
// the height at once.
func fibCase(t *mon.T) {
	h := 2 + t.Index%t.Pick(11, 14)
	var order []int
	switch t.Index / 11 % 3 {
	case 0:
		order = fibOrder(h, false)
	case 1:
		order = fibOrder(h, true)
	default:
		order = randomFib(t, h)
	}
	n := len(order)
	t.Note("sparsest tree of height %d (%d keys)", h, n)
	s := newAvlShape(t)
	iv := interval.New[int, int]()
	has := make([]bool, n)
	for _, k := range order {
		t.Op("put", int64(k))
		s.tr.Put(k, k)
		iv.Put(k, k+1, k)
		has[k] = true
	}
	t.Assert(s.tr.Height() == h, "avl: Height() = %d after building a tree of height %d without rotations", s.tr.Height(), h)
	t.Assert(iv.Height() == h, "interval: Height() = %d after building a tree of height %d without rotations", iv.Height(), h)
	cnt := n
	perm := t.Perm(n)
	if t.Bool() {
		// take leaves of the light side first: deepest imbalance
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			perm[i], perm[j] = order[n-1-i], order[i]
		}
		seen := make([]bool, n)
		var uniq []int
		for _, k := range append(append([]int{}, perm...), order...) {
			if !seen[k] {
				seen[k] = true
				uniq = append(uniq, k)
			}
		}
		perm = uniq
	}
	for i, k := range perm {
		t.Op("remove", int64(k))
		s.costed("Remove", cnt, func() { s.tr.Remove(k) })
		iv.Remove(k)
		has[k] = false
		cnt--
		checkHeight(t, "avl", s.tr.Height(), cnt)
		checkHeight(t, "interval", iv.Height(), cnt)
		if n < 40 || i%(n/20+1) == 0 {
			s.shape(presentKeys(has))
		}
	}
}

func intervalBalance(t *mon.T, n, ops int) {
	tr := interval.New[int, int]()
	has := make([]bool, n)
	cnt := 0
	t.Note("interval tree, %d starts, %d operations", n, ops)
	for done := 0; done < ops; {
		p := randomPhase(t, 1+t.Intn(1+ops/2))
		next := sequence(t, p.pattern, n)
		for i := 0; i < p.length && done < ops; i++ {
			done++
			k := next()
			hi := k + t.Intn(n)
			switch t.Weighted([]int{p.put, p.remove, p.get}) {
			case 0:
				t.Op("put", int64(k), int64(hi))
				if t.Bool() {
					tr.Put(k, hi, done)
				} else {
					tr.Add(k, hi, done)
				}
				if !has[k] {
					has[k] = true
					cnt++
				}
			case 1:
				t.Op("remove", int64(k))
				tr.Remove(k)
				if has[k] {
					has[k] = false
					cnt--
				}
			case 2:
				t.Op("get", int64(k))
				tr.Overlaps(k, hi)
			}
			checkHeight(t, "interval", tr.Height(), cnt)
		}
	}
}

// btreeCost counts less calls of a B-tree: levels * node size * a constant.
func btreeCost(t *mon.T, n, ops int) {
	calls := 0
	tr := btree.New[int, int](func(a, b int) bool { calls++; return a < b })
	ever := map[int]struct{}{}
	name, ord := orderings(t, n)
	t.Note("btree, %d keys inserted in %s order, then %d random operations", n, name, ops)
	costed := func(what string, fn func()) {
		calls = 0
		fn()
		t.Check(1)
		t.Max("less_calls_btree_"+what, int64(calls))
		// nodes are at least half full, so there are at most
		// 1 + log_32(N) levels with 64 entries each
		levels := 2
		for m := 32; m < len(ever)+1; m *= 32 {
			levels++
		}
		if b := 600*levels + 100; calls > b {
			t.Fail("btree: %s with %d keys called less %d times (more than %d)", what, len(ever), calls, b)
		}
	}
	for i := 0; i < n; i++ {
		k := ord(i)
		ever[k] = struct{}{}
		t.Op("put", int64(k))
		costed("Put", func() { tr.Put(k, i) })
	}
	for i := 0; i < ops; i++ {
		k := t.Intn(n + 10)
		switch t.Intn(3) {
		case 0:
			t.Op("get", int64(k))
			costed("Get", func() { tr.Get(k) })
		case 1:
			t.Op("remove", int64(k))
			costed("Remove", func() { tr.Remove(k) })
		case 2:
			ever[k] = struct{}{}
			t.Op("put", int64(k))
			costed("Put", func() { tr.Put(k, i) })
		}
	}
}

func init() {
	rule := "A case is a generated history of operations (or, in the exhaustive scenarios, a slice of all short histories or insertion orders) on one to three containers, each operation mirrored on a reference model and compared; its trace hash makes it distinct, and it is non-trivial if it contains at least one operation."
	for _, x := range []struct {
		id  string
		avl bool
	}{{"C01", true}, {"C03", false}} {
		mk := func() mapSUT[int, int64] {
			if x.avl {
				return avlSUT[int, int64](intKeys(3, 0, 1))
			}
			return btreeSUT[int, int64](intKeys(3, 0, 1))
		}
		mon.Register(x.id, rule,
			&mon.Scenario{Name: "small", Quick: 20000, Thorough: 120000, Run: func(t *mon.T) { treeCase(t, true, x.avl) }},
			&mon.Scenario{Name: "medium", Quick: 400, Thorough: 4000, Run: func(t *mon.T) { treeCase(t, false, x.avl) }},
			&mon.Scenario{Name: "growth", Quick: 12, Thorough: 60, Run: func(t *mon.T) { treeGrowth(t, x.avl) }},
			&mon.Scenario{Name: "large", Quick: 12, Thorough: 60, Run: func(t *mon.T) {
				n := t.Pick(15000, 60000) + t.Intn(15000)
				if t.Index < 2 {
					n = 140000
					if x.avl { // whose Size takes linear time
						n = t.Pick(40000, 140000)
					}
				}
				treeLarge(t, x.avl, n)
			}},
			&mon.Scenario{Name: "all-short-histories", Quick: 8, Thorough: 8, Run: func(t *mon.T) {
				shortHistories(t, intKeys(3, 0, 1), intVals(), mk, true, t.Pick(7, 8))
			}},
			&mon.Scenario{Name: "all-insertion-orders", Quick: 8, Thorough: 16, Run: func(t *mon.T) {
				treePerms(t, x.avl, t.Pick(8, 9))
			}},
		)
	}
	mon.Register("C02", "A case is a generated history on a tree whose less function is instrumented (or whose height is read after every operation), or the removal of all keys of a sparsest AVL tree in some order; distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "avl-small", Quick: 3000, Thorough: 60000, Run: func(t *mon.T) { avlBalance(t, 1+t.Intn(40), 60+t.Intn(200), 1) }},
		&mon.Scenario{Name: "avl-medium", Quick: 120, Thorough: 2000, Run: func(t *mon.T) { avlBalance(t, 100+t.Intn(1500), 4000, 97) }},
		&mon.Scenario{Name: "avl-large", Quick: 8, Thorough: 40, Run: func(t *mon.T) { avlBalance(t, t.Pick(50000, 300000), t.Pick(120000, 900000), 40000) }},
		&mon.Scenario{Name: "sparsest-trees", Quick: 660, Thorough: 6600, Run: fibCase},
		&mon.Scenario{Name: "interval-small", Quick: 3000, Thorough: 60000, Run: func(t *mon.T) { intervalBalance(t, 1+t.Intn(60), 100+t.Intn(300)) }},
		&mon.Scenario{Name: "interval-large", Quick: 40, Thorough: 400, Run: func(t *mon.T) { intervalBalance(t, 100+t.Intn(20000), t.Pick(20000, 60000)) }},
		&mon.Scenario{Name: "btree-cost", Quick: 18, Thorough: 90, Run: func(t *mon.T) { btreeCost(t, 100+t.Intn(t.Pick(60000, 300000)), 20000) }},
	)
}
