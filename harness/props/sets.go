package props

import (
	"fmt"
	"maps"
	"sort"

	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"

	"verif/harness/mon"
)

// sliceSet is a set a user might write: a slice in insertion order. While
// frozen it reports any attempt to change it.
type sliceSet[K comparable] struct {
	eq     func(a, b K) bool
	vals   []K
	frozen bool
}

func (s *sliceSet[K]) thaw(what string) {
	if s.frozen {
		panic(mon.Violation{Msg: "set: a set that is only an operand was modified by " + what})
	}
}
func (s *sliceSet[K]) find(v K) int {
	for i, x := range s.vals {
		if s.eq(x, v) {
			return i
		}
	}
	return -1
}
func (s *sliceSet[K]) Put(v K) {
	s.thaw("Put")
	if s.find(v) < 0 {
		s.vals = append(s.vals, v)
	}
}
func (s *sliceSet[K]) Has(v K) bool { return s.find(v) >= 0 }
func (s *sliceSet[K]) Remove(v K) {
	s.thaw("Remove")
	if i := s.find(v); i >= 0 {
		s.vals = append(append([]K{}, s.vals[:i]...), s.vals[i+1:]...)
	}
}
func (s *sliceSet[K]) Clear() {
	s.thaw("Clear")
	s.vals = nil
}
func (s *sliceSet[K]) Size() int { return len(s.vals) }
func (s *sliceSet[K]) Each(fn func(K)) {
	for _, v := range s.vals {
		fn(v)
	}
}

// setKind is an implementation of sets: Set values and raw SetOf operands.
type setKind[K comparable] struct {
	name string
	typ  string
	mk   func(in ...K) set.Set[K]
	raw  func(in ...K) set.SetOf[K]
}

func kindHash[K comparable](ks keyspace[K], hn string, cp uint64) setKind[K] {
	h := hashing(ks, hn)
	return setKind[K]{
		name: fmt.Sprintf("hashset(%s, capacity %d)", hn, cp), typ: fmt.Sprintf("%T", set.NewHashset(1, ks.eq, h).SetOf),
		mk:  func(in ...K) set.Set[K] { return set.NewHashset(cp, ks.eq, h, in...) },
		raw: func(in ...K) set.SetOf[K] { return hashset.Of(cp, ks.eq, h, in...) },
	}
}

func kindMap[K comparable]() setKind[K] {
	return setKind[K]{
		name: "mapset", typ: fmt.Sprintf("%T", set.NewMapset[K]().SetOf),
		mk:  func(in ...K) set.Set[K] { return set.NewMapset(in...) },
		raw: func(in ...K) set.SetOf[K] { return mapset.Of(in...) },
	}
}

func kindSlice[K comparable](ks keyspace[K]) setKind[K] {
	mk := func(in ...K) set.SetOf[K] {
		s := &sliceSet[K]{eq: ks.eq}
		for _, v := range in {
			s.Put(v)
		}
		return s
	}
	return setKind[K]{
		name: "user-defined set", typ: fmt.Sprintf("%T", &sliceSet[K]{}),
		mk:  func(in ...K) set.Set[K] { return set.NewSet(func() set.SetOf[K] { return mk() }, in...) },
		raw: mk,
	}
}

// kindsOf are the implementations to mix; those that use == only where the key
// space's equality is ==.
func kindsOf[K comparable](t *mon.T, ks keyspace[K], native bool) []setKind[K] {
	kinds := []setKind[K]{
		kindHash(ks, "good", capacities[t.Intn(len(capacities))]),
		kindHash(ks, pickHashing(t, ks.n), capacities[t.Intn(len(capacities))]),
	}
	if ks.n <= 200 {
		kinds = append(kinds, kindHash(ks, "straddling the wrap-around", 8), kindSlice(ks))
	}
	if native {
		kinds = append(kinds, kindMap[K]())
	}
	return kinds
}

// operand is a set to operate on together with its model.
type operand[K comparable] struct {
	s   set.Set[K] // SetOf is always set
	of  set.SetOf[K]
	has []bool
	knd string
	typ string
}

type setEnv[K comparable] struct {
	t     *mon.T
	ks    keyspace[K]
	kinds []setKind[K]
	kept  *keeper[K]
	maps  [][2]map[K]struct{} // results of Map that were kept, with copies
}

func newSetEnv[K comparable](t *mon.T, ks keyspace[K], kinds []setKind[K]) *setEnv[K] {
	return &setEnv[K]{t: t, ks: ks, kinds: kinds, kept: newKeeper(t, func(a, b K) bool { return ks.class(a) == ks.class(b) })}
}

func (e *setEnv[K]) elems(has []bool, shuffle bool) []K {
	var out []K
	for c, b := range has {
		if b {
			out = append(out, e.ks.mk(c, e.t.Uint64()))
			if shuffle && e.t.Intn(4) == 0 { // duplicates
				out = append(out, e.ks.mk(c, e.t.Uint64()))
			}
		}
	}
	if shuffle {
		p := e.t.Perm(len(out))
		o := make([]K, len(out))
		for i, j := range p {
			o[i] = out[j]
		}
		out = o
	}
	return out
}

func (e *setEnv[K]) operand(k setKind[K], has []bool) operand[K] {
	in := e.elems(has, true)
	o := operand[K]{has: append([]bool{}, has...), knd: k.name, typ: k.typ}
	switch e.t.Intn(3) {
	case 0:
		o.s = k.mk(in...)
		o.of = o.s
	case 1:
		o.s = k.mk(in...)
		o.of = o.s.SetOf
	default:
		o.s = k.mk()
		o.of = k.raw(in...)
	}
	return o
}

func (e *setEnv[K]) receiver(k setKind[K], has []bool) operand[K] {
	o := operand[K]{has: append([]bool{}, has...), knd: k.name, typ: k.typ}
	o.s = k.mk(e.elems(has, true)...)
	// a past: put and remove others, so that there are holes
	if e.t.Bool() {
		for i := 0; i < 5; i++ {
			c := e.t.Intn(e.ks.n)
			if !has[c] {
				o.s.Put(e.ks.mk(c, 0))
			}
		}
		for c := range has {
			if !has[c] {
				o.s.Remove(e.ks.mk(c, 1))
			}
		}
	}
	if e.t.Bool() {
		o.of = o.s
	} else {
		o.of = o.s.SetOf
	}
	return o
}

func freeze[K comparable](of set.SetOf[K], f bool) {
	if s, ok := of.(set.Set[K]); ok {
		of = s.SetOf
	}
	if s, ok := of.(*sliceSet[K]); ok {
		s.frozen = f
	}
}

// equals compares a set with a model.
func (e *setEnv[K]) equals(what string, s set.SetOf[K], has []bool) {
	n := 0
	for _, b := range has {
		if b {
			n++
		}
	}
	e.t.Check(2 + len(has))
	size := func() {
		if s.Size() != n {
			e.t.Fail("set: %s has Size() = %d, expected %d", what, s.Size(), n)
		}
	}
	look := func(c int) {
		if b := has[c]; s.Has(e.ks.mk(c, 3)) != b {
			e.t.Fail("set: %s: Has(class %d) = %v, expected %v", what, c, !b, b)
		}
	}
	e.t.Shuffle(size, func() {
		for c := range has {
			look(c)
		}
	}, func() {
		inner := e.t.Inner(n)
		if n > 500 && e.t.Intn(8) > 0 {
			inner = -1
		}
		e.each(what, s, has, n, inner, func() {
			size()
			look(e.t.Intn(len(has)))
		})
	})
}

func (e *setEnv[K]) each(what string, s set.SetOf[K], has []bool, n, inner int, within func()) {
	seen := make([]bool, len(has))
	at, all := 0, n
	s.Each(func(k K) {
		if at++; at-1 == inner {
			e.t.Event("queries_within_a_traversal", 1)
			within()
			if e.t.Bool() {
				e.each(what+", within a traversal", s, has, all, -1, nil)
			}
			within()
		}
		c := e.ks.class(k)
		if c < 0 || c >= len(has) || !has[c] {
			e.t.Fail("set: %s: Each visits %v, which should not be in it", what, k)
		}
		if seen[c] {
			e.t.Fail("set: %s: Each visits %v twice", what, k)
		}
		seen[c] = true
		n--
	})
	if n != 0 {
		e.t.Fail("set: %s: Each misses %d elements", what, n)
	}
}

func (e *setEnv[K]) views(what string, s set.Set[K], has []bool) {
	e.equals(what, s, has)
	var exp []string
	keys := s.Keys()
	mp := s.Map()
	n := 0
	seen := make([]bool, len(has))
	for _, k := range keys {
		c := e.ks.class(k)
		if c < 0 || !has[c] || seen[c] {
			e.t.Fail("set: %s: Keys returns %v", what, keys)
		}
		seen[c] = true
		n++
		if _, ok := mp[k]; !ok {
			e.t.Fail("set: %s: Map misses %v", what, k)
		}
		exp = append(exp, fmt.Sprint(k))
	}
	for _, b := range has {
		if b {
			n--
		}
	}
	e.t.Check(3)
	if n != 0 || len(mp) != len(keys) {
		e.t.Fail("set: %s: Keys returns %d elements and Map %d, expected %d", what, len(keys), len(mp), len(keys)-n)
	}
	sort.Strings(exp)
	if got, want := s.String(), fmt.Sprint(exp); got != want {
		e.t.Fail("set: %s: String() = %q, expected %q", what, got, want)
	}
	// they are snapshots
	e.kept.all()
	for _, x := range e.maps {
		e.t.Check(1)
		if !maps.Equal(x[0], x[1]) {
			e.t.Fail("set: the result of an earlier Map has changed: it has %d elements, expected %d", len(x[0]), len(x[1]))
		}
	}
	if e.t.Bool() {
		e.kept.keep("set: Keys", keys)
		if len(e.maps) > 3 {
			e.maps = e.maps[1:]
		}
		e.maps = append(e.maps, [2]map[K]struct{}{mp, maps.Clone(mp)})
	} else {
		for i := range keys {
			keys[i] = e.ks.mk(0, 0)
		}
		for k := range mp {
			delete(mp, k)
		}
	}
	e.equals(what+" after writing to Keys and Map", s, has)
	cl := s.Clone()
	e.equals("the clone of "+what, cl, has)
	e.independent("Clone of "+what, cl, has, []operand[K]{{s: s, of: s, has: has, knd: what}})
}

// independent changes res and checks that the operands do not notice, then
// changes a receiver and checks that res does not.
func (e *setEnv[K]) independent(what string, res set.Set[K], has []bool, ops []operand[K]) {
	mod := append([]bool{}, has...)
	for i := 0; i < 3; i++ {
		c := e.t.Intn(e.ks.n)
		if mod[c] = !mod[c]; mod[c] {
			res.Put(e.ks.mk(c, 0))
		} else {
			res.Remove(e.ks.mk(c, 0))
		}
	}
	e.equals(what+" after changing it", res, mod)
	for _, o := range ops {
		e.equals(fmt.Sprintf("operand %s after changing the result of %s", o.knd, what), o.of, o.has)
	}
	res.Clear()
	for _, o := range ops {
		e.equals(fmt.Sprintf("operand %s after clearing the result of %s", o.knd, what), o.of, o.has)
	}
}

var setOps = []string{"Union", "Intersection", "Difference", "SymmetricDifference",
	"ConstUnion", "ConstIntersection", "ConstDifference", "ConstSymmetricDifference",
	"InPlaceUnion", "InPlaceIntersection", "InPlaceDifference"}

// expected is the mathematical result; spec tells for which elements it is
// specified (nil: all).
func expected(op string, recv []bool, others [][]bool) (res []bool, spec []bool) {
	n := len(recv)
	res = append([]bool{}, recv...)
	switch op {
	case "Union", "ConstUnion", "InPlaceUnion":
		for _, o := range others {
			for c := 0; c < n; c++ {
				res[c] = res[c] || o[c]
			}
		}
	case "Intersection", "ConstIntersection", "InPlaceIntersection":
		for _, o := range others {
			for c := 0; c < n; c++ {
				res[c] = res[c] && o[c]
			}
		}
	case "Difference", "ConstDifference", "InPlaceDifference":
		for _, o := range others {
			for c := 0; c < n; c++ {
				res[c] = res[c] && !o[c]
			}
		}
	default:
		spec = make([]bool, n)
		for c := 0; c < n; c++ {
			k := 0
			if recv[c] {
				k++
			}
			for _, o := range others {
				if o[c] {
					k++
				}
			}
			spec[c] = k <= 2
			res[c] = k == 1
		}
	}
	return res, spec
}

// op applies one operation and compares everything.
func (e *setEnv[K]) op(op string, recv operand[K], others []operand[K]) {
	t := e.t
	var models [][]bool
	var args []set.SetOf[K]
	all := []operand[K]{recv}
	for _, o := range others {
		models = append(models, o.has)
		args = append(args, o.of)
		all = append(all, o)
	}
	isConst := len(op) > 5 && op[:5] == "Const"
	inPlace := len(op) > 7 && op[:7] == "InPlace"
	var vals []K
	if isConst {
		un, _ := expected("Union", make([]bool, e.ks.n), models)
		models = [][]bool{un}
		vals = e.elems(un, true)
	}
	want, spec := expected(op, recv.has, models)
	what := fmt.Sprintf("%s of a %s", op, recv.knd)
	for _, o := range others {
		what += ", " + o.knd
	}
	for i, o := range all {
		if i > 0 || !inPlace {
			freeze(o.of, true)
		}
	}
	if inPlace {
		freeze(recv.of, false)
	}
	t.Op(op, int64(len(others)), bitsOf(recv.has), bitsOf(models...))
	var res set.Set[K]
	switch op {
	case "Union":
		res = recv.s.Union(args...)
	case "Intersection":
		res = recv.s.Intersection(args...)
	case "Difference":
		res = recv.s.Difference(args...)
	case "SymmetricDifference":
		res = recv.s.SymmetricDifference(args...)
	case "ConstUnion":
		res = recv.s.ConstUnion(vals...)
	case "ConstIntersection":
		res = recv.s.ConstIntersection(vals...)
	case "ConstDifference":
		res = recv.s.ConstDifference(vals...)
	case "ConstSymmetricDifference":
		res = recv.s.ConstSymmetricDifference(vals...)
	case "InPlaceUnion":
		res = recv.s.InPlaceUnion(args...)
	case "InPlaceIntersection":
		res = recv.s.InPlaceIntersection(args...)
	case "InPlaceDifference":
		res = recv.s.InPlaceDifference(args...)
	}
	for _, o := range all {
		freeze(o.of, false)
	}
	t.Event(op, 1)
	if spec != nil {
		for c, ok := range spec {
			if !ok {
				want[c] = res.Has(e.ks.mk(c, 0)) // an element of three or more operands
			}
		}
	}
	t.Check(1)
	if got := fmt.Sprintf("%T", res.SetOf); got != recv.typ {
		t.Fail("set: %s is a %s, expected the receiver's kind %s", what, got, recv.typ)
	}
	e.equals("the result of "+what, res, want)
	if inPlace {
		e.equals("the receiver of "+what, recv.s, want)
		for _, o := range all[1:] {
			e.equals(fmt.Sprintf("operand %s of %s", o.knd, what), o.of, o.has)
		}
		return
	}
	for _, o := range all {
		e.equals(fmt.Sprintf("operand %s of %s", o.knd, what), o.of, o.has)
	}
	if t.Intn(8) == 0 {
		e.views("the result of "+what, res, want)
	}
	e.independent(what, res, want, all)
	// the result's own operations make independent sets, too
	if t.Intn(8) == 0 {
		res.Put(e.ks.mk(0, 0))
		again := res.ConstUnion(e.ks.mk(e.ks.n-1, 0))
		again.Remove(e.ks.mk(0, 0))
		t.Assert(res.Has(e.ks.mk(0, 0)), "set: a result of a result of %s is not independent", what)
	}
}

func mask(n, m int) []bool {
	has := make([]bool, n)
	for i := range has {
		has[i] = m>>i&1 == 1
	}
	return has
}

func randomSubset(t *mon.T, n int) []bool {
	has := make([]bool, n)
	d := []int{0, 1, 3, 6, 9, 10}[t.Intn(6)]
	for i := range has {
		has[i] = t.Intn(10) < d
	}
	return has
}

// setPairs runs every operation on every pair of subsets of a small universe
// and every pair of implementations.
func setPairs[K comparable](t *mon.T, ks keyspace[K], native bool, rel bool) {
	n := ks.n
	e := newSetEnv(t, ks, kindsOf(t, ks, native))
	t.Note("every pair of subsets of %d %s elements, every pair of %d implementations", n, ks.name, len(e.kinds))
	i := 0
	for a := 0; a < 1<<n; a++ {
		for b := 0; b < 1<<n; b++ {
			i++
			if i%t.Count != t.Index {
				continue
			}
			for _, ka := range e.kinds {
				for _, kb := range e.kinds {
					if rel {
						e.relations(e.receiver(ka, mask(n, a)), e.operand(kb, mask(n, b)))
						continue
					}
					for _, op := range setOps {
						e.op(op, e.receiver(ka, mask(n, a)), []operand[K]{e.operand(kb, mask(n, b))})
					}
				}
				if b == a {
					for _, op := range setOps {
						r := e.receiver(ka, mask(n, a))
						if rel {
							e.relations(r, r)
						} else if op[:1] != "C" {
							e.self(op, r, nil)
						}
					}
				}
			}
		}
	}
}

// self runs an operation with the receiver among its operands.
func (e *setEnv[K]) self(op string, r operand[K], others []operand[K]) {
	o := r
	if e.t.Bool() {
		o.of = r.s
	} else {
		o.of = r.s.SetOf
	}
	i := e.t.Intn(len(others) + 1)
	args := append(append(append([]operand[K]{}, others[:i]...), o), others[i:]...)
	e.opSelf(op, r, args, i)
}

func (e *setEnv[K]) opSelf(op string, recv operand[K], others []operand[K], selfAt int) {
	t := e.t
	inPlace := len(op) > 7 && op[:7] == "InPlace"
	var models [][]bool
	var args []set.SetOf[K]
	for _, o := range others {
		models = append(models, o.has)
		args = append(args, o.of)
	}
	want, spec := expected(op, recv.has, models)
	what := fmt.Sprintf("%s of a %s with itself", op, recv.knd)
	t.Op(op+" with self", int64(len(others)))
	for i, o := range others {
		if i != selfAt || !inPlace {
			freeze(o.of, true)
		}
	}
	var res set.Set[K]
	switch op {
	case "Union":
		res = recv.s.Union(args...)
	case "Intersection":
		res = recv.s.Intersection(args...)
	case "Difference":
		res = recv.s.Difference(args...)
	case "SymmetricDifference":
		res = recv.s.SymmetricDifference(args...)
	case "InPlaceUnion":
		res = recv.s.InPlaceUnion(args...)
	case "InPlaceIntersection":
		res = recv.s.InPlaceIntersection(args...)
	case "InPlaceDifference":
		res = recv.s.InPlaceDifference(args...)
	}
	for _, o := range others {
		freeze(o.of, false)
	}
	t.Event(op+"_with_itself", 1)
	for c, ok := range spec {
		if !ok {
			want[c] = res.Has(e.ks.mk(c, 0))
		}
	}
	e.equals("the result of "+what, res, want)
	for i, o := range others {
		if i != selfAt {
			e.equals("another operand of "+what, o.of, o.has)
		}
	}
	if inPlace {
		e.equals("the receiver of "+what, recv.s, want)
		return
	}
	e.equals("the receiver of "+what, recv.s, recv.has)
	e.independent(what, res, want, []operand[K]{recv})
}

func setRandom[K comparable](t *mon.T, ks keyspace[K], native bool, rounds int, rel bool) {
	e := newSetEnv(t, ks, kindsOf(t, ks, native))
	t.Note("%s elements (%d), %d implementations, %d operations", ks.name, ks.n, len(e.kinds), rounds)
	for i := 0; i < rounds; i++ {
		r := e.receiver(e.kinds[t.Intn(len(e.kinds))], randomSubset(t, ks.n))
		mkop := func() operand[K] {
			has := randomSubset(t, ks.n)
			switch t.Intn(4) {
			case 0: // close to the receiver
				has = append([]bool{}, r.has...)
				for j := t.Intn(3); j > 0; j-- {
					c := t.Intn(ks.n)
					has[c] = !has[c]
				}
			case 1: // disjoint
				for c := range has {
					has[c] = has[c] && !r.has[c]
				}
			}
			return e.operand(e.kinds[t.Intn(len(e.kinds))], has)
		}
		if rel {
			o := mkop()
			e.relations(r, o)
			continue
		}
		if t.Intn(6) == 0 {
			e.views("a "+r.knd, r.s, r.has)
		}
		op := setOps[t.Intn(len(setOps))]
		var others []operand[K]
		k := t.Intn(5)
		if t.Intn(40) == 0 {
			if k = 5 + t.Intn(30); ks.n < 30 && t.Intn(4) == 0 {
				k = 250 + t.Intn(20)
			}
		}
		t.Max("operands", int64(k))
		for ; k > 0; k-- {
			if len(others) > 0 && t.Intn(4) == 0 {
				others = append(others, others[t.Intn(len(others))])
			} else {
				others = append(others, mkop())
			}
		}
		if t.Intn(5) == 0 && op[:1] != "C" {
			e.self(op, r, others)
		} else {
			e.op(op, r, others)
		}
	}
}

// setCounts runs every operation with each number of operands in turn. The
// operands are such that each can make a difference: full but for few elements
// for intersections, and nearly empty otherwise.
func setCounts(t *mon.T) {
	ks := intKeys(12, -3, 1)
	e := newSetEnv(t, ks, kindsOf(t, ks, true))
	op := setOps[t.Index%len(setOps)]
	k := t.Index / len(setOps)
	t.Note("%s of %d operands", op, k)
	r := e.receiver(e.kinds[t.Intn(len(e.kinds))], randomSubset(t, ks.n))
	full := op == "Intersection" || op == "InPlaceIntersection"
	if full {
		for c := range r.has {
			r.has[c] = true
		}
		r = e.receiver(e.kinds[t.Intn(len(e.kinds))], r.has)
	}
	var others []operand[int]
	for i := 0; i < k; i++ {
		has := make([]bool, ks.n)
		for c := range has {
			has[c] = full != (t.Intn(ks.n/2+k) == 0 || i == k-1 && t.Intn(4) == 0)
		}
		others = append(others, e.operand(e.kinds[t.Intn(len(e.kinds))], has))
	}
	t.Max("operands", int64(k))
	e.op(op, r, others)
}

// relations compares every relation with the models.
func (e *setEnv[K]) relations(a, b operand[K]) {
	sub, sup, dis := true, true, true
	for c := range a.has {
		x, y := a.has[c], b.has[c]
		sub = sub && (!x || y)
		sup = sup && (!y || x)
		dis = dis && !(x && y)
	}
	eq := sub && sup
	t := e.t
	t.Op("relations", bitsOf(a.has), bitsOf(b.has))
	freeze(a.of, true)
	freeze(b.of, true)
	is := func(name string, got, want bool) {
		t.Check(1)
		if got != want {
			t.Fail("set: %s of %s %v and %s %v = %v", name, a.knd, classesOf(a.has), b.knd, classesOf(b.has), got)
		}
		if want {
			t.Event(name+"_true", 1)
		} else {
			t.Event(name+"_false", 1)
		}
	}
	is("IsSubset", a.s.IsSubset(b.of), sub)
	is("IsSuperset", a.s.IsSuperset(b.of), sup)
	is("IsProperSubset", a.s.IsProperSubset(b.of), sub && !eq)
	is("IsProperSuperset", a.s.IsProperSuperset(b.of), sup && !eq)
	is("Equal", a.s.Equal(b.of), eq)
	is("IsDisjoint", a.s.IsDisjoint(b.of), dis)
	freeze(a.of, false)
	freeze(b.of, false)
	e.equals("the receiver of a relation", a.s, a.has)
	e.equals("the argument of a relation", b.of, b.has)
}

func bitsOf(ms ...[]bool) int64 {
	h := uint64(len(ms))
	for _, m := range ms {
		for c, b := range m {
			if b {
				h = mon.Mix(h, uint64(c))
			}
		}
	}
	return int64(h)
}

func classesOf(has []bool) []int {
	var out []int
	for c, b := range has {
		if b && len(out) < 12 {
			out = append(out, c)
		}
	}
	return out
}

func setAlgebraCase(t *mon.T, n, rounds int, rel bool) {
	switch t.Index % 8 {
	case 0:
		setRandom(t, intKeys(n, -n/2, 1), true, rounds, rel)
	case 1:
		setRandom(t, strKeys(n), true, rounds, rel)
	case 2:
		setRandom(t, foldKeys(n), false, rounds, rel)
	case 3:
		setRandom(t, tagKeys(n), false, rounds, rel)
	case 4:
		setRandom(t, anyKeys(n), true, rounds, rel)
	case 5:
		setRandom(t, pairKeys(n), true, rounds, rel)
	case 6:
		setRandom(t, floatKeys(n), true, rounds, rel)
	default:
		setRandom(t, extremeKeys(n+2), true, rounds, rel)
	}
}

func init() {
	rule := "A case is a set of operations on sets of generated (or, in the exhaustive scenarios, all) subsets of a universe, for every mix of mapset, hashset with several hash functions and capacities, and a user-defined set that reports being modified; the result, the receiver and the operands are compared with the mathematical sets. Distinct by trace hash (configuration and operations), non-trivial if it contains at least one operation."
	for _, x := range []struct {
		id  string
		rel bool
	}{{"C09", false}, {"C10", true}} {
		mon.Register(x.id, rule,
			&mon.Scenario{Name: "all-pairs-int", Quick: 16, Thorough: 64, Run: func(t *mon.T) { setPairs(t, intKeys(t.Pick(4, 5), -2, 1), true, x.rel) }},
			&mon.Scenario{Name: "all-pairs-folded", Quick: 16, Thorough: 64, Run: func(t *mon.T) { setPairs(t, foldKeys(t.Pick(4, 5)), false, x.rel) }},
			&mon.Scenario{Name: "all-pairs-any", Quick: 16, Thorough: 64, Run: func(t *mon.T) { setPairs(t, anyKeys(t.Pick(4, 5)), true, x.rel) }},
			&mon.Scenario{Name: "random-small", Quick: 2400, Thorough: 60000, Run: func(t *mon.T) { setAlgebraCase(t, 1+t.Intn(12), 20, x.rel) }},
			&mon.Scenario{Name: "random-medium", Quick: 300, Thorough: 6000, Run: func(t *mon.T) { setAlgebraCase(t, 20+t.Intn(150), 15, x.rel) }},
			&mon.Scenario{Name: "random-large", Quick: 24, Thorough: 300, Run: func(t *mon.T) { setAlgebraCase(t, 1000+t.Intn(3000), 6, x.rel) }},
		)
	}
	mon.Register("C09", rule, &mon.Scenario{Name: "operand-counts", Quick: 20 * len(setOps), Thorough: 250 * len(setOps), Run: setCounts})
}
