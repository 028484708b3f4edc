package props

import (
	"fmt"
	"math/bits"
	"strconv"
	"sync/atomic"

	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"

	"verif/harness/mon"
)

// elems makes distinguishable elements of a type.
type elems[T any] struct {
	name string
	mk   func(i int) T
}

type triple struct {
	a int32
	b string
	c *int
}

var ropePtrs [64]int

var (
	byteElems = elems[byte]{"byte", func(i int) byte {
		if i%11 == 0 {
			return 0
		}
		return byte(i*7 + 1)
	}}
	intElems = elems[int]{"int", func(i int) int {
		switch {
		case i%13 == 0:
			return 0
		case i%17 == 0:
			return -i
		}
		return i*3 + 1
	}}
	stringElems = elems[string]{"string", func(i int) string {
		if i%13 == 0 {
			return ""
		}
		return "s" + strconv.Itoa(i)
	}}
	unitElems = elems[struct{}]{"struct{}", func(i int) struct{} { return struct{}{} }}
	funcElems = elems[func() int]{"function", func(i int) func() int {
		if i%9 == 0 {
			return nil
		}
		return func() int { return i }
	}}
	sliceElems = elems[[]int]{"slice", func(i int) []int {
		switch i % 9 {
		case 0:
			return nil
		case 1:
			return []int{}
		}
		return []int{i, -i}
	}}
	anyElems = elems[any]{"any", func(i int) any {
		switch i % 5 {
		case 0:
			return nil
		case 1:
			return i
		case 2:
			return strconv.Itoa(i)
		case 3:
			return []int{i}
		}
		return func() int { return i }
	}}
	structElems = elems[triple]{"struct", func(i int) triple {
		if i%11 == 0 {
			return triple{}
		}
		return triple{int32(i), strconv.Itoa(i % 10), &ropePtrs[i&63]}
	}}
)

// thresholds are settings of the package variables.
type thresholds struct {
	split, join int
	ratio       float64
}

var (
	ropeDefaults  = thresholds{rope.SplitLength, rope.JoinLength, rope.RebalanceRatio}
	propeDefaults = thresholds{prope.SplitLength, prope.JoinLength, prope.RebalanceRatio}
)

func (s thresholds) String() string { return fmt.Sprintf("split %d join %d", s.split, s.join) }

func (s thresholds) setRope() {
	rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = s.split, s.join, s.ratio
}

func (s thresholds) setPrope() {
	prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = s.split, s.join, s.ratio
}

// diff returns the first position at which the slices differ, or -1.
func diff[T any](a, b []T) int {
	for i := range a {
		if i >= len(b) || !eqv(a[i], b[i]) {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}

func cat[T any](parts ...[]T) []T {
	var r []T
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func hashElems[T any](n int, s []T) uint64 {
	h := uint64(n)
	for _, x := range s {
		switch f := any(x).(type) {
		case func() int:
			h = mon.Mix(h, 1)
			if f != nil {
				h = mon.Mix(h, uint64(f()))
			}
		default:
			h = mon.Mix(h, mon.HashStr(fmt.Sprint(x)))
		}
	}
	return h
}

// same reports a violation unless got is want.
func same[T any](t *mon.T, what string, got, want []T) {
	t.Check(1)
	if i := diff(got, want); i >= 0 {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = fmt.Sprint(got[i])
		}
		if i < len(want) {
			w = fmt.Sprint(want[i])
		}
		t.Fail("%s: differs from the expected value at position %d: %s, expected %s (lengths %d and %d)", what, i, g, w, len(got), len(want))
	}
}

// --- C20, C23: rope --------------------------------------------------------

type ropeVal[T any] struct {
	n     *rope.Node[T]
	model []T
}

type ropeMon[T any] struct {
	t       *mon.T
	el      elems[T]
	s       thresholds
	chunks  bool // check chunk sizes (C23) rather than contents
	next    int
	arena   []T // what ropes are created from, with guards in between
	guards  []int
	gval    []T
	pool    []*ropeVal[T]
	maxLen  int
	vary    bool     // change the thresholds along the way
	foreign [][2][]T // slices given to Insert: what they are and must stay until we change them
}

func (m *ropeMon[T]) fresh(n int) []T {
	r := make([]T, n)
	for i := range r {
		m.next++
		r[i] = m.el.mk(m.next)
	}
	return r
}

// create makes a rope over a part of the arena that has guarded elements on
// both sides.
func (m *ropeMon[T]) create(n int) *ropeVal[T] {
	t := m.t
	t.Op("New", int64(n))
	var part []T
	if need := n + 2; m.arena != nil && cap(m.arena)-len(m.arena) >= need {
		guard := func() {
			m.next++
			x := m.el.mk(m.next)
			m.guards = append(m.guards, len(m.arena))
			m.gval = append(m.gval, x)
			m.arena = append(m.arena, x)
		}
		if len(m.guards) == 0 || m.guards[len(m.guards)-1] != len(m.arena)-1 {
			guard()
		}
		lo := len(m.arena)
		m.arena = append(m.arena, m.fresh(n)...)
		part = m.arena[lo : lo+n] // with the rest of the arena as spare capacity
		if t.Bool() {
			guard() // otherwise the next rope starts right behind this one
		}
	} else {
		part = m.fresh(n)
	}
	v := &ropeVal[T]{model: append([]T(nil), part...)}
	v.n = rope.New(part)
	return v
}

func (m *ropeMon[T]) checkGuards() {
	m.t.Check(1)
	for i, at := range m.guards {
		if !eqv(m.arena[at], m.gval[i]) {
			m.t.Fail("rope: an element outside the slices given to New was overwritten")
		}
	}
}

// look compares the rope with its model.
func (m *ropeMon[T]) look(v *ropeVal[T], full bool) {
	t := m.t
	t.Check(1)
	w := v.model
	if m.chunks {
		if n := v.n.Len(); n != len(w) {
			t.Fail("rope: Len() = %d, expected %d", n, len(w))
		}
		m.lookChunks(v, false)
		return
	}
	length := func() {
		if n := v.n.Len(); n != len(w) {
			t.Fail("rope: Len() = %d, expected %d", n, len(w))
		}
	}
	value := func() {
		if full {
			same(t, "rope: Value()", v.n.Value(), w)
		}
	}
	slices := func() {
		for i := 0; i < 2; i++ {
			a := t.Intn(len(w) + 1)
			b := a + t.Intn(len(w)-a+1)
			if len(w) > 1000 && t.Bool() {
				b = min(len(w), a+t.Intn(60))
			}
			same(t, fmt.Sprintf("rope: Slice(%d, %d) of %d", a, b, len(w)), v.n.Slice(a, b), w[a:b])
		}
	}
	at := func() {
		for i := 0; i < 3 && len(w) > 0; i++ {
			p := t.Intn(len(w))
			if x := v.n.At(p); !eqv(x, w[p]) {
				t.Fail("rope: At(%d) = %v, expected %v", p, x, w[p])
			}
		}
	}
	t.Shuffle(length, value, slices, at, func() {
		if !full {
			return
		}
		var cc []T
		k := 0
		inner := t.Inner(8)
		v.n.Each(func(c *rope.Node[T]) {
			if k++; k-1 == inner {
				t.Event("queries_within_a_traversal", 1)
				t.Shuffle(length, value, slices, at)
			}
			if c.Len() != len(c.Value()) {
				t.Fail("rope: a chunk has Len() = %d and %d elements", c.Len(), len(c.Value()))
			}
			cc = append(cc, c.Value()...)
		})
		same(t, "rope: chunks of Each", cc, w)
		if len(w) <= 400 {
			t.State(hashElems(len(w), w))
		}
	})
}

// lookChunks checks the chunks against the thresholds.
func (m *ropeMon[T]) lookChunks(v *ropeVal[T], rebuilt bool) {
	t := m.t
	at, k := 0, 0
	v.n.Each(func(c *rope.Node[T]) {
		k++
		x := c.Value()
		if len(x) > m.s.split {
			t.Fail("rope: a chunk has %d elements with SplitLength %d", len(x), m.s.split)
		}
		if rebuilt && len(v.model) > m.s.split && len(x) < m.s.split/2 {
			t.Fail("rope: Rebuild of %d elements leaves a chunk of %d with SplitLength %d", len(v.model), len(x), m.s.split)
		}
		if c.Len() != len(x) || at+len(x) > len(v.model) || diff(x, v.model[at:at+len(x)]) >= 0 {
			t.Fail("rope: chunk %d does not continue the value of the rope at %d", k, at)
		}
		at += len(x)
	})
	t.Check(k + 2)
	t.Max("chunks", int64(k))
	t.Event("chunks_seen", int64(k))
	if at != len(v.model) {
		t.Fail("rope: the chunks have %d elements, the rope %d", at, len(v.model))
	}
	if len(v.model) < m.s.join && k != 1 {
		t.Fail("rope: %d elements are in %d chunks with JoinLength %d", len(v.model), k, m.s.join)
	}
	t.State(mon.Mix(uint64(len(v.model)), uint64(k)))
}

// position returns a position of a rope of n elements, likely a special one.
func (m *ropeMon[T]) position(n int) int { return ropePosition(m.t, n, m.s.split) }

func ropePosition(t *mon.T, n, split int) int {
	switch t.Intn(8) {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		return n / 2
	case 3:
		return min(n, split*t.Intn(4))
	case 4:
		return n / 4 * t.Intn(4)
	}
	return t.Intn(n + 1)
}

// amount returns a number of elements to insert or remove.
func ropeAmount(t *mon.T, split, join int) int {
	switch t.Intn(7) {
	case 0:
		return 0
	case 1:
		return t.Intn(2*split + 2)
	case 2:
		return max(0, split+t.Intn(3)-1)
	case 3:
		return max(0, join+t.Intn(3)-1)
	case 4:
		return t.Intn(split/2 + 2)
	}
	return 1 + t.Intn(3)
}

func (m *ropeMon[T]) insert(v *ropeVal[T], pos int, part []T) {
	w := append([]T(nil), part...)
	v.n.Insert(pos, part)
	v.model = cat(v.model[:pos], w, v.model[pos:])
}

// anyThresholds is a setting of the package variables.
func anyThresholds(t *mon.T) thresholds {
	s := thresholds{split: 1 + t.Intn(12), ratio: []float64{1, 1.05, 1.2, 1.5, 2, 8}[t.Intn(6)]}
	s.join = t.Intn(s.split + 1)
	switch t.Intn(6) {
	case 0:
		s.split = 20 + t.Intn(60)
	case 1:
		s.join = s.split + t.Intn(6)
	}
	return s
}

func (m *ropeMon[T]) step() {
	t := m.t
	if m.vary && t.Intn(8) == 0 {
		m.s = anyThresholds(t)
		t.Op("thresholds", int64(m.s.split), int64(m.s.join), int64(m.s.ratio*100))
		m.s.setRope()
	}
	i := t.Intn(len(m.pool))
	v := m.pool[i]
	n := len(v.model)
	rebuilt := false
	switch t.Weighted([]int{24, 20, 6, 7, 7, 4, 4, 3, 3}) {
	case 0:
		if n > m.maxLen {
			return
		}
		pos, part := m.position(n), m.fresh(ropeAmount(t, m.s.split, m.s.join))
		if t.Bool() {
			part = append(make([]T, 0, len(part)+t.Intn(5)), part...)
		}
		t.Op("Insert", int64(i), int64(pos), int64(len(part)))
		keep := append([]T(nil), part...)
		m.insert(v, pos, part)
		same(t, "rope: the slice given to Insert, afterwards,", part, keep)
		for j := range part { // the rope has its own copy
			m.next++
			part[j] = m.el.mk(m.next)
		}
		part = append(part, m.fresh(1)...)
		if len(part) < 200 {
			m.foreign = append(m.foreign, [2][]T{part, append([]T(nil), part...)})
		}
		if len(m.foreign) > 4 {
			m.foreign = m.foreign[1:]
		}
	case 1:
		a := m.position(n)
		b := min(n, a+ropeAmount(t, m.s.split, m.s.join))
		switch t.Intn(12) {
		case 0:
			a, b = 0, n
		case 1:
			b = n
		case 2:
			a, b = 0, a
		}
		t.Op("Remove", int64(i), int64(a), int64(b))
		v.n.Remove(a, b)
		v.model = cat(v.model[:a], v.model[b:])
	case 2: // part of the rope itself
		if n > m.maxLen {
			return
		}
		pos := m.position(n)
		var part []T
		var w []T
		if t.Bool() {
			t.Op("InsertOwnValue", int64(i), int64(pos))
			part, w = v.n.Value(), v.model
		} else {
			a := m.position(n)
			b := a + t.Intn(n-a+1)
			t.Op("InsertOwnSlice", int64(i), int64(pos), int64(a), int64(b))
			part, w = v.n.Slice(a, b), v.model[a:b]
		}
		w = append([]T(nil), w...)
		v.n.Insert(pos, part)
		v.model = cat(v.model[:pos], w, v.model[pos:])
	case 3:
		pos := m.position(n)
		t.Op("SplitAt", int64(i), int64(pos))
		l, r := v.n.SplitAt(pos)
		lm, rm := append([]T(nil), v.model[:pos]...), append([]T(nil), v.model[pos:]...)
		m.pool[i] = &ropeVal[T]{l, lm}
		m.pool = append(m.pool, &ropeVal[T]{r, rm})
		m.look(m.pool[i], true)
		m.look(m.pool[len(m.pool)-1], true)
		m.look(m.pool[i], true)
		return
	case 4:
		if len(m.pool) < 2 {
			return
		}
		var parts []*ropeVal[T]
		k := min(len(m.pool), 2+t.Intn(3))
		if t.Intn(3) > 0 {
			k = 2
		}
		t.Op("Join", int64(k))
		for j := 0; j < k; j++ {
			x := t.Intn(len(m.pool))
			parts = append(parts, m.pool[x])
			m.pool = append(m.pool[:x:x], m.pool[x+1:]...)
		}
		var rest []*rope.Node[T]
		nv := &ropeVal[T]{model: cat(parts[0].model, parts[1].model)}
		for _, p := range parts[2:] {
			rest = append(rest, p.n)
			nv.model = append(nv.model, p.model...)
		}
		nv.n = rope.Join(parts[0].n, parts[1].n, rest...)
		m.pool = append(m.pool, nv)
		v = nv
	case 5:
		t.Op("Rebuild", int64(i))
		v.n.Rebuild()
		rebuilt = true
	case 6:
		t.Op("Rebalance", int64(i))
		v.n.Rebalance()
	case 7:
		if len(m.pool) < 5 {
			m.pool = append(m.pool, m.create(ropeAmount(t, m.s.split, m.s.join)+t.Intn(20)))
			v = m.pool[len(m.pool)-1]
		}
	case 8: // part of another rope
		o := m.pool[t.Intn(len(m.pool))]
		if n > m.maxLen || o == v {
			return
		}
		a := m.position(len(o.model))
		b := a + t.Intn(len(o.model)-a+1)
		pos := m.position(n)
		t.Op("InsertOther", int64(i), int64(pos), int64(a), int64(b))
		m.insert(v, pos, o.n.Slice(a, b))
	}
	if m.chunks && rebuilt {
		m.lookChunks(v, true)
	}
	if !t.Gap() {
		m.look(v, true)
	}
}

func ropeRun[T any](t *mon.T, el elems[T], s thresholds, chunks bool, ops, maxLen int) {
	m := &ropeMon[T]{t: t, el: el, s: s, chunks: chunks, maxLen: maxLen, vary: s.split == 0}
	if m.vary {
		m.s = anyThresholds(t)
		m.s.setRope()
		s = m.s
	}
	size := 0
	switch t.Intn(4) {
	case 0:
	case 1:
		size = t.Intn(maxLen + 1)
	default:
		size = t.Intn(4*s.split + 2)
	}
	size = min(size, maxLen)
	m.arena = make([]T, 0, 4*maxLen+40)
	t.Note("%s ropes, %v, %d elements, %d operations", el.name, s, size, ops)
	m.pool = []*ropeVal[T]{m.create(size)}
	m.look(m.pool[0], true)
	if t.Bool() {
		m.pool = append(m.pool, m.create(t.Intn(size+2)))
	}
	for i := 0; i < ops; i++ {
		m.step()
		if i%8 == 7 || i == ops-1 {
			for _, v := range m.pool {
				m.look(v, true)
			}
			m.checkGuards()
			for _, f := range m.foreign {
				same(t, "rope: a slice given to Insert earlier", f[0], f[1])
			}
		}
		t.Max("rope_length", int64(m.pool[0].n.Len()))
	}
}

func ropeCase(t *mon.T, s thresholds, chunks bool, ops, maxLen int) {
	switch t.Intn(8) {
	case 0:
		ropeRun(t, byteElems, s, chunks, ops, maxLen)
	case 1:
		ropeRun(t, stringElems, s, chunks, ops, maxLen)
	case 2:
		ropeRun(t, structElems, s, chunks, ops, maxLen)
	case 3:
		ropeRun(t, funcElems, s, chunks, ops, maxLen)
	case 4:
		ropeRun(t, sliceElems, s, chunks, ops, maxLen)
	case 5:
		ropeRun(t, anyElems, s, chunks, ops, maxLen)
	case 6:
		ropeRun(t, unitElems, s, chunks, ops, maxLen)
	default:
		ropeRun(t, intElems, s, chunks, ops, maxLen)
	}
}

// ropeEdit is one edit, numbered so that all edits of a rope can be run
// through. ok is false when there are no more.
func ropeEdit(m *ropeMon[int], v *ropeVal[int], e int) (res []*ropeVal[int], name string, ok bool) {
	n := len(v.model)
	ins := []int{0, 1, 2, m.s.split, m.s.split + 1, 2*m.s.split + 1}
	if e < (n+1)*len(ins) {
		pos, k := e/len(ins), ins[e%len(ins)]
		m.insert(v, pos, m.fresh(k))
		return []*ropeVal[int]{v}, fmt.Sprintf("Insert(%d, %d elements)", pos, k), true
	}
	e -= (n + 1) * len(ins)
	for a := 0; a <= n; a++ {
		if e <= n-a {
			v.n.Remove(a, a+e)
			v.model = cat(v.model[:a], v.model[a+e:])
			return []*ropeVal[int]{v}, fmt.Sprintf("Remove(%d, %d)", a, a+e), true
		}
		e -= n - a + 1
	}
	if e <= n {
		l, r := v.n.SplitAt(e)
		return []*ropeVal[int]{{l, append([]int(nil), v.model[:e]...)}, {r, append([]int(nil), v.model[e:]...)}}, fmt.Sprintf("SplitAt(%d)", e), true
	}
	e -= n + 1
	switch e {
	case 0:
		v.n.Rebuild()
		return []*ropeVal[int]{v}, "Rebuild", true
	case 1:
		v.n.Rebalance()
		return []*ropeVal[int]{v}, "Rebalance", true
	}
	return nil, "", false
}

// ropeAll runs every edit, every pair of edits and random longer ones on
// ropes of every length up to maxLen.
func ropeAll(t *mon.T, s thresholds, chunks bool, maxLen int) {
	t.Note("all pairs of edits, %v, lengths 0 to %d, part %d of %d", s, maxLen, t.Index, t.Count)
	m := &ropeMon[int]{t: t, el: intElems, s: s, chunks: chunks}
	build := func(n int) *ropeVal[int] {
		m.next = 0
		part := m.fresh(n)
		return &ropeVal[int]{rope.New(append(make([]int, 0, n+3), part...)), part}
	}
	look := func(v *ropeVal[int], rebuilt bool) {
		t.Check(1)
		if chunks {
			m.lookChunks(v, rebuilt)
			return
		}
		if v.n.Len() != len(v.model) {
			t.Fail("rope: Len() = %d, expected %d", v.n.Len(), len(v.model))
		}
		same(t, "rope: Value()", v.n.Value(), v.model)
		for a := 0; a <= len(v.model); a++ {
			if a < len(v.model) {
				if x := v.n.At(a); x != v.model[a] {
					t.Fail("rope: At(%d) = %v, expected %v", a, x, v.model[a])
				}
			}
			b := a + t.Intn(len(v.model)-a+1)
			same(t, "rope: Slice", v.n.Slice(a, b), v.model[a:b])
		}
	}
	k := 0
	for n := 0; n <= maxLen; n++ {
		for e := 0; ; e++ {
			v := build(n)
			out, name, ok := ropeEdit(m, v, e)
			if !ok {
				break
			}
			for _, o := range out {
				look(o, name == "Rebuild")
			}
			k++
			if k%t.Count != t.Index {
				continue
			}
			t.Op(name, int64(n))
			sides := len(out)
			for side := 0; side < sides; side++ {
				for e2 := 0; ; e2++ {
					v := build(n)
					out, _, _ := ropeEdit(m, v, e)
					out2, name2, ok := ropeEdit(m, out[side], e2)
					if !ok {
						break
					}
					t.Op(name2, int64(n), int64(side))
					for _, o := range out2 {
						look(o, name2 == "Rebuild")
					}
					if sides == 2 {
						look(out[1-side], false) // the other half
						j := &ropeVal[int]{rope.Join(out2[0].n, out[1-side].n), cat(out2[0].model, out[1-side].model)}
						if len(out2) == 2 {
							j.n, j.model = rope.Join(j.n, out2[1].n), cat(j.model, out2[1].model)
						}
						look(j, false)
					}
				}
			}
		}
	}
}

// --- C21: persistent rope --------------------------------------------------

type version[T any] struct {
	n     *prope.Node[T]
	model []T // never changed
}

type propeMon[T any] struct {
	t      *mon.T
	el     elems[T]
	s      thresholds
	next   int
	vs     []*version[T]
	max    int
	maxLen int
	kept   *keeper[T]
	vary   bool
	given  [][2][]T // slices given to New, with their spare capacity: themselves and a copy
}

func (m *propeMon[T]) fresh(n int) []T {
	r := make([]T, n)
	for i := range r {
		m.next++
		r[i] = m.el.mk(m.next)
	}
	return r
}

func (m *propeMon[T]) look(v *version[T]) {
	t := m.t
	w := v.model
	t.Check(1)
	t.Event("version_checks", 1)
	var got, sl []T
	t.Shuffle(func() {
		if n := v.n.Len(); n != len(w) {
			t.Fail("prope: Len() of a version is %d, expected %d", n, len(w))
		}
	}, func() {
		got = v.n.Value()
		same(t, "prope: Value() of a version", got, w)
	}, func() {
		a := t.Intn(len(w) + 1)
		b := a + t.Intn(len(w)-a+1)
		sl = v.n.Slice(a, b)
		same(t, fmt.Sprintf("prope: Slice(%d, %d) of %d", a, b, len(w)), sl, w[a:b])
	}, func() {
		if len(w) > 0 {
			p := t.Intn(len(w))
			if x := v.n.At(p); !eqv(x, w[p]) {
				t.Fail("prope: At(%d) of a version is %v, expected %v", p, x, w[p])
			}
		}
	})
	if t.Intn(4) == 0 { // they belong to the caller
		m.clobber(got)
		m.clobber(sl)
		return
	}
	if m.kept == nil {
		m.kept = newKeeper(t, eqv[T])
	}
	m.kept.keep("prope: Value", got)
	m.kept.keep("prope: Slice", sl)
}

func (m *propeMon[T]) clobber(s []T) {
	s = s[:cap(s)]
	for i := range s {
		m.next++
		s[i] = m.el.mk(m.next)
	}
}

func (m *propeMon[T]) add(v *version[T]) {
	if !m.t.Gap() { // otherwise the version is not read before others are made of it
		m.look(v)
	}
	if len(v.model) <= 300 {
		m.t.State(hashElems(len(v.model), v.model))
	}
	if len(m.vs) < m.max {
		m.vs = append(m.vs, v)
	} else {
		m.vs[m.t.Intn(len(m.vs))] = v
	}
}

func (m *propeMon[T]) create(n int) *version[T] {
	t := m.t
	spare := t.Intn(4)
	all := m.fresh(n + spare)
	m.given = append(m.given, [2][]T{all, append([]T(nil), all...)})
	t.Op("New", int64(n), int64(spare))
	return &version[T]{prope.New(all[:n]), append([]T(nil), all[:n]...)}
}

func (m *propeMon[T]) step() {
	t := m.t
	if m.vary && t.Intn(8) == 0 {
		m.s = anyThresholds(t)
		t.Op("thresholds", int64(m.s.split), int64(m.s.join), int64(m.s.ratio*100))
		m.s.setPrope()
	}
	v := m.vs[t.Intn(len(m.vs))]
	if t.Bool() {
		v = m.vs[len(m.vs)-1]
	}
	n := len(v.model)
	switch t.Weighted([]int{30, 26, 10, 10, 5, 5, 3}) {
	case 0:
		if n > m.maxLen {
			return
		}
		pos, part := ropePosition(t, n, m.s.split), m.fresh(ropeAmount(t, m.s.split, m.s.join))
		t.Op("Insert", int64(n), int64(pos), int64(len(part)))
		part = append(part, m.fresh(2)...)
		k := len(part) - 2
		keep := append([]T(nil), part...)
		nv := &version[T]{v.n.Insert(pos, part[:k]), cat(v.model[:pos], keep[:k], v.model[pos:])}
		same(t, "prope: the slice given to Insert, afterwards,", part, keep)
		m.clobber(part)
		m.add(nv)
	case 1:
		a := ropePosition(t, n, m.s.split)
		b := min(n, a+ropeAmount(t, m.s.split, m.s.join))
		switch t.Intn(12) {
		case 0:
			a, b = 0, n
		case 1:
			b = n
		case 2:
			a, b = 0, a
		}
		t.Op("Remove", int64(n), int64(a), int64(b))
		m.add(&version[T]{v.n.Remove(a, b), cat(v.model[:a], v.model[b:])})
	case 2:
		pos := ropePosition(t, n, m.s.split)
		t.Op("SplitAt", int64(n), int64(pos))
		l, r := v.n.SplitAt(pos)
		m.add(&version[T]{l, cat(v.model[:pos])})
		m.add(&version[T]{r, cat(v.model[pos:])})
	case 3:
		k := t.Intn(5)
		var ns []*prope.Node[T]
		var w []T
		for j := 0; j < k; j++ {
			x := m.vs[t.Intn(len(m.vs))]
			if len(w)+len(x.model) > m.maxLen+100 {
				continue
			}
			ns = append(ns, x.n)
			w = append(w, x.model...)
		}
		t.Op("Join", int64(len(ns)))
		keep := append([]*prope.Node[T](nil), ns...)
		nv := &version[T]{prope.Join(ns...), w}
		for j := range ns {
			t.Assert(ns[j] == keep[j], "prope: Join changed the slice of nodes it was given")
		}
		m.add(nv)
	case 4:
		t.Op("Rebuild", int64(n))
		v.n.Rebuild()
		m.look(v)
	case 5:
		t.Op("Rebalance", int64(n))
		v.n.Rebalance()
		m.look(v)
	case 6:
		m.add(m.create(min(m.maxLen, ropeAmount(t, m.s.split, m.s.join)+t.Intn(20))))
	}
}

func (m *propeMon[T]) all() {
	for _, v := range m.vs {
		m.look(v)
	}
	for _, s := range m.given {
		same(m.t, "prope: a slice given to New", s[0], s[1])
	}
	m.t.Max("versions_live", int64(len(m.vs)))
	if m.kept != nil {
		m.kept.all()
	}
}

func propeRun[T any](t *mon.T, el elems[T], s thresholds, ops, maxLen, versions, every int) {
	m := &propeMon[T]{t: t, el: el, s: s, max: versions, maxLen: maxLen, vary: s.split == 0}
	if m.vary {
		m.s = anyThresholds(t)
		m.s.setPrope()
		s = m.s
	}
	size := t.Intn(4*s.split + 2)
	if t.Intn(3) == 0 {
		size = t.Intn(maxLen + 1)
	}
	size = min(size, maxLen)
	t.Note("%s propes, %v, %d elements, %d operations, %d versions kept", el.name, s, size, ops, versions)
	m.add(m.create(size))
	for i := 0; i < ops; i++ {
		m.step()
		if i%every == every-1 {
			m.all()
		}
		if len(m.given) > 30 {
			m.all()
			m.given = m.given[10:]
		}
	}
	m.all()
}

func propeCase(t *mon.T, s thresholds, ops, maxLen, versions, every int) {
	switch t.Intn(8) {
	case 0:
		propeRun(t, byteElems, s, ops, maxLen, versions, every)
	case 1:
		propeRun(t, stringElems, s, ops, maxLen, versions, every)
	case 2:
		propeRun(t, structElems, s, ops, maxLen, versions, every)
	case 3:
		propeRun(t, funcElems, s, ops, maxLen, versions, every)
	case 4:
		propeRun(t, sliceElems, s, ops, maxLen, versions, every)
	case 5:
		propeRun(t, anyElems, s, ops, maxLen, versions, every)
	case 6:
		propeRun(t, unitElems, s, ops, maxLen, versions, every)
	default:
		propeRun(t, intElems, s, ops, maxLen, versions, every)
	}
}

func propeEdit(t *mon.T, m *propeMon[int], v *version[int], e int) (res []*version[int], ok bool) {
	n := len(v.model)
	ins := []int{0, 1, 2, m.s.split, m.s.split + 1, 2*m.s.split + 1}
	if e < (n+1)*len(ins) {
		pos, k := e/len(ins), ins[e%len(ins)]
		part := m.fresh(k)
		t.Op("Insert", int64(pos), int64(k))
		nv := &version[int]{v.n.Insert(pos, part), cat(v.model[:pos], part, v.model[pos:])}
		m.clobber(part)
		return []*version[int]{nv}, true
	}
	e -= (n + 1) * len(ins)
	for a := 0; a <= n; a++ {
		if e <= n-a {
			t.Op("Remove", int64(a), int64(a+e))
			return []*version[int]{{v.n.Remove(a, a+e), cat(v.model[:a], v.model[a+e:])}}, true
		}
		e -= n - a + 1
	}
	if e <= n {
		t.Op("SplitAt", int64(e))
		l, r := v.n.SplitAt(e)
		return []*version[int]{{l, cat(v.model[:e])}, {r, cat(v.model[e:])}, {prope.Join(r, l, v.n), cat(v.model[e:], v.model[:e], v.model)}}, true
	}
	e -= n + 1
	switch e {
	case 0:
		t.Op("Rebuild")
		v.n.Rebuild()
		return []*version[int]{v}, true
	case 1:
		t.Op("Rebalance")
		v.n.Rebalance()
		return []*version[int]{v}, true
	}
	return nil, false
}

func propeAll(t *mon.T, s thresholds, maxLen int) {
	t.Note("all pairs of edits, %v, lengths 0 to %d, part %d of %d", s, maxLen, t.Index, t.Count)
	m := &propeMon[int]{t: t, el: intElems, s: s}
	k := 0
	for n := 0; n <= maxLen; n++ {
		base := m.create(n)
		for e := 0; ; e++ {
			k++
			out, ok := propeEdit(t, m, base, e)
			if !ok {
				break
			}
			for _, o := range out {
				m.look(o)
			}
			m.look(base)
			if k%t.Count != t.Index {
				continue
			}
			for _, o := range out {
				for e2 := 0; ; e2++ {
					out2, ok := propeEdit(t, m, o, e2)
					if !ok {
						break
					}
					for _, o2 := range out2 {
						m.look(o2)
					}
					m.look(o)
				}
			}
			m.look(base)
			for _, o := range out {
				m.look(o)
			}
		}
		m.all()
		m.given = nil
	}
}

// --- C22: sharing ----------------------------------------------------------

// propeCost measures what small edits allocate.
func propeCost(t *mon.T) {
	n := 200000 + t.Intn(800000)
	t.Note("small edits of a balanced rope of %d elements", n)
	src := make([]int32, n)
	for i := range src {
		src[i] = int32(i * 5)
	}
	base := prope.New(src)
	cur := base
	model := append([]int32(nil), src...)
	// A leaf holds at most SplitLength elements and the tree has about log n
	// levels; leave a wide margin, a copy of the rope is far above it.
	bound := int64(16*4*prope.SplitLength + 1000*bits.Len(uint(n)))
	t.Event("bound_bytes", bound)
	if bound > int64(n) {
		t.Fail("harness: the bound %d is not below the size of the rope", bound)
	}
	edits := t.Pick(150, 400)
	for i := 0; i < edits; i++ {
		pos := t.Intn(len(model) - 4)
		switch t.Intn(10) {
		case 0:
			pos = 0
		case 1:
			pos = len(model) - 4
		case 2:
			pos = len(model) / 2
		}
		k := 1 + t.Intn(3)
		from := cur
		if t.Intn(3) == 0 {
			from = base
		}
		var nv *prope.Node[int32]
		var what string
		part := []int32{-1, -2, -3}[:k]
		insert := i%2 == 0
		if from == base {
			pos = min(pos, n-4)
		}
		used := allocated(func() {
			if insert {
				nv = from.Insert(pos, part)
			} else {
				nv = from.Remove(pos, pos+k)
			}
		})
		if insert {
			what = "Insert"
		} else {
			what = "Remove"
		}
		t.Op(what, int64(pos), int64(k))
		t.Max("bytes_"+what, used)
		t.Check(1)
		if used > bound {
			again := allocated(func() {
				if insert {
					from.Insert(pos, part)
				} else {
					from.Remove(pos, pos+k)
				}
			})
			if again > bound {
				t.Fail("prope: %s of %d elements at %d in a balanced rope of %d elements of 4 bytes allocates %d bytes (more than %d)", what, k, pos, n, min(used, again), bound)
			}
		}
		if from == cur {
			cur = nv
			if insert {
				model = cat(model[:pos], part, model[pos:])
			} else {
				model = append(model[:pos], model[pos+k:]...)
			}
		} else if nv.Len() != n+map[bool]int{true: k, false: -k}[insert] {
			t.Fail("prope: length %d after an edit", nv.Len())
		}
	}
	same(t, "prope: the newest version", cur.Value(), model)
	same(t, "prope: the first version", base.Value(), src)
}

// propeRace lets goroutines derive versions from common ancestors.
func propeRace(t *mon.T, s thresholds) {
	m := &propeMon[int]{t: t, el: intElems, s: s, max: 6, maxLen: 30 * s.split}
	m.add(m.create(t.Intn(12 * s.split)))
	for i := t.Intn(8); i > 0; i-- {
		m.step()
	}
	k := 2 + t.Intn(6)
	ops := 20 + t.Intn(60)
	t.Note("%d goroutines, %d operations each, on %d shared versions, %v", k, ops, len(m.vs), s)
	shared := m.vs
	var published [4]atomic.Pointer[version[int]] // versions handed from one goroutine to the others
	t.Parallel(k, func(g *mon.G) {
		mine := append([]*version[int](nil), shared...)
		next := (g.ID + 1) * 1000000
		check := func(v *version[int]) {
			w := v.model
			if v.n.Len() != len(w) {
				g.Fail("prope: Len() of a version is %d, expected %d", v.n.Len(), len(w))
			}
			if i := diff(v.n.Value(), w); i >= 0 {
				g.Fail("prope: Value() of a version is wrong at position %d of %d", i, len(w))
			}
			a := g.Intn(len(w) + 1)
			b := a + g.Intn(len(w)-a+1)
			if diff(v.n.Slice(a, b), w[a:b]) >= 0 {
				g.Fail("prope: Slice(%d, %d) of a version is wrong", a, b)
			}
			if len(w) > 0 {
				p := g.Intn(len(w))
				if x := v.n.At(p); x != w[p] {
					g.Fail("prope: At(%d) of a version is %d, expected %d", p, x, w[p])
				}
			}
		}
		for i := 0; i < ops; i++ {
			v := mine[g.Intn(len(mine))]
			if p := published[g.Intn(4)].Load(); p != nil && g.Intn(4) == 0 {
				v = p
			}
			n := len(v.model)
			var nv *version[int]
			switch g.Intn(6) {
			case 0, 1:
				part := make([]int, g.Intn(s.split+2))
				for j := range part {
					next++
					part[j] = next
				}
				pos := g.Intn(n + 1)
				nv = &version[int]{v.n.Insert(pos, part), cat(v.model[:pos], part, v.model[pos:])}
				for j := range part {
					part[j] = -1
				}
			case 2, 3:
				a := g.Intn(n + 1)
				b := min(n, a+g.Intn(2*s.split+1))
				nv = &version[int]{v.n.Remove(a, b), cat(v.model[:a], v.model[b:])}
			case 4:
				a := g.Intn(n + 1)
				l, r := v.n.SplitAt(a)
				lv := &version[int]{l, cat(v.model[:a])}
				check(lv)
				nv = &version[int]{r, cat(v.model[a:])}
			case 5:
				o := mine[g.Intn(len(mine))]
				nv = &version[int]{prope.Join(v.n, o.n), cat(v.model, o.model)}
			}
			g.Step()
			check(nv)
			if len(nv.model) > 40*s.split {
				continue
			}
			if len(mine) < 10 {
				mine = append(mine, nv)
			} else {
				mine[g.Intn(len(mine))] = nv
			}
			if g.Intn(5) == 0 {
				published[g.Intn(4)].Store(nv)
			}
			check(mine[g.Intn(len(mine))])
		}
	})
	m.all()
}

func init() {
	def := ropeDefaults
	settings := []thresholds{{1, 0, 1.2}, {1, 1, 1}, {2, 1, 1.2}, {3, 1, 1.2}, {4, 4, 1.2}, {5, 2, 2}, {8, 4, 1.2}, {16, 8, 1.2}, {33, 5, 1.05}, {64, 32, 1.2}}
	hist := "A case is a generated history of edits on a pool of ropes (or a slice of all pairs of edits on all short ropes), mirrored on plain slices and compared after each edit; one setting of the thresholds per scenario. Distinct by trace hash, non-trivial if it contains at least one operation."
	for _, s := range settings {
		s := s
		big := s.split > 4
		maxLen, ops := 60+8*s.split, 60
		for i, id := range []string{"C20", "C23"} {
			chunks := i == 1
			mon.Register(id, hist, &mon.Scenario{Name: fmt.Sprintf("history split=%d join=%d", s.split, s.join), Quick: 500, Thorough: 20000, Setup: s.setRope,
				Run: func(t *mon.T) { ropeCase(t, s, chunks, ops, maxLen) }})
			if !big {
				mon.Register(id, hist, &mon.Scenario{Name: fmt.Sprintf("pairs split=%d join=%d", s.split, s.join), Quick: 16, Thorough: 32, Setup: s.setRope,
					Run: func(t *mon.T) { ropeAll(t, s, chunks, t.Pick(6, 9)) }})
			}
		}
		mon.Register("C21", hist, &mon.Scenario{Name: fmt.Sprintf("history split=%d join=%d", s.split, s.join), Quick: 400, Thorough: 15000, Setup: s.setPrope,
			Run: func(t *mon.T) { propeCase(t, s, 60, 40+6*s.split, 4+t.Intn(14), 1+t.Intn(4)) }})
		if !big {
			mon.Register("C21", hist, &mon.Scenario{Name: fmt.Sprintf("pairs split=%d join=%d", s.split, s.join), Quick: 16, Thorough: 32, Setup: s.setPrope,
				Run: func(t *mon.T) { propeAll(t, s, t.Pick(5, 8)) }})
		}
	}
	for i, id := range []string{"C20", "C23"} {
		chunks := i == 1
		mon.Register(id, "",
			&mon.Scenario{Name: "long split=10 join=5", Quick: 30, Thorough: 1000, Setup: thresholds{10, 5, 1.2}.setRope,
				Run: func(t *mon.T) { ropeCase(t, thresholds{10, 5, 1.2}, chunks, 1500, 1500) }},
			&mon.Scenario{Name: "default thresholds", Quick: 10, Thorough: 200, Setup: def.setRope,
				Run: func(t *mon.T) { ropeRun(t, intElems, def, chunks, 60, 100000) }},
		)
	}
	// A join threshold above the split threshold is a setting, too.
	mon.Register("C20", "", &mon.Scenario{Name: "history split=4 join=9", Quick: 400, Thorough: 10000, Setup: thresholds{4, 9, 1.2}.setRope,
		Run: func(t *mon.T) { ropeCase(t, thresholds{4, 9, 1.2}, false, 60, 80) }})
	// The thresholds are variables: they may change while ropes exist.
	mon.Register("C20", "", &mon.Scenario{Name: "changing thresholds", Quick: 500, Thorough: 60000, Serial: true,
		Run: func(t *mon.T) { ropeCase(t, thresholds{}, false, 60, 100) }})
	mon.Register("C21", "", &mon.Scenario{Name: "changing thresholds", Quick: 400, Thorough: 50000, Serial: true,
		Run: func(t *mon.T) { propeCase(t, thresholds{}, 60, 100, 4+t.Intn(14), 1+t.Intn(4)) }})
	mon.Register("C21", "",
		&mon.Scenario{Name: "history split=4 join=9", Quick: 400, Thorough: 10000, Setup: thresholds{4, 9, 1.5}.setPrope,
			Run: func(t *mon.T) { propeCase(t, thresholds{4, 9, 1.5}, 60, 60, 4+t.Intn(14), 1+t.Intn(4)) }},
		&mon.Scenario{Name: "long split=10 join=5", Quick: 30, Thorough: 1000, Setup: thresholds{10, 5, 1.5}.setPrope,
			Run: func(t *mon.T) { propeCase(t, thresholds{10, 5, 1.5}, 1000, 800, 20, 10) }},
		&mon.Scenario{Name: "default thresholds", Quick: 60, Thorough: 1500, Setup: propeDefaults.setPrope,
			Run: func(t *mon.T) { propeCase(t, propeDefaults, 120, 6000, 12, 6) }},
	)
	mon.Register("C22", "A case is a series of measured small edits on a large balanced rope, or a group of goroutines (with random yields) deriving versions from shared ones under the race detector, every version compared with a plain slice. Distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "edit-cost", Quick: 10, Thorough: 80, Serial: true, Setup: propeDefaults.setPrope, Run: propeCost},
		&mon.Scenario{Name: "shared-versions split=4", Quick: 700, Thorough: 20000, Race: true, Setup: thresholds{4, 2, 1.5}.setPrope,
			Run: func(t *mon.T) { propeRace(t, thresholds{4, 2, 1.5}) }},
		&mon.Scenario{Name: "shared-versions split=16", Quick: 300, Thorough: 10000, Race: true, Setup: thresholds{16, 8, 1.5}.setPrope,
			Run: func(t *mon.T) { propeRace(t, thresholds{16, 8, 1.5}) }},
	)
}
