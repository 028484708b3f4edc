package props

import (
	"cmp"
	"fmt"
	"math"
	"strconv"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// --- C24: unrolled list ----------------------------------------------------

type ulMon[T any] struct {
	t     *mon.T
	el    elems[T]
	ul    *ulist.UList[T]
	model []T
	it    *ulist.UListIter[T] // the cursor, nil if there is none
	pos   int                 // its position: -1 before the first element, len(model) past the last
	next  int
}

func (m *ulMon[T]) fresh() T {
	m.next++
	return m.el.mk(m.next)
}

// at checks that it stands on position p.
func (m *ulMon[T]) at(what string, it *ulist.UListIter[T], p int) {
	t := m.t
	t.Check(1)
	valid := p >= 0 && p < len(m.model)
	if valid && t.Intn(4) == 0 {
		if x := it.Get(); !eqv(x, m.model[p]) {
			t.Fail("ulist: after %s an iterator at position %d of %d elements yields %v, expected %v", what, p, len(m.model), x, m.model[p])
		}
	}
	if v := it.IsValid(); v != valid {
		t.Fail("ulist: after %s an iterator at position %d of %d elements has IsValid() = %v", what, p, len(m.model), v)
	}
	if valid {
		if x := it.Get(); !eqv(x, m.model[p]) {
			t.Fail("ulist: after %s an iterator at position %d of %d elements yields %v, expected %v", what, p, len(m.model), x, m.model[p])
		}
	}
}

// move steps an iterator at position p and returns the new position.
func (m *ulMon[T]) move(it *ulist.UListIter[T], p int, fwd bool) int {
	n := len(m.model)
	var ok bool
	what := "Next"
	if fwd {
		ok = it.Next()
		p = min(p+1, n)
	} else {
		what = "Prev"
		ok = it.Prev()
		p = max(p-1, -1)
	}
	if n == 0 {
		p = 0 // there is no position in an empty list
	}
	if w := p >= 0 && p < n; ok != w {
		m.t.Fail("ulist: %s to position %d of %d elements returns %v", what, p, n, ok)
	}
	m.at(what, it, p)
	return p
}

// full walks the whole list both ways.
func (m *ulMon[T]) full() {
	t := m.t
	n := len(m.model)
	t.Check(2)
	t.Shuffle(m.size, m.forward, m.backward)
	if n > 0 && t.Intn(4) == 0 { // several iterators at the same time
		its, at := make([]*ulist.UListIter[T], 3), make([]int, 3)
		for i := range its {
			if its[i] = m.ul.Begin(); i == 1 {
				its[i], at[i] = m.ul.End(), n-1
			}
		}
		for k := 0; k < 12; k++ {
			i := t.Intn(3)
			at[i] = m.move(its[i], at[i], t.Intn(4) > 0 != (i == 1))
		}
		for i := range its {
			m.at("moves of it and of other iterators", its[i], at[i])
		}
	}
	if n <= 64 {
		t.State(hashElems(n, m.model))
	}
}

func (m *ulMon[T]) size() {
	if m.ul.Size() != len(m.model) {
		m.t.Fail("ulist: Size() = %d, expected %d", m.ul.Size(), len(m.model))
	}
}

func (m *ulMon[T]) forward() {
	t := m.t
	n := len(m.model)
	i := 0
	it := m.ul.Begin()
	for ; it.IsValid(); it.Next() {
		if i >= n || !eqv(it.Get(), m.model[i]) {
			t.Fail("ulist: walking from Begin yields a wrong element at position %d of %d", i, n)
		}
		i++
	}
	if i != n {
		t.Fail("ulist: walking from Begin ends after %d of %d elements", i, n)
	}
	if n > 0 && t.Intn(2) == 0 {
		m.move(it, n, t.Bool()) // stay past the end or come back
	}
}

func (m *ulMon[T]) backward() {
	t := m.t
	n := len(m.model)
	i := n - 1
	it := m.ul.End()
	for ; it.IsValid(); it.Prev() {
		if i < 0 || !eqv(it.Get(), m.model[i]) {
			t.Fail("ulist: walking from End yields a wrong element at position %d of %d", i, n)
		}
		i--
	}
	if i != -1 {
		t.Fail("ulist: walking from End ends %d elements early", i+1)
	}
	if n > 0 && t.Intn(2) == 0 {
		m.move(it, -1, t.Bool())
	}
}

// seek puts the cursor on position p.
func (m *ulMon[T]) seek(p int) {
	if m.t.Bool() || p < len(m.model)/2 {
		m.it, m.pos = m.ul.Begin(), 0
		m.at("Begin", m.it, 0)
		for m.pos < p {
			m.pos = m.move(m.it, m.pos, true)
		}
		return
	}
	m.it, m.pos = m.ul.End(), len(m.model)-1
	m.at("End", m.it, m.pos)
	for m.pos > p {
		m.pos = m.move(m.it, m.pos, false)
	}
}

const (
	ulPushBack = iota
	ulPushFront
	ulAddAfter
	ulAddBefore
	ulRemove
)

// edit applies an operation, at the cursor if it needs one.
func (m *ulMon[T]) edit(op int) {
	t := m.t
	v := m.fresh()
	t.Op([]string{"PushBack", "PushFront", "AddAfter", "AddBefore", "Remove"}[op], int64(m.pos), int64(len(m.model)))
	switch op {
	case ulPushBack:
		m.ul.PushBack(v)
		m.model = append(m.model, v)
		m.it = nil
	case ulPushFront:
		m.ul.PushFront(v)
		m.model = insertAt(m.model, 0, v)
		m.it = nil
	case ulAddAfter:
		m.ul.AddAfter(m.it, v)
		m.pos++
		m.model = insertAt(m.model, m.pos, v)
		if !t.Gap() {
			m.at("AddAfter", m.it, m.pos)
		}
	case ulAddBefore:
		m.ul.AddBefore(m.it, v)
		m.model = insertAt(m.model, m.pos, v)
		if !t.Gap() {
			m.at("AddBefore", m.it, m.pos)
		}
	case ulRemove:
		m.ul.Remove(m.it)
		m.model = removeAt(m.model, m.pos)
		if !t.Gap() {
			m.at("Remove", m.it, m.pos)
		}
		if len(m.model) == 0 {
			m.pos = 0
		}
	}
	if !t.Gap() {
		m.size()
	}
	t.Max("ulist_length", int64(len(m.model)))
}

// around walks from the cursor and back again.
func (m *ulMon[T]) around() {
	if m.it == nil {
		return
	}
	k := m.t.Intn(6)
	for i := 0; i < k; i++ {
		m.pos = m.move(m.it, m.pos, m.t.Bool())
	}
}

func (m *ulMon[T]) valid() bool { return m.it != nil && m.pos >= 0 && m.pos < len(m.model) }

func ulRun[T any](t *mon.T, el elems[T], block, ops, maxLen, every int) {
	m := &ulMon[T]{t: t, el: el, ul: ulist.New[T](block)}
	t.Note("%s, blocks of %d, %d operations, up to %d elements", el.name, block, ops, maxLen)
	m.full()
	m.it = m.ul.Begin()
	m.move(m.it, 0, true)
	m.move(m.it, 0, false)
	m.it = m.ul.End()
	m.move(m.it, 0, false)
	m.it = nil
	var w []int
	for i := 0; i < ops; i++ {
		if i%(20+every) == 0 { // a new phase
			w = []int{1 + t.Intn(6), 1 + t.Intn(6), t.Intn(10), t.Intn(10), t.Intn(18), 1 + t.Intn(8), t.Intn(6)}
		}
		op := t.Weighted(w)
		if len(m.model) >= maxLen && op < ulRemove {
			op = ulRemove
		}
		switch {
		case op == 5:
			if len(m.model) > 0 {
				far := len(m.model)
				if far > 200 && t.Intn(10) > 0 {
					far = 100
				}
				p := t.Intn(far)
				if t.Bool() {
					p = len(m.model) - 1 - p
				}
				t.Op("seek", int64(p))
				m.seek(p)
			}
		case op == 6:
			t.Op("walk")
			m.around()
		case op >= ulAddAfter && !m.valid():
			if len(m.model) == 0 {
				m.edit(t.Intn(2))
			} else {
				m.seek([]int{0, len(m.model) - 1}[t.Intn(2)])
				m.edit(op)
			}
		default:
			m.edit(op)
		}
		if i%every == 0 && !t.Gap() {
			m.around()
			m.full()
		}
	}
	// empty it through one iterator
	m.full()
	if len(m.model) > 0 {
		m.seek([]int{0, len(m.model) / 2, len(m.model) - 1}[t.Intn(3)])
		for len(m.model) > 0 {
			if !m.valid() {
				m.pos = m.move(m.it, m.pos, false)
			}
			m.edit(ulRemove)
		}
	}
	m.full()
	m.edit(t.Intn(2))
	m.full()
}

func ulCase(t *mon.T, ops, maxLen, every int) {
	block := 1 + t.Intn(9)
	if t.Intn(4) == 0 {
		block = []int{16, 33, 64, 257}[t.Intn(4)]
	}
	if t.Intn(100) == 0 {
		block = []int{255, 256, 32768, 65535, 65537}[t.Intn(5)]
	}
	switch t.Intn(8) {
	case 0:
		ulRun(t, stringElems, block, ops, maxLen, every)
	case 1:
		ulRun(t, structElems, block, ops, maxLen, every)
	case 2:
		ulRun(t, byteElems, block, ops, maxLen, every)
	case 3:
		ulRun(t, funcElems, block, ops, maxLen, every)
	case 4:
		ulRun(t, sliceElems, block, ops, maxLen, every)
	case 5:
		ulRun(t, anyElems, block, ops, maxLen, every)
	case 6:
		ulRun(t, unitElems, block, ops, maxLen, every)
	default:
		ulRun(t, intElems, block, ops, maxLen, every)
	}
}

// ulHistories runs all histories of the given length on a list built in one
// of several ways.
func ulHistories(t *mon.T, length int) {
	block := 1 + t.Index%4
	part, parts := t.Index/4, max(1, t.Count/4)
	t.Note("all histories of %d edits at all positions, blocks of %d, part %d of %d", length, block, part, parts)
	var hist []int
	k := 0
	run := func(pre int) {
		m := &ulMon[int]{t: t, el: intElems, ul: ulist.New[int](block)}
		for i := 0; i < pre; i++ {
			v := m.fresh()
			if i%3 == 2 {
				m.ul.PushFront(v)
				m.model = insertAt(m.model, 0, v)
			} else {
				m.ul.PushBack(v)
				m.model = append(m.model, v)
			}
		}
		for _, e := range hist {
			if e >= 2 {
				m.seek((e - 2) / 3)
				m.edit(ulAddAfter + (e-2)%3)
			} else {
				m.edit(e)
			}
		}
		if m.it != nil {
			for i := t.Intn(4); i > 0; i-- {
				m.pos = m.move(m.it, m.pos, t.Bool())
			}
		}
		m.full()
	}
	var rec func(pre, n int)
	rec = func(pre, n int) {
		if len(hist) == length {
			k++
			if k%parts == part {
				run(pre)
			}
			return
		}
		for e := 0; e < 2+3*n; e++ {
			hist = append(hist, e)
			switch {
			case e >= 2 && (e-2)%3 == 2:
				rec(pre, n-1)
			default:
				rec(pre, n+1)
			}
			hist = hist[:len(hist)-1]
		}
	}
	for pre := 0; pre <= 2*block+2; pre++ {
		rec(pre, pre)
	}
}

// --- C25: 2-D array --------------------------------------------------------

type gridMon[T any] struct {
	t    *mon.T
	el   elems[T]
	a    array2d.Array2D[T]
	w, h int
	m    [][]T // by row
	next int
	kept []gridView[T]
}

// gridView is a row or a part of one that is held on to.
type gridView[T any] struct {
	x, y int
	s    []T
}

// keep holds on to a view of the array.
func (m *gridMon[T]) keep(x, y int, s []T) {
	if len(m.kept) > 5 {
		m.kept[m.t.Intn(len(m.kept))] = gridView[T]{x, y, s}
		return
	}
	m.kept = append(m.kept, gridView[T]{x, y, s})
}

// views compares the views that were held on to and writes through one.
func (m *gridMon[T]) views() {
	for _, v := range m.kept {
		m.t.Check(1)
		for i := range v.s {
			if !eqv(v.s[i], m.m[v.y][v.x+i]) {
				m.t.Fail("array2d: an earlier view of the cells from (%d, %d) of a %dx%d array has a wrong cell at %d", v.x, v.y, m.w, m.h, i)
			}
		}
	}
	if len(m.kept) > 0 {
		v := m.kept[m.t.Intn(len(m.kept))]
		if len(v.s) > 0 {
			i := m.t.Intn(len(v.s))
			v.s[i] = m.fresh()
			m.m[v.y][v.x+i] = v.s[i]
		}
	}
}

func (m *gridMon[T]) fresh() T {
	m.next++
	return m.el.mk(m.next)
}

func blankRows[T any](w, h int) [][]T {
	r := make([][]T, h)
	for y := range r {
		r[y] = make([]T, w)
	}
	return r
}

func (m *gridMon[T]) full(what string) {
	t := m.t
	t.Check(2)
	if m.a.Width() != m.w || m.a.Height() != m.h {
		t.Fail("array2d: after %s the array is %dx%d, expected %dx%d", what, m.a.Width(), m.a.Height(), m.w, m.h)
	}
	m.views()
	for y := 0; y < m.h; y++ {
		row := m.a.Row(y)
		if len(row) != m.w {
			t.Fail("array2d: Row(%d) of a %dx%d array has %d cells", y, m.w, m.h, len(row))
		}
		for x := 0; x < m.w; x++ {
			if v := m.a.Get(x, y); !eqv(v, m.m[y][x]) || !eqv(row[x], v) {
				t.Fail("array2d: after %s cell (%d, %d) of a %dx%d array is %v, Row has %v, expected %v", what, x, y, m.w, m.h, v, row[x], m.m[y][x])
			}
		}
	}
}

func (m *gridMon[T]) str() {
	var sb strings.Builder
	sb.WriteString("[")
	for y, row := range m.m {
		if y > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString("[")
		for x, v := range row {
			if x > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(fmt.Sprint(v))
		}
		sb.WriteString("]")
	}
	sb.WriteString("]")
	m.t.Check(1)
	if s := m.a.String(); s != sb.String() {
		m.t.Fail("array2d: String() of a %dx%d array is %q, expected %q", m.w, m.h, s, sb.String())
	}
}

func (m *gridMon[T]) set(x, y int) {
	v := m.fresh()
	m.t.Op("Set", int64(x), int64(y))
	m.a.Set(x, y, v)
	m.m[y][x] = v
}

func (m *gridMon[T]) fill(x1, y1, x2, y2 int) {
	v := m.fresh()
	m.t.Op("Fill", int64(x1), int64(y1), int64(x2), int64(y2))
	m.a.Fill(x1, y1, x2, y2, v)
	for y := min(y1, y2); y <= max(y1, y2); y++ {
		for x := min(x1, x2); x <= max(x1, x2); x++ {
			m.m[y][x] = v
		}
	}
}

func (m *gridMon[T]) span(x1, x2, y int) {
	t := m.t
	t.Op("RowSpan", int64(x1), int64(x2), int64(y))
	s := m.a.RowSpan(x1, x2, y)
	lo, hi := min(x1, x2), max(x1, x2)
	t.Check(1)
	if len(s) != hi-lo+1 {
		t.Fail("array2d: RowSpan(%d, %d, %d) has %d cells", x1, x2, y, len(s))
	}
	for i := range s {
		if !eqv(s[i], m.m[y][lo+i]) {
			t.Fail("array2d: RowSpan(%d, %d, %d) has a wrong cell at %d", x1, x2, y, i)
		}
		if t.Bool() {
			v := m.fresh()
			s[i] = v
			m.m[y][lo+i] = v
		}
	}
	// and the array writes through to the span
	x := lo + t.Intn(len(s))
	m.set(x, y)
	if !eqv(s[x-lo], m.m[y][x]) {
		t.Fail("array2d: RowSpan(%d, %d, %d) does not see a Set", x1, x2, y)
	}
	m.keep(lo, y, s)
}

func (m *gridMon[T]) row(y int) {
	t := m.t
	t.Op("Row", int64(y))
	s := m.a.Row(y)
	if len(s) != m.w {
		t.Fail("array2d: Row(%d) has %d cells in an array of width %d", y, len(s), m.w)
	}
	for i := range s {
		v := m.fresh()
		s[i] = v
		m.m[y][i] = v
	}
	if m.w > 0 {
		x := t.Intn(m.w)
		m.set(x, y)
		if !eqv(s[x], m.m[y][x]) {
			t.Fail("array2d: Row(%d) does not see a Set", y)
		}
		m.keep(0, y, s)
	}
}

// outside tries accesses of which at least one coordinate is out of range.
func (m *gridMon[T]) outside(all bool) {
	t := m.t
	bad := func(n int) []int {
		return []int{-1, n, n + 1, -n, -n - 1, 2 * n, math.MinInt, math.MaxInt, n * max(m.w, m.h), math.MinInt + n}
	}
	pick := func(n int, wrong bool) int {
		if wrong {
			b := bad(n)
			for {
				if x := b[t.Intn(len(b))]; x < 0 || x >= n {
					return x
				}
			}
		}
		return t.Intn(n)
	}
	v := m.fresh()
	try := func(what string, fn func()) {
		t.Op("outside "+what, int64(m.w), int64(m.h))
		t.Event("rejected_accesses", 1)
		t.Check(1)
		if p, _ := mon.Panics(fn); !p {
			t.Fail("array2d: %s of a %dx%d array does not panic", what, m.w, m.h)
		}
	}
	k := 1
	if all {
		k = 4
	}
	for ; k > 0; k-- {
		for bits := 1; bits < 16; bits++ {
			if m.w == 0 && bits&5 != 5 || m.h == 0 && bits&10 != 10 {
				continue // no coordinate is in range
			}
			x1, y1 := pick(m.w, bits&1 != 0), pick(m.h, bits&2 != 0)
			x2, y2 := pick(m.w, bits&4 != 0), pick(m.h, bits&8 != 0)
			if bits < 4 {
				try(fmt.Sprintf("Get(%d, %d)", x1, y1), func() { m.a.Get(x1, y1) })
				try(fmt.Sprintf("Set(%d, %d)", x1, y1), func() { m.a.Set(x1, y1, v) })
			}
			if bits&8 == 0 {
				try(fmt.Sprintf("RowSpan(%d, %d, %d)", x1, x2, y1), func() { m.a.RowSpan(x1, x2, y1) })
			}
			if bits&2 != 0 {
				try(fmt.Sprintf("Row(%d)", y1), func() { m.a.Row(y1) })
			}
			try(fmt.Sprintf("Fill(%d, %d, %d, %d)", x1, y1, x2, y2), func() { m.a.Fill(x1, y1, x2, y2, v) })
		}
	}
	m.full("rejected accesses")
}

func gridMake[T any](t *mon.T, el elems[T], w, h, how int) *gridMon[T] {
	m := &gridMon[T]{t: t, el: el, w: w, h: h, m: blankRows[T](w, h)}
	what := ""
	switch how {
	case 0:
		what = "New"
		m.a = array2d.New[T](w, h)
	case 1:
		what = "NewFilled"
		v := m.fresh()
		m.a = array2d.NewFilled(w, h, v)
		for y := range m.m {
			for x := range m.m[y] {
				m.m[y][x] = v
			}
		}
	default:
		what = "OfJagged"
		var j [][]T
		for y := t.Intn(h + 3); y > 0; y-- {
			var row []T
			for x := t.Intn(w + 3); x > 0; x-- {
				row = append(row, m.fresh())
			}
			j = append(j, row)
		}
		keep := blankRows[T](0, len(j))
		for y := range j {
			keep[y] = cat(j[y])
		}
		m.a = array2d.OfJagged(w, h, j)
		for y := range j {
			same(t, "array2d: the rows given to OfJagged, afterwards,", j[y], keep[y])
			for x := range j[y] {
				if y < h && x < w {
					m.m[y][x] = j[y][x]
				}
				j[y][x] = m.fresh() // no longer of any concern to the array
			}
		}
	}
	t.Op(what, int64(w), int64(h))
	m.full(what)
	m.str()
	return m
}

func gridAll[T any](t *mon.T, el elems[T], w, h int) {
	t.Note("every cell, row, span and region of a %dx%d array of %s", w, h, el.name)
	for how := 0; how < 3; how++ {
		m := gridMake(t, el, w, h, how)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				m.set(x, y)
				m.full("Set")
			}
			m.row(y)
			m.full("writes through Row")
		}
		m.str()
		m.outside(true)
		for y1 := 0; y1 < h; y1++ {
			for x1 := 0; x1 < w; x1++ {
				for x2 := 0; x2 < w; x2++ {
					m.span(x1, x2, y1)
					if how == 0 || w*h < 8 {
						m.full("writes through RowSpan")
					}
					if how == 1 || w*h < 8 {
						for y2 := 0; y2 < h; y2++ {
							m.fill(x1, y1, x2, y2)
							if w*h <= 16 || t.Intn(4) == 0 || x1 == w-1 && y1 == h-1 {
								m.full("Fill")
							}
						}
					}
				}
			}
		}
		m.full("everything")
		m.str()
	}
}

func gridRun[T any](t *mon.T, el elems[T], w, h, ops int) {
	t.Note("%d operations on a %dx%d array of %s", ops, w, h, el.name)
	m := gridMake(t, el, w, h, t.Intn(3))
	m.outside(false)
	if w == 0 || h == 0 {
		return
	}
	for i := 0; i < ops; i++ {
		x, y := t.Intn(w), t.Intn(h)
		switch t.Intn(6) {
		case 0, 1:
			m.set(x, y)
		case 2:
			m.fill(x, y, t.Intn(w), t.Intn(h))
		case 3:
			m.span(x, t.Intn(w), y)
		case 4:
			m.row(y)
		case 5:
			m.outside(false)
		}
		if w*h < 500 || i%10 == 0 {
			m.full("an operation")
		}
	}
	m.full("all operations")
	m.str()
}

// --- C26: bimap ------------------------------------------------------------

type bimapMon[K, V comparable] struct {
	t   *mon.T
	b   *bimap.Bimap[K, V]
	k   []K
	v   []V
	fwd []int // class of the value of a key, or -1
	rev []int
}

func (m *bimapMon[K, V]) unlinkKey(k int) {
	if v := m.fwd[k]; v >= 0 {
		m.fwd[k], m.rev[v] = -1, -1
	}
}

func (m *bimapMon[K, V]) unlinkVal(v int) {
	if k := m.rev[v]; k >= 0 {
		m.fwd[k], m.rev[v] = -1, -1
	}
}

func (m *bimapMon[K, V]) full() {
	t := m.t
	n := 0
	for _, w := range m.fwd {
		if w >= 0 {
			n++
		}
	}
	length := func() {
		if l := m.b.Len(); l != n {
			t.Fail("bimap: Len() = %d, expected %d", l, n)
		}
	}
	t.Shuffle(length, func() {
		d := t.Intn(len(m.k))
		for i := range m.k {
			m.forward((i + d) % len(m.k))
		}
	}, func() {
		d := t.Intn(len(m.v))
		for i := range m.v {
			m.reverse((i + d) % len(m.v))
		}
	}, func() {
		inner := t.Inner(n)
		if n > 2000 && t.Intn(4) > 0 {
			inner = -1
		}
		m.each(n, inner, length)
	})
	h := uint64(0)
	for _, w := range m.fwd {
		h = mon.Mix(h, uint64(w+1))
	}
	t.State(h)
	t.Max("bimap_length", int64(n))
}

// forward compares one key.
func (m *bimapMon[K, V]) forward(k int) {
	t := m.t
	key := m.k[k]
	t.Check(1)
	w := m.fwd[k]
	contains := func() {
		if b := m.b.ContainsForward(key); b != (w >= 0) {
			t.Fail("bimap: ContainsForward(%v) = %v", key, b)
		}
	}
	get := func() {
		v, ok := m.b.GetForward(key)
		var want V
		if w >= 0 {
			want = m.v[w]
		}
		if ok != (w >= 0) || v != want {
			t.Fail("bimap: GetForward(%v) = %v, %v, expected %v, %v", key, v, ok, want, w >= 0)
		}
	}
	if t.Bool() {
		contains()
		get()
	} else {
		get()
		contains()
	}
}

// reverse compares one value.
func (m *bimapMon[K, V]) reverse(v int) {
	t := m.t
	val := m.v[v]
	t.Check(1)
	w := m.rev[v]
	contains := func() {
		if b := m.b.ContainsReverse(val); b != (w >= 0) {
			t.Fail("bimap: ContainsReverse(%v) = %v", val, b)
		}
	}
	get := func() {
		k, ok := m.b.GetReverse(val)
		var want K
		if w >= 0 {
			want = m.k[w]
		}
		if ok != (w >= 0) || k != want {
			t.Fail("bimap: GetReverse(%v) = %v, %v, expected %v, %v", val, k, ok, want, w >= 0)
		}
	}
	if t.Bool() {
		contains()
		get()
	} else {
		get()
		contains()
	}
}

func (m *bimapMon[K, V]) each(n, inner int, length func()) {
	t := m.t
	seen := map[K]V{}
	c := 0
	m.b.Each(func(k K, v V) {
		if c == inner {
			t.Event("queries_within_a_traversal", 1)
			length()
			if t.Bool() {
				m.each(n, -1, length)
			}
			m.forward(t.Intn(len(m.k)))
			m.reverse(t.Intn(len(m.v)))
		}
		c++
		seen[k] = v
	})
	if c != n || len(seen) != n {
		t.Fail("bimap: Each visits %d pairs, %d keys, expected %d", c, len(seen), n)
	}
	for k, w := range m.fwd {
		if v, ok := seen[m.k[k]]; ok != (w >= 0) || ok && v != m.v[w] {
			t.Fail("bimap: Each visits %v=%v (%v), expected %d", m.k[k], v, ok, w)
		}
	}
}

func (m *bimapMon[K, V]) apply(op, k, v int) {
	t := m.t
	switch op {
	case 0:
		t.Op("Add", int64(k), int64(v))
		switch {
		case m.fwd[k] >= 0 && m.rev[v] >= 0 && m.fwd[k] != v:
			t.Event("collisions_of_both", 1)
		case m.fwd[k] == v:
			t.Event("pairs_added_again", 1)
		case m.fwd[k] >= 0:
			t.Event("collisions_of_keys", 1)
		case m.rev[v] >= 0:
			t.Event("collisions_of_values", 1)
		}
		m.b.Add(m.k[k], m.v[v])
		m.unlinkKey(k)
		m.unlinkVal(v)
		m.fwd[k], m.rev[v] = v, k
	case 1:
		t.Op("RemoveForward", int64(k))
		m.b.RemoveForward(m.k[k])
		m.unlinkKey(k)
	case 2:
		t.Op("RemoveReverse", int64(v))
		m.b.RemoveReverse(m.v[v])
		m.unlinkVal(v)
	case 3:
		t.Op("Clear")
		m.b.Clear()
		for i := range m.fwd {
			m.unlinkKey(i)
		}
	}
}

func newBimapMon[K, V comparable](t *mon.T, nk, nv int, k func(int) K, v func(int) V, of bool) *bimapMon[K, V] {
	m := &bimapMon[K, V]{t: t, fwd: make([]int, nk), rev: make([]int, nv)}
	ki, vi := map[K]int{}, map[V]int{}
	for i := 0; i < nk; i++ {
		m.k = append(m.k, k(i))
		m.fwd[i] = -1
		ki[m.k[i]] = i
	}
	for i := 0; i < nv; i++ {
		m.v = append(m.v, v(i))
		m.rev[i] = -1
		vi[m.v[i]] = i
	}
	if !of {
		m.b = &bimap.Bimap[K, V]{}
		m.full()
		return m
	}
	src := map[K]V{}
	for i := t.Intn(nk + 1); i > 0; i-- {
		src[m.k[t.Intn(nk)]] = m.v[t.Intn(nv)]
	}
	if len(src) == 0 && t.Bool() {
		src = nil
	}
	t.Op("Of", int64(len(src)))
	keep := map[K]V{}
	vals := map[V]bool{}
	for k, v := range src {
		keep[k] = v
		vals[v] = true
	}
	b := bimap.Of(src)
	m.b = &b
	if len(src) != len(keep) {
		t.Fail("bimap: Of changed the map it was given")
	}
	for k, v := range keep {
		if src[k] != v {
			t.Fail("bimap: Of changed the map it was given")
		}
	}
	// Which of several keys of a value survives is up to the map's order, but
	// one does for each value.
	m.b.Each(func(k K, v V) {
		if w, ok := keep[k]; !ok || w != v {
			t.Fail("bimap: Of yields the pair %v=%v, which it was not given", k, v)
		}
		if m.rev[vi[v]] >= 0 {
			t.Fail("bimap: Of yields the value %v twice", v)
		}
		m.fwd[ki[k]], m.rev[vi[v]] = vi[v], ki[k]
	})
	if m.b.Len() != len(vals) {
		t.Fail("bimap: Of yields %d pairs from %d distinct values", m.b.Len(), len(vals))
	}
	for k := range src {
		delete(src, k)
	}
	m.full()
	return m
}

func bimapRun[K, V comparable](t *mon.T, nk, nv int, k func(int) K, v func(int) V, ops, every int) {
	t.Note("%T to %T, %d keys, %d values, %d operations", k(0), v(0), nk, nv, ops)
	m := newBimapMon(t, nk, nv, k, v, t.Bool())
	w := []int{10 + t.Intn(20), t.Intn(8), t.Intn(8), 0}
	if t.Bool() {
		w[3] = 1
	}
	for i := 0; i < ops; i++ {
		k, v := t.Intn(nk), t.Intn(nv)
		m.apply(t.Weighted(w), k, v)
		if t.Gap() {
			continue
		}
		if i%every == 0 {
			m.full()
		} else if t.Bool() {
			m.forward(k)
		} else {
			m.reverse(v)
		}
	}
	m.full()
}

func bimapCase(t *mon.T, n, ops, every int) {
	nk, nv := 1+t.Intn(n), 1+t.Intn(n)
	str := func(i int) string { return "s" + strconv.Itoa(i) }
	num := func(i int) int { return i - 2 }
	arr := func(i int) [2]int8 { return [2]int8{int8(i), int8(i >> 7)} }
	anyOf := func(i int) any {
		switch i % 3 {
		case 0:
			return i
		case 1:
			return fmt.Sprint(i)
		}
		return float64(i)
	}
	switch t.Intn(5) {
	case 0:
		bimapRun(t, nk, nv, num, num, ops, every)
	case 1:
		bimapRun(t, nk, nv, num, str, ops, every)
	case 2:
		bimapRun(t, nk, nv, str, arr, ops, every)
	case 3:
		bimapRun(t, nk, nv, anyOf, num, ops, every)
	case 4:
		ptrs := make([]*boxed, nv)
		for i := range ptrs {
			ptrs[i] = &boxed{i}
		}
		ptrs[0] = nil
		bimapRun(t, nk, nv, str, func(i int) *boxed { return ptrs[i] }, ops, every)
	}
}

func bimapHistories(t *mon.T, length int) {
	n := 2 + t.Index%2
	part, parts := t.Index/2, max(1, t.Count/2)
	t.Note("all histories of %d operations on %d keys and values, part %d of %d", length, n, part, parts)
	acts := n*n + 2*n + 1
	total := 1
	for i := 0; i < length; i++ {
		total *= acts
	}
	num := func(i int) int { return i }
	for h := part; h < total; h += parts {
		m := &bimapMon[int, int]{t: t, b: &bimap.Bimap[int, int]{}}
		for i := 0; i < n; i++ {
			m.k, m.v = append(m.k, num(i)), append(m.v, num(i))
			m.fwd, m.rev = append(m.fwd, -1), append(m.rev, -1)
		}
		for i, x := 0, h; i < length; i++ {
			a := x % acts
			x /= acts
			switch {
			case a < n*n:
				m.apply(0, a/n, a%n)
			case a < n*n+n:
				m.apply(1, a-n*n, 0)
			case a < n*n+2*n:
				m.apply(2, 0, a-n*n-n)
			default:
				m.apply(3, 0, 0)
			}
		}
		m.full()
	}
}

// --- C27: Compare, Min, Max, Clamp -----------------------------------------

// orderPairs checks the functions of two arguments on all pairs and, those of
// three on the given number of triples (all of them if 0).
func orderCheck[T cmp.Ordered](t *mon.T, name string, vals []T, triples int) {
	t.Note("%s: %d values", name, len(vals))
	h := uint64(0)
	for _, v := range vals {
		h = mon.Mix(h, mon.HashStr(fmt.Sprint(v)))
	}
	t.Op("values "+name, int64(len(vals)), int64(h))
	for _, a := range vals {
		t.Tick()
		for _, b := range vals {
			c := cmp.Compare(a, b)
			if g.Less(a, b) != (c < 0) || g.Equals(a, b) != (c == 0) {
				t.Fail("generic: Less or Equals of %s %v and %v is wrong", name, a, b)
			}
			if x := g.Compare(a, b, g.Less[T]); x != c {
				t.Fail("generic: Compare(%v, %v) = %d for %s, expected %d", a, b, x, name, c)
			}
			if x := g.Compare(a, b, func(x, y T) bool { return y < x }); x != -c {
				t.Fail("generic: Compare(%v, %v) = %d for %s in descending order, expected %d", a, b, x, name, -c)
			}
			lo, hi := a, b
			if c > 0 {
				lo, hi = b, a
			}
			if x := g.Max(a, b); x != hi {
				t.Fail("generic: Max(%v, %v) = %v for %s", a, b, x, name)
			}
			if x := g.Min(a, b); x != lo {
				t.Fail("generic: Min(%v, %v) = %v for %s", a, b, x, name)
			}
			if x := g.MaxFunc(a, b, g.Less[T]); x != hi {
				t.Fail("generic: MaxFunc(%v, %v) = %v for %s", a, b, x, name)
			}
			if x := g.MinFunc(a, b, g.Less[T]); x != lo {
				t.Fail("generic: MinFunc(%v, %v) = %v for %s", a, b, x, name)
			}
			if x := g.MaxFunc(a, b, func(x, y T) bool { return y < x }); x != lo {
				t.Fail("generic: MaxFunc(%v, %v) = %v for %s in descending order", a, b, x, name)
			}
			if x := g.MinFunc(a, b, func(x, y T) bool { return y < x }); x != hi {
				t.Fail("generic: MinFunc(%v, %v) = %v for %s in descending order", a, b, x, name)
			}
		}
		t.Check(8 * len(vals))
		t.Event("pairs", int64(len(vals)))
	}
	clamp := func(x, lo, hi T) {
		if lo > hi {
			lo, hi = hi, lo
		}
		want := x
		if x < lo {
			want = lo
		} else if hi < x {
			want = hi
		}
		if r := g.Clamp(x, lo, hi); r != want {
			t.Fail("generic: Clamp(%v, %v, %v) = %v for %s", x, lo, hi, r, name)
		}
		if r := g.ClampFunc(x, lo, hi, g.Less[T]); r != want {
			t.Fail("generic: ClampFunc(%v, %v, %v) = %v for %s", x, lo, hi, r, name)
		}
		if r := g.ClampFunc(x, hi, lo, func(x, y T) bool { return y < x }); r != want {
			t.Fail("generic: ClampFunc(%v, %v, %v) = %v for %s in descending order", x, hi, lo, r, name)
		}
	}
	if triples == 0 {
		for i, a := range vals {
			t.Tick()
			for _, b := range vals[i:] {
				for _, x := range vals {
					clamp(x, a, b)
				}
			}
			t.Check(len(vals) * (len(vals) - i))
		}
		return
	}
	for i := 0; i < triples; i++ {
		clamp(vals[t.Intn(len(vals))], vals[t.Intn(len(vals))], vals[t.Intn(len(vals))])
	}
	t.Check(triples)
}

// corner returns numbers around the ends of the ranges of the integer types
// and around zero, and random ones.
func corners[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](t *mon.T, n int) []T {
	seen := map[T]bool{}
	var r []T
	add := func(x T) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for s := 0; s < 64; s++ {
		x := T(uint64(1) << uint(s))
		add(x)
		add(x - 1)
		add(x + 1)
		add(-x)
		add(-x - 1)
	}
	for i := 0; i < n; i++ {
		add(T(t.Uint64()))
		add(T(t.Uint64() >> uint(t.Intn(64))))
	}
	return r
}

type myInt int8
type myString string

// ranked is an element ordered by its rank; self finds the original of a copy.
type ranked struct {
	rank, id int
	self     *ranked
}

// weakOrder checks the Func variants on elements that are equivalent without
// being equal, of types that may not even be comparable with ==.
func weakOrder(t *mon.T) {
	type rec struct {
		tags []int
		it   *ranked
		f    func() int
	}
	switch t.Index % 7 {
	case 0, 1:
		weakOrderOf(t, "pointers", func(x *ranked) *ranked { return x }, func(x *ranked) *ranked { return x })
	case 2:
		weakOrderOf(t, "slices", func(x *ranked) []*ranked { return []*ranked{x} }, func(x []*ranked) *ranked { return x[0] })
	case 3:
		weakOrderOf(t, "structs with slices and functions", func(x *ranked) rec { return rec{[]int{x.rank}, x, func() int { return x.rank }} }, func(x rec) *ranked { return x.it })
	case 4:
		weakOrderOf(t, "functions", func(x *ranked) func() *ranked { return func() *ranked { return x } }, func(x func() *ranked) *ranked { return x() })
	case 5:
		weakOrderOf(t, "maps", func(x *ranked) map[int]*ranked { return map[int]*ranked{0: x} }, func(x map[int]*ranked) *ranked { return x[0] })
	default:
		weakOrderOf(t, "interfaces with different types", func(x *ranked) any {
			switch x.id % 3 {
			case 0:
				return []*ranked{x}
			case 1:
				return x
			}
			return *x
		}, func(x any) *ranked {
			switch x := x.(type) {
			case []*ranked:
				return x[0]
			case *ranked:
				return x
			}
			v := x.(ranked)
			return v.self
		})
	}
}

func weakOrderOf[T any](t *mon.T, name string, mk func(*ranked) T, un func(T) *ranked) {
	n := 1 + t.Intn(8)
	t.Note("weak order of %s with %d ranks", name, n)
	lessItem := func(a, b *ranked) bool { return a.rank < b.rank }
	if t.Bool() {
		lessItem = func(a, b *ranked) bool { return a.rank%3 > b.rank%3 }
	}
	less := func(a, b T) bool { return lessItem(un(a), un(b)) }
	var xs []*ranked
	var vs []T
	h := int64(0)
	for i := 0; i < 12; i++ {
		x := &ranked{rank: t.Intn(n), id: i}
		x.self = x
		xs = append(xs, x)
		vs = append(vs, mk(x))
		h = h*8 + int64(x.rank)
	}
	t.Op("weak "+name, int64(n), h)
	for i, a := range xs {
		for j, b := range xs {
			c := g.Compare(vs[i], vs[j], less)
			w := 0
			if lessItem(a, b) {
				w = -1
			} else if lessItem(b, a) {
				w = 1
			}
			t.Check(3)
			if c != w {
				t.Fail("generic: Compare of %s of ranks %d and %d = %d", name, a.rank, b.rank, c)
			}
			if x := un(g.MaxFunc(vs[i], vs[j], less)); x != a && x != b || lessItem(x, a) || lessItem(x, b) {
				t.Fail("generic: MaxFunc of %s of ranks %d and %d is wrong", name, a.rank, b.rank)
			}
			if x := un(g.MinFunc(vs[i], vs[j], less)); x != a && x != b || lessItem(a, x) || lessItem(b, x) {
				t.Fail("generic: MinFunc of %s of ranks %d and %d is wrong", name, a.rank, b.rank)
			}
			if lessItem(b, a) {
				continue
			}
			for k, x := range xs {
				want := x
				if lessItem(x, a) {
					want = a
				} else if lessItem(b, x) {
					want = b
				}
				if r := un(g.ClampFunc(vs[k], vs[i], vs[j], less)); r != want {
					t.Fail("generic: ClampFunc of %s of ranks %d, %d, %d is not the expected argument", name, x.rank, a.rank, b.rank)
				}
			}
		}
	}
}

func orderCase(t *mon.T, i int) {
	switch i % 17 {
	case 0:
		orderCheck(t, "int", corners[int](t, 60), 3000)
	case 1:
		orderCheck(t, "int16", corners[int16](t, 60), 3000)
	case 2:
		orderCheck(t, "int32", corners[int32](t, 60), 3000)
	case 3:
		orderCheck(t, "int64", corners[int64](t, 60), 3000)
	case 4:
		orderCheck(t, "uint", corners[uint](t, 60), 3000)
	case 5:
		orderCheck(t, "uint16", corners[uint16](t, 60), 3000)
	case 6:
		orderCheck(t, "uint32", corners[uint32](t, 60), 3000)
	case 7:
		orderCheck(t, "uint64", corners[uint64](t, 60), 3000)
	case 8:
		orderCheck(t, "uintptr", corners[uintptr](t, 60), 3000)
	case 9:
		orderCheck(t, "uint8", corners[uint8](t, 200), 3000)
	case 10:
		orderCheck(t, "named int8", corners[myInt](t, 200), 3000)
	case 11, 12:
		vals := []float64{math.Inf(-1), math.Inf(1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1, math.Nextafter(1, 2), math.Nextafter(1, 0)}
		for len(vals) < 90 {
			if x := math.Float64frombits(t.Uint64()); x == x {
				vals = append(vals, x)
			}
		}
		if i%17 == 12 {
			v32 := []float32{math.MaxFloat32, math.SmallestNonzeroFloat32}
			for _, x := range vals {
				v32 = append(v32, float32(x))
			}
			orderCheck(t, "float32", v32, 3000)
			return
		}
		orderCheck(t, "float64", vals, 3000)
	case 13:
		orderCheck(t, "string", someStrings(120, "\x00a\xff"), 3000)
	case 14:
		var vals []myString
		for _, s := range someStrings(60, "\x00a\xff") {
			vals = append(vals, myString(s+strings.Repeat("x", t.Intn(40))))
		}
		orderCheck(t, "named string", vals, 3000)
	default:
		weakOrder(t)
	}
}

func orderBytes(t *mon.T) {
	switch t.Index {
	case 0:
		var v []int8
		for i := 0; i < 256; i++ {
			v = append(v, int8(i))
		}
		orderCheck(t, "all of int8", v, t.Pick(200000, 0))
	case 1:
		var v []uint8
		for i := 0; i < 256; i++ {
			v = append(v, uint8(i))
		}
		orderCheck(t, "all of uint8", v, t.Pick(200000, 0))
	}
}

func init() {
	hist := "A case is a generated history of operations (or a slice of all short histories) on one container, mirrored on a reference model and compared; distinct by trace hash, non-trivial if it contains at least one operation."
	mon.Register("C24", hist,
		&mon.Scenario{Name: "small", Quick: 6000, Thorough: 200000, Run: func(t *mon.T) { ulCase(t, 40+t.Intn(150), 4+t.Intn(40), 1) }},
		&mon.Scenario{Name: "medium", Quick: 200, Thorough: 5000, Run: func(t *mon.T) { ulCase(t, 2500, 500, 50) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 16, Thorough: 32, Run: func(t *mon.T) { ulHistories(t, t.Pick(2, 3)) }},
		&mon.Scenario{Name: "all-longer-histories", Quick: 4, Thorough: 16, Run: func(t *mon.T) {
			// from the empty list only
			ulFromEmpty(t, t.Pick(5, 6))
		}},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 60, Run: func(t *mon.T) { ulCase(t, 40000, 20000, 8000) }},
	)
	mon.Register("C25", "A case is an array shape with every cell, row, span and region exercised, or a generated history on a random shape, mirrored on a slice of slices; distinct by trace hash, non-trivial if it contains at least one operation.",
		&mon.Scenario{Name: "all-shapes", Quick: 49, Thorough: 100, Run: func(t *mon.T) {
			n := t.Pick(7, 10)
			w, h := t.Index%n, t.Index/n
			if (w+h)%2 == 0 {
				gridAll(t, intElems, w, h)
			} else {
				gridAll(t, structElems, w, h)
			}
		}},
		&mon.Scenario{Name: "random-shapes", Quick: 1500, Thorough: 40000, Run: func(t *mon.T) {
			w, h := t.Intn(20), t.Intn(20)
			switch t.Intn(8) {
			case 0:
				w = 1
			case 1:
				h = 1
			case 2:
				w = t.Intn(300)
			case 3:
				h = t.Intn(300)
			}
			switch t.Intn(7) {
			case 0:
				gridRun(t, stringElems, w, h, 40)
			case 1:
				gridRun(t, byteElems, w, h, 40)
			case 2:
				gridRun(t, funcElems, w, h, 40)
			case 3:
				gridRun(t, sliceElems, w, h, 40)
			case 4:
				gridRun(t, anyElems, w, h, 40)
			case 5:
				gridRun(t, unitElems, w, h, 40)
			default:
				gridRun(t, intElems, w, h, 40)
			}
		}},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 60, Run: func(t *mon.T) {
			gridRun(t, intElems, 1+t.Intn(1500), 1+t.Intn(700), 60)
		}},
	)
	mon.Register("C26", hist,
		&mon.Scenario{Name: "small", Quick: 8000, Thorough: 200000, Run: func(t *mon.T) { bimapCase(t, 8, 40+t.Intn(100), 1) }},
		&mon.Scenario{Name: "medium", Quick: 200, Thorough: 4000, Run: func(t *mon.T) { bimapCase(t, 120, 3000, 60) }},
		&mon.Scenario{Name: "all-short-histories", Quick: 16, Thorough: 32, Run: func(t *mon.T) { bimapHistories(t, t.Pick(4, 5)) }},
		&mon.Scenario{Name: "large", Quick: 8, Thorough: 40, Run: func(t *mon.T) {
			num := func(i int) int { return i }
			bimapRun(t, 10000, 8000, num, num, 40000, 8000)
		}},
	)
	mon.Register("C27", "A case is a set of values of one ordered type (corner values and random ones, or all of an 8-bit type), or elements under a weak order, on which all pairs and many triples are evaluated and compared with the operators. Distinct by trace hash, non-trivial if it contains at least two values.",
		&mon.Scenario{Name: "types", Quick: 170, Thorough: 6000, Run: func(t *mon.T) { orderCase(t, t.Index) }},
		&mon.Scenario{Name: "all-8-bit", Quick: 2, Thorough: 2, Run: orderBytes},
		&mon.Scenario{Name: "weak-orders", Quick: 2000, Thorough: 50000, Run: weakOrder},
	)
}

// ulFromEmpty runs all histories on initially empty lists.
func ulFromEmpty(t *mon.T, length int) {
	block := 1 + t.Index%4
	part, parts := t.Index/4, max(1, t.Count/4)
	t.Note("all histories of %d edits at all positions from the empty list, blocks of %d, part %d of %d", length, block, part, parts)
	var hist []int
	k := 0
	var rec func(n int)
	rec = func(n int) {
		if len(hist) == length {
			k++
			if k%parts != part {
				return
			}
			m := &ulMon[int]{t: t, el: intElems, ul: ulist.New[int](block)}
			for _, e := range hist {
				if e >= 2 {
					if !m.valid() || m.pos != (e-2)/3 {
						m.seek((e - 2) / 3)
					}
					m.edit(ulAddAfter + (e-2)%3)
				} else {
					m.edit(e)
				}
			}
			m.full()
			return
		}
		for e := 0; e < 2+3*n; e++ {
			hist = append(hist, e)
			if e >= 2 && (e-2)%3 == 2 {
				rec(n - 1)
			} else {
				rec(n + 1)
			}
			hist = hist[:len(hist)-1]
		}
	}
	rec(0)
}
