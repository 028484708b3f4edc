package props

import (
	"math/bits"
	"strconv"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// --- C33: operations cost what the documentation promises --------------------

// A job is an operation, or a few that cancel out, to be repeated on a
// container of a given size.
type job struct {
	name string
	do   func(i int)
}

// A bench makes a container of about n elements with some history, and the
// jobs that are to be done on it. All of them leave its size as it is.
type bench struct {
	name string
	mk   func(r *mon.Rng, n int, hist int) []job
}

// histories in which the elements may have come
const (
	histAscending = iota
	histDescending
	histRandom
	histChurned
	histories
)

var histNames = []string{"ascending", "descending", "random", "churned"}

// fillOrder calls put for each of 0..n-1 in some order; a churned history
// also puts and removes as many others.
func fillOrder(r *mon.Rng, n, hist int, put, remove func(k int)) {
	switch hist {
	case histAscending:
		for i := 0; i < n; i++ {
			put(i)
		}
	case histDescending:
		for i := n - 1; i >= 0; i-- {
			put(i)
		}
	case histRandom:
		for _, i := range perm(r, n) {
			put(i)
		}
	case histChurned:
		for _, i := range perm(r, 2*n) {
			put(i)
		}
		for _, i := range perm(r, n) {
			remove(n + i)
		}
	}
}

func perm(r *mon.Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// picks are prepared so that the choice costs nothing while measuring.
type picks []int

func pick(r *mon.Rng, n int) picks {
	p := make(picks, 1024)
	for i := range p {
		p[i] = r.Intn(n)
	}
	return p
}

func (p picks) at(i int) int { return p[i%len(p)] }

var sink int

// mapJobs are those of the map-like containers; the keys are even, so that
// there are absent ones everywhere.
func mapJobs(r *mon.Rng, n, hist int, put func(k, v int), get func(k int) bool, remove func(k int), size func() int) []job {
	fillOrder(r, n, hist, func(k int) { put(2*k, k) }, func(k int) { remove(2 * k) })
	p := pick(r, n)
	js := []job{
		{"Get of a present key", func(i int) { get(2 * p.at(i)) }},
		{"Get of an absent key", func(i int) { get(2*p.at(i) + 1) }},
		{"Put of a present key", func(i int) { put(2*p.at(i), i) }},
		{"Put and Remove", func(i int) { k := 2*p.at(i) + 1; put(k, i); remove(k) }},
		{"Remove and Put", func(i int) { k := 2 * p.at(i); remove(k); put(k, i) }},
		{"Put and Remove of one key", func(i int) { put(-1, i); remove(-1) }},
		{"Remove of an absent key", func(i int) { remove(2*p.at(i) + 1) }},
	}
	if size != nil {
		js = append(js, job{"Size", func(i int) { sink += size() }})
	}
	return js
}

func hashMapBench(copied bool) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		m := hashmap.New[int, int](uint64(r.Intn(3)), g.Equals[int], g.HashInt)
		var keep *hashmap.Map[int, int]
		js := mapJobs(r, n, hist, func(k, v int) { m.Put(k, v) },
			func(k int) bool { _, ok := m.Get(k); return ok },
			func(k int) { m.Remove(k) }, func() int { return m.Size() })
		if copied {
			keep = m.Copy()
			if r.Intn(2) == 0 {
				m, keep = keep, m
			}
		}
		js = append(js, job{"Copy", func(i int) { sink += m.Copy().Size() }})
		return js
	}
}

func multiBench(mk func() multimap.MultiMap[int, int]) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		m := mk()
		fillOrder(r, n, hist, func(k int) { m.Put(2*k, 0); m.Put(2*k, 1) }, func(k int) { m.RemoveAll(2 * k) })
		p := pick(r, n)
		return []job{
			{"Get", func(i int) { sink += len(m.Get(2 * p.at(i))) }},
			{"Count", func(i int) { sink += m.Count(2 * p.at(i)) }},
			{"Has", func(i int) { m.Has(p.at(i)) }},
			{"Size", func(i int) { sink += m.Size() }},
			{"Put and Remove", func(i int) { m.Put(2*p.at(i), 2); m.Remove(2*p.at(i), 2) }},
			{"Put and Remove of a new key", func(i int) { m.Put(2*p.at(i)+1, 2); m.Remove(2*p.at(i)+1, 2) }},
			{"Put and RemoveAll of a new key", func(i int) { k := 2*p.at(i) + 1; m.Put(k, 1); m.Put(k, 2); m.RemoveAll(k) }},
		}
	}
}

func setBench(mk func() set.SetOf[int]) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		s := mk()
		return mapJobs(r, n, hist, func(k, v int) { s.Put(k) }, s.Has, s.Remove, s.Size)
	}
}

func intervalBench(shape int) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		t := interval.New[int, int]()
		end := func(k int) int {
			switch shape {
			case 0: // disjoint
				return 4*k + 2
			case 1: // touching, with a gap in the middle
				if k == n/2 {
					return 4*k + 1
				}
				return 4*k + 4
			case 2: // some of them long, far from what is asked
				if k < n/4 && bits.OnesCount(uint(k)) == 1 {
					return 4 * (n / 4)
				}
				return 4*k + 1
			default: // empty ones among them
				if k%2 == 0 {
					return 4 * k
				}
				return 4*k + 3
			}
		}
		fillOrder(r, n, hist, func(k int) {
			if r.Intn(2) == 0 {
				t.Add(4*k, end(k), k)
			} else {
				t.Put(4*k, end(k), k)
			}
		}, func(k int) { t.Remove(4 * k) })
		p := pick(r, n)
		lo := func(i int) int { return 4 * (n/2 + p.at(i)/2) } // in the upper half
		return []job{
			{"Get of a present key", func(i int) { t.Get(4 * p.at(i)) }},
			{"Get of an absent key", func(i int) { t.Get(4*p.at(i) + 1) }},
			{"Add of a present key", func(i int) { t.Add(4*p.at(i), 4*n, i) }},
			{"Put of a present key", func(i int) { k := p.at(i); t.Put(4*k, end(k), i) }},
			{"Add and Remove", func(i int) { k := 4*p.at(i) + 1; t.Add(k, k+1, i); t.Remove(k) }},
			{"Put and Remove", func(i int) { k := 4*p.at(i) + 1; t.Put(k, 4*n, i); t.Remove(k) }},
			{"Remove and Add", func(i int) { k := p.at(i); t.Remove(4 * k); t.Add(4*k, end(k), i) }},
			{"Remove of an absent key", func(i int) { t.Remove(4*p.at(i) + 1) }},
			{"Overlaps with a point", func(i int) { k := lo(i); sink += len(t.Overlaps(k+3, k+3)) }},
			{"Overlaps with a short range", func(i int) { k := lo(i); sink += len(t.Overlaps(k, k+8)) }},
			{"Overlaps beyond the end", func(i int) { k := 4*n + 4*p.at(i); sink += len(t.Overlaps(k+8, k+4*n+9)) }},
			{"Overlaps before the beginning", func(i int) { k := p.at(i); sink += len(t.Overlaps(-k-5, -1)) }},
			{"Overlaps at the beginning", func(i int) { sink += len(t.Overlaps(-5, 1)) }},
			{"Overlaps at the end", func(i int) { sink += len(t.Overlaps(4*n-6, 8*n)) }},
			{"Height", func(i int) { sink += t.Height() }},
		}
	}
}

func cacheBench(full bool) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		room := 0
		if !full {
			room = 1 + r.Intn(8)
		}
		c := cache.New[int, int](n + room)
		evicted := 0
		if r.Intn(2) == 0 {
			c.SetEvictCallback(func(k, v int) { evicted++ })
		}
		fillOrder(r, n, hist, func(k int) { c.Put(k, k) }, func(k int) { c.Remove(k) })
		for k := 0; k < n; k++ { // a churned history has evicted some
			if _, ok := c.Get(k); !ok {
				c.Put(k, k)
			}
		}
		p := pick(r, n)
		fresh := 4 * n
		return []job{
			{"Get of a present key", func(i int) { c.Get(p.at(i)) }},
			{"Get of an absent key", func(i int) { c.Get(-1 - p.at(i)) }},
			{"Put of a present key", func(i int) { c.Put(p.at(i), i) }},
			{"Remove and Put", func(i int) { k := p.at(i); c.Remove(k); c.Put(k, i) }},
			{"Size", func(i int) { sink += c.Size() + c.Capacity() }},
			{"Resize by one", func(i int) { c.Resize(n - 1); c.Resize(n + room); c.Put(-1, i) }},
			{"Resize to the same", func(i int) { c.Resize(n + room) }},
			{"Resize to more", func(i int) { c.Resize(2*n + room); c.Resize(n + room) }},
			{"Put of new keys", func(i int) { fresh++; c.Put(fresh, i) }},
		}
	}
}

func heapBench(r *mon.Rng, n, hist int) []job {
	h := heap.New(g.Less[int])
	if r.Intn(2) == 0 {
		h = heap.FromSlice(g.Less[int], perm(r, n))
	} else {
		fillOrder(r, n, hist, func(k int) { h.Push(k) }, func(k int) {})
		for h.Size() > n {
			h.Pop()
		}
	}
	p := pick(r, n)
	return []job{
		{"Push and Pop", func(i int) { h.Push(p.at(i)); h.Pop() }},
		{"Push of the least and Pop", func(i int) { h.Push(-1); h.Pop() }},
		{"Pop and Push", func(i int) { h.Pop(); h.Push(p.at(i)) }},
		{"Peek", func(i int) { h.Peek() }},
		{"Size", func(i int) { sink += h.Size() }},
	}
}

func queueBench(r *mon.Rng, n, hist int) []job {
	q := queue.New[int]()
	if r.Intn(2) == 0 {
		q = queue.Of(make([]int, n))
	}
	for q.Len() < n {
		q.Enqueue(q.Len())
		if hist == histChurned && q.Len() > 1 && r.Intn(3) == 0 {
			q.Dequeue()
		}
	}
	return []job{
		{"Enqueue and Dequeue", func(i int) { q.Enqueue(i); q.Dequeue() }},
		{"TryDequeue and Enqueue", func(i int) { q.TryDequeue(); q.Enqueue(i) }},
		{"Peek", func(i int) { sink += q.Peek() }},
		{"TryPeek", func(i int) { q.TryPeek() }},
		{"Len and Empty", func(i int) {
			if !q.Empty() {
				sink += q.Len()
			}
		}},
	}
}

func stackBench(r *mon.Rng, n, hist int) []job {
	s := stack.New[int]()
	for s.Size() < n {
		s.Push(s.Size())
		if hist == histChurned && r.Intn(3) == 0 {
			s.Pop()
		}
	}
	return []job{
		{"Push and Pop", func(i int) { s.Push(i); s.Pop() }},
		{"Pop and Push", func(i int) { s.Pop(); s.Push(i) }},
		{"Peek and Size", func(i int) { sink += s.Peek() + s.Size() }},
	}
}

func listBench(r *mon.Rng, n, hist int) []job {
	l := list.New[int]()
	for i := 0; i < n; i++ {
		l.PushBack(i)
	}
	mid := l.Front
	for i := 0; i < n/2; i++ {
		mid = mid.Next
	}
	spare := &list.Node[int]{}
	return []job{
		{"PushFront and Remove", func(i int) { l.PushFront(i); l.Remove(l.Front) }},
		{"PushBack and Remove", func(i int) { l.PushBack(i); l.Remove(l.Back) }},
		{"PushFrontNode and Remove", func(i int) { l.PushFrontNode(spare); l.Remove(spare) }},
		{"PushBackNode and Remove", func(i int) { l.PushBackNode(spare); l.Remove(spare) }},
		{"InsertAfter and Remove", func(i int) { l.Remove(l.InsertAfter(mid, spare)) }},
		{"InsertBefore and Remove", func(i int) { l.Remove(l.InsertBefore(mid, spare)) }},
		{"Remove and InsertAfter", func(i int) { at := mid.Prev; l.Remove(mid); l.InsertAfter(at, mid) }},
	}
}

func ulistBench(blk int) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		u := ulist.New[int](blk)
		for i := 0; i < n; i++ {
			if hist == histDescending || hist == histRandom && r.Intn(2) == 0 {
				u.PushFront(i)
			} else {
				u.PushBack(i)
			}
		}
		middle := func() *ulist.UListIter[int] {
			it := u.Begin()
			for i := 0; i < n/2; i++ {
				it.Next()
			}
			return it
		}
		it := middle()
		drop := func(last bool) {
			if last {
				u.Remove(u.End())
			} else {
				u.Remove(u.Begin())
			}
		}
		return []job{
			{"PushBack and Remove", func(i int) { u.PushBack(i); drop(true) }},
			{"PushFront and Remove", func(i int) { u.PushFront(i); drop(false) }},
			{"Begin, End and Size", func(i int) { sink += u.Begin().Get() + u.End().Get() + u.Size() }},
			{"Next", func(i int) {
				if !it.Next() {
					it = u.Begin()
				}
			}},
			{"Prev", func(i int) {
				if !it.Prev() {
					it = u.End()
				}
			}},
			// the iterator may have been left behind by the pushes
			{"AddAfter and Remove", func(i int) {
				if i == 0 {
					it = middle()
				}
				u.AddAfter(it, i)
				u.Remove(it)
				if !it.IsValid() {
					it = u.Begin()
				}
			}},
			{"AddBefore and Remove", func(i int) {
				if i == 0 {
					it = middle()
				}
				u.AddBefore(it, i)
				u.Remove(it)
				if !it.IsValid() {
					it = u.Begin()
				}
			}},
		}
	}
}

func bimapBench(r *mon.Rng, n, hist int) []job {
	var b bimap.Bimap[int, int]
	fillOrder(r, n, hist, func(k int) { b.Add(k, -k) }, func(k int) { b.RemoveForward(k) })
	p := pick(r, n)
	return []job{
		{"GetForward", func(i int) { b.GetForward(p.at(i)) }},
		{"GetReverse", func(i int) { b.GetReverse(-p.at(i)) }},
		{"ContainsForward", func(i int) { b.ContainsForward(p.at(i)) }},
		{"ContainsReverse", func(i int) { b.ContainsReverse(p.at(i)) }},
		{"Add of a present pair", func(i int) { k := p.at(i); b.Add(k, -k) }},
		{"Add and RemoveForward", func(i int) { k := n + p.at(i); b.Add(k, -k); b.RemoveForward(k) }},
		{"Add and RemoveReverse", func(i int) { k := n + p.at(i); b.Add(k, -k); b.RemoveReverse(-k) }},
		{"Add that displaces", func(i int) { k := p.at(i); b.Add(k, n+k); b.Add(k, -k) }},
		{"Len", func(i int) { sink += b.Len() }},
	}
}

func trieKeyFor(k int) string {
	// digits that vary early, and a common ending
	return strconv.FormatUint(mon.Mix(uint64(k), 77)%1e9, 36) + ":" + strconv.Itoa(k)
}

func trieBench(r *mon.Rng, n, hist int) []job {
	t := trie.New[int]()
	fillOrder(r, n, hist, func(k int) { t.Put(trieKeyFor(k), k) }, func(k int) { t.Remove(trieKeyFor(k)) })
	ks := make([]string, 1024)
	no := make([]string, 1024)
	for i, k := range pick(r, n) {
		ks[i] = trieKeyFor(k)
		no[i] = trieKeyFor(2*n + 1 + k)
	}
	return []job{
		{"Get of a present key", func(i int) { t.Get(ks[i%1024]) }},
		{"Get of an absent key", func(i int) { t.Get(no[i%1024]) }},
		{"Contains", func(i int) { t.Contains(ks[i%1024]) }},
		{"Put of a present key", func(i int) { t.Put(ks[i%1024], i) }},
		{"Put and Remove", func(i int) { t.Put(no[i%1024], i); t.Remove(no[i%1024]) }},
		{"Remove and Put", func(i int) { t.Remove(ks[i%1024]); t.Put(ks[i%1024], i) }},
		{"Remove of an absent key", func(i int) { t.Remove(no[i%1024]) }},
		{"LongestPrefix", func(i int) { sink += len(t.LongestPrefix(ks[i%1024])) + len(t.LongestPrefix(no[i%1024])) }},
		{"KeysWithPrefix of one key", func(i int) { sink += len(t.KeysWithPrefix(ks[i%1024])) }},
		{"KeysWithPrefix of none", func(i int) { sink += len(t.KeysWithPrefix(no[i%1024])) }},
		{"Size", func(i int) { sink += t.Size() }},
	}
}

// ropes with small chunks, so that they are deep
func ropeBench(r *mon.Rng, n, hist int) []job {
	n *= 8
	t := rope.New(make([]int, n))
	p := pick(r, n)
	if hist >= histRandom {
		for i := 0; i < n/8; i++ {
			t.Insert(r.Intn(t.Len()), make([]int, 4))
		}
		for t.Len() > n {
			at := r.Intn(t.Len() - 4)
			t.Remove(at, at+4)
		}
		if r.Intn(2) == 0 {
			t.Rebalance()
		}
	} else if hist == histDescending {
		t.Rebuild()
	}
	n = t.Len()
	three := make([]int, 3)
	return []job{
		{"At", func(i int) { sink += t.At(p.at(i) * 7 / 8) }},
		{"Slice of a few", func(i int) { at := p.at(i) * 7 / 8; sink += len(t.Slice(at, at+5)) }},
		{"Slice of none", func(i int) { at := p.at(i) * 7 / 8; sink += len(t.Slice(at, at)) }},
		{"Insert and Remove", func(i int) { at := p.at(i) * 7 / 8; t.Insert(at, three); t.Remove(at, at+3) }},
		{"Insert and Remove at the end", func(i int) { t.Insert(t.Len(), three); t.Remove(t.Len()-3, t.Len()) }},
		{"Insert and Remove at the beginning", func(i int) { t.Insert(0, three); t.Remove(0, 3) }},
		{"Len", func(i int) { sink += t.Len() }},
	}
}

func propeBench(r *mon.Rng, n, hist int) []job {
	n *= 8
	t := prope.New(make([]int, n))
	p := pick(r, n)
	if hist >= histRandom {
		for i := 0; i < n/8; i++ {
			t = t.Insert(r.Intn(t.Len()), make([]int, 4))
		}
		for t.Len() > n {
			at := r.Intn(t.Len() - 4)
			t = t.Remove(at, at+4)
		}
		if r.Intn(2) == 0 {
			t.Rebalance()
		}
	} else if hist == histDescending {
		t.Rebuild()
	}
	three := make([]int, 3)
	return []job{
		{"At", func(i int) { sink += t.At(p.at(i) * 7 / 8) }},
		{"Slice of a few", func(i int) { at := p.at(i) * 7 / 8; sink += len(t.Slice(at, at+5)) }},
		{"Slice of none", func(i int) { at := p.at(i) * 7 / 8; sink += len(t.Slice(at, at)) }},
		{"Insert", func(i int) { sink += t.Insert(p.at(i), three).Len() }},
		{"Remove", func(i int) { at := p.at(i) * 7 / 8; sink += t.Remove(at, at+3).Len() }},
		{"Remove at the end", func(i int) { sink += t.Remove(n-3, n).Len() }},
		{"SplitAt", func(i int) { a, b := t.SplitAt(p.at(i)); sink += a.Len() + b.Len() }},
		{"SplitAt and Join", func(i int) { a, b := t.SplitAt(p.at(i)); sink += prope.Join(a, b).Len() }},
		{"Join", func(i int) { sink += prope.Join(t, t, t).Len() }},
		{"Len", func(i int) { sink += t.Len() }},
	}
}

func arrayBench(r *mon.Rng, n, hist int) []job {
	w := 1 << r.Intn(1+bits.Len(uint(n))/2)
	h := n / w
	a := array2d.New[int](w, h)
	px, py := pick(r, w), pick(r, h)
	return []job{
		{"Get", func(i int) { sink += a.Get(px.at(i), py.at(i)) }},
		{"Set", func(i int) { a.Set(px.at(i), py.at(i), i) }},
		{"Row", func(i int) { sink += len(a.Row(py.at(i))) }},
		{"RowSpan", func(i int) { sink += len(a.RowSpan(0, px.at(i), py.at(i))) }},
		{"Fill of a cell", func(i int) { x, y := px.at(i), py.at(i); a.Fill(x, y, x, y, i) }},
		{"Width and Height", func(i int) { sink += a.Width() * a.Height() }},
	}
}

var benches = []bench{
	{"avl.Tree", func(r *mon.Rng, n, hist int) []job {
		t := avl.New[int, int](g.Less[int])
		js := mapJobs(r, n, hist, t.Put, func(k int) bool { _, ok := t.Get(k); return ok }, t.Remove, nil)
		return append(js, job{"Height", func(i int) { sink += t.Height() }})
	}},
	{"btree.Tree", func(r *mon.Rng, n, hist int) []job {
		t := btree.New[int, int](g.Less[int])
		return mapJobs(r, n, hist, t.Put, func(k int) bool { _, ok := t.Get(k); return ok }, t.Remove, t.Size)
	}},
	{"interval.Tree of disjoint intervals", intervalBench(0)},
	{"interval.Tree of touching intervals", intervalBench(1)},
	{"interval.Tree of short and long intervals", intervalBench(2)},
	{"interval.Tree of empty intervals", intervalBench(3)},
	{"full cache.Cache", cacheBench(true)},
	{"cache.Cache with room", cacheBench(false)},
	{"hashmap.Map", hashMapBench(false)},
	{"copied hashmap.Map", hashMapBench(true)},
	{"hashset.Set", setBench(func() set.SetOf[int] { return hashset.New(1, g.Equals[int], g.HashInt) })},
	{"mapset.Set", setBench(func() set.SetOf[int] { return mapset.New[int]() })},
	{"set.Set of a hashset", setBench(func() set.SetOf[int] { return set.NewHashset(0, g.Equals[int], g.HashInt) })},
	{"set.Set of a mapset", setBench(func() set.SetOf[int] { return set.NewMapset[int]() })},
	{"multimap.NewMapSlice", multiBench(multimap.NewMapSlice[int, int])},
	{"multimap.NewMapSet", multiBench(func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int](g.Less[int]) })},
	{"multimap.NewAvlSlice", multiBench(func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](g.Less[int]) })},
	{"multimap.NewAvlSet", multiBench(func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](g.Less[int], g.Less[int]) })},
	{"heap.Heap", heapBench},
	{"queue.Queue", queueBench},
	{"stack.Stack", stackBench},
	{"list.List", listBench},
	{"ulist.UList of blocks of 1", ulistBench(1)},
	{"ulist.UList of blocks of 5", ulistBench(5)},
	{"ulist.UList of blocks of 16", ulistBench(16)},
	{"bimap.Bimap", bimapBench},
	{"trie.Trie", trieBench},
	{"rope.Node", ropeBench},
	{"prope.Node", propeBench},
	{"array2d.Array2D", arrayBench},
}

// workBatch operations are measured at once, and the cheapest of several
// batches counts: what happens now and then (growth) is looked at elsewhere.
const (
	workBatch   = 192
	workBatches = 4
)

func costOf(j job) mon.Cost {
	next := 0
	run := func() {
		for k := 0; k < workBatch; k++ {
			j.do(next)
			next++
		}
	}
	run() // whatever is put off until the first operations
	best := mon.Measure(workBatch, run)
	for b := 1; b < workBatches; b++ {
		c := mon.Measure(workBatch, run)
		best.Blocks = min(best.Blocks, c.Blocks)
		best.Nanos = min(best.Nanos, c.Nanos)
		best.Bytes = min(best.Bytes, c.Bytes)
	}
	return best
}

// around returns a size that is about n: often at or near a power of two,
// where tables and arrays are resized.
func around(r *mon.Rng, n int) int {
	switch r.Intn(4) {
	case 0:
		return n + r.Intn(5) - 2
	case 1:
		return n + n/2 + r.Intn(n/4)
	case 2:
		return n + r.Intn(n)
	}
	return n
}

// stepWork compares what an operation costs in a small and in a large
// container. What is at most logarithmic grows by a factor of 3 between
// them at the very most, what is linear by a factor of several hundred.
func stepWork(t *mon.T) {
	b := benches[t.Index%len(benches)]
	hist := t.Intn(histories)
	small := around(t.Rng, 32<<t.Intn(2))
	large := around(t.Rng, 1<<t.Pick(14+t.Intn(2), 15+t.Intn(4)))
	defer mon.Measuring()()
	t.Note("%s, %s history, sizes %d and %d", b.name, histNames[hist], small, large)
	lo := b.mk(t.Rng, small, hist)
	var costs []mon.Cost
	for _, j := range lo {
		t.Op(j.name, int64(small))
		costs = append(costs, costOf(j))
	}
	hi := b.mk(t.Rng, large, hist)
	for i, j := range hi {
		t.Op(j.name, int64(large))
		c, s := costOf(j), costs[i]
		t.Event("operations_measured", 2*workBatch*workBatches)
		t.Max("blocks_per_operation", int64(c.Blocks))
		t.Max("growth_percent_of_blocks", int64(100*(c.Blocks+20)/(s.Blocks+20)))
		t.Max("growth_percent_of_bytes", int64(100*(c.Bytes+300)/(s.Bytes+300)))
		t.Max("growth_percent_of_time", int64(100*(c.Nanos+100)/(s.Nanos+100)))
		t.Assert(c.Blocks <= 6*s.Blocks+200, "%s, %s: an operation executes %.0f blocks of code with %d elements but %.0f with %d", b.name, j.name, c.Blocks, large, s.Blocks, small)
		t.Assert(c.Bytes <= 6*s.Bytes+3000, "%s, %s: an operation allocates %.0f bytes with %d elements but %.0f with %d", b.name, j.name, c.Bytes, large, s.Bytes, small)
		t.Assert(c.Nanos <= 60*s.Nanos+5000, "%s, %s: an operation takes %.0f ns of CPU time with %d elements but %.0f with %d", b.name, j.name, c.Nanos, large, s.Nanos, small)
	}
}

func init() {
	mon.Register("C33", "one case per container, history and pair of sizes: every operation is measured in a small and in a large container", &mon.Scenario{
		Name: "operations", Quick: 90, Thorough: 1500, Serial: true, Work: true, Setup: smallRopes, Run: stepWork})
}

func smallRopes() {
	rope.SplitLength, rope.JoinLength = 64, 32
	prope.SplitLength, prope.JoinLength = 64, 32
}

// A whole is work on all elements of a container: a traversal, a copy, a set
// operation, or building it up and taking it down again.
func mapWholes(r *mon.Rng, n, hist int, fresh func() (put func(k, v int), remove func(k int), each func(fn func(k, v int)), clear func())) []job {
	put, remove, each, clear := fresh()
	fillOrder(r, n, hist, func(k int) { put(2*k, k) }, func(k int) { remove(2 * k) })
	orders := make([][]int, 3)
	for i := range orders {
		orders[i] = perm(r, n)
	}
	up := make([]int, n)
	down := make([]int, n)
	for i := range up {
		up[i], down[n-1-i] = i, i
	}
	takeDown := func(in, out []int) func(int) {
		return func(int) {
			put, remove, _, _ := fresh()
			for _, k := range in {
				put(2*k, k)
			}
			for _, k := range out {
				remove(2 * k)
			}
		}
	}
	js := []job{
		{"Each", func(int) { each(func(k, v int) { sink++ }) }},
		{"build and empty, at random", takeDown(orders[0], orders[1])},
		{"build and empty, ascending", takeDown(up, up)},
		{"build ascending and empty descending", takeDown(up, down)},
		{"build descending and empty ascending", takeDown(down, up)},
		{"several rounds of half empty and full", func(int) {
			put, remove, _, _ := fresh()
			for _, k := range up {
				put(2*k, k)
			}
			for round := 0; round < 3; round++ {
				for _, k := range orders[round][:n/2] {
					remove(2 * k)
				}
				for _, k := range orders[round][:n/2] {
					put(2*k, k)
				}
			}
		}},
	}
	if clear != nil {
		js = append(js, job{"build and clear, several times", func(int) {
			put, _, _, clear := fresh()
			for round := 0; round < 4; round++ {
				for _, k := range orders[round%3] {
					put(2*k, k)
				}
				clear()
			}
		}})
	}
	return js
}

type wholeSet = set.Set[int]

func setWholes(mk, mkOther func(in ...int) wholeSet) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		a, b, c := mk(), mkOther(), mk()
		fillOrder(r, n, hist, a.Put, a.Remove)
		fillOrder(r, n, hist, func(k int) { b.Put(k + n/2) }, func(k int) { b.Remove(k + n/2) })
		same := mkOther(a.Keys()...)
		part := mk(a.Keys()[:n/2]...)
		keys := b.Keys()
		for i := 0; i < n; i++ {
			c.Put(-1 - i)
		}
		is := func(x bool) {
			if x {
				sink++
			}
		}
		return []job{
			{"Clone", func(int) { sink += a.Clone().Size() }},
			{"Union", func(int) { sink += a.Union(b).Size() }},
			{"Union of several", func(int) { sink += a.Union(b, c, b).Size() }},
			{"Intersection", func(int) { sink += a.Intersection(b).Size() }},
			{"Intersection of several", func(int) { sink += a.Intersection(b, same, b).Size() }},
			{"Difference", func(int) { sink += a.Difference(b).Size() }},
			{"Difference of several", func(int) { sink += a.Difference(b, c, b).Size() }},
			{"SymmetricDifference", func(int) { sink += a.SymmetricDifference(b).Size() }},
			{"SymmetricDifference of several", func(int) { sink += a.SymmetricDifference(b, c, same).Size() }},
			{"ConstUnion", func(int) { sink += a.ConstUnion(keys...).Size() }},
			{"ConstIntersection", func(int) { sink += a.ConstIntersection(keys...).Size() }},
			{"ConstDifference", func(int) { sink += a.ConstDifference(keys...).Size() }},
			{"ConstSymmetricDifference", func(int) { sink += a.ConstSymmetricDifference(keys...).Size() }},
			{"InPlaceUnion", func(int) { sink += mk().InPlaceUnion(a, b).Size() }},
			{"InPlaceIntersection", func(int) { sink += a.Clone().InPlaceIntersection(c).Size() }},
			{"InPlaceDifference", func(int) { sink += a.Clone().InPlaceDifference(same).Size() }},
			{"Keys", func(int) { sink += len(a.Keys()) }},
			{"Map", func(int) { sink += len(a.Map()) }},
			{"String", func(int) { sink += len(a.String()) }},
			{"Equal, to the same", func(int) { is(a.Equal(same)) }},
			{"Equal, to another", func(int) { is(a.Equal(b)) }},
			{"IsSubset", func(int) { is(part.IsSubset(a)); is(a.IsSubset(same)); is(a.IsSubset(b)) }},
			{"IsSuperset", func(int) { is(a.IsSuperset(part)); is(a.IsSuperset(same)); is(a.IsSuperset(b)) }},
			{"IsProperSubset", func(int) { is(part.IsProperSubset(a)); is(a.IsProperSubset(same)) }},
			{"IsProperSuperset", func(int) { is(a.IsProperSuperset(part)); is(a.IsProperSuperset(same)) }},
			{"IsDisjoint", func(int) { is(a.IsDisjoint(b)); is(a.IsDisjoint(c)) }},
		}
	}
}

func hashsetOf(in ...int) wholeSet { return set.NewHashset(0, g.Equals[int], g.HashInt, in...) }
func mapsetOf(in ...int) wholeSet  { return set.NewMapset(in...) }

func multiWholes(mk func() multimap.MultiMap[int, int]) func(r *mon.Rng, n, hist int) []job {
	return func(r *mon.Rng, n, hist int) []job {
		js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			m := mk()
			return m.Put, m.RemoveAll, m.Each, m.Clear
		})
		m := mk()
		for i := 0; i < n; i++ {
			m.Put(i/3, i)
		}
		return append(js,
			job{"EachAssociation", func(int) { m.EachAssociation(func(k int, vs []int) { sink += len(vs) }) }},
			job{"Put and Remove of all", func(int) {
				m := mk()
				for i := 0; i < n; i++ {
					m.Put(i/3, i)
				}
				for i := 0; i < n; i++ {
					m.Remove(i/3, i)
				}
			}},
			job{"Put of many values of a key", func(int) {
				m := mk()
				for i := 0; i < n; i++ {
					m.Put(1, i)
				}
				sink += len(m.Get(1))
			}})
	}
}

func intervalWholes(r *mon.Rng, n, hist int) []job {
	js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
		t := interval.New[int, int]()
		return func(k, v int) { t.Put(k, k+3, v) }, func(k int) { t.Remove(k) },
			func(fn func(k, v int)) { t.Each(func(lo, hi, v int) { fn(lo, v) }) }, nil
	})
	t := interval.New[int, int]()
	for _, i := range perm(r, n) {
		t.Add(i, i+1+r.Intn(9), i)
	}
	return append(js,
		job{"Overlaps with all", func(int) { sink += len(t.Overlaps(-1, 2*n)) }},
		job{"Overlaps with half", func(int) { sink += len(t.Overlaps(n/4, n*3/4)) }},
		job{"Size", func(int) { sink += t.Size() }})
}

func linearWholes(r *mon.Rng, n, hist int) []job {
	q := queue.New[int]()
	s := stack.New[int]()
	l := list.New[int]()
	for i := 0; i < n; i++ {
		q.Enqueue(i)
		s.Push(i)
		l.PushBack(i)
	}
	slice := perm(r, n)
	return []job{
		{"queue: Of and Dequeue", func(int) {
			for q := queue.Of(slice); !q.Empty(); {
				sink += q.Dequeue()
			}
		}},
		{"queue: Of and DequeueAll", func(int) { sink += len(queue.Of(slice).DequeueAll()) }},
		{"queue: PeekAll", func(int) { sink += len(q.PeekAll()) }},
		{"queue: Copy", func(int) { sink += q.Copy().Len() }},
		{"queue: Each", func(int) { q.Each(func(x int) { sink += x }) }},
		{"queue: Enqueue and Clear", func(int) {
			q := queue.New[int]()
			for round := 0; round < 3; round++ {
				for _, x := range slice {
					q.Enqueue(x)
				}
				q.Clear()
			}
		}},
		{"stack: Copy", func(int) { sink += s.Copy().Size() }},
		{"stack: Push and Pop", func(int) {
			s := stack.New[int]()
			for _, x := range slice {
				s.Push(x)
			}
			for s.Size() > 0 {
				sink += s.Pop()
			}
		}},
		{"list: traversals", func(int) {
			l.Front.Each(func(x int) { sink += x })
			l.Back.EachReverse(func(x int) { sink += x })
			l.Front.EachNode(func(x *list.Node[int]) { sink += x.Value })
			l.Back.EachReverseNode(func(x *list.Node[int]) { sink += x.Value })
		}},
		{"heap: FromSlice", func(int) { sink += heap.FromSlice(g.Less[int], append([]int(nil), slice...)).Size() }},
		{"heap: From", func(int) { sink += heap.From(g.Less[int], slice...).Size() }},
		{"heap: Push and Pop, at random", func(int) {
			h := heap.New(g.Less[int])
			for _, x := range slice {
				h.Push(x)
			}
			for ok := true; ok; _, ok = h.Pop() {
			}
		}},
		{"heap: Push and Pop, descending", func(int) {
			h := heap.New(g.Less[int])
			for i := range slice {
				h.Push(-i)
			}
			for ok := true; ok; _, ok = h.Pop() {
			}
		}},
		{"heap: Push and Pop of equal elements", func(int) {
			h := heap.New(g.Less[int])
			for range slice {
				h.Push(1)
			}
			for ok := true; ok; _, ok = h.Pop() {
			}
		}},
	}
}

func ulistWholes(r *mon.Rng, n, hist int) []job {
	blk := []int{1, 2, 3, 8, 16}[r.Intn(5)]
	u := ulist.New[int](blk)
	for i := 0; i < n; i++ {
		u.PushBack(i)
	}
	return []job{
		{"Next to the end", func(int) {
			for it := u.Begin(); it.IsValid(); it.Next() {
				sink += it.Get()
			}
		}},
		{"Prev to the beginning", func(int) {
			for it := u.End(); it.IsValid(); it.Prev() {
				sink += it.Get()
			}
		}},
		{"PushBack and Remove of all", func(int) {
			u := ulist.New[int](blk)
			for i := 0; i < n; i++ {
				u.PushBack(i)
			}
			for it := u.Begin(); it.IsValid(); {
				u.Remove(it)
			}
		}},
		{"PushFront and Remove from the end", func(int) {
			u := ulist.New[int](blk)
			for i := 0; i < n; i++ {
				u.PushFront(i)
			}
			for u.Size() > 0 {
				u.Remove(u.End())
			}
		}},
		{"AddAfter each", func(int) {
			u := ulist.New[int](blk)
			u.PushBack(0)
			for it := u.Begin(); u.Size() < n; {
				u.AddAfter(it, 1)
			}
		}},
		{"AddBefore each", func(int) {
			u := ulist.New[int](blk)
			u.PushBack(0)
			for it := u.Begin(); u.Size() < n; {
				u.AddBefore(it, 1)
			}
		}},
	}
}

func bimapWholes(r *mon.Rng, n, hist int) []job {
	js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
		b := &bimap.Bimap[int, int]{}
		return b.Add, b.RemoveForward, b.Each, b.Clear
	})
	src := map[int]int{}
	for i := 0; i < n; i++ {
		src[i] = -i
	}
	b := bimap.Of(src)
	return append(js,
		job{"Of", func(int) { c := bimap.Of(src); sink += c.Len() }},
		job{"Copy", func(int) { c := b.Copy(); sink += c.Len() }})
}

func trieWholes(r *mon.Rng, n, hist int) []job {
	t := trie.New[int]()
	ks := make([]string, n)
	for i := range ks {
		ks[i] = trieKeyFor(i)
	}
	fillOrder(r, n, hist, func(k int) { t.Put(trieKeyFor(k), k) }, func(k int) { t.Remove(trieKeyFor(k)) })
	return []job{
		{"Keys", func(int) { sink += len(t.Keys()) }},
		{"KeysWithPrefix of nothing", func(int) { sink += len(t.KeysWithPrefix("")) }},
		{"KeysWithPrefix of a digit", func(int) { sink += len(t.KeysWithPrefix("1")) }},
		{"Put and Remove of all", func(int) {
			t := trie.New[int]()
			for i, k := range ks {
				t.Put(k, i)
			}
			for _, k := range ks {
				t.Remove(k)
			}
		}},
	}
}

// one long key: the work is in its length
func trieLongWholes(r *mon.Rng, n, hist int) []job {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(3))
	}
	k := string(b)
	t := trie.New[int]()
	t.Put(k, 1)
	t.Put(k[:n/2], 2)
	return []job{
		{"Get", func(int) { t.Get(k) }},
		{"LongestPrefix", func(int) { sink += len(t.LongestPrefix(k)) + len(t.LongestPrefix(k[:n-1])) }},
		{"Keys", func(int) { sink += len(t.Keys()) }},
		{"KeysWithPrefix", func(int) { sink += len(t.KeysWithPrefix(k[:n/3])) }},
		{"Put and Remove", func(int) { x := k[:n/3]; t.Put(x, 1); t.Remove(x) }},
	}
}

func ropeWholes(r *mon.Rng, n, hist int) []job {
	n *= 8
	t := rope.New(make([]int, n))
	grown := func() *rope.Node[int] {
		t := rope.New([]int(nil))
		for t.Len() < n {
			t.Insert(r.Intn(t.Len()+1), []int{1, 2, 3})
		}
		return t
	}
	return []job{
		{"New", func(int) { sink += rope.New(make([]int, n)).Len() }},
		{"Value", func(int) { sink += len(t.Value()) }},
		{"Slice of all", func(int) { sink += len(t.Slice(1, n-1)) }},
		{"Each", func(int) { t.Each(func(x *rope.Node[int]) { sink += x.Len() }) }},
		{"Rebuild", func(int) { t.Rebuild() }},
		{"Rebalance", func(int) { t.Rebalance() }},
		{"Insert at random and Remove", func(int) {
			for t := grown(); t.Len() > 10; {
				at := r.Intn(t.Len() - 3)
				t.Remove(at, at+3)
			}
		}},
		{"SplitAt and Join", func(int) {
			a, b := rope.New(make([]int, n)).SplitAt(n / 3)
			sink += rope.Join(b, a).Len()
		}},
		{"Remove of nearly all", func(int) { rope.New(make([]int, n)).Remove(3, n-3) }},
	}
}

func propeWholes(r *mon.Rng, n, hist int) []job {
	n *= 8
	t := prope.New(make([]int, n))
	return []job{
		{"New", func(int) { sink += prope.New(make([]int, n)).Len() }},
		{"Value", func(int) { sink += len(t.Value()) }},
		{"Slice of all", func(int) { sink += len(t.Slice(1, n-1)) }},
		{"Rebuild", func(int) { t.Rebuild() }},
		{"Rebalance", func(int) { t.Rebalance() }},
		{"Insert at random and Remove", func(int) {
			t := prope.New([]int(nil))
			for t.Len() < n {
				t = t.Insert(r.Intn(t.Len()+1), []int{1, 2, 3})
			}
			for t.Len() > 10 {
				at := r.Intn(t.Len() - 3)
				t = t.Remove(at, at+3)
			}
		}},
		{"Remove of nearly all", func(int) { sink += t.Remove(3, n-3).Len() }},
	}
}

func arrayWholes(r *mon.Rng, n, hist int) []job {
	w := 1 << r.Intn(bits.Len(uint(n)))
	h := n / w
	a := array2d.New[int](w, h)
	jagged := make([][]int, h)
	for i := range jagged {
		jagged[i] = make([]int, w)
	}
	return []job{
		{"New", func(int) { sink += array2d.New[int](w, h).Width() }},
		{"NewFilled", func(int) { sink += array2d.NewFilled(w, h, 3).Width() }},
		{"OfJagged", func(int) { sink += array2d.OfJagged(w, h, jagged).Width() }},
		{"Fill", func(int) { a.Fill(0, 0, w-1, h-1, 1) }},
		{"Copy", func(int) { sink += a.Copy().Width() }},
		{"String", func(int) { sink += len(a.String()) }},
	}
}

var wholes = []bench{
	{"avl.Tree", func(r *mon.Rng, n, hist int) []job {
		js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			t := avl.New[int, int](g.Less[int])
			return t.Put, t.Remove, t.Each, nil
		})
		t := avl.New[int, int](g.Less[int])
		fillOrder(r, n, hist, func(k int) { t.Put(k, k) }, t.Remove)
		return append(js, job{"Size", func(int) { sink += t.Size() }})
	}},
	{"btree.Tree", func(r *mon.Rng, n, hist int) []job {
		return mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			t := btree.New[int, int](g.Less[int])
			return t.Put, t.Remove, t.Each, nil
		})
	}},
	{"interval.Tree", intervalWholes},
	{"cache.Cache", func(r *mon.Rng, n, hist int) []job {
		js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			c := cache.New[int, int](n + 2)
			return c.Put, c.Remove, c.Each, func() { c.Resize(0); c.Resize(n) }
		})
		return append(js, job{"Put of many through a small cache", func(int) {
			c := cache.New[int, int](n / 8)
			for i := 0; i < n; i++ {
				c.Put(i, i)
			}
		}})
	}},
	{"hashmap.Map", func(r *mon.Rng, n, hist int) []job {
		js := mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			m := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
			return m.Put, m.Remove, m.Each, m.Clear
		})
		m := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
		for i := 0; i < n; i++ {
			m.Put(i, i)
		}
		return append(js,
			job{"Copy and overwrite all", func(int) {
				c := m.Copy()
				for i := 0; i < n; i++ {
					c.Put(i, 1)
				}
			}},
			job{"Copy and Remove all", func(int) {
				c := m.Copy()
				for i := 0; i < n; i++ {
					c.Remove(i)
				}
			}},
			job{"Copy and double", func(int) {
				c := m.Copy()
				for i := 0; i < n; i++ {
					c.Put(n+i, i)
				}
			}},
			job{"one after the other into a new map", func(int) {
				c := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
				m.Each(c.Put)
				sink += c.Size()
			}})
	}},
	{"hashset.Set", func(r *mon.Rng, n, hist int) []job {
		return mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			s := hashset.New(0, g.Equals[int], g.HashInt)
			return func(k, v int) { s.Put(k) }, s.Remove, func(fn func(k, v int)) { s.Each(func(k int) { fn(k, k) }) }, s.Clear
		})
	}},
	{"mapset.Set", func(r *mon.Rng, n, hist int) []job {
		return mapWholes(r, n, hist, func() (func(k, v int), func(k int), func(fn func(k, v int)), func()) {
			s := mapset.New[int]()
			return func(k, v int) { s.Put(k) }, s.Remove, func(fn func(k, v int)) { s.Each(func(k int) { fn(k, k) }) }, s.Clear
		})
	}},
	{"set.Set of hashsets", setWholes(hashsetOf, hashsetOf)},
	{"set.Set of mapsets", setWholes(mapsetOf, mapsetOf)},
	{"set.Set of a hashset and a mapset", setWholes(hashsetOf, mapsetOf)},
	{"multimap.NewMapSlice", multiWholes(multimap.NewMapSlice[int, int])},
	{"multimap.NewMapSet", multiWholes(func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int](g.Less[int]) })},
	{"multimap.NewAvlSlice", multiWholes(func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](g.Less[int]) })},
	{"multimap.NewAvlSet", multiWholes(func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](g.Less[int], g.Less[int]) })},
	{"queue, stack, list and heap", linearWholes},
	{"ulist.UList", ulistWholes},
	{"bimap.Bimap", bimapWholes},
	{"trie.Trie", trieWholes},
	{"trie.Trie of a long key", trieLongWholes},
	{"rope.Node", ropeWholes},
	{"prope.Node", propeWholes},
	{"array2d.Array2D", arrayWholes},
}

func wholeCost(j job, n int) mon.Cost {
	run := func() { j.do(0) }
	run()
	best := mon.Measure(n, run)
	for b := 0; b < 2; b++ {
		c := mon.Measure(n, run)
		best.Blocks = min(best.Blocks, c.Blocks)
		best.Nanos = min(best.Nanos, c.Nanos)
		best.Bytes = min(best.Bytes, c.Bytes)
	}
	return best
}

// wholeWork compares the cost per element of work on all elements: it grows
// by a logarithmic factor at most, that of quadratic work by about a hundred.
func wholeWork(t *mon.T) {
	b := wholes[t.Index%len(wholes)]
	hist := t.Intn(histories)
	small := around(t.Rng, 32<<t.Intn(2))
	large := around(t.Rng, 1<<t.Pick(12, 13+t.Intn(3)))
	defer mon.Measuring()()
	t.Note("%s, %s history, sizes %d and %d", b.name, histNames[hist], small, large)
	lo := b.mk(t.Rng, small, hist)
	var costs []mon.Cost
	for _, j := range lo {
		t.Op(j.name, int64(small))
		costs = append(costs, wholeCost(j, small))
	}
	hi := b.mk(t.Rng, large, hist)
	for i, j := range hi {
		t.Op(j.name, int64(large))
		c, s := wholeCost(j, large), costs[i]
		t.Event("whole_operations_measured", 6)
		t.Max("blocks_per_element", int64(c.Blocks))
		t.Max("growth_percent_of_blocks_per_element", int64(100*(c.Blocks+10)/(s.Blocks+10)))
		t.Max("growth_percent_of_bytes_per_element", int64(100*(c.Bytes+100)/(s.Bytes+100)))
		t.Max("growth_percent_of_time_per_element", int64(100*(c.Nanos+100)/(s.Nanos+100)))
		t.Assert(c.Blocks <= 6*s.Blocks+150, "%s, %s: %.0f blocks of code are executed per element with %d elements but %.0f with %d", b.name, j.name, c.Blocks, large, s.Blocks, small)
		t.Assert(c.Bytes <= 6*s.Bytes+1000, "%s, %s: %.0f bytes are allocated per element with %d elements but %.0f with %d", b.name, j.name, c.Bytes, large, s.Bytes, small)
		t.Assert(c.Nanos <= 30*s.Nanos+3000, "%s, %s: %.0f ns of CPU time are taken per element with %d elements but %.0f with %d", b.name, j.name, c.Nanos, large, s.Nanos, small)
	}
}

func init() {
	mon.Register("C33", "", &mon.Scenario{
		Name: "whole containers", Quick: 44, Thorough: 1100, Serial: true, Work: true, Setup: smallRopes, Run: wholeWork})
}

// A hover is a container that can be grown and shrunk by one.
type hover struct {
	name string
	mk   func(r *mon.Rng) (grow, shrink func())
}

func keyed(put, remove func(k int), r *mon.Rng) (grow, shrink func()) {
	n := 0
	order := r.Intn(3)
	key := func(i int) int {
		if order == 0 {
			return i
		}
		return int(mon.Mix(uint64(i), 5) >> 2)
	}
	lo := 0
	return func() { put(key(n)); n++ }, func() {
		if order == 2 { // the oldest
			remove(key(lo))
			lo++
			return
		}
		n--
		remove(key(n))
	}
}

var hovers = []hover{
	{"hashmap.Map", func(r *mon.Rng) (func(), func()) {
		m := hashmap.New[int, int](uint64(r.Intn(20)), g.Equals[int], g.HashInt)
		return keyed(func(k int) { m.Put(k, k) }, m.Remove, r)
	}},
	{"hashmap.Map of strings", func(r *mon.Rng) (func(), func()) {
		m := hashmap.New[string, int](1, g.Equals[string], g.HashString)
		return keyed(func(k int) { m.Put(strconv.Itoa(k), k) }, func(k int) { m.Remove(strconv.Itoa(k)) }, r)
	}},
	{"hashset.Set", func(r *mon.Rng) (func(), func()) {
		s := hashset.New(0, g.Equals[uint64], g.HashUint64)
		return keyed(func(k int) { s.Put(uint64(k)) }, func(k int) { s.Remove(uint64(k)) }, r)
	}},
	{"avl.Tree", func(r *mon.Rng) (func(), func()) {
		t := avl.New[int, int](g.Less[int])
		return keyed(func(k int) { t.Put(k, k) }, t.Remove, r)
	}},
	{"btree.Tree", func(r *mon.Rng) (func(), func()) {
		t := btree.New[int, int](g.Less[int])
		return keyed(func(k int) { t.Put(k, k) }, t.Remove, r)
	}},
	{"interval.Tree", func(r *mon.Rng) (func(), func()) {
		t := interval.New[int, int]()
		return keyed(func(k int) { t.Add(k, k+10, k) }, func(k int) { t.Remove(k) }, r)
	}},
	{"cache.Cache", func(r *mon.Rng) (func(), func()) {
		c := cache.New[int, int](1 << 30)
		return keyed(func(k int) { c.Put(k, k) }, c.Remove, r)
	}},
	{"bimap.Bimap", func(r *mon.Rng) (func(), func()) {
		var b bimap.Bimap[int, int]
		return keyed(func(k int) { b.Add(k, -k) }, b.RemoveForward, r)
	}},
	{"heap.Heap", func(r *mon.Rng) (func(), func()) {
		h := heap.New(g.Less[int])
		return func() { h.Push(r.Intn(1000)) }, func() { h.Pop() }
	}},
	{"stack.Stack", func(r *mon.Rng) (func(), func()) {
		s := stack.New[int]()
		return func() { s.Push(1) }, func() { s.Pop() }
	}},
	{"queue.Queue", func(r *mon.Rng) (func(), func()) {
		q := queue.New[int]()
		return func() { q.Enqueue(1) }, func() { q.Dequeue() }
	}},
	{"ulist.UList", func(r *mon.Rng) (func(), func()) {
		u := ulist.New[int](1 + r.Intn(9))
		if r.Intn(2) == 0 {
			return func() { u.PushBack(1) }, func() { u.Remove(u.End()) }
		}
		return func() { u.PushFront(1) }, func() { u.Remove(u.Begin()) }
	}},
	{"multimap.NewMapSlice", func(r *mon.Rng) (func(), func()) {
		m := multimap.NewMapSlice[int, int]()
		return keyed(func(k int) { m.Put(k, k) }, func(k int) { m.Remove(k, k) }, r)
	}},
	{"multimap.NewAvlSet", func(r *mon.Rng) (func(), func()) {
		m := multimap.NewAvlSet[int, int](g.Less[int], g.Less[int])
		return keyed(func(k int) { m.Put(k/8, k) }, func(k int) { m.Remove(k/8, k) }, r)
	}},
	{"trie.Trie", func(r *mon.Rng) (func(), func()) {
		t := trie.New[int]()
		return keyed(func(k int) { t.Put(trieKeyFor(k), k) }, func(k int) { t.Remove(trieKeyFor(k)) }, r)
	}},
	{"rope.Node", func(r *mon.Rng) (func(), func()) {
		t := rope.New[int](nil)
		return func() { t.Insert(r.Intn(t.Len()+1), []int{1}) }, func() { at := r.Intn(t.Len()); t.Remove(at, at+1) }
	}},
	{"prope.Node", func(r *mon.Rng) (func(), func()) {
		t := prope.New[int](nil)
		return func() { t = t.Insert(r.Intn(t.Len()+1), []int{1}) }, func() { at := r.Intn(t.Len()); t = t.Remove(at, at+1) }
	}},
}

// hoverWork takes a container up and down again and, at many sizes, adds and
// removes one element a number of times: whatever resizes at some size must
// not do so again and again there.
func hoverWork(t *mon.T) {
	h := hovers[t.Index%len(hovers)]
	top := t.Pick(2300, 9000)
	grow, shrink := h.mk(t.Rng)
	defer mon.Measuring()()
	t.Note("%s, up to %d elements", h.name, top)
	const pairs = 24
	small := mon.Cost{}
	worst := 0.0
	look := func(n int, up bool) {
		t.Op("hover", int64(n))
		one := func() {
			if up {
				grow()
				shrink()
			} else {
				shrink()
				grow()
			}
		}
		one()
		one()
		c := mon.Measure(pairs, func() {
			for i := 0; i < pairs; i++ {
				one()
			}
		})
		t.Event("sizes_measured", 1)
		if n < 64 {
			small.Blocks = max(small.Blocks, c.Blocks)
			small.Bytes = max(small.Bytes, c.Bytes)
			return
		}
		worst = max(worst, c.Blocks)
		t.Assert(c.Blocks <= 6*small.Blocks+200, "%s: with %d elements, adding and removing one again and again executes %.0f blocks of code each time, with few elements at most %.0f", h.name, n, c.Blocks, small.Blocks)
		t.Assert(c.Bytes <= 6*small.Bytes+3000, "%s: with %d elements, adding and removing one again and again allocates %.0f bytes each time, with few elements at most %.0f", h.name, n, c.Bytes, small.Bytes)
	}
	// near powers of two, and fractions of them, and anywhere
	near := func(n int) bool {
		for p := 1; p <= n+3; p *= 2 {
			for _, q := range []int{p, p + p/2, p + p/4} {
				if d := n - q; d >= -2 && d <= 2 {
					return true
				}
			}
		}
		return t.Intn(24) == 0
	}
	n := 0
	for rounds := 0; rounds < 2; rounds++ {
		for ; n < top; n++ {
			if near(n) {
				look(n, true)
			}
			grow()
		}
		for ; n > 1; n-- {
			if near(n) {
				look(n, false)
			}
			shrink()
		}
	}
	t.Max("blocks_while_hovering", int64(worst))
	t.Max("growth_percent_while_hovering", int64(100*worst/(small.Blocks+1)))
}

func init() {
	mon.Register("C33", "", &mon.Scenario{
		Name: "hovering", Quick: 34, Thorough: 340, Serial: true, Work: true, Setup: smallRopes, Run: hoverWork})
}
