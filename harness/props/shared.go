package props

import (
	"fmt"
	"strconv"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/array2d"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// --- C30: separate containers and shared readers ---------------------------

// digest accumulates results: in order, or regardless of order.
type digest uint64

func (d *digest) add(xs ...int) {
	for _, x := range xs {
		*d = digest(mon.Mix(uint64(*d), uint64(x)))
	}
}
func (d *digest) str(s string) { d.add(int(mon.HashStr(s))) }
func (d *digest) flag(b bool) {
	if b {
		d.add(1)
	} else {
		d.add(0)
	}
}

// unordered adds things that come in no particular order.
func (d *digest) unordered(visit func(item func(xs ...int))) {
	var sum uint64
	n := 0
	visit(func(xs ...int) {
		var e digest
		e.add(xs...)
		sum += uint64(e)
		n++
	})
	d.add(int(sum), n)
}

// A subject is a container in use: step changes it and reports what the
// operation returned, read only looks. What both report is determined by the
// container's history and the generator alone.
type subject struct {
	step func(r *mon.Rng) digest
	read func(r *mon.Rng) digest
}

type maker struct {
	name string
	mk   func(r *mon.Rng) subject
}

func mapSubject(put func(k, v int), remove func(int), clear func(), get func(int) (int, bool), size func() int, each func(func(k, v int)), ordered bool, more func(d *digest)) subject {
	read := func(r *mon.Rng) digest {
		var d digest
		d.add(size())
		for i := 0; i < 4; i++ {
			v, ok := get(r.Intn(50))
			d.add(v)
			d.flag(ok)
		}
		if ordered {
			each(func(k, v int) { r.Call(); d.add(k, v) })
		} else {
			d.unordered(func(item func(...int)) { each(func(k, v int) { r.Call(); item(k, v) }) })
		}
		if more != nil {
			more(&d)
		}
		return d
	}
	return subject{
		step: func(r *mon.Rng) digest {
			var d digest
			for i := 0; i < 3; i++ {
				k := r.Intn(50)
				switch r.Intn(5) {
				case 0, 1, 2:
					put(k, r.Intn(1000))
				case 3:
					remove(k)
				case 4:
					v, ok := get(k)
					d.add(v)
					d.flag(ok)
				}
			}
			if clear != nil && r.Intn(60) == 0 {
				clear()
			}
			d.add(size())
			return d
		},
		read: read,
	}
}

func setSubject(put func(int), remove func(int), clear func(), has func(int) bool, size func() int, each func(func(int)), more func(r *mon.Rng, d *digest)) subject {
	s := mapSubject(func(k, _ int) { put(k) }, remove, clear, func(k int) (int, bool) { return 0, has(k) }, size,
		func(fn func(k, v int)) { each(func(k int) { fn(k, 0) }) }, false, nil)
	if more == nil {
		return s
	}
	read := s.read
	s.read = func(r *mon.Rng) digest {
		d := read(r)
		more(r, &d)
		return d
	}
	return s
}

func setOfSubject(s, other set.Set[int]) subject {
	sum := func(r *mon.Rng, d *digest, s set.Set[int]) {
		d.unordered(func(item func(...int)) { s.Each(func(k int) { r.Call(); item(k) }) })
		d.add(s.Size())
	}
	return setSubject(s.Put, s.Remove, s.Clear, s.Has, s.Size, s.Each, func(r *mon.Rng, d *digest) {
		switch r.Intn(9) {
		case 0:
			sum(r, d, s.Union(other))
		case 1:
			sum(r, d, s.Intersection(other, other))
		case 2:
			sum(r, d, s.Difference(other))
		case 3:
			sum(r, d, s.SymmetricDifference(other))
		case 4:
			sum(r, d, s.ConstUnion(1, 2, 99))
			sum(r, d, s.ConstDifference(3, 4))
			sum(r, d, s.ConstIntersection(3, 4, 5))
			sum(r, d, s.ConstSymmetricDifference(5, 99))
		case 5:
			d.flag(s.Equal(other))
			d.flag(s.IsDisjoint(other))
			d.flag(s.IsSubset(other))
			d.flag(s.IsSuperset(other))
			d.flag(s.IsProperSubset(other))
			d.flag(s.IsProperSuperset(other))
			d.flag(s.Equal(s))
		case 6:
			d.str(s.String())
			d.add(len(s.Keys()), len(s.Map()))
		case 7:
			c := s.Clone()
			c.Put(77)
			c.Remove(3)
			sum(r, d, c)
		case 8:
			sum(r, d, other.Union(s))
			sum(r, d, other.Difference(s))
		}
	})
}

func multimapSubject(m multimap.MultiMap[int, int], sortedKeys bool) subject {
	return subject{
		step: func(r *mon.Rng) digest {
			var d digest
			for i := 0; i < 3; i++ {
				k, v := r.Intn(12), r.Intn(6)
				switch r.Intn(6) {
				case 0, 1, 2:
					m.Put(k, v)
				case 3, 4:
					m.Remove(k, v)
				case 5:
					if r.Intn(3) == 0 {
						m.RemoveAll(k)
					}
				}
				d.add(m.Size(), m.Dimension(), m.Count(k))
			}
			if r.Intn(60) == 0 {
				m.Clear()
			}
			return d
		},
		read: func(r *mon.Rng) digest {
			var d digest
			k := r.Intn(12)
			d.add(m.Size(), m.Dimension(), m.Count(k))
			d.flag(m.Has(k))
			d.unordered(func(item func(...int)) {
				for _, v := range m.Get(k) {
					item(v)
				}
			})
			d.unordered(func(item func(...int)) { m.Each(func(k, v int) { r.Call(); item(k, v) }) })
			if sortedKeys {
				m.EachAssociation(func(k int, vs []int) { r.Call(); d.add(k, len(vs)) })
			} else {
				d.unordered(func(item func(...int)) {
					m.EachAssociation(func(k int, vs []int) { r.Call(); item(k, len(vs)) })
				})
			}
			return d
		},
	}
}

func ints(r *mon.Rng, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r.Intn(1000)
	}
	return s
}

// less, equals and hash are functions for a library container; they call the
// hook of the generator, in which other containers are used.
func less(r *mon.Rng) func(a, b int) bool {
	return func(a, b int) bool { r.Call(); return a < b }
}

func equals(r *mon.Rng) func(a, b int) bool {
	return func(a, b int) bool { r.Call(); return a == b }
}

func hash(r *mon.Rng) func(int) uint64 {
	return func(a int) uint64 { r.Call(); return g.HashInt(a) }
}

var makers = []maker{
	{"avl", func(r *mon.Rng) subject {
		t := avl.New[int, int](less(r))
		return mapSubject(t.Put, t.Remove, nil, t.Get, t.Size, t.Each, true, func(d *digest) { d.add(t.Height()) })
	}},
	{"btree", func(r *mon.Rng) subject {
		t := btree.New[int, int](less(r))
		return mapSubject(t.Put, t.Remove, nil, t.Get, t.Size, t.Each, true, nil)
	}},
	{"hashmap", func(r *mon.Rng) subject {
		m := hashmap.New[int, int](uint64(r.Intn(40)), equals(r), hash(r))
		return mapSubject(m.Put, m.Remove, m.Clear, m.Get, m.Size, m.Each, false, nil)
	}},
	{"hashset", func(r *mon.Rng) subject {
		s := hashset.New[int](uint64(r.Intn(40)), equals(r), hash(r))
		return setSubject(s.Put, s.Remove, s.Clear, s.Has, s.Size, s.Each, nil)
	}},
	{"mapset", func(r *mon.Rng) subject {
		s := mapset.Of(ints(r, r.Intn(10))...)
		return setSubject(s.Put, s.Remove, s.Clear, s.Has, s.Size, s.Each, nil)
	}},
	{"set over maps", func(r *mon.Rng) subject {
		return setOfSubject(set.NewMapset[int](ints(r, r.Intn(10))...), set.NewMapset(ints(r, 20)...))
	}},
	{"set over hashsets", func(r *mon.Rng) subject {
		return setOfSubject(set.NewHashset(uint64(r.Intn(20)), equals(r), hash(r), ints(r, r.Intn(10))...), set.NewHashset(4, equals(r), hash(r), 1, 2, 3, 4, 5, 30))
	}},
	{"bimap", func(r *mon.Rng) subject {
		var b bimap.Bimap[int, string]
		sum := func(r *mon.Rng, d *digest, b *bimap.Bimap[int, string]) {
			d.add(b.Len())
			d.unordered(func(item func(...int)) {
				b.Each(func(k int, v string) { r.Call(); item(k, int(mon.HashStr(v))) })
			})
		}
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				k, v := r.Intn(30), strconv.Itoa(r.Intn(30))
				switch r.Intn(5) {
				case 0, 1, 2:
					b.Add(k, v)
				case 3:
					b.RemoveForward(k)
				case 4:
					b.RemoveReverse(v)
				}
				if r.Intn(60) == 0 {
					b.Clear()
				}
				d.add(b.Len())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 4; i++ {
					v, ok := b.GetForward(r.Intn(30))
					d.str(v)
					d.flag(ok)
					k, ok := b.GetReverse(strconv.Itoa(r.Intn(30)))
					d.add(k)
					d.flag(ok)
					d.flag(b.ContainsForward(i))
					d.flag(b.ContainsReverse(strconv.Itoa(i)))
				}
				sum(r, &d, &b)
				if r.Intn(3) == 0 {
					c := b.Copy()
					c.Add(1, "1")
					sum(r, &d, &c)
				}
				return d
			},
		}
	}},
	{"heap", func(r *mon.Rng) subject {
		var h *heap.Heap[int]
		switch r.Intn(3) {
		case 0:
			h = heap.New(less(r))
		case 1:
			h = heap.From(less(r), ints(r, 20)...)
		case 2:
			h = heap.FromSlice(less(r), ints(r, 20))
		}
		read := func(r *mon.Rng) digest {
			var d digest
			v, ok := h.Peek()
			d.add(v, h.Size())
			d.flag(ok)
			return d
		}
		return subject{
			step: func(r *mon.Rng) digest {
				for i := 0; i < 3; i++ {
					h.Push(r.Intn(100))
				}
				var d digest
				for i := r.Intn(7); i > 0; i-- {
					v, ok := h.Pop()
					d.add(v)
					d.flag(ok)
				}
				return d
			}, read: read,
		}
	}},
	{"queue", func(r *mon.Rng) subject {
		q := queue.Of(ints(r, r.Intn(10)))
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					q.Enqueue(r.Intn(1000))
				}
				for i := r.Intn(7); i > 0; i-- {
					v, ok := q.TryDequeue()
					d.add(v)
					d.flag(ok)
				}
				if r.Intn(30) == 0 {
					d.add(q.DequeueAll()...)
				}
				if r.Intn(60) == 0 {
					q.Clear()
				}
				d.add(q.Len())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				d.add(q.Len())
				d.add(q.PeekAll()...)
				v, ok := q.TryPeek()
				d.add(v)
				d.flag(ok)
				if !q.Empty() {
					d.add(q.Peek())
				}
				q.Each(func(v int) { r.Call(); d.add(v) })
				if r.Intn(3) == 0 {
					c := q.Copy()
					c.Enqueue(5)
					d.add(c.DequeueAll()...)
				}
				return d
			},
		}
	}},
	{"stack", func(r *mon.Rng) subject {
		s := stack.New[int]()
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					s.Push(r.Intn(1000))
				}
				for i := r.Intn(7); i > 0; i-- {
					d.add(s.Pop())
				}
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				d.add(s.Size(), s.Peek())
				c := s.Copy()
				c.Push(r.Intn(50))
				for c.Size() > 0 {
					d.add(c.Pop())
				}
				return d
			},
		}
	}},
	{"list", func(r *mon.Rng) subject {
		l := list.New[int]()
		var nodes []*list.Node[int]
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					n := &list.Node[int]{Value: r.Intn(1000)}
					switch k := len(nodes); {
					case r.Intn(3) == 0 || k == 0:
						l.PushBackNode(n)
					case r.Intn(3) == 0:
						l.PushFrontNode(n)
					case r.Intn(2) == 0:
						l.InsertAfter(nodes[r.Intn(k)], n)
					default:
						l.InsertBefore(nodes[r.Intn(k)], n)
					}
					nodes = append(nodes, n)
					l.PushBack(r.Intn(10))
					nodes = append(nodes, l.Back)
				}
				for i := r.Intn(10); i > 0 && len(nodes) > 0; i-- {
					k := r.Intn(len(nodes))
					l.Remove(nodes[k])
					nodes = append(nodes[:k:k], nodes[k+1:]...)
				}
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				l.Front.Each(func(v int) { r.Call(); d.add(v) })
				l.Back.EachReverse(func(v int) { r.Call(); d.add(v) })
				l.Front.EachNode(func(n *list.Node[int]) { r.Call(); d.add(n.Value) })
				l.Back.EachReverseNode(func(n *list.Node[int]) { r.Call(); d.add(n.Value) })
				return d
			},
		}
	}},
	{"cache", func(r *mon.Rng) subject {
		c := cache.New[int, int](r.Intn(20))
		var evicted digest
		if r.Bool() {
			c.SetEvictCallback(func(k, v int) { r.Call(); evicted.add(k, v) })
		}
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					k := r.Intn(30)
					switch r.Intn(5) {
					case 0, 1, 2:
						c.Put(k, r.Intn(1000))
					case 3:
						v, ok := c.Get(k)
						d.add(v)
						d.flag(ok)
					case 4:
						c.Remove(k)
					}
				}
				if r.Intn(30) == 0 {
					c.Resize(r.Intn(25))
				}
				d.add(c.Size(), int(evicted))
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				d.add(c.Size(), c.Capacity())
				c.Each(func(k, v int) { r.Call(); d.add(k, v) })
				return d
			},
		}
	}},
	{"MapSlice multimap", func(r *mon.Rng) subject { return multimapSubject(multimap.NewMapSlice[int, int](), false) }},
	{"MapSet multimap", func(r *mon.Rng) subject { return multimapSubject(multimap.NewMapSet[int, int](less(r)), false) }},
	{"AvlSlice multimap", func(r *mon.Rng) subject { return multimapSubject(multimap.NewAvlSlice[int, int](less(r)), true) }},
	{"AvlSet multimap", func(r *mon.Rng) subject {
		return multimapSubject(multimap.NewAvlSet[int, int](less(r), less(r)), true)
	}},
	{"interval tree", func(r *mon.Rng) subject {
		t := interval.New[int, int]()
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					a := r.Intn(60)
					b := a + r.Intn(20)
					var kv interval.KV[int, int]
					ok := false
					switch r.Intn(4) {
					case 0:
						kv, ok = t.Add(a, b, r.Intn(1000))
					case 1, 2:
						kv, ok = t.Put(a, b, r.Intn(1000))
					case 3:
						kv, ok = t.Remove(a)
					}
					d.add(kv.Low, kv.High, kv.Val)
					d.flag(ok)
				}
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				d.add(t.Size(), t.Height())
				a := r.Intn(60)
				for _, kv := range t.Overlaps(a, a+r.Intn(30)) {
					d.add(kv.Low, kv.High, kv.Val)
				}
				kv, ok := t.Get(r.Intn(60))
				d.add(kv.High, kv.Val)
				d.flag(ok)
				t.Each(func(lo, hi, v int) { r.Call(); d.add(lo, hi, v) })
				return d
			},
		}
	}},
	{"trie", func(r *mon.Rng) subject {
		t := trie.New[int]()
		key := func(r *mon.Rng) string {
			b := make([]byte, r.Intn(5))
			for i := range b {
				b[i] = "abc"[r.Intn(3)]
			}
			return string(b)
		}
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					k := "a" + key(r)
					if r.Intn(3) > 0 {
						t.Put(k, r.Intn(1000))
					} else {
						t.Remove(k)
					}
				}
				d.add(t.Size())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				k := "a" + key(r)
				v, ok := t.Get(k)
				d.add(v, t.Size())
				d.flag(ok)
				d.flag(t.Contains("a" + key(r)))
				d.str(t.LongestPrefix(k + "zz"))
				for _, s := range t.KeysWithPrefix(k) {
					d.str(s)
				}
				for _, s := range t.Keys() {
					d.str(s)
				}
				return d
			},
		}
	}},
	{"rope", func(r *mon.Rng) subject {
		n := rope.New(ints(r, r.Intn(60)))
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				k := n.Len()
				switch r.Intn(6) {
				case 0, 1, 2:
					if k < 300 {
						n.Insert(r.Intn(k+1), ints(r, r.Intn(20)))
					}
				case 3:
					a := r.Intn(k + 1)
					n.Remove(a, min(k, a+r.Intn(20)))
				case 4:
					a, b := n.SplitAt(r.Intn(k + 1))
					n = rope.Join(b, a)
				case 5:
					if r.Bool() {
						n.Rebuild()
					} else {
						n.Rebalance()
					}
				}
				d.add(n.Len())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				k := n.Len()
				d.add(k)
				d.add(n.Value()...)
				a := r.Intn(k + 1)
				d.add(n.Slice(a, a+r.Intn(k-a+1))...)
				if k > 0 {
					d.add(n.At(r.Intn(k)))
				}
				n.Each(func(c *rope.Node[int]) { r.Call(); d.add(c.Value()...) })
				return d
			},
		}
	}},
	{"prope", func(r *mon.Rng) subject {
		n := prope.New(ints(r, r.Intn(60)))
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				k := n.Len()
				switch r.Intn(6) {
				case 0, 1, 2:
					if k < 300 {
						n = n.Insert(r.Intn(k+1), ints(r, r.Intn(20)))
					}
				case 3:
					a := r.Intn(k + 1)
					n = n.Remove(a, min(k, a+r.Intn(20)))
				case 4:
					a, b := n.SplitAt(r.Intn(k + 1))
					n = prope.Join(b, a)
				case 5:
					if r.Bool() {
						n.Rebuild()
					} else {
						n.Rebalance()
					}
				}
				d.add(n.Len())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				k := n.Len()
				d.add(k)
				d.add(n.Value()...)
				a := r.Intn(k + 1)
				d.add(n.Slice(a, a+r.Intn(k-a+1))...)
				if k > 0 {
					d.add(n.At(r.Intn(k)))
				}
				d.add(n.Insert(a, []int{7}).Value()...)
				d.add(n.Remove(0, a).Value()...)
				return d
			},
		}
	}},
	{"ulist", func(r *mon.Rng) subject {
		u := ulist.New[int](1 + r.Intn(8))
		return subject{
			step: func(r *mon.Rng) digest {
				var d digest
				for i := 0; i < 3; i++ {
					if r.Bool() {
						u.PushBack(r.Intn(1000))
					} else {
						u.PushFront(r.Intn(1000))
					}
				}
				it := u.Begin()
				for i := r.Intn(u.Size()); i > 0; i-- {
					it.Next()
				}
				for i := r.Intn(6); i > 0 && it.IsValid(); i-- {
					switch r.Intn(4) {
					case 0:
						u.AddAfter(it, r.Intn(1000))
					case 1:
						u.AddBefore(it, r.Intn(1000))
					default:
						u.Remove(it)
					}
					if it.IsValid() {
						d.add(it.Get())
					}
				}
				d.add(u.Size())
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				d.add(u.Size())
				for it := u.Begin(); it.IsValid(); it.Next() {
					d.add(it.Get())
				}
				for it := u.End(); it.IsValid(); it.Prev() {
					d.add(it.Get())
				}
				return d
			},
		}
	}},
	{"array", func(r *mon.Rng) subject {
		w, h := 1+r.Intn(8), 1+r.Intn(8)
		a := array2d.NewFilled(w, h, 3)
		return subject{
			step: func(r *mon.Rng) digest {
				x, y := r.Intn(w), r.Intn(h)
				switch r.Intn(3) {
				case 0:
					a.Set(x, y, r.Intn(1000))
				case 1:
					a.Fill(x, y, r.Intn(w), r.Intn(h), r.Intn(1000))
				case 2:
					a.RowSpan(x, r.Intn(w), y)[0] = r.Intn(1000)
				}
				var d digest
				d.add(a.Get(x, y))
				return d
			},
			read: func(r *mon.Rng) digest {
				var d digest
				y := r.Intn(h)
				d.add(a.Row(y)...)
				d.add(a.RowSpan(r.Intn(w), r.Intn(w), y)...)
				d.add(a.Get(r.Intn(w), r.Intn(h)), a.Width(), a.Height())
				d.str(a.String())
				if r.Intn(3) == 0 {
					c := a.Copy()
					c.Fill(0, 0, w-1, 0, 4)
					d.add(c.Row(0)...)
				}
				return d
			},
		}
	}},
	{"hash functions", func(r *mon.Rng) subject {
		read := func(r *mon.Rng) digest {
			var d digest
			i := r.Uint64()
			b := []byte(strconv.Itoa(int(i)))
			d.add(int(g.HashUint64(i)), int(g.HashInt32(int32(i))), int(g.HashString(string(b))), int(g.HashBytes(b)))
			return d
		}
		return subject{read, read}
	}},
}

// history runs a seeded history on a fresh container and returns what it
// reported.
func (m maker) history(seed uint64, steps int, pause func()) []digest {
	r := mon.NewRng(seed)
	s := m.mk(r)
	out := make([]digest, 0, steps)
	for i := 0; i < steps; i++ {
		var d digest
		d.add(int(s.step(r)))
		if i%4 == 3 || i == steps-1 {
			d.add(int(s.read(r)))
		}
		out = append(out, d)
		if pause != nil {
			pause()
		}
	}
	return out
}

func diffDigest(got, want []digest) int {
	for i := range want {
		if got[i] != want[i] {
			return i
		}
	}
	return -1
}

// separate runs a container of its own in each goroutine; each must behave
// as it does alone.
func separate(t *mon.T) {
	m := makers[t.Index%len(makers)]
	k := 2 + t.Intn(5)
	steps := 20 + t.Intn(60)
	t.Note("%d goroutines with a %s of their own, %d steps each", k, m.name, steps)
	ms := make([]maker, k)
	seeds := make([]uint64, k)
	alone := make([][]digest, k)
	for i := range seeds {
		seeds[i] = t.Uint64()
		ms[i] = m
		if t.Intn(4) == 0 {
			ms[i] = makers[t.Intn(len(makers))]
		}
		alone[i] = ms[i].history(seeds[i], steps, nil)
	}
	t.Parallel(k, func(g *mon.G) {
		got := ms[g.ID].history(seeds[g.ID], steps, g.Step)
		if i := diffDigest(got, alone[g.ID]); i >= 0 {
			g.Fail("%s: used by one goroutine only, it behaves differently from when used alone, at step %d of %d", ms[g.ID].name, i, steps)
		}
	})
	t.Check(k * steps)
}

// interleaved does the same with containers used in turn by one goroutine.
func interleaved(t *mon.T) {
	m := makers[t.Index%len(makers)]
	k := 2 + t.Intn(3)
	steps := 20 + t.Intn(80)
	t.Note("%d %ss in turn, %d steps each", k, m.name, steps)
	seeds := make([]uint64, k)
	alone := make([][]digest, k)
	for i := range seeds {
		seeds[i] = t.Uint64()
		if i > 0 && t.Intn(3) == 0 {
			seeds[i] = seeds[0] // twins
		}
		alone[i] = m.history(seeds[i], steps, nil)
		t.Op("alone", int64(i), int64(alone[i][steps-1]))
	}
	rs := make([]*mon.Rng, k)
	ss := make([]subject, k)
	at := make([]int, k)
	for i := range rs {
		rs[i] = mon.NewRng(seeds[i])
		ss[i] = m.mk(rs[i])
	}
	for left := k * steps; left > 0; {
		i := t.Intn(k)
		for n := 1 + t.Intn(6); n > 0 && at[i] < steps; n-- {
			t.Op("step", int64(i))
			var d digest
			d.add(int(ss[i].step(rs[i])))
			if at[i]%4 == 3 || at[i] == steps-1 {
				d.add(int(ss[i].read(rs[i])))
			}
			t.Check(1)
			if d != alone[i][at[i]] {
				t.Fail("%s: with other instances around, it behaves differently from when used alone, at step %d of %d", m.name, at[i], steps)
			}
			at[i]++
			left--
		}
	}
	t.State(uint64(alone[0][steps-1]))
}

// within uses containers from within the functions given to other containers:
// their orders, equalities, hash functions and callbacks.
func within(t *mon.T) {
	var usable []maker
	for _, m := range makers {
		switch m.name {
		case "stack", "trie", "ulist", "array", "prope", "hash functions":
		default:
			usable = append(usable, m)
		}
	}
	first := usable[t.Index%len(usable)]
	k := 2 + t.Intn(3)
	steps := 10 + t.Intn(40)
	rare := []int{2, 6, 30}[t.Intn(3)]
	t.Note("a %s uses %d other containers, %d steps each", first.name, k-1, steps)
	ms := make([]maker, k)
	seeds := make([]uint64, k)
	alone := make([][]digest, k)
	for i := range seeds {
		ms[i] = first
		if i > 0 && t.Intn(4) == 0 {
			ms[i] = makers[t.Intn(len(makers))]
		}
		seeds[i] = t.Uint64()
		if i > 0 && t.Intn(4) == 0 {
			seeds[i] = seeds[0]
		}
		alone[i] = ms[i].history(seeds[i], steps, nil)
		t.Op("alone", int64(i), int64(alone[i][steps-1]))
	}
	rs := make([]*mon.Rng, k)
	ss := make([]subject, k)
	at := make([]int, k)
	busy := make([]bool, k)
	depth := 0
	var advance func(i int)
	advance = func(i int) {
		busy[i] = true
		t.Op("step", int64(i), int64(depth))
		var d digest
		d.add(int(ss[i].step(rs[i])))
		if at[i]%4 == 3 || at[i] == steps-1 {
			d.add(int(ss[i].read(rs[i])))
		}
		t.Check(1)
		if d != alone[i][at[i]] {
			t.Fail("%s: with others used from within its user's functions, or used from within theirs, it behaves differently from when used alone, at step %d of %d", ms[i].name, at[i], steps)
		}
		at[i]++
		busy[i] = false
	}
	for i := range rs {
		i := i
		rs[i] = mon.NewRng(seeds[i])
		rs[i].Hook = func() {
			if !busy[i] || t.Intn(rare) > 0 { // not while it is made
				return
			}
			if j := t.Intn(k); !busy[j] && at[j] < steps && ss[j].step != nil {
				t.Event("steps_within", 1)
				depth++
				advance(j)
				depth--
			}
		}
		ss[i] = ms[i].mk(rs[i])
	}
	for at[0] < steps {
		advance(0)
	}
	for i := 1; i < k; i++ {
		for at[i] < steps {
			advance(i)
		}
	}
	t.State(uint64(alone[0][steps-1]))
}

// readers lets goroutines read one container.
func readers(t *mon.T) {
	m := makers[t.Index%len(makers)]
	k := 2 + t.Intn(5)
	reads := 4 + t.Intn(12)
	r := mon.NewRng(t.Uint64())
	s := m.mk(r)
	steps := t.Intn(60)
	if t.Intn(8) == 0 {
		steps = 0
	}
	for i := 0; i < steps; i++ {
		s.step(r)
	}
	t.Note("%d goroutines read a %s, %d times each, after %d steps", k, m.name, reads, steps)
	seeds := make([][]uint64, k)
	for i := range seeds {
		for j := 0; j < reads; j++ {
			seeds[i] = append(seeds[i], t.Uint64())
		}
	}
	sequential := func() []digest {
		var out []digest
		for i := range seeds {
			for _, sd := range seeds[i] {
				out = append(out, s.read(mon.NewRng(sd)))
			}
		}
		return out
	}
	// The first reads of this container are concurrent ones; the sequential
	// results are taken afterwards.
	got := make([][]digest, k)
	t.Parallel(k, func(g *mon.G) {
		for _, sd := range seeds[g.ID] {
			got[g.ID] = append(got[g.ID], s.read(mon.NewRng(sd)))
			g.Step()
		}
	})
	want := sequential()
	t.Check(len(want))
	at := 0
	for i := range got {
		for j := range got[i] {
			if got[i][j] != want[at] {
				t.Fail("%s: read %d of goroutine %d yields another result than alone", m.name, j, i)
			}
			at++
		}
	}
	t.State(uint64(want[0]))
}

func init() {
	small := func() {
		thresholds{8, 4, 1.2}.setRope()
		thresholds{8, 4, 1.5}.setPrope()
	}
	n := len(makers)
	mon.Register("C30", fmt.Sprintf("A case takes one of %d kinds of containers (hash functions included): each goroutine runs a seeded history on a container of its own, or goroutines read one container, under the race detector and with random yields, or one goroutine uses several containers in turn or from within each other's comparison functions and callbacks; what every operation returns is compared with the same history run alone. Distinct by trace hash, non-trivial if it contains at least one operation.", n),
		&mon.Scenario{Name: "interleaved", Quick: 60 * n, Thorough: 3000 * n, Setup: small, Run: interleaved},
		&mon.Scenario{Name: "within", Quick: 50 * n, Thorough: 3000 * n, Setup: small, Run: within},
		&mon.Scenario{Name: "separate", Quick: 25 * n, Thorough: 600 * n, Race: true, Setup: small, Run: separate},
		&mon.Scenario{Name: "readers", Quick: 40 * n, Thorough: 1000 * n, Race: true, Setup: small, Run: readers},
	)
}
