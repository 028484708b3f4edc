package props

import (
	"runtime"
	"strconv"
	"weak"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/set"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"

	"verif/harness/mon"
)

// --- C32: storage follows the contents ---------------------------------------

// A thing is big enough to be an allocation of its own.
type thing struct {
	id  int
	pad [6]int
}

func lessThing(a, b *thing) bool     { return a.id < b.id }
func sameThing(a, b *thing) bool     { return a.id == b.id }
func hashThing(a *thing) uint64      { return g.HashInt(a.id) }
func hashThingBadly(a *thing) uint64 { return g.HashInt(a.id % 8) }

// A keeping container maps things to things, or only has keys or values.
type keeping struct {
	name   string
	keys   bool // it refers to the keys
	put    func(k, v *thing)
	remove func(k *thing)
	clear  func()
	// the container is full with that many entries and then lets go of the
	// oldest, or of the least recently put
	capacity int
}

func keepings(t *mon.T) []func() keeping {
	hash := hashThing
	if t.Intn(3) == 0 {
		hash = hashThingBadly
	}
	mapped := func(name string, m multimap.MultiMap[*thing, *thing]) keeping {
		return keeping{name: name, keys: true, put: func(k, v *thing) { m.RemoveAll(k); m.Put(k, v) }, remove: m.RemoveAll, clear: m.Clear}
	}
	return []func() keeping{
		func() keeping {
			m := avl.New[*thing, *thing](lessThing)
			return keeping{name: "avl.Tree", keys: true, put: m.Put, remove: m.Remove}
		},
		func() keeping {
			m := interval.New[int, *thing]()
			return keeping{name: "interval.Tree", put: func(k, v *thing) { m.Put(k.id, k.id+4, v) }, remove: func(k *thing) { m.Remove(k.id) }}
		},
		func() keeping {
			n := 1 + t.Intn(40)
			m := cache.New[*thing, *thing](n)
			if t.Intn(2) == 0 {
				m.SetEvictCallback(func(k, v *thing) {})
			}
			return keeping{name: "cache.Cache", keys: true, put: m.Put, remove: m.Remove, clear: func() { m.Resize(0); m.Resize(n) }, capacity: n}
		},
		func() keeping {
			m := hashmap.New[*thing, *thing](uint64(t.Intn(20)), sameThing, hash)
			if t.Intn(3) == 0 {
				m = m.Copy()
			}
			return keeping{name: "hashmap.Map", keys: true, put: m.Put, remove: m.Remove, clear: m.Clear}
		},
		func() keeping {
			m := hashset.New(uint64(t.Intn(20)), sameThing, hash)
			return keeping{name: "hashset.Set", keys: true, put: func(k, v *thing) { m.Put(k) }, remove: m.Remove, clear: m.Clear}
		},
		func() keeping {
			m := mapset.New[*thing]()
			return keeping{name: "mapset.Set", keys: true, put: func(k, v *thing) { m.Put(k) }, remove: m.Remove, clear: m.Clear}
		},
		func() keeping {
			m := set.NewHashset(uint64(t.Intn(20)), sameThing, hash)
			other := set.NewMapset[*thing]()
			return keeping{name: "set.Set", keys: true, put: func(k, v *thing) {
				if v.id%2 == 0 {
					m.Put(k)
				} else {
					m.InPlaceUnion(set.NewMapset(k))
				}
			}, remove: func(k *thing) {
				if k.id%2 == 0 {
					m.Remove(k)
				} else {
					m.InPlaceDifference(set.NewMapset(k))
				}
			}, clear: func() { m.InPlaceIntersection(other) }}
		},
		func() keeping {
			m := &bimap.Bimap[*thing, *thing]{}
			return keeping{name: "bimap.Bimap", keys: true, put: m.Add, remove: m.RemoveForward, clear: m.Clear}
		},
		func() keeping { return mapped("multimap.NewMapSlice", multimap.NewMapSlice[*thing, *thing]()) },
		func() keeping { return mapped("multimap.NewMapSet", multimap.NewMapSet[*thing](lessThing)) },
		func() keeping { return mapped("multimap.NewAvlSlice", multimap.NewAvlSlice[*thing, *thing](lessThing)) },
		func() keeping { return mapped("multimap.NewAvlSet", multimap.NewAvlSet(lessThing, lessThing)) },
		func() keeping {
			m := trie.New[*thing]()
			key := func(k *thing) string { return strconv.Itoa(k.id) }
			return keeping{name: "trie.Trie", put: func(k, v *thing) { m.Put(key(k), v) }, remove: func(k *thing) { m.Remove(key(k)) }}
		},
	}
}

type weakly = weak.Pointer[thing]

type heldPair struct {
	id   int
	k, v weakly
}

// released follows the history of a container through weak pointers to what
// was put into it: what it no longer contains, it must not keep alive.
func released(t *mon.T) {
	mks := keepings(t)
	c := mks[t.Index%len(mks)]()
	t.Note("%s, up to %d entries", c.name, c.capacity)
	var in []heldPair
	var gone []weakly
	var what []string
	next := 0
	stride := []int{1, 1, 7919}[t.Intn(3)]
	drop := func(p heldPair, how string, key bool) {
		gone, what = append(gone, p.v), append(what, "the value of an entry that was "+how)
		if c.keys && key {
			gone, what = append(gone, p.k), append(what, "the key of an entry that was "+how)
		}
	}
	put := func() {
		k, v := &thing{id: next * stride % 100003}, &thing{id: next}
		next++
		p := heldPair{k.id, weak.Make(k), weak.Make(v)}
		t.Op("put", int64(k.id))
		c.put(k, v)
		in = append(in, p)
		if c.capacity > 0 && len(in) > c.capacity {
			drop(in[0], "evicted", true)
			in = in[1:]
		}
	}
	overwrite := func() {
		i := t.Intn(len(in))
		p := in[i]
		k := p.k.Value()
		if k == nil {
			if c.keys {
				t.Fail("%s: the key of a present entry has been collected", c.name)
			}
			k = &thing{id: p.id}
		}
		v := &thing{id: next}
		next++
		t.Op("overwrite", int64(p.id))
		c.put(k, v)
		drop(p, "overwritten", false)
		p.v = weak.Make(v)
		copy(in[i:], in[i+1:])
		in[len(in)-1] = p
	}
	remove := func() {
		i := t.Intn(len(in))
		p := in[i]
		k := p.k.Value()
		if k == nil {
			if c.keys {
				t.Fail("%s: the key of a present entry has been collected", c.name)
			}
			k = &thing{id: p.id}
		}
		t.Op("remove", int64(p.id))
		c.remove(k)
		drop(p, "removed", true)
		in = append(in[:i], in[i+1:]...)
	}
	clear := func() {
		t.Op("clear")
		c.clear()
		for _, p := range in {
			drop(p, "cleared", true)
		}
		in = in[:0]
	}
	look := func() {
		t.Op("collect garbage", int64(len(gone)))
		letGo(t, c.name, gone, what)
		gone, what = gone[:0], what[:0]
	}
	top := 1 + t.Intn(60)
	for round := 0; round < t.Pick(4, 8); round++ {
		for i := t.Intn(120); i >= 0; i-- {
			switch {
			case len(in) == 0 || len(in) < top && t.Intn(3) > 0:
				put()
			case t.Intn(4) == 0:
				overwrite()
			case c.clear != nil && t.Intn(60) == 0:
				clear()
			default:
				remove()
			}
		}
		look()
	}
	for len(in) > 0 {
		remove()
	}
	look()
	// only now may the container itself be collected
	runtime.KeepAlive(c.put)
}

// letGo collects garbage and wants all of it gone.
func letGo(t *mon.T, name string, gone []weakly, what []string) {
	alive := -1
	for try := 0; try < 3; try++ {
		runtime.GC()
		alive = -1
		for i, p := range gone {
			if p.Value() != nil {
				alive = i
				break
			}
		}
		if alive < 0 {
			break
		}
	}
	t.Check(len(gone))
	t.Event("things_let_go", int64(len(gone)))
	if alive >= 0 {
		n := 0
		for _, p := range gone {
			if p.Value() != nil {
				n++
			}
		}
		t.Fail("%s: %s cannot be collected: the container still refers to it (and to %d of %d in all)", name, what[alive], n, len(gone))
	}
}

// releasedLinear does so for queues and lists.
func releasedLinear(t *mon.T) {
	var gone []weakly
	var what []string
	var in []weakly
	next := 0
	mk := func() *thing { next++; return &thing{id: next} }
	drop := func(p weakly, how string) { gone, what = append(gone, p), append(what, how) }
	if t.Index%2 == 0 {
		t.Note("queue.Queue")
		q := queue.New[*thing]()
		for round := 0; round < t.Pick(4, 8); round++ {
			for i := t.Intn(150); i >= 0; i-- {
				switch k := t.Intn(40); {
				case k == 0:
					t.Op("Clear")
					q.Clear()
					for _, p := range in {
						drop(p, "an item that was cleared")
					}
					in = in[:0]
				case k == 1:
					t.Op("DequeueAll")
					q.DequeueAll()
					for _, p := range in {
						drop(p, "an item that was dequeued")
					}
					in = in[:0]
				case k < 22 || len(in) == 0:
					t.Op("Enqueue", int64(next))
					x := mk()
					in = append(in, weak.Make(x))
					q.Enqueue(x)
				case k < 30:
					t.Op("Dequeue")
					q.Dequeue()
					drop(in[0], "an item that was dequeued")
					in = in[1:]
				default:
					t.Op("TryDequeue")
					q.TryDequeue()
					drop(in[0], "an item that was dequeued")
					in = in[1:]
				}
			}
			letGo(t, "queue.Queue", gone, what)
			gone, what = gone[:0], what[:0]
		}
		runtime.KeepAlive(q)
		return
	}
	t.Note("list.List")
	l := list.New[*thing]()
	for round := 0; round < t.Pick(4, 8); round++ {
		for i := t.Intn(150); i >= 0; i-- {
			switch k := t.Intn(8); {
			case k == 0:
				t.Op("PushFront", int64(next))
				x := mk()
				in = append([]weakly{weak.Make(x)}, in...)
				l.PushFront(x)
			case k <= 2:
				t.Op("PushBack", int64(next))
				x := mk()
				in = append(in, weak.Make(x))
				l.PushBack(x)
			case k == 3 && len(in) > 0:
				at := t.Intn(len(in))
				n := l.Front
				for j := 0; j < at; j++ {
					n = n.Next
				}
				t.Op("InsertAfter", int64(at))
				x := mk()
				in = append(in[:at+1], append([]weakly{weak.Make(x)}, in[at+1:]...)...)
				l.InsertAfter(n, &list.Node[*thing]{Value: x})
			case len(in) > 0:
				at := t.Intn(len(in))
				n := l.Front
				for j := 0; j < at; j++ {
					n = n.Next
				}
				t.Op("Remove", int64(at))
				l.Remove(n)
				drop(in[at], "the value of a node that was removed")
				in = append(in[:at], in[at+1:]...)
			}
		}
		letGo(t, "list.List", gone, what)
		gone, what = gone[:0], what[:0]
	}
	runtime.KeepAlive(l)
}

// A churner is a container through which elements pass; it holds about as many
// all the time. Keys and values are ever new.
type churner struct {
	name string
	mk   func(t *mon.T, n int) (step func(i int), keep any)
}

func throughMap(n int, put func(k, v int), remove func(k int)) func(i int) {
	return func(i int) {
		put(3*i, i)
		if i >= n {
			remove(3 * (i - n))
		}
	}
}

var churners = []churner{
	{"avl.Tree", func(t *mon.T, n int) (func(int), any) {
		m := avl.New[int, int](g.Less[int])
		return throughMap(n, m.Put, m.Remove), m
	}},
	{"interval.Tree", func(t *mon.T, n int) (func(int), any) {
		m := interval.New[int, int]()
		return throughMap(n, func(k, v int) { m.Add(k, k+9, v) }, func(k int) { m.Remove(k) }), m
	}},
	{"cache.Cache", func(t *mon.T, n int) (func(int), any) {
		m := cache.New[int, int](n)
		return func(i int) {
			m.Put(i, i)
			m.Get(i - t.Intn(n))
		}, m
	}},
	{"cache.Cache, with Remove", func(t *mon.T, n int) (func(int), any) {
		m := cache.New[int, int](2 * n)
		return throughMap(n, m.Put, m.Remove), m
	}},
	{"hashmap.Map", func(t *mon.T, n int) (func(int), any) {
		m := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
		return throughMap(n, m.Put, m.Remove), m
	}},
	{"hashmap.Map and short-lived copies", func(t *mon.T, n int) (func(int), any) {
		m := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
		s := throughMap(n, func(k, v int) { m.Put(k, v) }, func(k int) { m.Remove(k) })
		return func(i int) {
			s(i)
			if i%(n+1) == 0 {
				if c := m.Copy(); i%2 == 0 {
					m = c
				}
			}
		}, &m
	}},
	{"hashset.Set", func(t *mon.T, n int) (func(int), any) {
		m := hashset.New(0, g.Equals[int], g.HashInt)
		return throughMap(n, func(k, v int) { m.Put(k) }, m.Remove), m
	}},
	{"mapset.Set", func(t *mon.T, n int) (func(int), any) {
		m := mapset.New[int]()
		return throughMap(n, func(k, v int) { m.Put(k) }, m.Remove), m
	}},
	{"bimap.Bimap", func(t *mon.T, n int) (func(int), any) {
		m := &bimap.Bimap[int, int]{}
		return throughMap(n, m.Add, m.RemoveForward), m
	}},
	{"bimap.Bimap that displaces", func(t *mon.T, n int) (func(int), any) {
		m := &bimap.Bimap[int, int]{}
		return func(i int) {
			if i%2 == 0 {
				m.Add(i%n, i) // displaces the value
			} else {
				m.Add(-i, i%n) // displaces the key
			}
			if i >= n {
				m.RemoveReverse((i - n))
				m.RemoveForward(-(i - n))
			}
		}, m
	}},
	{"multimap.NewMapSlice", multiChurn(multimap.NewMapSlice[int, int])},
	{"multimap.NewMapSet", multiChurn(func() multimap.MultiMap[int, int] { return multimap.NewMapSet[int](g.Less[int]) })},
	{"multimap.NewAvlSlice", multiChurn(func() multimap.MultiMap[int, int] { return multimap.NewAvlSlice[int, int](g.Less[int]) })},
	{"multimap.NewAvlSet", multiChurn(func() multimap.MultiMap[int, int] { return multimap.NewAvlSet[int, int](g.Less[int], g.Less[int]) })},
	{"queue.Queue", func(t *mon.T, n int) (func(int), any) {
		m := queue.New[int]()
		return func(i int) {
			m.Enqueue(i)
			if m.Len() > n {
				m.Dequeue()
			}
		}, m
	}},
	{"queue.Queue, emptied", func(t *mon.T, n int) (func(int), any) {
		m := queue.New[int]()
		return func(i int) {
			m.Enqueue(i)
			if m.Len() > n {
				if i%3 == 0 {
					m.Clear()
				} else {
					m.DequeueAll()
				}
			}
		}, m
	}},
	{"stack.Stack", func(t *mon.T, n int) (func(int), any) {
		m := stack.New[int]()
		return func(i int) {
			m.Push(i)
			for k := t.Intn(3); m.Size() > n || k > 0 && m.Size() > n/2; k-- {
				m.Pop()
			}
		}, m
	}},
	{"heap.Heap", func(t *mon.T, n int) (func(int), any) {
		m := heap.New(g.Less[int])
		return func(i int) {
			m.Push(t.Intn(1000))
			for m.Size() > n {
				m.Pop()
			}
		}, m
	}},
	{"list.List", func(t *mon.T, n int) (func(int), any) {
		m := list.New[int]()
		k := 0
		return func(i int) {
			if i%3 == 0 {
				m.PushFront(i)
			} else {
				m.PushBack(i)
			}
			if k++; k > n {
				if i%2 == 0 {
					m.Remove(m.Front)
				} else {
					m.Remove(m.Back)
				}
			}
		}, m
	}},
	{"ulist.UList", func(t *mon.T, n int) (func(int), any) {
		m := ulist.New[int](1 + t.Intn(12))
		it := m.Begin()
		return func(i int) {
			if m.Size() == 0 || t.Intn(3) == 0 {
				m.PushBack(i)
				it = m.End()
			} else if t.Intn(2) == 0 {
				m.AddAfter(it, i)
			} else {
				m.AddBefore(it, i)
			}
			for m.Size() > n {
				m.Remove(it)
				if !it.IsValid() {
					it = m.Begin()
				}
			}
			if t.Intn(5) == 0 && !it.Next() || t.Intn(5) == 0 && !it.Prev() {
				it = m.Begin()
			}
		}, m
	}},
	{"trie.Trie", func(t *mon.T, n int) (func(int), any) {
		m := trie.New[int]()
		return throughMap(n, func(k, v int) { m.Put(strconv.Itoa(k), v) }, func(k int) { m.Remove(strconv.Itoa(k)) }), m
	}},
	{"trie.Trie of hashed keys", func(t *mon.T, n int) (func(int), any) {
		m := trie.New[int]()
		return throughMap(n, func(k, v int) { m.Put(trieKeyFor(k), v) }, func(k int) { m.Remove(trieKeyFor(k)) }), m
	}},
	{"rope.Node", func(t *mon.T, n int) (func(int), any) {
		m := rope.New[int](nil)
		return func(i int) {
			m.Insert(t.Intn(m.Len()+1), []int{i, i})
			for m.Len() > 4*n {
				at := t.Intn(m.Len() - 3)
				m.Remove(at, at+3)
			}
			if i%(8*n) == 0 {
				m.Rebalance()
			}
		}, m
	}},
	{"prope.Node", func(t *mon.T, n int) (func(int), any) {
		m := prope.New[int](nil)
		return func(i int) {
			m = m.Insert(t.Intn(m.Len()+1), []int{i, i})
			for m.Len() > 4*n {
				at := t.Intn(m.Len() - 3)
				m = m.Remove(at, at+3)
			}
			if i%(8*n) == 0 {
				m.Rebalance()
			}
		}, &m
	}},
}

func multiChurn(mk func() multimap.MultiMap[int, int]) func(t *mon.T, n int) (func(int), any) {
	return func(t *mon.T, n int) (func(int), any) {
		m := mk()
		return func(i int) {
			m.Put(i/3, i)
			m.Put(-1, i)
			if i >= n {
				m.Remove(-1, i-n)
				if i%2 == 0 {
					m.Remove((i-n)/3, i-n)
				} else {
					m.RemoveAll((i - n) / 3)
				}
			}
		}, m
	}
}

func liveBytes() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

const churnSlack = 300 << 10

// churning lets ever new elements pass through a container and compares what
// it takes after many of them with what it took after few.
func churning(t *mon.T) {
	c := churners[t.Index%len(churners)]
	n := 16 + t.Intn(200)
	t.Note("%s of %d elements", c.name, n)
	base := liveBytes()
	step, keep := c.mk(t, n)
	i := 0
	to := func(k int) int64 {
		for ; i < k; i++ {
			step(i)
			if i%1024 == 0 {
				t.Op("churn", int64(i))
			}
		}
		b := liveBytes() - base
		t.Op("live bytes", b)
		return b
	}
	early := max(0, to(8*n))
	late := to(t.Pick(120000, 600000))
	t.Event("elements_churned", int64(i))
	t.Max("live_bytes_after_churning", late)
	t.Assert(late <= 3*early+churnSlack, "%s: after %d elements have passed through it, never more than about %d at a time, it takes %d KiB, and took %d KiB after the first %d", c.name, i, n, late>>10, early>>10, 8*n)
	runtime.KeepAlive(keep)
}

// shrinking fills a container and takes everything out again.
func shrinking(t *mon.T) {
	n := t.Pick(30000, 120000)
	order := t.Intn(3)
	key := func(i int) int { return i }
	if order == 1 {
		key = func(i int) int { return int(mon.Mix(uint64(i), 9) >> 3) }
	}
	names := []string{"avl.Tree", "interval.Tree", "hashmap.Map", "hashset.Set", "queue.Queue", "list.List", "trie.Trie"}
	name := names[t.Index%len(names)]
	t.Note("%s of %d elements", name, n)
	base := liveBytes()
	var put, remove func(i int)
	var keep any
	switch name {
	case "avl.Tree":
		m := avl.New[int, int](g.Less[int])
		put, remove, keep = func(i int) { m.Put(key(i), i) }, func(i int) { m.Remove(key(i)) }, m
	case "interval.Tree":
		m := interval.New[int, int]()
		put, remove, keep = func(i int) { m.Put(key(i), key(i)+1, i) }, func(i int) { m.Remove(key(i)) }, m
	case "hashmap.Map":
		m := hashmap.New[int, int](0, g.Equals[int], g.HashInt)
		put, remove, keep = func(i int) { m.Put(key(i), i) }, func(i int) { m.Remove(key(i)) }, m
	case "hashset.Set":
		m := hashset.New(0, g.Equals[int], g.HashInt)
		put, remove, keep = func(i int) { m.Put(key(i)) }, func(i int) { m.Remove(key(i)) }, m
	case "queue.Queue":
		m := queue.New[int]()
		put, remove, keep = m.Enqueue, func(int) { m.Dequeue() }, m
	case "list.List":
		m := list.New[int]()
		put, remove, keep = m.PushBack, func(int) { m.Remove(m.Front) }, m
	case "trie.Trie":
		m := trie.New[int]()
		put, remove, keep = func(i int) { m.Put(trieKeyFor(key(i)), i) }, func(i int) { m.Remove(trieKeyFor(key(i))) }, m
	}
	for i := 0; i < n; i++ {
		put(i)
		if i%1024 == 0 {
			t.Op("put", int64(i))
		}
	}
	full := liveBytes() - base
	left := 20
	for i := 0; i < n-left; i++ {
		k := i
		if order == 2 {
			k = n - 1 - i
		}
		remove(k)
		if i%1024 == 0 {
			t.Op("remove", int64(i))
		}
	}
	few := liveBytes() - base
	t.Event("elements_put_and_removed", int64(n))
	t.Max("live_bytes_full", full)
	t.Max("live_bytes_nearly_empty", few)
	t.Assert(few <= full/8+64<<10, "%s: it takes %d KiB with %d elements and still %d KiB with %d of them left", name, full>>10, n, few>>10, left)
	runtime.KeepAlive(keep)
}

func init() {
	mon.Register("C32", "random histories on every kind of container, with weak pointers to what is put in (a case without removals would be trivial); elements passing through containers that hold a bounded number; filling and emptying",
		&mon.Scenario{Name: "released", Quick: 130, Thorough: 20000, Run: released},
		&mon.Scenario{Name: "released by queues and lists", Quick: 100, Thorough: 4000, Run: releasedLinear},
		&mon.Scenario{Name: "churning", Quick: 96, Thorough: 1200, Serial: true, Setup: smallRopes, Run: churning},
		&mon.Scenario{Name: "shrinking", Quick: 21, Thorough: 210, Serial: true, Run: shrinking})
}
