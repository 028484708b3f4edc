From 38e5d3d57de7c01aac2d61b1abeaf596d5e161d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 01/15] fix: array2d: use the width as the row stride

Rows were laid out height elements apart, so non-square arrays aliased cells
(width > height) or panicked on in-range access (width < height).
---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From d75001f21c3803bb796a843d161fb821722d2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 02/15] fix: array2d: ignore surplus jagged rows in OfJagged

Out-of-bounds values are documented to be ignored, but a row past the height
panicked.
---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..dad7379 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -32,6 +32,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
 	for y, row := range jagged {
+		if y >= height {
+			break
+		}
 		copy(arr.Row(y), row)
 	}
 	return arr
-- 
2.43.0


From b153b83b0cc28886279837c87a36382d518f5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 03/15] fix: btree: do not count overwritten keys in Size

Put incremented the size even when the key was already present.
---
 btree/btree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..adf20ee 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,10 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	if _, ok := t.Get(key); !ok {
+		t.n++
+	}
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 024fad4e888f3114a42da38ed392c9cf4d44e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 04/15] fix: cache: do not panic in Put when the capacity is 0

A cache that was created with, or resized to, capacity 0 tried to evict from an
empty list. Nothing fits in such a cache, so Put now leaves it empty.
---
 cache/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..4078a2a 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,9 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity == 0 {
+		return
+	}
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From b45ebc524e7623f29fb8d14a63d33a9051e2dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 05/15] fix: cache: evict the right entry when the callback
 uses the cache

If the evict callback called Get for (or removed) the entry being evicted, the
list lost a different entry than the table did, and the two stayed out of sync.
---
 cache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4078a2a..6df686d 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -75,8 +75,8 @@ func (t *Cache[K, V]) evict() {
 	if t.evictCb != nil {
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
-	delete(t.table, entry.Key)
+	// the callback may have used the cache, so Back may be another entry now
+	t.Remove(entry.Key)
 }
 
 // Remove causes the entry associated with the given key to be immediately
-- 
2.43.0


From 3e5934b7239118dd6d7a31076c9e8cc0bacb3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 06/15] fix: hashmap: do not clear the entries shared with
 copies

Clear ignored copy-on-write and emptied the entries of every map sharing them.
---
 hashmap/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..d50edf1 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,12 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		m.entries = make([]entry[K, V], len(m.entries))
+		m.length = 0
+		m.readonly = false
+		return
+	}
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From 9a8697ac34b68e811c5d8c3f442ea8aae674cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 07/15] fix: rope: turn the node into a leaf before adjusting
 in Rebuild

Rebuild (and Rebalance, which uses it) left an internal node without children, so
the rope panicked on the next access.
---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..199d2ef 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,7 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From 803fb6d98eecb88de2007749c3728e83bd20d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 08/15] fix: rope: allow Insert of a slice that was taken from
 the rope

Slice and Value return the underlying slice, and inserting in place moved its
elements before they were copied.
---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 199d2ef..ed64a4c 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -268,6 +268,8 @@ func (n *Node[V]) Each(fn func(n *Node[V])) {
 // from slice tricks
 func insert[V any](s []V, k int, vs []V) []V {
 	if n := len(s) + len(vs); n <= cap(s) {
+		// vs may be a part of s that is about to be moved
+		vs = append([]V(nil), vs...)
 		s2 := s[:n]
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
-- 
2.43.0


From 9f89892807aa700feb1899bf39edbf8faaa32f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 09/15] fix: set: IsDisjoint returned the opposite

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From 40cc3646f40c28ab882ab977ea13da0f858d1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 10/15] fix: set: do not remove from the set while iterating
 over it in intersections

With a hashset, removing a key moves the keys that follow it, and moved keys were
skipped: they stayed in the intersection without being in the other set.
---
 set/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..6b4e7f6 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,11 +108,12 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// removing from a hashset while iterating over it can skip keys
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
-- 
2.43.0


From 20668eb0e0bffc14df8faa058f7a9c2c82d6b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 11/15] fix: trie: do not decrement Size when removing a
 missing key

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..b251082 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -145,7 +145,7 @@ func (t *Trie[V]) put(x *node[V], key string, val V, d int) *node[V] {
 // Remove removes the value associated with 'key', along with any nodes of the key that are no
 // longer used.
 func (t *Trie[V]) Remove(key string) {
-	if len(key) == 0 {
+	if !t.Contains(key) {
 		return
 	}
 
-- 
2.43.0


From 0bf883476618aceca96e0c3c68e0ee63e189c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 12/15] fix: ulist: move to the next block when Remove deletes
 the end of a block

The iterator was left past the end of its block: invalid, although there were
entries after the deleted one.
---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..fae4370 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) && iter.node.Next != nil {
+		// The last entry of the block was removed.
+		iter.node = iter.node.Next
+		iter.index = 0
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 8c3ecea7d936124ec9440b3c24ea01bd6d86a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 13/15] fix: set: make InPlaceDifference of a hashset with
 itself empty

Removing keys while iterating over the same hashset skipped some of them.
---
 set/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index 6b4e7f6..d869217 100644
--- a/set/set.go
+++ b/set/set.go
@@ -120,9 +120,14 @@ func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
+		// other may be s itself, so do not remove while iterating over it
+		keys := make([]K, 0, other.Size())
 		other.Each(func(key K) {
-			s.Remove(key)
+			keys = append(keys, key)
 		})
+		for _, key := range keys {
+			s.Remove(key)
+		}
 	}
 	return s
 }
-- 
2.43.0


From 90793153cd8bf9fd04370c285ccef5d19d3d7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 14/15] fix: ulist: do not panic when stepping an iterator of
 an empty list

Next and Prev are documented to report whether the iterator is valid; on the
invalid iterator of an empty list they dereferenced nil instead.
---
 ulist/ulist_iter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ulist/ulist_iter.go b/ulist/ulist_iter.go
index 858ac61..bf305d2 100644
--- a/ulist/ulist_iter.go
+++ b/ulist/ulist_iter.go
@@ -51,6 +51,9 @@ func (iter *UListIter[V]) Get() V {
 
 // Next moves the iterator one step forward and returns true if the iterator is valid.
 func (iter *UListIter[V]) Next() bool {
+	if iter.node == nil {
+		return false
+	}
 	iter.index++
 	blk := iter.node.Value
 	if iter.index >= len(blk) {
@@ -67,6 +70,9 @@ func (iter *UListIter[V]) Next() bool {
 
 // Prev moves the iterator one step back and returns true if the iterator is valid.
 func (iter *UListIter[V]) Prev() bool {
+	if iter.node == nil {
+		return false
+	}
 	iter.index--
 	if iter.index < 0 {
 		if iter.node.Prev != nil {
-- 
2.43.0


From 3251774ccc091b7712cf7a053ee882c2cb11ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 15/15] fix: prope: Remove shares the subtrees outside of the
 range

Remove recursed into both children even when the range did not touch
them, so removing one element copied every leaf of the rope.
---
 prope/prope.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/prope/prope.go b/prope/prope.go
index cfca004..e55b66b 100644
--- a/prope/prope.go
+++ b/prope/prope.go
@@ -120,15 +120,22 @@ func (n *Node[V]) Remove(start, end int) *Node[V] {
 		return New(remove(n.value, start, end))
 	}
 
+	// Subtrees outside of the range are shared with the old version.
 	changedNode := &Node[V]{
-		kind: tNode,
+		kind:  tNode,
+		left:  n.left,
+		right: n.right,
 	}
 
 	leftStart, leftEnd := bound(start, end, n.left.length)
-	changedNode.left = n.left.Remove(leftStart, leftEnd)
+	if leftStart < leftEnd {
+		changedNode.left = n.left.Remove(leftStart, leftEnd)
+	}
 
 	rightStart, rightEnd := bound(start-n.left.length, end-n.left.length, n.right.length)
-	changedNode.right = n.right.Remove(rightStart, rightEnd)
+	if rightStart < rightEnd {
+		changedNode.right = n.right.Remove(rightStart, rightEnd)
+	}
 
 	changedNode.length = changedNode.right.length + changedNode.left.length
 	changedNode.adjust()
-- 
2.43.0

