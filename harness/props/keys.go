// Package props contains the monitors: for every property the workloads and
// the oracles. They use the public API of the packages under test only, so
// that they judge what the code does and not how it is written.
package props

import (
	"bytes"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"

	g "github.com/zyedidia/generic"
)

// keyspace is a universe of keys: n equivalence classes in ascending order of
// less, each with interchangeable representatives.
type keyspace[K any] struct {
	name  string
	n     int
	mk    func(class int, rep uint64) K
	class func(k K) int // -1: not a key of this space
	less  func(a, b K) bool
	eq    func(a, b K) bool
	hash  func(k K) uint64
}

func intKeys(n, base, stride int) keyspace[int] {
	return keyspace[int]{
		name: "int", n: n,
		mk: func(c int, _ uint64) int { return base + c*stride },
		class: func(k int) int {
			d := k - base
			if d%stride != 0 || d/stride < 0 || d/stride >= n {
				return -1
			}
			return d / stride
		},
		less: g.Less[int], eq: g.Equals[int], hash: g.HashInt,
	}
}

func revKeys(n int) keyspace[int32] {
	return keyspace[int32]{
		name: "reversed int32", n: n,
		mk: func(c int, _ uint64) int32 { return int32(n/2 - c) },
		class: func(k int32) int {
			c := n/2 - int(k)
			if c < 0 || c >= n {
				return -1
			}
			return c
		},
		less: func(a, b int32) bool { return a > b }, eq: g.Equals[int32], hash: g.HashInt32,
	}
}

// extremeKeys spreads n classes over all of int64, the end points included.
func extremeKeys(n int) keyspace[int64] {
	vals := make([]int64, n)
	idx := map[int64]int{}
	for i := range vals {
		switch {
		case i == 0:
			vals[i] = math.MinInt64
		case i == n-1:
			vals[i] = math.MaxInt64
		default:
			vals[i] = int64(uint64(1)<<63 + uint64(i)*(math.MaxUint64/uint64(n)))
		}
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	for i, v := range vals {
		idx[v] = i
	}
	return keyspace[int64]{
		name: "extreme int64", n: n,
		mk: func(c int, _ uint64) int64 { return vals[c] },
		class: func(k int64) int {
			if c, ok := idx[k]; ok {
				return c
			}
			return -1
		},
		less: g.Less[int64], eq: g.Equals[int64], hash: g.HashInt64,
	}
}

// someStrings returns n distinct strings in ascending order that share many
// prefixes and contain the bytes 0 and 255; the empty string is one of them.
func someStrings(n int, alpha string) []string {
	level := []string{""}
	all := []string{""}
	for len(all) < n {
		var nextLevel []string
		for _, s := range level {
			for i := 0; i < len(alpha); i++ {
				nextLevel = append(nextLevel, s+alpha[i:i+1])
			}
		}
		all = append(all, nextLevel...)
		level = nextLevel
	}
	all = all[:n]
	sort.Strings(all)
	return all
}

func strKeys(n int) keyspace[string] {
	all := someStrings(n, "\x00ab\xff")
	idx := map[string]int{}
	for i, s := range all {
		idx[s] = i
	}
	return keyspace[string]{
		name: "string", n: n,
		mk: func(c int, _ uint64) string { return strings.Clone(all[c]) },
		class: func(k string) int {
			if c, ok := idx[k]; ok {
				return c
			}
			return -1
		},
		less: g.Less[string], eq: g.Equals[string], hash: g.HashString,
	}
}

// foldKeys are strings compared without regard to case: every class has many
// representatives.
func foldKeys(n int) keyspace[string] {
	all := someStrings(n, "bgqx")
	idx := map[string]int{}
	for i, s := range all {
		idx[s] = i
	}
	return keyspace[string]{
		name: "case-folded string", n: n,
		mk: func(c int, rep uint64) string {
			b := []byte(all[c])
			for i := range b {
				if rep>>(uint(i)%64)&1 == 1 {
					b[i] -= 'a' - 'A'
				}
			}
			return string(b)
		},
		class: func(k string) int {
			if c, ok := idx[strings.ToLower(k)]; ok {
				return c
			}
			return -1
		},
		less: func(a, b string) bool { return strings.ToLower(a) < strings.ToLower(b) },
		eq:   func(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) },
		hash: func(k string) uint64 { return g.HashString(strings.ToLower(k)) },
	}
}

type tagged struct {
	id  int
	tag uint64
}

// tagKeys are structs of which only one field takes part in the order.
func tagKeys(n int) keyspace[tagged] {
	return keyspace[tagged]{
		name: "struct with payload", n: n,
		mk: func(c int, rep uint64) tagged { return tagged{c*3 - n, rep} },
		class: func(k tagged) int {
			d := k.id + n
			if d < 0 || d%3 != 0 || d/3 >= n {
				return -1
			}
			return d / 3
		},
		less: func(a, b tagged) bool { return a.id < b.id },
		eq:   func(a, b tagged) bool { return a.id == b.id },
		hash: func(k tagged) uint64 { return g.HashInt(k.id) },
	}
}

type boxed struct{ id int }

// ptrKeys are pointers compared by what they point to; a comparison with
// anything but a key the user supplied is a nil dereference.
func ptrKeys(n int) keyspace[*boxed] {
	return keyspace[*boxed]{
		name: "pointer", n: n,
		mk: func(c int, _ uint64) *boxed { return &boxed{c} },
		class: func(k *boxed) int {
			if k == nil || k.id < 0 || k.id >= n {
				return -1
			}
			return k.id
		},
		less: func(a, b *boxed) bool { return a.id < b.id },
		eq:   func(a, b *boxed) bool { return a.id == b.id },
		hash: func(k *boxed) uint64 { return g.HashInt(k.id) },
	}
}

// ptrKeysSame are pointers compared by their identity.
func ptrKeysSame(n int) keyspace[*boxed] {
	ks := ptrKeys(n)
	ps := make([]*boxed, n)
	for i := range ps {
		ps[i] = &boxed{i}
	}
	ks.name = "pointer identity"
	ks.mk = func(c int, _ uint64) *boxed { return ps[c] }
	return ks
}

func floatKeys(n int) keyspace[float64] {
	if n < 8 {
		n = 8
	}
	vals := []float64{math.Inf(-1), -math.MaxFloat64, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, math.Inf(1)}
	for len(vals) < n {
		vals = append(vals, 1+float64(len(vals))/8)
	}
	sort.Float64s(vals)
	return keyspace[float64]{
		name: "float64 with infinities and two zeros", n: n,
		mk: func(c int, rep uint64) float64 {
			if vals[c] == 0 && rep&1 == 1 {
				return math.Copysign(0, -1)
			}
			return vals[c]
		},
		class: func(k float64) int {
			i := sort.SearchFloat64s(vals, k)
			if i < len(vals) && vals[i] == k {
				return i
			}
			return -1
		},
		less: g.Less[float64], eq: g.Equals[float64],
		hash: func(k float64) uint64 {
			if k == 0 {
				k = 0
			}
			return g.HashUint64(math.Float64bits(k + 0))
		},
	}
}

func byteKeys() keyspace[uint8] {
	return keyspace[uint8]{
		name: "uint8", n: 256,
		mk:    func(c int, _ uint64) uint8 { return uint8(c) },
		class: func(k uint8) int { return int(k) },
		less:  g.Less[uint8], eq: g.Equals[uint8], hash: g.HashUint8,
	}
}

// bytesKeys are byte slices: keys need not be comparable with ==.
func bytesKeys(n int) keyspace[[]byte] {
	all := someStrings(n, "\x00k\xff")
	idx := map[string]int{}
	for i, s := range all {
		idx[s] = i
	}
	return keyspace[[]byte]{
		name: "[]byte", n: n,
		mk: func(c int, rep uint64) []byte {
			if all[c] == "" && rep&1 == 0 {
				return nil
			}
			return []byte(all[c])
		},
		class: func(k []byte) int {
			if c, ok := idx[string(k)]; ok {
				return c
			}
			return -1
		},
		less: func(a, b []byte) bool { return bytes.Compare(a, b) < 0 },
		eq:   bytes.Equal,
		hash: g.HashBytes,
	}
}

// pairKeys are arrays; many share one of their elements.
func pairKeys(n int) keyspace[[2]int16] {
	w := 1
	for w*w < n {
		w++
	}
	return keyspace[[2]int16]{
		name: "[2]int16", n: n,
		mk: func(c int, _ uint64) [2]int16 { return [2]int16{int16(c/w - w/2), int16(c%w - w/2)} },
		class: func(k [2]int16) int {
			x, y := int(k[0])+w/2, int(k[1])+w/2
			if x < 0 || y < 0 || y >= w || x*w+y >= n {
				return -1
			}
			return x*w + y
		},
		less: func(a, b [2]int16) bool { return a[0] < b[0] || a[0] == b[0] && a[1] < b[1] },
		eq:   g.Equals[[2]int16],
		hash: func(k [2]int16) uint64 { return g.HashUint32(uint32(uint16(k[0]))<<16 | uint32(uint16(k[1]))) },
	}
}

// anyKeys are interfaces that hold values of different types, many of which
// print alike; nil is one of them.
func anyKeys(n int) keyspace[any] {
	vals := make([]any, n)
	idx := make(map[any]int, n)
	for c := range vals {
		v := c / 9
		switch c % 9 {
		case 0:
			vals[c] = v
			if v == 0 {
				vals[c] = nil
			}
		case 1:
			vals[c] = int64(v)
		case 2:
			vals[c] = strconv.Itoa(v)
		case 3:
			vals[c] = float64(v)
		case 4:
			vals[c] = [1]int{v}
		case 5:
			vals[c] = [1]any{v}
		case 6:
			vals[c] = boxed{v}
		case 7:
			vals[c] = &boxed{v}
		case 8:
			vals[c] = uint8(v)
			if v > 255 {
				vals[c] = tagged{v, 0}
			}
		}
		idx[vals[c]] = c
	}
	class := func(k any) int {
		if c, ok := idx[k]; ok {
			return c
		}
		return -1
	}
	return keyspace[any]{
		name: "any of many types", n: n,
		mk:    func(c int, _ uint64) any { return vals[c] },
		class: class,
		less:  func(a, b any) bool { return class(a) < class(b) },
		eq:    func(a, b any) bool { return a == b },
		hash:  func(k any) uint64 { return g.HashInt(class(k)) },
	}
}

// valspace makes distinguishable values of a type from ids.
type valspace[V any] struct {
	name string
	mk   func(id int64) V
	same func(a, b V) bool
}

func equal[V comparable](a, b V) bool { return a == b }

func intVals() valspace[int64] {
	return valspace[int64]{"int64", func(id int64) int64 {
		switch {
		case id%13 == 0:
			return 0
		case id%17 == 0:
			return -id
		}
		return id
	}, equal[int64]}
}
func strVals() valspace[string] {
	return valspace[string]{"string", func(id int64) string {
		if id%7 == 0 {
			return ""
		}
		b := []byte("v")
		for id > 0 {
			b = append(b, 'a'+byte(id%26))
			id /= 26
		}
		return string(b)
	}, equal[string]}
}
func unitVals() valspace[struct{}] {
	return valspace[struct{}]{"struct{}", func(int64) struct{} { return struct{}{} }, equal[struct{}]}
}
func ptrVals() valspace[*boxed] {
	return valspace[*boxed]{"pointer, sometimes nil", func(id int64) *boxed {
		if id%5 == 0 {
			return nil
		}
		return &boxed{int(id)}
	}, equal[*boxed]}
}
func anyVals() valspace[any] {
	return valspace[any]{"any, sometimes nil", func(id int64) any {
		switch id % 4 {
		case 0:
			return nil
		case 1:
			return id
		case 2:
			return [2]int64{id, -id}
		}
		return &boxed{int(id)}
	}, equal[any]}
}

// funVals are functions, which == does not compare: two are the same if they
// return the same. Some are nil.
func funVals() valspace[func() int64] {
	return valspace[func() int64]{"function, sometimes nil", func(id int64) func() int64 {
		if id%6 == 0 {
			return nil
		}
		return func() int64 { return id }
	}, func(a, b func() int64) bool {
		return (a == nil) == (b == nil) && (a == nil || a() == b())
	}}
}

// sliceVals are slices, some empty and some nil.
func sliceVals() valspace[[]int64] {
	return valspace[[]int64]{"slice, sometimes nil", func(id int64) []int64 {
		switch id % 6 {
		case 0:
			return nil
		case 1:
			return []int64{}
		}
		return []int64{id, -id}
	}, func(a, b []int64) bool { return (a == nil) == (b == nil) && slices.Equal(a, b) }}
}

// arrVals are large arrays.
func arrVals() valspace[[9]int64] {
	return valspace[[9]int64]{"[9]int64", func(id int64) [9]int64 {
		if id%7 == 0 {
			return [9]int64{}
		}
		return [9]int64{id, 0, 0, -id, 0, 0, 0, 0, id}
	}, equal[[9]int64]}
}

// eqv compares elements of any type; functions and slices, which == does not
// compare, by what they return or contain.
func eqv[T any](a, b T) bool {
	switch x := any(a).(type) {
	case func() int:
		y, ok := any(b).(func() int)
		return ok && (x == nil) == (y == nil) && (x == nil || x() == y())
	case func() int64:
		y, ok := any(b).(func() int64)
		return ok && (x == nil) == (y == nil) && (x == nil || x() == y())
	case []int:
		y, ok := any(b).([]int)
		return ok && (x == nil) == (y == nil) && slices.Equal(x, y)
	case []int64:
		y, ok := any(b).([]int64)
		return ok && (x == nil) == (y == nil) && slices.Equal(x, y)
	}
	return any(a) == any(b)
}
