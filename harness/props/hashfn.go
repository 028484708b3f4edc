package props

import (
	"fmt"
	"math"
	"math/bits"
	"slices"
	"strings"

	g "github.com/zyedidia/generic"

	"verif/harness/mon"
)

// --- C28: hash functions ---------------------------------------------------

// injective checks that the hashes are distinct.
func injective(t *mon.T, name string, hs []uint64) {
	t.Check(len(hs))
	t.Event("hashes", int64(len(hs)))
	slices.Sort(hs)
	for i := 1; i < len(hs); i++ {
		if hs[i] == hs[i-1] {
			t.Fail("generic: two of %d keys have the same %s, %#x", len(hs), name, hs[i])
		}
	}
	t.Tick()
}

// hashSmall goes through all 8-bit and 16-bit integers.
func hashSmall(t *mon.T) {
	t.Note("all 8-bit and 16-bit integers")
	t.Op("exhaustive", 16)
	var u8, u16, i8, i16 []uint64
	for i := 0; i < 1<<8; i++ {
		u8 = append(u8, g.HashUint8(uint8(i)))
		i8 = append(i8, g.HashInt8(int8(i)))
	}
	for i := 0; i < 1<<16; i++ {
		u16 = append(u16, g.HashUint16(uint16(i)))
		i16 = append(i16, g.HashInt16(int16(i)))
	}
	for i := 0; i < 1<<8; i++ {
		consistent(t, uint64(i), int64(int8(i)))
	}
	for i := 0; i < 1<<16; i++ {
		consistent(t, uint64(i), int64(int16(i)))
	}
	injective(t, "HashUint8", u8)
	injective(t, "HashUint16", u16)
	injective(t, "HashInt8", i8)
	injective(t, "HashInt16", i16)
}

// consistent checks that every function of the same signedness that can take
// the integer yields the same hash.
func consistent(t *mon.T, u uint64, i int64) {
	t.Check(2)
	hu := g.HashUint64(u)
	if g.HashUint64(u) != hu || g.HashUint(uint(u)) != hu || u <= math.MaxUint32 && g.HashUint32(uint32(u)) != hu ||
		u <= math.MaxUint16 && g.HashUint16(uint16(u)) != hu || u <= math.MaxUint8 && g.HashUint8(uint8(u)) != hu {
		t.Fail("generic: the unsigned hash functions do not agree on %d", u)
	}
	hi := g.HashInt64(i)
	if g.HashInt64(i) != hi || g.HashInt(int(i)) != hi || int64(int32(i)) == i && g.HashInt32(int32(i)) != hi ||
		int64(int16(i)) == i && g.HashInt16(int16(i)) != hi || int64(int8(i)) == i && g.HashInt8(int8(i)) != hi {
		t.Fail("generic: the signed hash functions do not agree on %d", i)
	}
}

// keyPatterns are ways to make regular keys.
var keyPatterns = []struct {
	name string
	key  func(t *mon.T, seed uint64) func(i uint64) uint64
}{
	{"consecutive", func(t *mon.T, s uint64) func(uint64) uint64 { return func(i uint64) uint64 { return s + i } }},
	{"consecutive from zero", func(t *mon.T, s uint64) func(uint64) uint64 { return func(i uint64) uint64 { return i } }},
	{"around zero", func(t *mon.T, s uint64) func(uint64) uint64 { return func(i uint64) uint64 { return i - 4096 } }},
	{"multiples of a power of two", func(t *mon.T, s uint64) func(uint64) uint64 {
		sh := s % 46
		return func(i uint64) uint64 { return i << sh }
	}},
	{"arithmetic progression", func(t *mon.T, s uint64) func(uint64) uint64 {
		st := s >> (32 + s%28)
		if st == 0 {
			st = 1
		}
		return func(i uint64) uint64 { return s + i*st }
	}},
	{"pairs in two halves", func(t *mon.T, s uint64) func(uint64) uint64 {
		return func(i uint64) uint64 { return (i/64)<<32 | i%64 }
	}},
	{"points on a grid", func(t *mon.T, s uint64) func(uint64) uint64 {
		sh := 8 + s%40
		return func(i uint64) uint64 { return (i/100)<<sh | i%100 }
	}},
	{"bits reversed", func(t *mon.T, s uint64) func(uint64) uint64 {
		return func(i uint64) uint64 {
			r := uint64(0)
			for k := 0; k < 18; k++ {
				r |= i >> uint(k) & 1 << uint(63-k)
			}
			return r
		}
	}},
	{"random", func(t *mon.T, s uint64) func(uint64) uint64 {
		return func(i uint64) uint64 { return mon.Mix(s, i) }
	}},
}

type intHash struct {
	name  string
	width uint
	fn    func(uint64) uint64
}

var intHashes = []intHash{
	{"HashUint64", 64, g.HashUint64},
	{"HashInt64", 64, func(u uint64) uint64 { return g.HashInt64(int64(u)) }},
	{"HashUint", 64, func(u uint64) uint64 { return g.HashUint(uint(u)) }},
	{"HashInt", 64, func(u uint64) uint64 { return g.HashInt(int(u)) }},
	{"HashUint32", 32, func(u uint64) uint64 { return g.HashUint32(uint32(u)) }},
	{"HashInt32", 32, func(u uint64) uint64 { return g.HashInt32(int32(u)) }},
	{"HashUint16", 16, func(u uint64) uint64 { return g.HashUint16(uint16(u)) }},
	{"HashInt16", 16, func(u uint64) uint64 { return g.HashInt16(int16(u)) }},
	{"HashUint8", 8, func(u uint64) uint64 { return g.HashUint8(uint8(u)) }},
	{"HashInt8", 8, func(u uint64) uint64 { return g.HashInt8(int8(u)) }},
}

// hashPattern hashes many keys of one pattern and looks at collisions and at
// how they spread over power-of-two tables.
func hashPattern(t *mon.T, n int) {
	h := intHashes[t.Intn(6)]
	p := keyPatterns[t.Intn(len(keyPatterns))]
	key := p.key(t, t.Uint64())
	t.Note("%s of %d keys: %s", h.name, n, p.name)
	mask := uint64(math.MaxUint64)
	if h.width < 64 {
		mask = 1<<h.width - 1
	}
	seen := make(map[uint64]bool, n)
	var hs []uint64
	for i := 0; len(hs) < n && i < 2*n; i++ {
		k := key(uint64(i)) & mask
		if seen[k] {
			continue
		}
		seen[k] = true
		hs = append(hs, h.fn(k))
		if i%16 == 0 {
			if h.width == 32 {
				consistent(t, k, int64(int32(k)))
			} else {
				consistent(t, k, int64(k))
			}
		}
	}
	t.Op("keys "+h.name+" "+p.name, int64(n), int64(key(uint64(n))))
	n = len(hs)
	// n keys in a table of at least n slots
	for bits := 4; bits < 20; bits++ {
		slots := 1 << uint(bits)
		if slots > 4*n {
			break
		}
		k := min(n, slots)
		if k < 256 {
			continue
		}
		used := make([]uint8, slots)
		occ := 0
		for _, x := range hs[:k] {
			j := x & uint64(slots-1)
			if used[j] == 0 {
				occ++
			}
			used[j] = 1
		}
		// k balls in this many slots occupy slots*(1-exp(-k/slots)) of them on
		// average, with a deviation of a few times sqrt(slots); take away a
		// quarter.
		exp := float64(slots) * (1 - math.Exp(-float64(k)/float64(slots)))
		t.Check(1)
		t.Max("slots_measured", int64(slots))
		if float64(occ) < 0.75*exp {
			t.Fail("generic: %s spreads %d keys (%s) over %d of %d slots, about %.0f expected", h.name, k, p.name, occ, slots, exp)
		}
	}
	injective(t, h.name, hs)
}

// hashNeighbours hashes a key and all keys that differ from it in few bits, or
// by few additions of powers of two, or by a rearrangement of its bits.
func hashNeighbours(t *mon.T) {
	h := intHashes[t.Index%6]
	mask := uint64(math.MaxUint64)
	if h.width < 64 {
		mask = 1<<h.width - 1
	}
	base := t.Uint64() & mask
	switch t.Intn(4) {
	case 0:
		base = uint64(t.Intn(1000))
	case 1:
		base = 1 << t.Intn(int(h.width))
	}
	t.Note("%s of %#x and its neighbours", h.name, base)
	t.Op("neighbours "+h.name, int64(base))
	seen := map[uint64]bool{}
	var hs []uint64
	add := func(k uint64) {
		if k &= mask; !seen[k] {
			seen[k] = true
			hs = append(hs, h.fn(k))
		}
	}
	add(base)
	w := h.width
	third := uint(t.Intn(int(w)))
	for i := uint(0); i < w; i++ {
		for j := i; j < w; j++ {
			two := uint64(1)<<i | 1<<j
			add(base ^ two)
			add(base ^ two ^ 1<<third)
			add(base + 1<<i + 1<<j)
			add(base + 1<<i - 1<<j)
			add(base - 1<<i + 1<<j)
			add(base - 1<<i - 1<<j)
			add(base ^ (1<<j - 1<<i)) // a run of bits
		}
		add(base<<i | base>>(w-i))
		add(base << i)
		add(base >> i)
	}
	add(^base)
	add(-base)
	add(bits.Reverse64(base))
	add(bits.ReverseBytes64(base))
	add(uint64(bits.ReverseBytes32(uint32(base))))
	for i := 0; i < 2000; i++ {
		add(base ^ 1<<t.Intn(int(w)) ^ 1<<t.Intn(int(w)) ^ 1<<t.Intn(int(w)) ^ 1<<t.Intn(int(w)))
	}
	t.Event("neighbours", int64(len(hs)))
	injective(t, h.name, hs)
}

// hashImage looks at the hashes of random keys of 64 bits: if all of many
// satisfy one linear relation between their bits, then the function has at most
// half as many values as there are keys, and so is not injective.
func hashImage(t *mon.T) {
	h := intHashes[t.Index%4]
	t.Note("linear relations between the bits of %s", h.name)
	t.Op("image " + h.name)
	var rows [64]uint64
	first, rank := h.fn(t.Uint64()), 0
	for i := 0; i < 1000 && rank < 64; i++ {
		x := h.fn(t.Uint64()) ^ first
		for b := 63; b >= 0 && x != 0; b-- {
			if x>>uint(b)&1 == 0 {
				continue
			}
			if rows[b] == 0 {
				rows[b], x = x, 0
				rank++
			} else {
				x ^= rows[b]
			}
		}
	}
	t.Check(1)
	if rank < 64 {
		t.Fail("generic: the hashes of 1000 random keys by %s lie in an affine subspace of dimension %d: the function is not injective", h.name, rank)
	}
}

// hashRoom has the memory of finished cases of hashAll32, of the same size each.
var hashRoom = make(chan []uint64, 1024)

// hashAll32 looks for collisions among all keys of 32 bits: of those hashes
// with a certain value of some of the bits, in each case. The quick tier takes a
// range of keys.
func hashAll32(t *mon.T) {
	h := intHashes[4+t.Index%2]
	parts := uint64(128)
	part := uint64(t.Index/2) % parts
	var hs []uint64
	if !t.Thorough() {
		base := uint64(uint32(t.Uint64()))
		t.Note("%s of 2^22 consecutive keys", h.name)
		t.Op("range "+h.name, int64(base))
		for i := uint64(0); i < 1<<22; i++ {
			hs = append(hs, h.fn((base+i)&math.MaxUint32))
		}
	} else {
		t.Note("%s of all keys, part %d of %d", h.name, part, parts)
		room := 1 << 32 / parts * 11 / 10
		select {
		case hs = <-hashRoom:
		default:
			hs = make([]uint64, 0, room)
		}
		defer func() { hashRoom <- hs[:0] }()
		for i := uint64(0); i < 1<<32 && uint64(len(hs)) < room; i++ {
			if i%(1<<26) == 0 {
				t.Op("keys "+h.name, int64(i))
			}
			if x := h.fn(i); x>>20&(parts-1) == part {
				hs = append(hs, x)
			}
		}
	}
	t.Event("keys_of_32_bits", int64(len(hs)))
	injective(t, h.name, hs)
}

// hashAvalanche flips single bits and looks at the low bits of the hash.
func hashAvalanche(t *mon.T) {
	h := intHashes[t.Index%len(intHashes)]
	p := keyPatterns[t.Index/len(intHashes)%len(keyPatterns)]
	key := p.key(t, t.Uint64())
	n := 2000
	t.Note("%s with single bits flipped in %d keys: %s", h.name, n, p.name)
	mask := uint64(math.MaxUint64)
	if h.width < 64 {
		mask = 1<<h.width - 1
	}
	seen := map[uint64]bool{}
	var keys []uint64
	for i := 0; i < 2*n && len(keys) < n; i++ {
		k := key(uint64(i))
		if i >= n && len(keys) < 200 { // the pattern has too few keys of this width
			k = uint64(i)
		}
		if k &= mask; !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	n = len(keys)
	for b := uint(0); b < h.width; b++ {
		t.Op("flip", int64(b))
		diffs, diff8 := 0, 0
		for _, k := range keys {
			x, y := h.fn(k), h.fn(k^1<<b)
			if x == y {
				t.Fail("generic: %s(%#x) = %s(%#x)", h.name, k, h.name, k^1<<b)
			}
			if (x^y)&0xffff != 0 {
				diffs++
			}
			if (x^y)&0xff != 0 {
				diff8++
			}
		}
		t.Check(n)
		t.Event("bits_flipped", int64(n))
		if diffs < n*95/100 || diff8 < n*90/100 {
			t.Fail("generic: flipping bit %d changes the low 16 bits of %s for %d of %d keys (%s), the low 8 bits for %d", b, h.name, diffs, n, p.name, diff8)
		}
	}
}

// hashStrings looks at HashString and HashBytes.
func hashStrings(t *mon.T) {
	n := t.Intn(70)
	if t.Intn(8) == 0 {
		n = t.Intn(5000)
		if t.Intn(100) == 0 {
			n = 65530 + t.Intn(5000)
		}
	}
	b := make([]byte, n, n+t.Intn(5))
	fill := t.Intn(4)
	for i := range b {
		switch fill {
		case 0:
			b[i] = byte(t.Uint64())
		case 1:
			b[i] = 'a' + byte(t.Intn(3))
		case 2:
			b[i] = 0
		case 3:
			b[i] = 0xff
		}
	}
	t.Note("a string of %d bytes", n)
	keep := string(b)
	h := g.HashBytes(b)
	t.Op("string", int64(n), int64(h))
	t.Check(4)
	if string(b) != keep {
		t.Fail("generic: HashBytes changed its argument")
	}
	if g.HashBytes(b) != h || g.HashString(keep) != h || g.HashString(string(b)) != h || g.HashString(("x" + keep)[1:]) != h {
		t.Fail("generic: HashString and HashBytes disagree on %q", clip(keep))
	}
	if n == 0 && g.HashBytes(nil) != h {
		t.Fail("generic: HashBytes of nil and of an empty slice differ")
	}
	// every byte counts
	for i := 0; i < n; i++ {
		if n > 200 && i > 20 && i < n-20 && t.Intn(max(20, n/25)) > 0 {
			continue
		}
		o := b[i]
		b[i] ^= byte(1 + t.Intn(255))
		t.Check(1)
		if g.HashBytes(b) == h || g.HashString(string(b)) == h {
			t.Fail("generic: the hash of a string of %d bytes does not depend on byte %d (%q)", n, i, clip(keep))
		}
		b[i] = o
	}
	t.Event("bytes_changed", int64(n))
	// and so does the length
	for _, s := range []string{keep + "\x00", keep + "\x00\x00", keep + "a", "\x00" + keep, keep + keep + "\xff"} {
		if g.HashString(s) == h {
			t.Fail("generic: strings of %d and %d bytes have the same hash (%q)", n, len(s), clip(keep))
		}
	}
	if n > 0 && (g.HashString(keep[:n-1]) == h || g.HashString(keep[1:]) == h && keep[1:] != keep) {
		t.Fail("generic: strings of %d and %d bytes have the same hash (%q)", n, n-1, clip(keep))
	}
}

// hashStringSets looks for collisions in sets of related strings.
func hashStringSets(t *mon.T) {
	var all []string
	what := ""
	switch t.Index % 5 {
	case 0:
		what = "all strings of up to two bytes"
		all = append(all, "")
		for i := 0; i < 256; i++ {
			all = append(all, string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				all = append(all, string([]byte{byte(i), byte(j)}))
			}
		}
	case 1:
		what = "numbered names"
		for i := 0; i < 60000; i++ {
			all = append(all, fmt.Sprintf("key%05d", i))
		}
	case 2:
		what = "runs of one byte"
		for i := 1; i < 700; i++ {
			for _, c := range "\x00\x01a\x7f" {
				all = append(all, strings.Repeat(string(c), i))
			}
		}
	case 3:
		what = "all short strings over a small alphabet"
		all = someStrings(50000, "\x00ab\xff")
	case 4:
		what = "a set bit at each position"
		for n := 1; n < 200; n++ {
			for i := 0; i < n; i++ {
				b := make([]byte, n)
				b[i] = 1
				all = append(all, string(b))
			}
		}
	}
	t.Note("%s", what)
	t.Op("set of strings", int64(len(all)))
	hs := make([]uint64, len(all))
	for i, s := range all {
		hs[i] = g.HashString(s)
		if g.HashBytes([]byte(s)) != hs[i] {
			t.Fail("generic: HashString and HashBytes disagree on %q", clip(s))
		}
	}
	injective(t, "HashString", hs)
}

func init() {
	mon.Register("C28", "A case is a set of integers of one pattern (or all of a small type) or a string, hashed with every applicable function; collisions, agreement, the effect of single flipped bits and the occupancy of power-of-two tables are measured. Distinct by trace hash, non-trivial if it hashes at least one key.",
		&mon.Scenario{Name: "all-small-integers", Quick: 1, Thorough: 1, Run: hashSmall},
		&mon.Scenario{Name: "patterns", Quick: 300, Thorough: 10000, Run: func(t *mon.T) { hashPattern(t, 1000+t.Intn(9000)) }},
		&mon.Scenario{Name: "large-patterns", Quick: 8, Thorough: 100, Run: func(t *mon.T) { hashPattern(t, t.Pick(200000, 1000000)) }},
		&mon.Scenario{Name: "bit-flips", Quick: len(intHashes) * len(keyPatterns), Thorough: 40 * len(intHashes) * len(keyPatterns), Run: hashAvalanche},
		&mon.Scenario{Name: "neighbours", Quick: 60, Thorough: 6000, Run: hashNeighbours},
		&mon.Scenario{Name: "image", Quick: 16, Thorough: 400, Run: hashImage},
		&mon.Scenario{Name: "all-32-bit", Quick: 2, Thorough: 48, Run: hashAll32},
		&mon.Scenario{Name: "strings", Quick: 4000, Thorough: 100000, Run: hashStrings},
		&mon.Scenario{Name: "sets-of-strings", Quick: 5, Thorough: 5, Run: hashStringSets},
	)
}
