package props

import (
	"sort"
	"strings"

	"github.com/zyedidia/generic/trie"

	"verif/harness/mon"
)

// trieMon mirrors a trie on a table over a sorted universe of strings.
type trieMon[V any] struct {
	t     *mon.T
	vs    valspace[V]
	tr    *trie.Trie[V]
	u     []string // the universe, ascending, "" included
	extra []string // strings that are only queried
	has   []bool
	val   []V
	n     int
	next  *int64
	id    int64
	store bool // decide C18
	pref  bool // decide C19
	kept  *keeper[string]
}

func newTrieMon[V any](t *mon.T, vs valspace[V], u, extra []string, store, pref bool, id int64, next *int64) *trieMon[V] {
	return &trieMon[V]{t: t, vs: vs, tr: trie.New[V](), u: u, extra: extra, has: make([]bool, len(u)), val: make([]V, len(u)), store: store, pref: pref, id: id, next: next, kept: newKeeper(t, equal[string])}
}

func (m *trieMon[V]) put(i int) {
	*m.next++
	v := m.vs.mk(*m.next)
	m.t.Op("put", m.id, int64(i), *m.next)
	m.tr.Put(strings.Clone(m.u[i]), v)
	if m.u[i] == "" {
		m.t.Event("puts_of_the_empty_string", 1)
		return
	}
	if !m.has[i] {
		m.n++
		m.t.Event("insertions", 1)
	} else {
		m.t.Event("overwrites", 1)
	}
	m.has[i], m.val[i] = true, v
	m.t.Max("size", int64(m.n))
}

func (m *trieMon[V]) remove(i int) {
	m.t.Op("remove", m.id, int64(i))
	m.tr.Remove(m.u[i])
	if m.has[i] {
		var z V
		m.n--
		m.has[i], m.val[i] = false, z
		m.t.Event("removals", 1)
	} else {
		m.t.Event("removals_of_absent", 1)
	}
}

// removeExtra removes a string that is never a key.
func (m *trieMon[V]) removeExtra() {
	if len(m.extra) == 0 {
		return
	}
	i := m.t.Intn(len(m.extra))
	m.t.Op("remove-extra", m.id, int64(i))
	m.tr.Remove(m.extra[i])
	m.t.Event("removals_of_absent", 1)
}

func (m *trieMon[V]) look(i int) {
	if !m.store {
		return
	}
	t := m.t
	t.Check(2)
	if t.Intn(4) == 0 {
		if c := m.tr.Contains(m.u[i]); c != m.has[i] {
			t.Fail("trie: Contains(%q) = %v", clip(m.u[i]), c)
		}
	}
	v, ok := m.tr.Get(m.u[i])
	if ok != m.has[i] || !m.vs.same(v, m.val[i]) {
		t.Fail("trie: Get(%q) = %v, %v, expected %v, %v", clip(m.u[i]), v, ok, m.val[i], m.has[i])
	}
	if c := m.tr.Contains(m.u[i]); c != m.has[i] {
		t.Fail("trie: Contains(%q) = %v", clip(m.u[i]), c)
	}
}

func (m *trieMon[V]) absent(s string) {
	if !m.store {
		return
	}
	m.t.Check(2)
	var z V
	if v, ok := m.tr.Get(s); ok || !m.vs.same(v, z) {
		m.t.Fail("trie: Get(%q) = %v, %v for a string that was never put", clip(s), v, ok)
	}
	if m.tr.Contains(s) {
		m.t.Fail("trie: Contains(%q) for a string that was never put", clip(s))
	}
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// keysWith compares KeysWithPrefix(p), or Keys if all.
func (m *trieMon[V]) keysWith(p string, all bool) {
	t := m.t
	var got []string
	if all {
		got = m.tr.Keys()
	} else {
		got = m.tr.KeysWithPrefix(p)
	}
	j := 0
	h := uint64(len(p))
	for i := sort.SearchStrings(m.u, p); i < len(m.u) && strings.HasPrefix(m.u[i], p); i++ {
		if !m.has[i] {
			continue
		}
		if j >= len(got) {
			t.Fail("trie: the keys with prefix %q (all: %v) miss %q", clip(p), all, clip(m.u[i]))
		}
		if got[j] != m.u[i] {
			t.Fail("trie: the keys with prefix %q (all: %v) have %q at position %d, expected %q", clip(p), all, clip(got[j]), j, clip(m.u[i]))
		}
		h = mon.Mix(h, uint64(i))
		j++
	}
	t.Check(1)
	if j != len(got) {
		t.Fail("trie: the keys with prefix %q (all: %v) contain %q", clip(p), all, clip(got[j]))
	}
	if all {
		t.State(h)
	}
	if j > 0 {
		t.Event("nonempty_prefix_results", 1)
	}
	if t.Bool() {
		m.kept.keep("trie: the keys with a prefix", got)
		return
	}
	got = got[:cap(got)]
	for i := range got {
		got[i] = "overwritten"
	}
}

func (m *trieMon[V]) longest(q string) {
	t := m.t
	got := m.tr.LongestPrefix(q)
	want := ""
	// the present keys that are prefixes of q
	if len(m.u) <= 64 {
		for i, s := range m.u {
			if m.has[i] && len(s) > len(want) && strings.HasPrefix(q, s) {
				want = s
			}
		}
	} else {
		for l := len(q); l > 0; l-- {
			i := sort.SearchStrings(m.u, q[:l])
			if i < len(m.u) && m.u[i] == q[:l] && m.has[i] {
				want = q[:l]
				break
			}
		}
	}
	t.Check(1)
	if got != want {
		t.Fail("trie: LongestPrefix(%q) = %q, expected %q", clip(q), clip(got), clip(want))
	}
	if want != "" {
		t.Event("nonempty_longest_prefixes", 1)
	}
}

func (m *trieMon[V]) size() {
	if m.store {
		m.t.Check(1)
		if n := m.tr.Size(); n != m.n {
			m.t.Fail("trie: Size() = %d with %d keys present", n, m.n)
		}
	}
}

func (m *trieMon[V]) full(limit int) {
	m.t.Shuffle(m.size, func() {
		d := m.t.Intn(len(m.u))
		for i := range m.u {
			m.look((i + d) % len(m.u))
		}
	}, func() {
		for _, s := range m.extra {
			m.absent(s)
		}
	})
	if m.pref {
		m.t.Shuffle(func() { m.keysWith("", true) }, func() { m.keysWith("", false) }, func() { m.longest("") }, func() {
			m.longest(m.u[m.t.Intn(len(m.u))])
		})
		for k := 0; k < min(limit, len(m.u)); k++ {
			i := k
			if len(m.u) > limit {
				i = m.t.Intn(len(m.u))
			}
			m.keysWith(m.u[i], false)
			m.longest(m.u[i])
			m.longest(m.u[i] + "\x00")
		}
		for k := 0; k < min(limit, len(m.extra)); k++ {
			m.keysWith(m.extra[k], false)
			m.longest(m.extra[k])
		}
		m.keysWith("", true) // the queries must not change the trie
		m.kept.all()
	}
	m.t.Tick()
}

func (m *trieMon[V]) near(i int) {
	if m.t.Gap() {
		return
	}
	if m.t.Bool() {
		m.size()
	}
	for d := -2; d <= 2; d++ {
		if e := i + d; e >= 0 && e < len(m.u) {
			m.look(e)
		}
	}
	if m.pref && len(m.u[i]) < 1000 {
		s := m.u[i]
		m.t.Shuffle(func() { m.keysWith(s[:m.t.Intn(len(s)+1)], false) },
			func() { m.longest(s) },
			func() { m.longest(s + "a") },
			func() { m.longest(m.u[m.t.Intn(len(m.u))]) })
	}
	m.size()
}

// universe makes a set of strings of one of several shapes.
func universe(t *mon.T, shape, n int) (string, []string) {
	set := map[string]bool{"": true}
	name := ""
	switch shape {
	case 0:
		name = "all over {a, b}"
		for _, s := range someStrings(n, "ab") {
			set[s] = true
		}
	case 1:
		name = "all over {0, 1, 255}"
		for _, s := range someStrings(n, "\x00\x01\xff") {
			set[s] = true
		}
	case 2:
		name = "all single bytes and some pairs"
		for i := 0; i < min(n, 256); i++ {
			set[string([]byte{byte(i * 167)})] = true
		}
		for i := 0; i < n/2; i++ {
			set[string([]byte{byte(t.Intn(256)), byte(t.Intn(256))})] = true
		}
	case 3:
		name = "prefix chain"
		c := []string{"a", "ab", "\x00", "\xff\x00"}[t.Intn(4)]
		s := strings.Repeat(c, n)
		for i := 1; i <= n; i++ {
			set[s[:i]] = true
		}
	case 4:
		name = "random bytes with shared prefixes"
		stems := []string{"", "\xfe", "abc", "abcd\x00", "ab"}
		for i := 0; i < n; i++ {
			b := []byte(stems[t.Intn(len(stems))])
			for k := 1 + t.Intn(5); k > 0; k-- {
				b = append(b, byte(t.Uint64()))
			}
			set[string(b)] = true
			if t.Intn(3) == 0 {
				set[string(b[:len(b)-1])] = true
			}
		}
	case 5:
		name = "text"
		words := []string{"go", "gopher", "gophers", "naïve", "naïveté", "日本", "日本語", "日", "el", "élan", "e", "😀", "😀😁", " ", "\n"}
		for i := 0; i < n; i++ {
			w := words[t.Intn(len(words))]
			if t.Bool() {
				w += words[t.Intn(len(words))]
			}
			set[w] = true
		}
	default:
		name = "random over a few letters"
		al := "abcdefgh"[:1+t.Intn(8)]
		for i := 0; i < n; i++ {
			var b []byte
			for k := 1 + t.Intn(8); k > 0; k-- {
				b = append(b, al[t.Intn(len(al))])
			}
			set[string(b)] = true
		}
	}
	var u []string
	for s := range set {
		u = append(u, s)
	}
	sort.Strings(u)
	return name, u
}

// neighbours are strings outside the universe: extensions, truncations and
// changes of its members.
func neighbours(t *mon.T, u []string, n int) []string {
	in := map[string]bool{}
	for _, s := range u {
		in[s] = true
	}
	var out []string
	for i := 0; i < n; i++ {
		s := u[t.Intn(len(u))]
		switch t.Intn(4) {
		case 0:
			s += string([]byte{byte(t.Uint64())})
		case 1:
			if len(s) > 0 {
				s = s[:t.Intn(len(s))]
			}
		case 2:
			if len(s) > 0 {
				b := []byte(s)
				b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
				s = string(b)
			}
		case 3:
			s += u[t.Intn(len(u))] + "\xff"
		}
		if !in[s] {
			out = append(out, s)
		}
	}
	return out
}

func trieDrive[V any](t *mon.T, vs valspace[V], store, pref bool, n, ops, every int) {
	name, u := universe(t, t.Index%7, n)
	extra := neighbours(t, u, min(20, len(u)))
	id := int64(0)
	var ms []*trieMon[V]
	for i := 0; i < 1+t.Intn(4)/3; i++ {
		ms = append(ms, newTrieMon(t, vs, u, extra, store, pref, int64(i), &id))
	}
	t.Note("keys: %s (%d), %s values, %d tries, %d operations", name, len(u), vs.name, len(ms), ops)
	lim := 24
	ms[0].full(lim)
	perm := t.Perm(len(u))
	for done := 0; done < ops; {
		p := randomPhase(t, 1+t.Intn(1+ops/3))
		next := sequence(t, p.pattern, len(u))
		for k := 0; k < p.length && done < ops; k++ {
			done++
			m := ms[t.Intn(len(ms))]
			i := next()
			if p.pattern == "ascending" && t.Index%2 == 0 {
				i = perm[i] // a balanced shape rather than a sorted one
			}
			switch t.Weighted([]int{p.put, p.remove, p.get}) {
			case 0:
				m.put(i)
			case 1:
				m.remove(i)
			case 2:
				m.t.Op("get", int64(i))
				if t.Intn(2) == 0 {
					m.removeExtra()
				}
			}
			if done%every == 0 {
				m.full(lim)
			} else {
				m.near(i)
			}
		}
		for _, m := range ms {
			m.full(lim)
		}
	}
}

func trieCase(t *mon.T, store, pref, small bool) {
	n, ops, every := 2+t.Intn(14), 30+t.Intn(120), 1
	if !small {
		n, ops, every = 50+t.Intn(500), 600+t.Intn(2500), 200
	}
	switch t.Index / 7 % 6 {
	case 0:
		trieDrive(t, intVals(), store, pref, n, ops, every)
	case 1:
		trieDrive(t, anyVals(), store, pref, n, ops, every)
	case 2:
		trieDrive(t, funVals(), store, pref, n, ops, every)
	case 3:
		trieDrive(t, sliceVals(), store, pref, n, ops, every)
	case 4:
		trieDrive(t, unitVals(), store, pref, n, ops, every)
	default:
		trieDrive(t, strVals(), store, pref, n, ops, every)
	}
}

// trieHistories runs every history of the given length over a few strings that
// are prefixes and siblings of each other.
func trieHistories(t *mon.T, store, pref bool, length int) {
	us := [][]string{
		{"", "a", "ab", "b"},
		{"", "b", "ba", "a"},
		{"a", "b", "c", "d"},
		{"aa", "ab", "a", "ac"},
		{"\x00", "\x00\x00", "\xff", "\xff\x00"},
		{"m", "mm", "mmm", "ml"},
		{"abc", "abd", "ab", "abcd"},
		{"b", "a", "c", "bb"},
	}
	u := append([]string{}, us[t.Index%len(us)]...)
	sort.Strings(u)
	extra := neighbours(t, u, 8)
	kinds := 2 * len(u)
	total := 1
	for i := 0; i < length; i++ {
		total *= kinds
	}
	t.Note("universe %q, all histories of length %d", u, length)
	id := int64(0)
	part := t.Index / len(us)
	parts := max(1, t.Count/len(us))
	for h := part; h < total; h += parts {
		m := newTrieMon(t, intVals(), u, extra, store, pref, int64(h), &id)
		x := h
		for i := 0; i < length; i++ {
			op := x % kinds
			x /= kinds
			if op < len(u) {
				m.put(op)
			} else {
				m.remove(op - len(u))
			}
		}
		m.full(24)
		t.Event("exhaustive_histories", 1)
	}
}

// trieSiblings makes every binary tree of siblings over n bytes and removes
// them in random order.
func trieSiblings(t *mon.T, store, pref bool, n int) {
	var u []string
	for i := 0; i < n; i++ {
		u = append(u, "p"+string([]byte{byte('a' + i)}))
		if t.Bool() {
			u = append(u, "p"+string([]byte{byte('a' + i)})+"q")
		}
	}
	sort.Strings(u)
	lead := make([]int, n) // index of the string ending at sibling i
	for i, s := range u {
		if len(s) == 2 {
			lead[s[1]-'a'] = i
		}
	}
	total := permCount(n)
	id := int64(0)
	t.Note("every order of inserting %d siblings", n)
	for k := t.Index; k < total; k += t.Count {
		m := newTrieMon(t, intVals(), u, nil, store, pref, int64(k), &id)
		for _, c := range nthPerm(n, k) {
			m.put(lead[c])
		}
		for i := range u {
			if len(u[i]) == 3 {
				m.put(i)
			}
		}
		m.full(24)
		for _, i := range t.Perm(len(u)) {
			m.remove(i)
			m.full(24)
		}
		t.Event("exhaustive_insertion_orders", 1)
	}
}

// trieLong uses very long keys.
func trieLong(t *mon.T, store, pref bool) {
	n := 10000 + t.Intn(t.Pick(60000, 400000))
	// Collecting all keys may well build a string for every prefix of a key,
	// so that is not asked for with the longest ones.
	huge := true
	if pref && t.Index%2 == 0 {
		n = 1000 + t.Intn(3000)
		huge = false
	}
	base := strings.Repeat(string([]byte{byte(t.Uint64()), 'x', 0}), n/3+1)[:n]
	u := []string{base, base[:n-1], base + "a", base + "b", base + "\x00", base[:n/2], base[:n/2] + "\xfe", base[:1]}
	seen := map[string]bool{}
	var uu []string
	for _, s := range u {
		if !seen[s] {
			seen[s] = true
			uu = append(uu, s)
		}
	}
	sort.Strings(uu)
	id := int64(0)
	m := newTrieMon(t, intVals(), uu, neighbours(t, uu, 4), store, pref && !huge, 0, &id)
	t.Note("keys of up to %d bytes", n+1)
	for i := 0; i < 40; i++ {
		c := t.Intn(len(uu))
		if t.Chance(3, 5) {
			m.put(c)
		} else {
			m.remove(c)
		}
		if i%4 == 0 {
			m.full(4)
		}
		for j := range uu {
			m.look(j)
			if pref && huge {
				m.longest(uu[j])
				m.longest(uu[j] + "\x00")
				m.longest(uu[j][:len(uu[j])-1])
				if len(uu[j]) >= n-1 {
					m.keysWith(uu[j], false)
				}
			}
		}
	}
	m.full(8)
}

func trieLarge(t *mon.T, store, pref bool, n int) {
	name, u := universe(t, []int{4, 6, 1, 0}[t.Index%4], n)
	id := int64(0)
	m := newTrieMon(t, intVals(), u, nil, store, pref, 0, &id)
	oname, ord := orderings(t, len(u))
	t.Note("%d strings (%s) inserted in %s order", len(u), name, oname)
	every := len(u)/3 + 1
	for k := 0; k < len(u); k++ {
		i := ord(k)
		m.put(i)
		m.look(i)
		if k%50 == 0 {
			m.near(i)
		}
		if k%every == every-1 {
			m.full(40)
		}
	}
	m.full(40)
	for k, i := range t.Perm(len(u)) {
		m.remove(i)
		m.look(i)
		if k%50 == 0 {
			m.near(i)
		}
		if k%every == every-1 || len(u)-k == 20 {
			m.full(40)
		}
	}
	m.full(40)
	for i := 0; i < min(100, len(u)); i++ {
		m.put(i)
	}
	m.full(40)
}

func init() {
	rule := "A case is a generated history of Put and Remove (or a slice of all short histories or insertion orders) on a trie over a finite universe of strings of one of seven shapes, mirrored on a sorted table and compared; distinct by trace hash, non-trivial if it contains at least one operation."
	for _, x := range []struct {
		id          string
		store, pref bool
	}{{"C18", true, false}, {"C19", false, true}} {
		mon.Register(x.id, rule,
			&mon.Scenario{Name: "small", Quick: 7000, Thorough: 150000, Run: func(t *mon.T) { trieCase(t, x.store, x.pref, true) }},
			&mon.Scenario{Name: "medium", Quick: 210, Thorough: 4000, Run: func(t *mon.T) { trieCase(t, x.store, x.pref, false) }},
			&mon.Scenario{Name: "all-short-histories", Quick: 16, Thorough: 64, Run: func(t *mon.T) { trieHistories(t, x.store, x.pref, t.Pick(5, 6)) }},
			&mon.Scenario{Name: "all-sibling-orders", Quick: 8, Thorough: 16, Run: func(t *mon.T) { trieSiblings(t, x.store, x.pref, t.Pick(6, 7)) }},
			&mon.Scenario{Name: "long-keys", Quick: 8, Thorough: 40, Run: func(t *mon.T) { trieLong(t, x.store, x.pref) }},
			&mon.Scenario{Name: "large", Quick: 8, Thorough: 48, Run: func(t *mon.T) { trieLarge(t, x.store, x.pref, t.Pick(10000, 60000)) }},
		)
	}
}
