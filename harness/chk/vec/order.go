package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"

	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

// order is one element type with its order, for the definitions to judge by.
type order[T any] struct {
	name string
	pool func(r *rand.Rand) []T // distinct-ish values to draw from
	copy func(T) T              // an equal but distinguishable element, where possible
	less func(a, b T) bool
	eq   func(a, b T) bool
	same func(a, b T) bool // identity
	nan  func(T) bool      // unordered values: equality is not claimed for them
	user bool              // pass less and eq to the Vec
}

func (o *order[T]) vec() *vec.Vec[T] {
	if o.user {
		return vec.New(vec.WithCmpLess(o.less), vec.WithCmpEqual(o.eq))
	}
	return vec.New[T]()
}

func permutation[T any](a, b []T, same func(x, y T) bool) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && same(x, y) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

func (o *order[T]) data(r *rand.Rand, n int, nans bool) (s []T) {
	pool := o.pool(r)
	if k := 1 + r.IntN(len(pool)); r.IntN(2) == 0 {
		pool = pool[:k] // many duplicates
	}
	for len(s) < n {
		x := pool[r.IntN(len(pool))]
		if !nans && o.nan != nil && o.nan(x) {
			x = o.pool(r)[0] // pools start with an ordinary value
		}
		if o.copy != nil {
			x = o.copy(x)
		}
		s = append(s, x)
	}
	switch r.IntN(5) {
	case 0:
		sort.SliceStable(s, func(i, j int) bool { return o.less(s[i], s[j]) })
	case 1:
		sort.SliceStable(s, func(i, j int) bool { return o.less(s[j], s[i]) })
	case 2:
		sort.SliceStable(s, func(i, j int) bool { return o.less(s[i], s[j]) })
		for k := r.IntN(4); k > 0 && len(s) > 1; k-- {
			i, j := r.IntN(len(s)), r.IntN(len(s))
			s[i], s[j] = s[j], s[i]
		}
	}
	return
}

func (o *order[T]) sorted(s []T) bool {
	for i := 1; i < len(s); i++ {
		if o.less(s[i], s[i-1]) {
			return false
		}
	}
	return true
}

func (o *order[T]) run(c *kit.C, r *rand.Rand, n int) {
	ops := c.NewOps()
	nans := o.nan != nil && r.IntN(2) == 0
	s := o.data(r, n, nans)
	show := func(x any) string {
		t := fmt.Sprintf("%v", x)
		if len(t) > 600 {
			t = t[:600] + "..."
		}
		return t
	}
	fail := func(what string, format string, a ...any) {
		c.Fail(what, "%s (%s, user order: %v): %s; elements %s", what, o.name, o.user, fmt.Sprintf(format, a...), show(deref(s)))
	}
	mk := func(s []T) *vec.Vec[T] { return o.vec().Push(s...) }
	intact := func(what string, v *vec.Vec[T], s []T) {
		if len(s) != v.Len() {
			fail(what, "changed the Vec")
		}
		for i, x := range v.Slice() {
			if !o.same(x, s[i]) {
				fail(what, "changed the Vec")
			}
		}
	}
	sig := make([]int, 0, len(s)+1)
	sig = append(sig, len(s))
	for _, x := range s {
		sig = append(sig, int(kit.Hash(deref1(x))>>40))
	}
	ops.Op(o.name, sig...)

	// sorting
	for k := 0; k < 2; k++ {
		v := mk(s)
		what := ""
		explicit := r.IntN(3) == 0
		switch {
		case k == 0 && explicit:
			what = "SortFunc"
			v.SortFunc(o.less, o.eq)
		case k == 0:
			what = "Sort"
			v.Sort()
		case explicit:
			what = "SortStableFunc"
			v.SortStableFunc(o.less, o.eq)
		default:
			what = "SortStable"
			v.SortStable()
		}
		ops.Op(what)
		got := v.Slice()
		if !permutation(got, s, o.same) {
			fail(what, "not a permutation: %s", show(deref(got)))
		}
		if !o.sorted(got) {
			fail(what, "not ascending: %s", show(deref(got)))
		}
		if k == 1 {
			want := append([]T(nil), s...)
			sort.SliceStable(want, func(i, j int) bool { return o.less(want[i], want[j]) })
			for i := range want {
				if !o.same(want[i], got[i]) && (o.nan == nil || !o.nan(want[i])) {
					fail(what, "not stable: %s", show(deref(got)))
				}
			}
		}
		if !v.IsSorted() || !v.IsSortedFunc(o.less, o.eq) {
			fail("IsSorted", "false after %s", what)
		}
		// binary search on the sorted Vec
		for q := 0; q < 4; q++ {
			t := o.pick(r, got)
			if o.nan != nil && o.nan(t) {
				continue
			}
			ops.Op("BinarySearch")
			want := sort.Search(len(got), func(i int) bool { return !o.less(got[i], t) })
			found := want < len(got) && o.eq(got[want], t)
			if i, ok := v.BinarySearch(t); i != want || ok != found {
				fail("BinarySearch", "target %v: %d, %v; want %d, %v in %s", deref1(t), i, ok, want, found, show(deref(got)))
			}
			i, ok := v.BinarySearchFunc(t, func(x, t T) int {
				if o.less(x, t) {
					return -1
				} else if o.less(t, x) {
					return 1
				}
				return 0
			})
			if i != want || ok != found {
				fail("BinarySearchFunc", "target %v: %d, %v; want %d, %v in %s", deref1(t), i, ok, want, found, show(deref(got)))
			}
		}
		intact("searching", v, got)
	}

	v := mk(s)
	if got := v.IsSorted(); got != o.sorted(s) {
		fail("IsSorted", "%v", got)
	}
	if len(s) > 0 {
		i, j := r.IntN(len(s)), r.IntN(len(s))
		if v.Less(i, j) != o.less(s[i], s[j]) || v.CmpLess(s[i], s[j]) != o.less(s[i], s[j]) {
			fail("Less", "elements %v, %v", deref1(s[i]), deref1(s[j]))
		}
		for k := 0; k < 4; k++ {
			var x T
			what := [4]string{"Max", "MaxFunc", "Min", "MinFunc"}[k]
			ops.Op(what)
			switch k {
			case 0:
				x = v.Max()
			case 1:
				x = v.MaxFunc(o.less, o.eq)
			case 2:
				x = v.Min()
			case 3:
				x = v.MinFunc(o.less, o.eq)
			}
			in := false
			for _, y := range s {
				in = in || o.same(x, y)
				if k < 2 && o.less(x, y) || k >= 2 && o.less(y, x) {
					fail(what, "%v, but %v is present", deref1(x), deref1(y))
				}
			}
			if !in {
				fail(what, "%v is not present", deref1(x))
			}
		}
	}
	if nans {
		ops.Done(o.name, len(s) > 3)
		return
	}

	// equality based operations
	if len(s) > 0 {
		i, j := r.IntN(len(s)), r.IntN(len(s))
		if v.Equal(i, j) != o.eq(s[i], s[j]) || v.CmpEqual(s[i], s[j]) != o.eq(s[i], s[j]) {
			fail("Equal", "elements %v, %v", deref1(s[i]), deref1(s[j]))
		}
	}
	for q := 0; q < 3; q++ {
		t := o.pick(r, s)
		if o.nan != nil && o.nan(t) {
			continue
		}
		ops.Op("Search")
		var all []int
		for i, x := range s {
			if o.eq(t, x) {
				all = append(all, i)
			}
		}
		first := -1
		if len(all) > 0 {
			first = all[0]
		}
		f := func(x T) bool { return o.eq(t, x) }
		if a, b := v.Search(t), v.SearchFunc(f); a != first || b != first {
			fail("Search", "target %v: %d, SearchFunc %d, want %d", deref1(t), a, b, first)
		}
		if a, b := v.SearchAll(t), v.SearchAllFunc(f); !eq(a, all) || !eq(b, all) {
			fail("SearchAll", "target %v: %v, SearchAllFunc %v, want %v", deref1(t), a, b, all)
		}
		if a, b := v.Contains(t), v.ContainsFunc(f); a != (first >= 0) || b != (first >= 0) {
			fail("Contains", "target %v: %v, ContainsFunc %v", deref1(t), a, b)
		}
	}
	// comparisons with another sequence: equal, a prefix, one element changed, arbitrary
	t := append([]T(nil), s...)
	switch r.IntN(5) {
	case 0:
	case 1:
		t = t[:r.IntN(len(t)+1)]
	case 2:
		if len(t) > 0 {
			t[r.IntN(len(t))] = o.pick(r, t)
		}
	case 3:
		t = append(t, o.pick(r, t))
	case 4:
		t = o.data(r, r.IntN(len(s)+2), false)
	}
	for i := range t {
		if o.nan != nil && o.nan(t[i]) {
			t[i] = o.pool(r)[0]
		}
		if o.copy != nil {
			t[i] = o.copy(t[i])
		}
	}
	cmp, equal := 0, len(s) == len(t)
	for i := 0; ; i++ {
		if i == len(s) || i == len(t) {
			cmp = sign(len(s) - len(t))
			break
		}
		if o.less(s[i], t[i]) {
			cmp = -1
			break
		} else if o.less(t[i], s[i]) {
			cmp = 1
			break
		}
	}
	for i := range s {
		equal = equal && o.eq(s[i], t[i])
	}
	u := mk(t)
	ops.Op("Compare", cmp)
	if a, b := v.Compare(*u), v.CompareFunc(*u, o.less, o.eq); sign(a) != cmp || sign(b) != cmp {
		fail("Compare", "with %s: %d, CompareFunc %d, want %d", show(deref(t)), a, b, cmp)
	}
	if a := v.EqualVec(*u); a != equal {
		fail("EqualVec", "with %s: %v", show(deref(t)), a)
	}
	if a := v.EqualVecFunc(*u, o.eq); a != equal {
		fail("EqualVecFunc", "with %s: %v", show(deref(t)), a)
	}
	if a := v.EqualSlice(t); a != equal {
		fail("EqualSlice", "with %s: %v", show(deref(t)), a)
	}
	if a := v.EqualSliceFunc(t, o.eq); a != equal {
		fail("EqualSliceFunc", "with %s: %v", show(deref(t)), a)
	}
	intact("comparing", v, s)
	intact("comparing", u, t)

	// Compact: the first of each run of equal neighbours stays
	var want []T
	for i, x := range s {
		if i == 0 || !o.eq(s[i-1], x) {
			want = append(want, x)
		}
	}
	ops.Op("Compact")
	if r.IntN(2) == 0 {
		v.Compact()
	} else {
		v.CompactFunc(o.eq)
	}
	got := v.Slice()
	if len(got) != len(want) {
		fail("Compact", "%s, want %s", show(deref(got)), show(deref(want)))
	}
	for i := range want {
		if !o.same(want[i], got[i]) {
			fail("Compact", "%s, want %s", show(deref(got)), show(deref(want)))
		}
	}
	c.Tick()
	ops.Done(o.name, len(s) > 3)
}

func (o *order[T]) pick(r *rand.Rand, s []T) T {
	var x T
	if len(s) > 0 && r.IntN(2) == 0 {
		x = s[r.IntN(len(s))]
	} else {
		p := o.pool(r)
		x = p[r.IntN(len(p))]
	}
	if o.copy != nil {
		x = o.copy(x)
	}
	return x
}

func sign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func deref1(x any) any {
	switch p := x.(type) {
	case *int:
		return *p
	case *float64:
		return *p
	case *string:
		return *p
	case *uint64:
		return *p
	case *named:
		return *p
	}
	return x
}

func deref[T any](s []T) (out []any) {
	for _, x := range s {
		out = append(out, deref1(x))
	}
	return
}

type named int16
type namedS string
type rec struct{ key, seq int }

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func numOrder[T num](name string, pool ...T) *order[T] {
	return &order[T]{name: name, pool: func(*rand.Rand) []T { return pool },
		less: func(a, b T) bool { return a < b }, eq: func(a, b T) bool { return a == b }, same: func(a, b T) bool { return a == b }}
}

func ptrOrder[T any](o *order[T]) *order[*T] {
	q := &order[*T]{name: "*" + o.name, pool: func(r *rand.Rand) (s []*T) {
		for _, x := range o.pool(r) {
			s = append(s, &x)
		}
		return
	}, copy: func(p *T) *T { x := *p; return &x },
		less: func(a, b *T) bool { return o.less(*a, *b) }, eq: func(a, b *T) bool { return o.eq(*a, *b) }, same: func(a, b *T) bool { return a == b }}
	if o.nan != nil {
		q.nan = func(p *T) bool { return o.nan(*p) }
	}
	return q
}

func floatOrder[T ~float32 | ~float64](name string, pool ...T) *order[T] {
	nan := func(x T) bool { return x != x }
	return &order[T]{name: name, pool: func(*rand.Rand) []T { return pool },
		less: func(a, b T) bool { return a < b || nan(a) && !nan(b) },
		eq:   func(a, b T) bool { return a == b },
		same: func(a, b T) bool {
			return math.Float64bits(float64(a)) == math.Float64bits(float64(b)) || nan(a) && nan(b)
		}, nan: nan}
}

// natural order: runs of digits compare as numbers, other bytes as bytes. Only
// strings without leading zeros are used, on which it is unambiguous.
func natLess(a, b string) bool {
	d := func(c byte) bool { return c >= '0' && c <= '9' }
	for a != "" && b != "" {
		if d(a[0]) && d(b[0]) {
			i, j := 0, 0
			for i < len(a) && d(a[i]) {
				i++
			}
			for j < len(b) && d(b[j]) {
				j++
			}
			if i != j {
				return i < j
			}
			if a[:i] != b[:j] {
				return a[:i] < b[:j]
			}
			a, b = a[i:], b[j:]
			continue
		}
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		a, b = a[1:], b[1:]
	}
	return a == "" && b != ""
}

func strOrder[T ~string](name string) *order[T] {
	return &order[T]{name: name, pool: func(r *rand.Rand) (s []T) {
		s = append(s, "a", "", "b", "a1", "a2", "a10", "a100", "10", "9", "1", "file9.txt", "file10.txt", "file10", "x1y2", "x1y10", "x10y1")
		for i := 0; i < 10; i++ {
			t := string(rune('a' + r.IntN(3)))
			if r.IntN(2) == 0 {
				t += fmt.Sprint(1 + r.IntN(1200))
			}
			if r.IntN(3) == 0 {
				t += string(rune('a' + r.IntN(2)))
			}
			if r.IntN(4) == 0 {
				t += fmt.Sprint(1 + r.IntN(30))
			}
			s = append(s, T(t))
		}
		return
	}, less: func(a, b T) bool { return natLess(string(a), string(b)) }, eq: func(a, b T) bool { return a == b }, same: func(a, b T) bool { return a == b }}
}

func recOrder(mode int) *order[rec] {
	seq := 0
	o := &order[rec]{name: fmt.Sprint("record", mode), user: true,
		pool: func(r *rand.Rand) (s []rec) {
			for i := 0; i < 30; i++ {
				s = append(s, rec{i, 0})
			}
			r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
			return
		},
		copy: func(x rec) rec { seq++; return rec{x.key, seq} },
		same: func(a, b rec) bool { return a == b }}
	key := func(x rec) int {
		switch mode {
		case 0:
			return x.key
		case 1:
			return -x.key
		case 2:
			return x.key / 4
		}
		return x.key % 3
	}
	o.less = func(a, b rec) bool { return key(a) < key(b) }
	o.eq = func(a, b rec) bool { return key(a) == key(b) }
	return o
}

func c18(c *kit.C) {
	type runs interface {
		run(c *kit.C, r *rand.Rand, n int)
	}
	nan := math.NaN()
	all := []runs{
		recOrder(0), recOrder(1), recOrder(2), recOrder(3),
		numOrder("int", 3, 0, 1, -1, 2, 10, 11, math.MaxInt, math.MinInt, math.MaxInt-1, math.MinInt+1),
		numOrder[int8]("int8", 1, -128, 127, 0, -1, 64),
		numOrder[int32]("int32", 1, math.MinInt32, math.MaxInt32, 0, -1),
		numOrder[int64]("int64", 1, math.MinInt64, math.MaxInt64, 1<<53, 1<<53+1, 1<<53+2, -1<<53, -1<<53-1, 0, 1<<32, 1<<32+1),
		numOrder[uint8]("uint8", 1, 0, 127, 128, 255),
		numOrder[uint64]("uint64", 1, 0, math.MaxUint64, math.MaxUint64-1, 1<<63, 1<<63-1, 1<<53, 1<<53+1),
		numOrder[uint]("uint", 7, 0, math.MaxUint, math.MaxUint-1, 1, 2),
		numOrder[named]("named int", 1, 5, -5, 300, math.MinInt16),
		floatOrder("float64", 1, 0, math.Copysign(0, -1), -1, 0.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324, -5e-324, nan, 1e-3),
		floatOrder[float32]("float32", 1, 0, -1, 0.5, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, float32(nan)),
		strOrder[string]("string"), strOrder[namedS]("named string"),
		ptrOrder(numOrder("int", 3, 0, -1, math.MaxInt, math.MinInt)),
		ptrOrder(numOrder[uint64]("uint64", 1, 0, math.MaxUint64, 1<<63)),
		ptrOrder(floatOrder("float64", 1, 0, -1, math.Inf(-1), nan)),
		ptrOrder(strOrder[string]("string")),
		ptrOrder(numOrder[named]("named int", 1, 5, -5)),
	}
	c.Cases("orders", c.N(500000, 6), func(i int, r *rand.Rand) {
		n := r.IntN(8)
		switch r.IntN(4) {
		case 0:
			n = r.IntN(30)
		case 1:
			n = r.IntN(14)
		}
		all[i%len(all)].run(c, r, n)
	})
	c.Cases("large", c.N(8000, 6), func(i int, r *rand.Rand) {
		all[i%len(all)].run(c, r, 30+r.IntN(400))
	})
	c.Cases("huge", c.N(336, 6), func(i int, r *rand.Rand) {
		all[i%len(all)].run(c, r, 400+r.IntN(5000))
	})
}
