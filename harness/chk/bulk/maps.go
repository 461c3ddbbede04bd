package main

import (
	"fmt"
	"math/rand/v2"
	"slices"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"verif.local/h/kit"
)

// bigMap is an RWMap next to a plain map.
type bigMap[K comparable] struct {
	c  *kit.C
	r  *rand.Rand
	o  *kit.Ops
	m  rwmap.RWMap[K, int]
	w  map[K]int
	mk func(int) K
	n  int
}

func (b *bigMap[K]) is(k K, what string, v int, ok bool) {
	if wv, wok := b.w[k]; v != wv || ok != wok {
		b.c.Fail("result", "%s of key %v in a map of %d gives %d, %v, want %d, %v", what, k, len(b.w), v, ok, wv, wok)
	}
}

func (b *bigMap[K]) fill(n int) {
	b.o.Op("fill", n)
	for k := 0; k < n; k++ {
		b.m.Store(b.mk(k), k+1)
		b.w[b.mk(k)] = k + 1
	}
	b.c.Tick()
}

// step performs one random operation.
func (b *bigMap[K]) step() {
	r := b.r
	k := b.mk(r.IntN(b.n + b.n/8))
	old, has := b.w[k]
	x := 1 + r.IntN(1<<30)
	switch r.IntN(12) {
	case 0, 1:
		v, ok := b.m.Load(k)
		b.is(k, "Load", v, ok)
	case 2, 3:
		b.m.Store(k, x)
		b.w[k] = x
	case 4:
		v, loaded := b.m.LoadOrStore(k, x)
		if !has {
			b.w[k] = x
		}
		if loaded != has || v != b.w[k] {
			b.c.Fail("result", "LoadOrStore(%v, %d) = %d, %v in a map of %d, previously %d, %v", k, x, v, loaded, len(b.w), old, has)
		}
	case 5:
		v, ok := b.m.LoadAndDelete(k)
		b.is(k, "LoadAndDelete", v, ok)
		delete(b.w, k)
	case 6:
		b.m.Delete(k)
		delete(b.w, k)
	case 7, 8:
		v, ok := b.m.Swap(k, x)
		b.is(k, "Swap", v, ok)
		b.w[k] = x
	case 9, 10:
		from := old
		if r.IntN(3) == 0 {
			from++
		}
		ok := b.m.CompareAndSwap(k, from, x)
		if ok != (has && from == old) {
			b.c.Fail("result", "CompareAndSwap(%v, %d, %d) = %v in a map of %d, value %d, %v", k, from, x, ok, len(b.w), old, has)
		}
		if ok {
			b.w[k] = x
		}
	case 11:
		from := old
		if r.IntN(2) == 0 {
			from++
		}
		ok := b.m.CompareAndDelete(k, from)
		if ok != (has && from == old) {
			b.c.Fail("result", "CompareAndDelete(%v, %d) = %v in a map of %d, value %d, %v", k, from, ok, len(b.w), old, has)
		}
		if ok {
			delete(b.w, k)
		}
	}
}

// sweep loads every key.
func (b *bigMap[K]) sweep() {
	for i := 0; i < b.n+b.n/8; i++ {
		k := b.mk(i)
		v, ok := b.m.Load(k)
		b.is(k, "Load", v, ok)
	}
	b.c.Tick()
}

func (b *bigMap[K]) empty(how int) {
	switch how {
	case 0:
		b.o.Op("delete all", b.n)
		for i := 0; i < b.n+b.n/8; i++ {
			if k := b.mk(i); i%2 == 0 {
				b.m.Delete(k)
			} else {
				v, ok := b.m.LoadAndDelete(k)
				b.is(k, "LoadAndDelete", v, ok)
			}
		}
	default:
		b.o.Op("Clear", b.n)
		b.m.Clear()
	}
	clear(b.w)
	b.c.Tick()
}

func (b *bigMap[K]) lens() {
	want := int64(len(b.w))
	if n := b.m.Len(); n != want {
		b.c.Fail("len", "Len() = %d, the map holds %d keys", n, want)
	}
	if n := b.m.SlowLen(); n != want {
		b.c.Fail("len", "SlowLen() = %d, the map holds %d keys", n, want)
	}
}

func (b *bigMap[K]) visit(stop int) {
	b.o.Op("Range", stop, len(b.w))
	seen := make(map[K]bool, len(b.w))
	b.m.Range(func(k K, v int) bool {
		if stop > 0 && len(seen) >= stop {
			b.c.Fail("range", "Range goes on after its function returned false at visit %d of %d", stop, len(b.w))
		}
		if seen[k] {
			b.c.Fail("range", "Range over %d keys visits %v twice", len(b.w), k)
		}
		seen[k] = true
		b.is(k, "a visit", v, true)
		return len(seen) != stop
	})
	if want := len(b.w); len(seen) != want && (stop == 0 || stop > want) || stop > 0 && stop <= want && len(seen) != stop {
		b.c.Fail("range", "Range made %d visits in a map of %d, stop at %d", len(seen), want, stop)
	}
	b.c.Tick()
}

type mapWork interface {
	fill(int)
	step()
	sweep()
	empty(int)
	lens()
	visit(int)
	ops() *kit.Ops
	limit() int
	count() int
}

func (b *bigMap[K]) ops() *kit.Ops { return b.o }
func (b *bigMap[K]) limit() int    { return b.n }
func (b *bigMap[K]) count() int    { return len(b.w) }

func newBigMap(c *kit.C, i int, r *rand.Rand, most int) mapWork {
	n := size(r, most)
	c.Max("max.elements", int64(n))
	if i%3 == 1 {
		return &bigMap[string]{c: c, r: r, o: c.NewOps(), w: map[string]int{}, n: n, mk: func(i int) string { return fmt.Sprint("k", i) }}
	}
	return &bigMap[int]{c: c, r: r, o: c.NewOps(), w: map[int]int{}, n: n, mk: func(i int) int { return i }}
}

func mapLife(c *kit.C, i int, r *rand.Rand, w int) {
	m := newBigMap(c, i, r, 100000)
	fill := func() {
		if r.IntN(4) > 0 {
			m.fill(m.limit())
		}
	}
	fill()
	for round := 1 + r.IntN(3); round > 0; round-- {
		switch r.IntN(4) {
		case 0:
			m.visit(0) // everything seen by Range is promoted
		case 1:
			m.sweep()
		}
		steps := m.limit()/2 + r.IntN(m.limit())
		m.ops().Op("steps", steps)
		for ; steps > 0; steps-- {
			m.step()
		}
		switch w {
		case 0:
			m.sweep()
		case 1: // Clear
			if r.IntN(2) == 0 {
				m.visit(0)
			}
			m.empty(1)
			if r.IntN(2) == 0 {
				m.sweep()
			} else {
				m.visit(0)
			}
			if r.IntN(2) == 0 {
				for k := r.IntN(200); k > 0; k-- {
					m.step()
				}
			} else {
				fill()
			}
			m.sweep()
		case 2: // Len
			m.lens()
			m.empty(r.IntN(2))
			m.lens()
			fill()
			for k := r.IntN(2000); k > 0; k-- {
				m.step()
			}
			m.lens()
		case 3: // Range
			m.visit(1 + r.IntN(m.count()+2))
			m.visit(0)
			m.visit(1 + r.IntN(m.count()+2))
		}
	}
	m.ops().Done("map", true)
}

func mapOps(c *kit.C, i int, r *rand.Rand)   { mapLife(c, i, r, 0) }
func mapClear(c *kit.C, i int, r *rand.Rand) { mapLife(c, i, r, 1) }
func mapLen(c *kit.C, i int, r *rand.Rand)   { mapLife(c, i, r, 2) }
func mapRange(c *kit.C, i int, r *rand.Rand) { mapLife(c, i, r, 3) }

func lhash(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	var m *lhashmap.Lhashmap[int, int]
	if r.IntN(2) == 0 {
		m = lhashmap.New[int, int](lhashmap.WithCap[int, int](r.IntN(2 * n)))
	} else {
		m = lhashmap.New[int, int]()
	}
	// The model: values, and the time of the last use per key.
	val, at := make([]int, n), make([]int, n)
	now := 0
	store := func(k, x int) { m.Store(k, x); now++; val[k], at[k] = x, now }
	check := func(stop int) {
		var keys []int
		for k := range at {
			if at[k] > 0 {
				keys = append(keys, k)
			}
		}
		slices.SortFunc(keys, func(a, b int) int { return at[b] - at[a] })
		if m.Len() != len(keys) {
			c.Fail("len", "Len() = %d, want %d", m.Len(), len(keys))
		}
		j := 0
		m.Range(func(k, v int) bool {
			if j >= len(keys) || keys[j] != k || val[k] != v {
				c.Fail("order", "Range visit %d of %d is %d=%d", j, len(keys), k, v)
			}
			j++
			return j != stop
		})
		if want := len(keys); stop > 0 && stop < want && j != stop || (stop == 0 || stop >= want) && j != want {
			c.Fail("order", "Range made %d visits of %d, stop at %d", j, want, stop)
		}
		c.Tick()
	}
	o.Op("fill", n)
	for k := 0; k < n; k++ {
		store(k, k+1)
	}
	check(0)
	for round := 0; round < 2+r.IntN(3); round++ {
		steps := n/2 + r.IntN(n)
		o.Op("steps", steps)
		for ; steps > 0; steps-- {
			k := r.IntN(n)
			switch r.IntN(4) {
			case 0, 1:
				v, ok := m.Load(k)
				if ok != (at[k] > 0) || ok && v != val[k] {
					c.Fail("result", "Load(%d) = %d, %v in a map of %d", k, v, ok, m.Len())
				}
				if ok {
					now++
					at[k] = now
				}
			case 2:
				store(k, 1+r.IntN(1<<30))
			case 3:
				m.Remove(k)
				at[k] = 0
			}
		}
		check(0)
		check(1 + r.IntN(n))
		if r.IntN(3) == 0 {
			o.Op("Clear")
			m.Clear()
			clear(at)
			check(0)
			for k := n - 1; k >= 0; k-- {
				store(k, k)
			}
		}
	}
	o.Done("lhashmap", true)
}

func sets(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 50000)
	c.Max("max.elements", int64(n))
	u := n + n/2
	mk := func() (set.Set[int], []bool) {
		s, w := set.New[int](), make([]bool, u)
		if r.IntN(2) == 0 {
			vals := make([]int, n)
			for j := range vals {
				vals[j] = r.IntN(u)
				w[vals[j]] = true
			}
			s.Push(vals...)
		} else {
			from := r.IntN(u - n + 1)
			for v := from; v < from+n; v++ {
				if !s.Insert(v) {
					c.Fail("result", "Insert(%d) of a new value = false", v)
				}
				w[v] = true
			}
		}
		o.Op("fill", n)
		return s, w
	}
	is := func(what string, s set.Set[int], w func(v int) bool) {
		k := 0
		for v := 0; v < u; v++ {
			if s.Contain(v) != w(v) {
				c.Fail("result", "%s: Contain(%d) = %v", what, v, !w(v))
			}
			if w(v) {
				k++
			}
		}
		if s.Len() != k || s.IsEmpty() != (k == 0) {
			c.Fail("result", "%s: Len() = %d, want %d", what, s.Len(), k)
		}
		got := s.Slice()
		slices.Sort(got)
		j := 0
		for v := 0; v < u; v++ {
			if w(v) {
				if j >= len(got) || got[j] != v {
					c.Fail("result", "%s: Slice() of %d values lacks %d", what, k, v)
				}
				j++
			}
		}
		if j != len(got) {
			c.Fail("result", "%s: Slice() has %d values, want %d", what, len(got), k)
		}
		seen := make([]bool, u)
		visits := 0
		s.Range(func(v int) bool {
			if v < 0 || v >= u || !w(v) || seen[v] {
				c.Fail("result", "%s: Range visits %d", what, v)
			}
			seen[v] = true
			visits++
			return true
		})
		if visits != k {
			c.Fail("result", "%s: Range makes %d visits, want %d", what, visits, k)
		}
		c.Tick()
	}
	a, wa := mk()
	b, wb := mk()
	if r.IntN(3) == 0 { // nearly the same
		b, wb = a.Clone(), slices.Clone(wa)
		for k := r.IntN(3); k > 0; k-- {
			v := r.IntN(u)
			if b.Remove(v) != wb[v] {
				c.Fail("result", "Remove(%d) = %v", v, !wb[v])
			}
			wb[v] = false
		}
	}
	in := func(w []bool) func(int) bool { return func(v int) bool { return w[v] } }
	is("the set", a, in(wa))
	is("the other set", b, in(wb))
	is("Union", a.Union(b), func(v int) bool { return wa[v] || wb[v] })
	is("Intersection", a.Intersection(b), func(v int) bool { return wa[v] && wb[v] })
	is("Difference", a.Difference(b), func(v int) bool { return wa[v] && !wb[v] })
	is("SymmetricDifference", a.SymmetricDifference(b), func(v int) bool { return wa[v] != wb[v] })
	sub, sup := true, true
	for v := range wa {
		sub = sub && (!wa[v] || wb[v])
		sup = sup && (!wb[v] || wa[v])
	}
	if g := a.IsSubSet(b); g != sub {
		c.Fail("result", "IsSubSet = %v", g)
	}
	if g := a.IsSupperSet(b); g != sup {
		c.Fail("result", "IsSupperSet = %v", g)
	}
	if g := a.Equal(b); g != (sub && sup) {
		c.Fail("result", "Equal = %v", g)
	}
	d := a.Clone()
	if !d.Equal(a) || !a.IsSubSet(d) || !a.IsSupperSet(d) {
		c.Fail("result", "a clone is not equal")
	}
	for v := 0; v < u; v += 1 + r.IntN(3) {
		var g bool
		if v%2 == 0 {
			g = d.Remove(v)
		} else {
			g = d.ContainAndRemove(v)
		}
		if g != wa[v] {
			c.Fail("result", "Remove(%d) = %v", v, g)
		}
		wa[v] = false
	}
	is("after removals", d, in(wa))
	d.CopyFrom(b)
	for v := range wa {
		wa[v] = wa[v] || wb[v]
	}
	is("after CopyFrom", d, in(wa))
	d.Clear()
	is("after Clear", d, func(int) bool { return false })
	is("untouched", b, in(wb))
	o.Op("algebra", i, r.IntN(1<<30))
	o.Done("set", true)
}

func genmaps(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 100000)
	c.Max("max.elements", int64(n))
	m, w := genmap.New[int, int](), make(map[int]int)
	o.Op("fill", n)
	for k := 0; k < n; k++ {
		m.Store(k, k+1)
		w[k] = k + 1
	}
	is := func(what string, m genmap.GenMap[int, int]) {
		if m.Len() != len(w) || len(m.Map()) != len(w) {
			c.Fail("result", "%s: Len() = %d, want %d", what, m.Len(), len(w))
		}
		keys, vals := m.Keys(), m.Values()
		if len(keys) != len(w) || len(vals) != len(w) {
			c.Fail("result", "%s: %d keys, %d values, want %d", what, len(keys), len(vals), len(w))
		}
		var wv []int
		for _, v := range w {
			wv = append(wv, v)
		}
		slices.Sort(wv)
		slices.Sort(vals)
		if !slices.Equal(vals, wv) {
			c.Fail("result", "%s: Values() are not the values", what)
		}
		slices.Sort(keys)
		if len(slices.Compact(keys)) != len(w) {
			c.Fail("result", "%s: Keys() repeats a key", what)
		}
		for _, k := range keys {
			if v, ok := m.Load(k); !ok || v != w[k] {
				c.Fail("result", "%s: Load(%d) = %d, %v, want %d", what, k, v, ok, w[k])
			}
		}
		seen := 0
		if !m.Range(func(k, v int) bool {
			if x, ok := w[k]; !ok || x != v {
				c.Fail("result", "%s: Range visits %d=%d", what, k, v)
			}
			seen++
			return true
		}) || seen != len(w) {
			c.Fail("result", "%s: Range made %d visits of %d", what, seen, len(w))
		}
		c.Tick()
	}
	is("filled", m)
	for round := 0; round < 2; round++ {
		steps := n
		o.Op("steps", steps, r.IntN(1<<30))
		for ; steps > 0; steps-- {
			k, x := r.IntN(n+n/8), r.IntN(1<<30)
			old, has := w[k]
			switch r.IntN(6) {
			case 0:
				m.Store(k, x)
				w[k] = x
			case 1:
				m.Delete(k)
				delete(w, k)
			case 2:
				v, ok := m.LoadOrStore(k, x)
				if !has {
					w[k] = x
				}
				if ok != has || v != w[k] {
					c.Fail("result", "LoadOrStore(%d, %d) = %d, %v", k, x, v, ok)
				}
			case 3:
				v, ok := m.LoadAndDelete(k)
				delete(w, k)
				if ok != has || v != old {
					c.Fail("result", "LoadAndDelete(%d) = %d, %v", k, v, ok)
				}
			case 4:
				v, ok := m.LoadAndStore(k, x)
				w[k] = x
				if ok != has || has && v != old {
					c.Fail("result", "LoadAndStore(%d, %d) = %d, %v, previously %d, %v", k, x, v, ok, old, has)
				}
			case 5:
				v, ok := m.LoadOrStoreFunc(k, func() int { return x })
				if !has {
					w[k] = x
				}
				if ok != has || v != w[k] {
					c.Fail("result", "LoadOrStoreFunc(%d, %d) = %d, %v", k, x, v, ok)
				}
			}
		}
		is("after changes", m)
	}
	d := m.Clone()
	is("clone", d)
	if !d.EqualFunc(m, func(a, b int) bool { return a == b }) {
		c.Fail("result", "a clone is not EqualFunc")
	}
	k := m.Keys()[r.IntN(m.Len())]
	d.Store(k, w[k]+1)
	if d.EqualFunc(m, func(a, b int) bool { return a == b }) {
		c.Fail("result", "EqualFunc of maps that differ at %d", k)
	}
	is("after its clone changed", m)
	p := 2 + r.IntN(6)
	m.DeleteFunc(func(k, v int) bool { return (k+v)%p == 0 })
	for k, v := range w {
		if (k+v)%p == 0 {
			delete(w, k)
		}
	}
	is("after DeleteFunc", m)
	e := genmap.New[int, int]()
	if r.IntN(2) == 0 {
		m.CopyTo(e)
	} else {
		e.CopyFrom(m)
	}
	is("copy", e)
	m.Clear()
	is("after the source was cleared", e)
	clear(w)
	is("cleared", m)
	o.Done("genmap", true)
}
