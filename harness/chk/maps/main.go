// Monitors for set (C20) and genmap (C21): random operations against plain maps.
package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/set"
	"golang.org/x/exp/constraints"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C20": c20, "C21": c21}) }

// ---- sets ----

type sets[T constraints.Ordered] struct {
	c     *kit.C
	r     *rand.Rand
	o     *kit.Ops
	u     []T
	s     []set.Set[T]
	m     []map[T]bool
	every int
}

func (w *sets[T]) show(m map[T]bool) string {
	var l []string
	for k := range m {
		l = append(l, fmt.Sprint(k))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func (w *sets[T]) same(what string, s set.Set[T], m map[T]bool) {
	bad := func(format string, a ...any) {
		w.c.Fail("set", "%s: %s; expected the set %s", what, fmt.Sprintf(format, a...), w.show(m))
	}
	if s.Len() != len(m) {
		bad("Len() = %d", s.Len())
	}
	if s.IsEmpty() != (len(m) == 0) {
		bad("IsEmpty() = %v", s.IsEmpty())
	}
	sl := s.Slice()
	if len(sl) != len(m) {
		bad("Slice() = %v", sl)
	}
	dup := map[T]bool{}
	for _, v := range sl {
		if !m[v] || dup[v] {
			bad("Slice() = %v", sl)
		}
		dup[v] = true
	}
	n := 0
	seen := map[T]bool{}
	s.Range(func(v T) bool {
		n++
		if !m[v] || seen[v] {
			bad("Range visited %v", v)
		}
		seen[v] = true
		return true
	})
	if n != len(m) {
		bad("Range visited %d", n)
	}
	for _, v := range w.u {
		if s.Contain(v) != m[v] {
			bad("Contain(%v) = %v", v, s.Contain(v))
		}
	}
	if len(m) > 0 {
		stop := 1 + w.r.IntN(len(m))
		n = 0
		s.Range(func(T) bool { n++; return n < stop })
		if n != stop {
			bad("Range told to stop after %d visited %d", stop, n)
		}
	}
}

func (w *sets[T]) checkAll(what string) {
	if w.every > 1 && w.r.IntN(w.every) > 0 {
		return
	}
	for i := range w.s {
		w.same(fmt.Sprintf("set %d after %s", i, what), w.s[i], w.m[i])
	}
	w.c.Tick()
}

func (w *sets[T]) cp(m map[T]bool) map[T]bool {
	x := map[T]bool{}
	for k := range m {
		x[k] = true
	}
	return x
}

func (w *sets[T]) run(n int) {
	k := 2 + w.r.IntN(3)
	for i := 0; i < k; i++ {
		w.s = append(w.s, set.New[T]())
		w.m = append(w.m, map[T]bool{})
		if w.every > 1 { // large: start well filled
			w.o.Op("fill", i)
			var vs []T
			for _, v := range w.u {
				if w.r.IntN(4) > 0 {
					w.m[i][v] = true
					vs = append(vs, v)
				}
			}
			w.s[i].Push(vs...)
			w.c.Max("most_elements", int64(len(vs)))
		}
	}
	for step := 0; step < n; step++ {
		i, j := w.r.IntN(k), w.r.IntN(k)
		s, m := w.s[i], w.m[i]
		t, mt := w.s[j], w.m[j]
		vi := w.r.IntN(len(w.u))
		v := w.u[vi]
		self := func(got set.Set[T]) {
			// documented chaining: the receiver itself, so a later change shows
			w.same("chained result", got, w.m[i])
		}
		want := func(what string, got, exp bool) {
			if got != exp {
				w.c.Fail("result", "%s(%v) on %s with %s = %v, want %v", what, v, w.show(m), w.show(mt), got, exp)
			}
		}
		name := ""
		// fresh results must equal the expected set and share nothing
		fresh := func(what string, got set.Set[T], exp map[T]bool) {
			w.same(what, got, exp)
			w.checkAll(what)
			x := w.u[w.r.IntN(len(w.u))]
			if w.every > 1 || w.r.IntN(2) == 0 {
				got.Insert(x)
				exp[x] = true
			} else {
				got.Clear()
				exp = map[T]bool{}
			}
			w.same(what+" (edited)", got, exp)
			w.checkAll(what + " and an edit of its result")
			if w.r.IntN(2) == 0 { // keep it in play
				q := w.r.IntN(k)
				w.s[q], w.m[q] = got, exp
			}
		}
		switch op := w.r.IntN(19); op {
		case 0, 1, 2:
			name = "Insert"
			w.o.Op(name, i, vi)
			want(name, s.Insert(v), !m[v])
			m[v] = true
		case 3:
			name = "Push"
			c := w.r.IntN(5)
			w.o.Op(name, i, vi, c)
			var vs []T
			for q := 0; q < c; q++ {
				vs = append(vs, w.u[(vi+q*q)%len(w.u)])
			}
			got := s.Push(vs...)
			for _, x := range vs {
				m[x] = true
			}
			self(got)
		case 4, 5:
			name = "Remove"
			w.o.Op(name, i, vi)
			want(name, s.Remove(v), m[v])
			delete(m, v)
		case 6:
			name = "ContainAndRemove"
			w.o.Op(name, i, vi)
			want(name, s.ContainAndRemove(v), m[v])
			delete(m, v)
		case 7:
			if w.r.IntN(4*max(1, w.every)) > 0 {
				continue
			}
			name = "Clear"
			w.o.Op(name, i)
			got := s.Clear()
			w.m[i] = map[T]bool{}
			self(got)
		case 8:
			name = "CopyFrom"
			w.o.Op(name, i, j)
			got := s.CopyFrom(t)
			for x := range mt {
				m[x] = true
			}
			self(got)
		case 9:
			name = "Clone"
			w.o.Op(name, i)
			fresh(name, s.Clone(), w.cp(m))
		case 10:
			name = "Union"
			x := w.r.IntN(k)
			w.o.Op(name, i, j, x)
			exp := w.cp(m)
			var args []set.Set[T]
			for _, q := range []int{j, x, i}[:w.r.IntN(4)] {
				args = append(args, w.s[q])
				for y := range w.m[q] {
					exp[y] = true
				}
			}
			fresh(name, s.Union(args...), exp)
		case 11, 12, 13:
			exp := map[T]bool{}
			for x := range m {
				if mt[x] == (op == 11) {
					exp[x] = true
				}
			}
			switch op {
			case 11:
				name = "Intersection"
				w.o.Op(name, i, j)
				fresh(name, s.Intersection(t), exp)
			case 12:
				name = "Difference"
				w.o.Op(name, i, j)
				fresh(name, s.Difference(t), exp)
			case 13:
				name = "SymmetricDifference"
				for x := range mt {
					if !m[x] {
						exp[x] = true
					}
				}
				w.o.Op(name, i, j)
				fresh(name, s.SymmetricDifference(t), exp)
			}
		default:
			sub, sup := true, true
			for x := range m {
				sub = sub && mt[x]
			}
			for x := range mt {
				sup = sup && m[x]
			}
			if w.r.IntN(4) == 0 { // make them related more often
				for x := range m {
					t.Insert(x)
					mt[x] = true
				}
				sub = true
				sup = len(m) == len(mt)
				w.o.Op("include", i, j)
			}
			switch op {
			case 14, 15:
				name = "IsSubSet"
				w.o.Op(name, i, j)
				want(name, s.IsSubSet(t), sub)
			case 16:
				name = "IsSupperSet"
				w.o.Op(name, i, j)
				want(name, s.IsSupperSet(t), sup)
			case 17, 18:
				name = "Equal"
				w.o.Op(name, i, j)
				want(name, s.Equal(t), sub && sup)
			}
		}
		w.checkAll(name)
	}
	w.o.Done("sets", w.o.N > 3)
}

func universe[T any](n int, f func(int) T) (u []T) {
	for i := 0; i < n; i++ {
		u = append(u, f(i))
	}
	return
}

type myInt int16

func c20(c *kit.C) {
	one := func(i int, r *rand.Rand, large bool) {
		n := []int{1, 2, 3, 6, 12, 60}[r.IntN(6)]
		steps, every := 4+r.IntN(60), 1
		if large {
			n, steps, every = 100+r.IntN(900), 300+r.IntN(1500), 60
		}
		switch i % 5 {
		case 0:
			(&sets[int]{c: c, r: r, o: c.NewOps(), every: every, u: universe(n, func(i int) int { return i - 2 })}).run(steps)
		case 1:
			(&sets[string]{c: c, r: r, o: c.NewOps(), every: every, u: universe(n, func(i int) string { return strings.Repeat("a", i) })}).run(steps)
		case 2:
			(&sets[float64]{c: c, r: r, o: c.NewOps(), every: every, u: universe(n, func(i int) float64 {
				return []float64{0, math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324}[i%5] + float64(i/5)*1e300
			})[:min(n, 5)]}).run(steps)
		case 3:
			(&sets[myInt]{c: c, r: r, o: c.NewOps(), every: every, u: universe(n, func(i int) myInt { return myInt(i*5000 - 32768) })}).run(steps)
		case 4:
			(&sets[uint64]{c: c, r: r, o: c.NewOps(), every: every, u: universe(n, func(i int) uint64 { return math.MaxUint64 - uint64(i) })}).run(steps)
		}
	}
	c.Cases("ops", c.N(120000, 16), func(i int, r *rand.Rand) { one(i, r, false) })
	c.Cases("large", c.N(240, 20), func(i int, r *rand.Rand) { one(i, r, true) })
}

// ---- genmap ----

type gm[K comparable, V comparable] struct {
	c *kit.C
	r *rand.Rand
	o *kit.Ops
	k []K
	v func(int) V
	g []genmap.GenMap[K, V]
	m []map[K]V
	// raw[i] is the plain map that g[i] was made from, if any
	raw   []map[K]V
	every int
}

func (w *gm[K, V]) same(what string, g genmap.GenMap[K, V], m map[K]V) {
	bad := func(format string, a ...any) {
		w.c.Fail("map", "%s: %s; expected %v", what, fmt.Sprintf(format, a...), m)
	}
	if g.Len() != len(m) {
		bad("Len() = %d", g.Len())
	}
	for _, k := range w.k {
		v, ok := g.Load(k)
		mv, mok := m[k]
		if v != mv || ok != mok {
			bad("Load(%v) = %v, %v", k, v, ok)
		}
	}
	keys, vals := map[K]int{}, map[V]int{}
	for _, k := range g.Keys() {
		keys[k]++
	}
	for _, v := range g.Values() {
		vals[v]++
	}
	for k, v := range m {
		keys[k]--
		vals[v]--
	}
	for k, n := range keys {
		if n != 0 {
			bad("Keys() has %v %+d times too often", k, n)
		}
	}
	for v, n := range vals {
		if n != 0 {
			bad("Values() has %v %+d times too often", v, n)
		}
	}
	for _, stop := range []int{-1, w.r.IntN(len(m) + 1)} {
		n := 0
		seen := map[K]bool{}
		all := g.Range(func(k K, v V) bool {
			if mv, ok := m[k]; !ok || mv != v || seen[k] {
				bad("Range visited %v:%v", k, v)
			}
			seen[k] = true
			n++
			return n != stop
		})
		if stop > 0 && (n != stop || all) {
			bad("Range told to stop at visit %d made %d visits and returned %v", stop, n, all)
		}
		if stop <= 0 && (n != len(m) || !all) {
			bad("Range made %d visits and returned %v", n, all)
		}
	}
}

func (w *gm[K, V]) checkAll(what string) {
	if w.every > 1 && w.r.IntN(w.every) > 0 {
		return
	}
	for i := range w.g {
		w.same(fmt.Sprintf("map %d after %s", i, what), w.g[i], w.m[i])
		if w.raw[i] != nil {
			w.same(fmt.Sprintf("raw map %d after %s", i, what), genmap.From(w.raw[i]), w.m[i])
		}
	}
	w.c.Tick()
}

func (w *gm[K, V]) add() {
	if w.r.IntN(2) == 0 {
		w.g = append(w.g, genmap.New[K, V]())
		w.raw = append(w.raw, nil)
	} else {
		r := map[K]V{}
		w.g = append(w.g, genmap.From(r))
		w.raw = append(w.raw, r)
	}
	w.m = append(w.m, map[K]V{})
}

func (w *gm[K, V]) run(steps int) {
	n := 2 + w.r.IntN(2)
	id := 0
	for i := 0; i < n; i++ {
		w.add()
		if w.every > 1 { // large: start well filled
			w.o.Op("fill", i)
			for _, k := range w.k {
				if w.r.IntN(4) > 0 {
					id++
					w.g[i].Store(k, w.v(id))
					w.m[i][k] = w.v(id)
				}
			}
			w.c.Max("most_elements", int64(len(w.m[i])))
		}
	}
	for s := 0; s < steps; s++ {
		i, j := w.r.IntN(n), w.r.IntN(n)
		g, m := w.g[i], w.m[i]
		ki := w.r.IntN(len(w.k))
		k := w.k[ki]
		id++
		v := w.v(id)
		old, had := m[k]
		name := ""
		pair := func(gv V, gok bool, wv V, wok bool) {
			if gv != wv || gok != wok {
				w.c.Fail("result", "%s(%v, %v) on %v = %v, %v; want %v, %v", name, k, v, m, gv, gok, wv, wok)
			}
		}
		chain := func(got genmap.GenMap[K, V]) { w.same("result of "+name, got, w.m[i]) }
		switch w.r.IntN(18) {
		case 0, 1, 2:
			name = "Store"
			w.o.Op(name, i, ki, id)
			got := g.Store(k, v)
			m[k] = v
			chain(got)
		case 3:
			name = "Delete"
			w.o.Op(name, i, ki)
			got := g.Delete(k)
			delete(m, k)
			chain(got)
		case 4, 5:
			name = "LoadOrStore"
			w.o.Op(name, i, ki, id)
			gv, ok := g.LoadOrStore(k, v)
			if had {
				pair(gv, ok, old, true)
			} else {
				pair(gv, ok, v, false)
				m[k] = v
			}
		case 6, 7:
			name = "LoadOrStoreFunc"
			w.o.Op(name, i, ki, id)
			calls := 0
			gv, ok := g.LoadOrStoreFunc(k, func() V { calls++; return v })
			if had {
				pair(gv, ok, old, true)
			} else {
				pair(gv, ok, v, false)
				m[k] = v
			}
			if calls != 1 && !had || calls != 0 && had {
				w.c.Fail("result", "LoadOrStoreFunc ran its function %d times (present: %v)", calls, had)
			}
		case 8:
			name = "LoadAndDelete"
			w.o.Op(name, i, ki)
			gv, ok := g.LoadAndDelete(k)
			pair(gv, ok, old, had)
			delete(m, k)
		case 9:
			name = "LoadAndStore"
			w.o.Op(name, i, ki, id)
			gv, ok := g.LoadAndStore(k, v)
			pair(gv, ok, old, had)
			m[k] = v
		case 10:
			if w.r.IntN(3*max(1, w.every)) > 0 {
				continue
			}
			name = "Clear"
			w.o.Op(name, i)
			got := g.Clear()
			clear(m)
			chain(got)
		case 11:
			name = "Clone"
			w.o.Op(name, i)
			q := g.Clone()
			cm := map[K]V{}
			for a, b := range m {
				cm[a] = b
			}
			w.same(name, q, cm)
			q.Store(k, v)
			cm[k] = v
			w.same(name, q, cm)
			w.checkAll("editing a Clone")
			w.g[j], w.m[j], w.raw[j] = q, cm, nil
		case 12, 13:
			dst, dm := w.g[j], w.m[j]
			var got genmap.GenMap[K, V]
			if w.r.IntN(2) == 0 {
				name = "CopyTo"
				w.o.Op(name, i, j)
				got = g.CopyTo(dst)
			} else {
				name = "CopyToRaw"
				w.o.Op(name, i, j)
				got = g.CopyToRaw(dst.Map())
			}
			for a, b := range m {
				dm[a] = b
			}
			chain(got)
		case 14, 15:
			src, sm := w.g[j], w.m[j]
			var got genmap.GenMap[K, V]
			if w.r.IntN(2) == 0 {
				name = "CopyFrom"
				w.o.Op(name, i, j)
				got = g.CopyFrom(src)
			} else {
				name = "CopyFromRaw"
				w.o.Op(name, i, j)
				got = g.CopyFromRaw(src.Map())
			}
			for a, b := range sm {
				m[a] = b
			}
			chain(got)
		case 16:
			name = "DeleteFunc"
			par := w.r.IntN(3)
			w.o.Op(name, i, par)
			drop := func(a K, b V) bool { return int(kit.Hash(a, b)%3) == par }
			g.DeleteFunc(drop)
			for a, b := range m {
				if drop(a, b) {
					delete(m, a)
				}
			}
		case 17:
			name = "EqualFunc"
			w.o.Op(name, i, j)
			m2 := w.m[j]
			if w.r.IntN(2) == 0 { // make them equal, or nearly so
				g2 := w.g[j]
				g2.Clear()
				clear(m2)
				for a, b := range w.m[i] {
					g2.Store(a, b)
					m2[a] = b
				}
				if w.r.IntN(2) == 0 {
					g2.Store(k, v)
					m2[k] = v
				}
			}
			want := len(w.m[i]) == len(m2)
			for a, b := range w.m[i] {
				x, ok := m2[a]
				want = want && ok && x == b
			}
			if got := w.g[i].EqualFunc(w.g[j], func(x, y V) bool { return x == y }); got != want {
				w.c.Fail("result", "EqualFunc of %v and %v = %v", w.m[i], m2, got)
			}
			// From and Map share storage with the raw map
			w.g[i].Map()[k] = v
			w.m[i][k] = v
			if w.raw[i] != nil {
				delete(w.raw[i], w.k[0])
				delete(w.m[i], w.k[0])
			}
		}
		w.checkAll(name)
	}
	w.o.Done("maps", w.o.N > 3)
}

type pair struct {
	a int8
	b string
}

func c21(c *kit.C) {
	one := func(i int, r *rand.Rand, large bool) {
		n := []int{1, 2, 3, 6, 12, 40}[r.IntN(6)]
		steps, every := 4+r.IntN(60), 1
		if large {
			n, steps, every = 100+r.IntN(900), 300+r.IntN(1500), 60
		}
		id := func(i int) int { return i }
		switch i % 4 {
		case 0:
			(&gm[int, int]{c: c, r: r, o: c.NewOps(), every: every, k: universe(n, id), v: id}).run(steps)
		case 1:
			(&gm[string, string]{c: c, r: r, o: c.NewOps(), every: every, k: universe(n, func(i int) string { return strings.Repeat("k", i) }), v: func(i int) string { return fmt.Sprint(i) }}).run(steps)
		case 2:
			(&gm[any, any]{c: c, r: r, o: c.NewOps(), every: every, k: universe(n, func(i int) any {
				return []any{nil, i, fmt.Sprint(i), pair{int8(i), "x"}, float32(i)}[i%5]
			}), v: func(i int) any { return []any{nil, i, "", 0}[i%4] }}).run(steps)
		case 3:
			(&gm[pair, struct{}]{c: c, r: r, o: c.NewOps(), every: every, k: universe(n, func(i int) pair { return pair{int8(i), fmt.Sprint(i)} }), v: func(int) struct{} { return struct{}{} }}).run(steps)
		}
	}
	c.Cases("ops", c.N(80000, 20), func(i int, r *rand.Rand) { one(i, r, false) })
	c.Cases("large", c.N(240, 20), func(i int, r *rand.Rand) { one(i, r, true) })
}
