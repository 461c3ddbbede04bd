package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/rwmap"
	"verif.local/h/alike"
	"verif.local/h/kit"
)

// lookalikes: keys and values that print or deep-compare like each other; the
// oracle is a plain map and the == operator of the language.
func lookalikes(c *kit.C, sub string, n int) {
	anys, fl, ptr, st, in := alike.Anys(), alike.Floats(), alike.Ptrs(), alike.Structs(), alike.Ins()
	ints := []int{0, 1, 2, 3}
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		switch i % 8 {
		case 0:
			alikeRun[any, any](c, i, r, anys, anys)
		case 1:
			alikeRun[float64, float64](c, i, r, fl, fl)
		case 2:
			alikeRun[*alike.P, *alike.P](c, i, r, ptr, ptr)
		case 3:
			alikeRun[alike.F, alike.F](c, i, r, st, st)
		case 4:
			alikeRun[alike.In, alike.In](c, i, r, in, in)
		case 5:
			alikeRun[int, any](c, i, r, ints, anys)
		case 6:
			alikeRun[any, int](c, i, r, anys, ints)
		case 7:
			errs := []error{nil, alike.P{1, 2}, alike.P{1, 2}, alike.P{2, 1}, &alike.P{1, 2}, &alike.P{1, 2}}
			alikeRun[error, error](c, i, r, errs, errs)
		}
	})
}

func alikeRun[K, V comparable](c *kit.C, i int, r *rand.Rand, keys []K, vals []V) {
	var m rwmap.RWMap[K, V]
	model := map[K]V{}
	key := func() K {
		for {
			if k := keys[r.IntN(len(keys))]; k == k { // not a NaN
				return k
			}
		}
	}
	val := func() V { return vals[r.IntN(len(vals))] }
	// same: the very same value, told apart more finely than by == (the sign of
	// a zero), NaNs alike.
	same := func(a, b V) bool {
		return (a == b || a != a && b != b) && fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
	}
	pool := []K{key(), key(), key(), key(), key(), key()}
	for j := 0; j < 120; j++ {
		k := pool[r.IntN(len(pool))]
		cur, has := model[k]
		v, o := val(), val()
		if has && r.IntN(3) == 0 {
			o = cur
		}
		bad := func(f string, a ...any) {
			c.Fail("equality", "RWMap[%T,%T] step %d key %#v (plain map: %#v,%v): %s", *new(K), *new(V), j, k, cur, has, fmt.Sprintf(f, a...))
		}
		switch r.IntN(9) {
		case 0:
			m.Store(k, v)
			model[k] = v
		case 1:
			if g, l := m.Swap(k, v); l != has || !same(g, cur) {
				bad("Swap(%#v) = %#v,%v", v, g, l)
			}
			model[k] = v
		case 2:
			want := cur
			if !has {
				want = v
				model[k] = v
			}
			if g, l := m.LoadOrStore(k, v); l != has || !same(g, want) {
				bad("LoadOrStore(%#v) = %#v,%v", v, g, l)
			}
		case 3:
			if g, l := m.LoadAndDelete(k); l != has || !same(g, cur) {
				bad("LoadAndDelete = %#v,%v", g, l)
			}
			delete(model, k)
		case 4, 5:
			want := has && cur == o
			if g := m.CompareAndSwap(k, o, v); g != want {
				bad("CompareAndSwap(%T(%#v),%T(%#v)) = %v", o, o, v, v, g)
			}
			if want {
				model[k] = v
				c.Count("swaps_of_equal_values", 1)
			} else if has {
				c.Count("refused_lookalikes", 1)
			}
		case 6, 7:
			want := has && cur == o
			if g := m.CompareAndDelete(k, o); g != want {
				bad("CompareAndDelete(%T(%#v)) = %v", o, o, g)
			}
			if want {
				delete(model, k)
			}
		case 8:
			m.Load(key()) // misses promote the dirty map
		}
		for _, k := range pool {
			cur, has = model[k]
			if g, l := m.Load(k); l != has || !same(g, cur) {
				bad("then Load(%T(%#v)) = %#v,%v, plain map %#v,%v", k, k, g, l, cur, has)
			}
		}
	}
	n := 0
	m.Range(func(k K, v V) bool {
		n++
		if cur, has := model[k]; !has || !same(cur, v) {
			c.Fail("equality", "Range visited %T(%#v): %#v, plain map %#v,%v", k, k, v, cur, has)
		}
		return true
	})
	if n != len(model) {
		c.Fail("equality", "Range visited %d keys, plain map has %d", n, len(model))
	}
	c.Seen(kit.Hash("alike", i))
}
