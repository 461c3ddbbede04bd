package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"verif.local/h/alike"
	"verif.local/h/kit"
)

// lookalikes: keys and values that print or deep-compare like each other; the
// oracle is a plain map and the == operator of the language.
func lookalikes(c *kit.C, sub string, n int) {
	anys, fl, ptr, st, in := alike.Anys(), alike.Floats(), alike.Ptrs(), alike.Structs(), alike.Ins()
	ints := []int{0, 1, 2, 3}
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		switch i % 6 {
		case 0:
			alikeRun[any, any](c, i, r, anys, anys)
		case 1:
			alikeRun[float64, float64](c, i, r, fl, fl)
		case 2:
			alikeRun[*alike.P, *alike.P](c, i, r, ptr, ptr)
		case 3:
			alikeRun[alike.F, alike.F](c, i, r, st, st)
		case 4:
			alikeRun[alike.In, alike.In](c, i, r, in, in)
		case 5:
			alikeRun[int, any](c, i, r, ints, anys)
		}
	})
}

func alikeRun[K, V comparable](c *kit.C, i int, r *rand.Rand, keys []K, vals []V) {
	m := synccache.NewSyncCache[K, V](time.Minute)
	defer m.Close()
	model := map[K]V{}
	key := func() K {
		for {
			if k := keys[r.IntN(len(keys))]; k == k { // not a NaN
				return k
			}
		}
	}
	val := func() V { return vals[r.IntN(len(vals))] }
	same := func(a, b V) bool {
		return (a == b || a != a && b != b) && fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
	}
	pool := []K{key(), key(), key(), key(), key()}
	for j := 0; j < 60; j++ {
		k := pool[r.IntN(len(pool))]
		cur, has := model[k]
		v, o := val(), val()
		if has && r.IntN(3) == 0 {
			o = cur
		}
		bad := func(f string, a ...any) {
			c.Fail("equality", "SyncCache[%T,%T] step %d key %#v (plain map: %#v,%v): %s", *new(K), *new(V), j, k, cur, has, fmt.Sprintf(f, a...))
		}
		switch r.IntN(6) {
		case 0, 1:
			m.Store(k, v, time.Hour)
			model[k] = v
		case 2:
			want := cur
			if !has {
				want = v
				model[k] = v
			}
			if g, l := m.LoadOrStore(k, v, time.Hour); l != has || !same(g.Value(), want) {
				bad("LoadOrStore(%#v) = %#v,%v", v, g.Value(), l)
			}
		case 3, 4:
			want := has && cur == o
			if g := m.CompareValueAndDelete(k, o); g != want {
				bad("CompareValueAndDelete(%T(%#v)) = %v", o, o, g)
			}
			if want {
				delete(model, k)
				c.Count("deletions_of_equal_values", 1)
			} else if has {
				c.Count("refused_lookalikes", 1)
			}
		case 5:
			// an entry of the same value that is not the stored one
			if has {
				if m.CompareAndDelete(k, synccache.NewEntry(cur, time.Hour)) {
					bad("CompareAndDelete of another entry with the same value succeeded")
				}
			}
		}
		for _, k := range pool {
			cur, has = model[k]
			if g, l := m.Load(k); l != has || l && !same(g.Value(), cur) {
				bad("then Load(%T(%#v)): found %v, plain map %#v,%v", k, k, l, cur, has)
			}
		}
	}
	c.Seen(kit.Hash("alike", i))
}
