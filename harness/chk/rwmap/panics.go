package main

import (
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/rwmap"
	"verif.local/h/kit"
)

// lenPanics: calls that panic (unhashable keys, incomparable values) must not
// change what Len reports.
func lenPanics(c *kit.C, sub string, n int) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		var m rwmap.RWMap[any, any]
		model := map[any]any{}
		for j := 0; j < 60; j++ {
			k := any(r.IntN(6))
			var v any = r.IntN(3)
			if r.IntN(4) == 0 {
				v = []int{1} // not comparable
			}
			bad := any([]string{"unhashable"})
			pan := kit.Catch(func() {
				switch r.IntN(12) {
				case 0, 1:
					m.Store(k, v)
					model[k] = v
				case 2:
					m.Delete(k)
					delete(model, k)
				case 3:
					if _, l := m.LoadOrStore(k, v); !l {
						model[k] = v
					}
				case 4:
					m.Store(bad, v)
				case 5:
					m.LoadOrStore(bad, v)
				case 6:
					m.LoadAndDelete(bad)
				case 7:
					m.CompareAndDelete(bad, v)
				case 8:
					if m.CompareAndDelete(k, v) {
						delete(model, k)
					}
				case 9:
					if m.CompareAndSwap(k, v, 7) {
						model[k] = 7
					}
				case 10:
					m.Swap(bad, v)
				case 11:
					m.Range(func(a, b any) bool { panic("callback") })
				}
			})
			if pan != nil {
				c.Count("panicking_calls", 1)
			}
			if l, s := m.Len(), m.SlowLen(); l != int64(len(model)) || s != int64(len(model)) {
				c.Fail("len", "step %d (panic: %v): Len()=%d SlowLen()=%d, %d keys present", j, pan, l, s, len(model))
			}
		}
		c.Seen(kit.Hash("p", i))
	})
}
