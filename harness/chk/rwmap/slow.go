package main

import (
	"fmt"
	"math/rand/v2"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

// slow (C30): some threads sit in a Range callback until every other thread has
// finished all its calls; a call that waits for the callback shows up as a
// deadlock.
func slow(c *kit.C, sub string, n int) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		variant := r.IntN(nVariants)
		m := newMap(variant)
		nk := 1 + r.IntN(5)
		if r.IntN(20) == 0 {
			nk = capKeys(variant, 100)
		}
		nextID := 0
		step := func(kind, k, v int) string {
			switch kind {
			case 0, 1:
				m.Store(k, v)
				return fmt.Sprintf("Store(%d)", k)
			case 2:
				m.Load(k)
				return fmt.Sprintf("Load(%d)", k)
			case 3:
				m.Swap(k, v)
				return fmt.Sprintf("Swap(%d)", k)
			case 4:
				m.LoadOrStore(k, v)
				return fmt.Sprintf("LoadOrStore(%d)", k)
			case 5:
				m.LoadAndDelete(k)
				return fmt.Sprintf("LoadAndDelete(%d)", k)
			case 6:
				m.Delete(k)
				return fmt.Sprintf("Delete(%d)", k)
			case 7:
				x, _ := m.Load(k)
				m.CAS(k, x, v)
				return fmt.Sprintf("CompareAndSwap(%d)", k)
			case 8:
				x, _ := m.Load(k)
				m.CAD(k, x)
				return fmt.Sprintf("CompareAndDelete(%d)", k)
			case 9:
				m.Range(func(k, v int) bool { vsched.Yield(); return k > 0 })
				return "Range"
			case 10:
				m.Clear()
				return "Clear"
			case 11:
				m.Len()
				return "Len"
			}
			m.SlowLen()
			return "SlowLen"
		}
		names := []string{"Store", "Store", "Load", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Range", "Clear", "Len", "SlowLen"}
		gen := func() [3]int {
			nextID++
			return [3]int{r.IntN(13), r.IntN(nk), nextID}
		}
		for j := r.IntN(3 * nk); j > 0; j-- {
			m.Store(r.IntN(nk), j)
		}
		for j := r.IntN(6); j > 0; j-- {
			x := gen()
			step(x[0], x[1], x[2])
		}
		slowN, others := 1+r.IntN(2), 1+r.IntN(3)
		left, inside, during := others, 0, 0
		doing := make([]string, slowN+others)
		desc := ""
		var fns []func()
		for t := 0; t < slowN; t++ {
			at := 1 + r.IntN(nk)
			stop := r.IntN(2) == 0
			desc += fmt.Sprintf("t%d: Range, slow at visit %d; ", t, at)
			fns = append(fns, func() {
				n := 0
				doing[t] = "Range"
				m.Range(func(k, v int) bool {
					if n++; n == at {
						inside++
						doing[t] = "a slow Range callback"
						vsched.BlockUntil("the user function", func() bool { return left == 0 })
						inside--
						return !stop
					}
					return true
				})
				doing[t] = ""
			})
		}
		for t := slowN; t < slowN+others; t++ {
			var ops [][3]int
			desc += fmt.Sprintf("t%d:", t)
			for j := 1 + r.IntN(5); j > 0; j-- {
				x := gen()
				ops = append(ops, x)
				desc += fmt.Sprintf(" %s(%d)", names[x[0]], x[1])
			}
			desc += "; "
			fns = append(fns, func() {
				for _, x := range ops {
					doing[t] = names[x[0]]
					step(x[0], x[1], x[2])
					if inside > 0 {
						during++
					}
				}
				doing[t] = ""
				left--
			})
		}
		strat := vsched.PickStrategy(r, 4*(slowN+others))
		res := vsched.Run(r.Uint64(), strat, 60000, fns...)
		if c.Trace {
			c.Logf("RWMap[%s] %s", variantName[variant], desc)
		}
		if len(res.Panics) > 0 {
			c.Fail("panic", "%s", res.Panics[0])
		}
		if res.Deadlock != "" {
			c.Fail("held-up", "%s; threads are in: %q; program: %s", res.Deadlock, doing, desc)
		}
		if res.StepLimit {
			c.Inconclusive("step-limit")
			return
		}
		c.Count("calls_completed_during_a_user_function", int64(during))
		if during > 0 {
			c.Seen(kit.Hash(res.Hash, variant, desc))
			if c.WantSample() {
				c.Sample(fmt.Sprintf("case %d RWMap[%s] %v: %s%d calls completed meanwhile", i, variantName[variant], strat, desc, during))
			}
		}
	})
}
