package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

// slow (C30): some threads (and the background pass) sit in a deleted-callback or
// Range callback until every other thread has finished all its calls; a call that
// waits for the user function shows up as a deadlock.
func slow(c *kit.C) {
	c.Cases("slow", c.N(60000, 16), func(i int, r *rand.Rand) {
		e := &env{c: c, curOp: map[int]*op{}, hasCB: true, nestR: rand.New(rand.NewPCG(r.Uint64(), 2))}
		variant := r.IntN(nVariants)
		cb := e.callback
		if r.IntN(8) == 0 {
			cb = nil
		}
		zero := r.IntN(3) == 0
		e.s = newCache(variant, zero, cb)
		defer e.s.Close()
		vsched.Align(5 * time.Second)
		vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
		e.base = vsched.NowNs() / 1e6
		nk := 1 + r.IntN(NK)
		var h []op
		rr := rand.New(rand.NewPCG(r.Uint64(), 1))
		do := func(o op, t int) op {
			e.exec(rr, &o, t)
			return o
		}
		for j := 1 + r.IntN(8); j > 0; j-- {
			mix := mixes[0]
			if r.IntN(2) == 0 {
				mix = []kind{oStore}
			}
			h = append(h, do(e.gen(r, mix, nk), -1))
		}
		slowN, others := 1+r.IntN(2), 1+r.IntN(3)
		left, during := others, 0
		e.slow = func() bool { return left == 0 }
		threads := make([][]op, slowN+others)
		fns := make([]func(), slowN+others)
		ticked := false
		for t := range threads {
			n := 1 + r.IntN(5)
			mix := mixes[r.IntN(len(mixes))]
			if t < slowN {
				n = 1 + r.IntN(2)
			}
			for len(threads[t]) < n {
				o := e.gen(r, mix, nk)
				if t < slowN {
					switch {
					case r.IntN(3) == 0 && !ticked:
						o = op{k: oTick, d: time.Duration(r.IntN(12000)) * time.Millisecond}
						ticked = true
					case o.k == oTick:
						o.k, o.d = oLoad, 0 // the clock is moved by one thread only, or they would wait for each other
					}
					o.slowAt = 1 + r.IntN(2)
				} else {
					for o.k == oTick {
						o = e.gen(r, mixes[4], nk)
					}
					switch r.IntN(16) {
					case 0:
						o = op{k: oStart}
					case 1:
						o = op{k: oClose}
					case 2:
						o = op{k: oOther, key: r.IntN(nk)}
					}
				}
				threads[t] = append(threads[t], o)
			}
			fns[t] = func() {
				for j := range threads[t] {
					e.exec(rr, &threads[t][j], t)
					if e.inSlow > 0 && t >= slowN {
						during++
					}
				}
				if t >= slowN {
					left--
				}
			}
		}
		strat := vsched.PickStrategy(r, 4*len(threads))
		res := vsched.Run(r.Uint64(), strat, 60000, fns...)
		if c.Trace {
			for _, t := range append([][]op{h}, threads...) {
				for _, o := range t {
					c.Logf("%v", o)
				}
			}
		}
		if len(res.Panics) > 0 {
			c.Fail("panic", "%s", res.Panics[0])
		}
		if res.Deadlock != "" {
			c.Fail("held-up", "SyncCache[%s]: %s %s", variantName[variant], res.Deadlock, e.pending(threads))
		}
		if res.StepLimit {
			c.Inconclusive("step-limit")
			return
		}
		c.Count("steps", int64(res.Steps))
		c.Count("calls_completed_during_a_user_function", int64(during))
		if during > 0 {
			for _, t := range threads {
				h = append(h, t...)
			}
			c.Seen(kit.Hash(res.Hash, fmtHist(h)))
			if c.WantSample() {
				c.Sample(fmt.Sprintf("case %d SyncCache[%s] %v, %d calls completed meanwhile: %s", i, variantName[variant], strat, during, fmtHist(h)))
			}
		}
	})
}

// otherCache uses a second cache: a user function of one must not hold up another.
func otherCache(key int) {
	s := newCache(0, false, func(int) { vsched.Yield() })
	s.Store(key, 1, time.Hour)
	s.Load(key)
	s.Range(func(int, ent) bool { return true })
	s.Delete(key)
	s.Close()
}
