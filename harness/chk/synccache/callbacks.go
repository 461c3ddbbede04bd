package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

// arm makes the user functions run by o call back into the cache or panic.
func (e *env) arm(r *rand.Rand, o *op, mix []kind, nk, depth int, inTick bool) {
	switch o.k {
	case oStore, oAddExp, oSetExp, oStart, oClose:
		return
	}
	inTick = inTick || o.k == oTick
	if !inTick && r.IntN(3) == 0 { // nobody can recover from a panic in the background pass
		o.panics = 1 + r.IntN(2)
	}
	if r.IntN(2) == 0 {
		o.nestAt = 1 + r.IntN(2)
		for j := 1 + r.IntN(3); j > 0; j-- {
			n := e.gen(r, mix, nk)
			for n.k == oTick {
				n = e.gen(r, mixes[0], nk)
			}
			if r.IntN(8) == 0 {
				n = op{k: oStart}
				if r.IntN(2) == 0 {
					n.k = oClose
				}
			}
			if depth > 0 {
				e.arm(r, &n, mix, nk, depth-1, inTick)
			}
			o.nested = append(o.nested, n)
		}
	}
}

func flatten(h []op, o op) []op {
	if o.skipped || o.ret == 0 {
		return h
	}
	h = append(h, o)
	for _, n := range o.nested {
		h = flatten(h, n)
	}
	return h
}

// callbacks: everything runs under the controlled scheduler, so that a lock held
// across a user function shows up as a deadlock.
func callbacks(c *kit.C) {
	c.Cases("cache", c.N(150000, 16), func(i int, r *rand.Rand) {
		e := &env{c: c, curOp: map[int]*op{}, hasCB: true, nestR: rand.New(rand.NewPCG(r.Uint64(), 2))}
		variant := r.IntN(nVariants)
		cb := e.callback
		if r.IntN(8) == 0 {
			cb = nil
		}
		e.s = newCache(variant, r.IntN(3) == 0, cb)
		defer e.s.Close()
		vsched.Align(5 * time.Second)
		vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
		e.base = vsched.NowNs() / 1e6
		nk := 1 + r.IntN(NK)
		mix := mixes[r.IntN(len(mixes))]
		nt := 1 + r.IntN(3)
		threads := make([][]op, nt+2)
		gen := func(t, n int, armed bool) {
			for ; n > 0; n-- {
				o := e.gen(r, mix, nk)
				if armed {
					e.arm(r, &o, mix, nk, 1, false)
				}
				threads[t] = append(threads[t], o)
			}
		}
		gen(nt, r.IntN(8), r.IntN(2) == 0)
		for t := 0; t < nt; t++ {
			gen(t, 1+r.IntN(4), true)
		}
		for k := 0; k < NK; k++ {
			threads[nt+1] = append(threads[nt+1], op{k: oLoad, key: k})
		}
		body := func(t int) func() {
			rr := rand.New(rand.NewPCG(r.Uint64(), 1))
			return func() {
				for j := range threads[t] {
					e.exec(rr, &threads[t][j], t)
				}
			}
		}
		hash := uint64(0)
		strat := vsched.PickStrategy(r, nt*6)
		phase := func(fns ...func()) bool {
			res := vsched.Run(r.Uint64(), strat, 40000, fns...)
			hash = kit.Hash(hash, res.Hash)
			c.Count("steps", int64(res.Steps))
			if len(res.Panics) > 0 {
				c.Fail("panic", "%s", res.Panics[0])
			}
			if res.Deadlock != "" {
				c.Fail("deadlock", "%s %s", res.Deadlock, e.pending(threads))
			}
			if res.StepLimit {
				c.Inconclusive("step-limit")
			}
			return !res.StepLimit
		}
		var fns []func()
		for t := 0; t < nt; t++ {
			fns = append(fns, body(t))
		}
		fin := op{k: oClear}
		ok := phase(body(nt)) && phase(fns...) && phase(func() {
			body(nt + 1)()
			e.exec(nil, &fin, final)
		})
		if !ok {
			return
		}
		var h []op
		for _, t := range append([][]op{threads[nt]}, append(threads[:nt:nt], threads[nt+1], []op{fin})...) {
			for _, o := range t {
				n := len(h)
				h = flatten(h, o)
				for _, x := range h[n:] {
					c.Logf("%v", x)
				}
			}
		}
		c.Count("ops", int64(len(h)))
		nest := false
		for _, o := range h {
			if o.threw || o.nestAt > 0 && o.calls >= o.nestAt {
				nest = true
			}
		}
		if nest {
			c.Seen(kit.Hash(hash, fmtHist(h)))
			if c.WantSample() && len(h) < 30 {
				c.Sample(fmt.Sprintf("case %d SyncCache[%s] %v: %s", i, variantName[variant], strat, fmtHist(h)))
			}
		}
		e.oracleLive(h)
		if cb != nil {
			e.oracleCallbacks(h)
		}
	})
}

// pending lists the calls that did not return.
func (e *env) pending(threads [][]op) string {
	s := "calls in progress: "
	var walk func(o *op)
	walk = func(o *op) {
		if o.call != 0 && o.ret == 0 {
			s += o.String() + "; "
			for j := range o.nested {
				walk(&o.nested[j])
			}
		}
	}
	for t := range threads {
		for j := range threads[t] {
			walk(&threads[t][j])
		}
	}
	return s
}
