package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

type slowKey struct{}

// slow (C30): a refresh or clear function sits until every other thread has
// finished all its calls, which are ones that do not need its outcome; a call
// that waits for it shows up as a deadlock.
func slow(c *kit.C) {
	c.Cases("slow", c.N(120000, 16), func(i int, r *rand.Rand) {
		vsched.ResetClock()
		variant := r.IntN(nVariants)
		scene := r.IntN(4)
		maxAge := []time.Duration{-1, time.Second, time.Hour, math.MaxInt64, math.MinInt64}[r.IntN(5)]
		errAge := []time.Duration{0, time.Second, time.Hour, math.MaxInt64}[r.IntN(4)]
		others := 1 + r.IntN(3)
		left, inside, during := others, 0, 0
		wait := func() {
			inside++
			vsched.BlockUntil("the user function", func() bool { return left == 0 })
			inside--
		}
		nextID := 0
		boom := errors.New("failed")
		fail := false
		mk := func() fn {
			return func(ctx context.Context, old any, args []int) (int, error) {
				if ctx.Value(slowKey{}) != nil {
					wait()
				} else {
					vsched.Yield()
				}
				nextID++
				if fail {
					return 0, boom
				}
				return nextID, nil
			}
		}
		mkClear := func() cfn {
			return func(ctx context.Context, old any, args []int) error {
				if ctx.Value(slowKey{}) != nil {
					wait()
				} else {
					vsched.Yield()
				}
				return nil
			}
		}
		bg := context.Background()
		slowCtx := context.WithValue(bg, slowKey{}, true)
		args := []int{1, 2}
		// What others may call: reads always complete.
		const (
			xLast = iota
			xLastTime
			xLastErr
			xLastErrTime
			xMaxAge
			xMaxErrAge
			xRaw
			xSetClear
			xSetRefresh
			xClear
			xGet
			xRefresh
		)
		names := []string{"Last", "LastTime", "LastErr", "LastErrTime", "MaxAge", "MaxErrAge", "Raw", "SetClearFunc", "SetRefreshFunc", "Clear", "Get", "Refresh"}
		may := []int{xLast, xLastTime, xLastErr, xLastErrTime, xMaxAge, xMaxErrAge, xRaw, xSetClear, xSetRefresh}
		if variant/3%2 == 1 { // RefreshData has no such functions
			may = may[:7]
		}
		var slowCalls []int // first: sits in its function; the rest may wait for it
		what := ""
		switch scene {
		case 0: // a Refresh runs while the value is fresh: Get serves the value
			what = "fresh value"
			slowCalls = append(slowCalls, xRefresh)
			may = append(may, xGet, xGet, xGet, xGet)
			for j := r.IntN(3); j > 0; j-- {
				slowCalls = append(slowCalls, xRefresh)
			}
		case 1: // a Refresh runs while an error is cached: Get serves the error
			what = "cached error"
			errAge = max(errAge, time.Second)
			fail = true
			slowCalls = append(slowCalls, xRefresh)
			may = append(may, xGet, xGet, xGet, xGet)
			for j := r.IntN(3); j > 0; j-- {
				slowCalls = append(slowCalls, xRefresh)
			}
		case 2: // a Get or Refresh runs; everything that needs no value completes
			what = "nothing valid"
			slowCalls = append(slowCalls, xGet+r.IntN(2))
			may = append(may, xClear, xClear, xClear)
			for j := r.IntN(3); j > 0; j-- {
				slowCalls = append(slowCalls, xGet+r.IntN(2))
			}
		case 3: // a clear function runs: everything completes
			what = "clear function"
			slowCalls = append(slowCalls, xClear)
			if r.IntN(2) == 0 {
				slowCalls = append(slowCalls, xClear)
			}
			may = append(may, xClear, xClear, xGet, xGet, xGet, xRefresh, xRefresh)
		}
		v := newR(variant, mk(), maxAge, errAge)
		v.SetClear(mkClear())
		if scene == 1 || scene != 2 && r.IntN(3) > 0 || scene == 0 {
			v.Refresh(bg, args)
		}
		if scene == 1 {
			fail = r.IntN(2) == 0
		}
		do := func(k int, ctx context.Context) {
			switch k {
			case xLast:
				v.Last()
			case xLastTime:
				v.LastTime()
			case xLastErr:
				v.LastErr()
			case xLastErrTime:
				v.LastErrTime()
			case xMaxAge:
				v.MaxAge()
			case xMaxErrAge:
				v.MaxErrAge()
			case xRaw:
				v.Raw()
			case xSetClear:
				v.SetClear(mkClear())
			case xSetRefresh:
				v.SetRefresh(mk())
			case xClear:
				v.Clear(ctx, args)
			case xGet:
				v.Get(ctx, args)
			case xRefresh:
				v.Refresh(ctx, args)
			}
		}
		// The value is fresh (the error cached) only until the slow function has
		// returned, which is after the others are done.
		nt := len(slowCalls) + others
		doing := make([]string, nt)
		var fns []func()
		desc := what + ": "
		for t, k := range slowCalls {
			ctx := slowCtx
			if scene != 3 && t > 0 && r.IntN(2) == 0 {
				ctx = bg // not slow itself, unless it has to wait
				if scene != 2 {
					ctx = slowCtx // its success or failure would change what the others find
				}
			}
			desc += fmt.Sprintf("t%d: slow %s; ", t, names[k])
			fns = append(fns, func() {
				doing[t] = "slow " + names[k]
				do(k, ctx)
				doing[t] = ""
			})
		}
		for t := len(slowCalls); t < nt; t++ {
			var ops []int
			desc += fmt.Sprintf("t%d:", t)
			for j := 1 + r.IntN(5); j > 0; j-- {
				ops = append(ops, may[r.IntN(len(may))])
				desc += " " + names[ops[len(ops)-1]]
			}
			desc += "; "
			fns = append(fns, func() {
				for _, k := range ops {
					doing[t] = names[k]
					do(k, bg)
					if inside > 0 {
						during++
					}
				}
				doing[t] = ""
				left--
			})
		}
		strat := vsched.PickStrategy(r, 4*nt)
		res := vsched.Run(r.Uint64(), strat, 60000, fns...)
		if c.Trace {
			c.Logf("%s maxAge=%v errAge=%v %s", variantName(variant), maxAge, errAge, desc)
		}
		if len(res.Panics) > 0 {
			c.Fail("panic", "%s", res.Panics[0])
		}
		if res.Deadlock != "" {
			c.Fail("held-up", "%s maxAge=%v errAge=%v: %s; threads are in: %q; program: %s", variantName(variant), maxAge, errAge, res.Deadlock, doing, desc)
		}
		if res.StepLimit {
			c.Inconclusive("step-limit")
			return
		}
		c.Count("calls_completed_during_a_user_function", int64(during))
		if during > 0 {
			c.Seen(kit.Hash(res.Hash, variant, maxAge, errAge, desc))
			if c.WantSample() {
				c.Sample(fmt.Sprintf("case %d %s maxAge=%v errAge=%v %v: %s%d calls completed meanwhile", i, variantName(variant), maxAge, errAge, strat, desc, during))
			}
		}
	})
}
