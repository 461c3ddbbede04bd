package main

import (
	"fmt"
	"math/rand/v2"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

type bigEnt struct {
	id, key int
	exp     int64 // ms
	e       ent
	over    bool // overwritten
	gone    int  // callbacks seen
}

// big: one goroutine, many entries, exact model. what: "C07" judges results,
// "C08" callbacks, "C09" the background pass.
func big(c *kit.C, i int, r *rand.Rand, what string) {
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
	base := vsched.NowNs() / 1e6
	now := func() int64 { return vsched.NowNs()/1e6 - base }
	variant := []int{0, 1, 3, 4}[i%4]
	nk := []int{50, 300, 1500, 4000}[r.IntN(4)]
	byID := map[int]*bigEnt{}
	cur := map[int]*bigEnt{}
	ids := 0
	background := false
	var bad, kind string
	failed := func(k, f string, a ...any) {
		if bad == "" {
			kind, bad = k, fmt.Sprintf(f, a...)
		}
	}
	// A run that goes wrong in a way another property is about is given up.
	fail := func(f string, a ...any) { failed("C07", f, a...) }
	failCB := func(f string, a ...any) { failed("C08", f, a...) }
	failBG := func(f string, a ...any) { failed("C09", f, a...) }
	ncb, nbg := 0, 0
	withCB := what != "C07"
	cb := func(v int) {
		ncb++
		t := byID[v]
		if t == nil {
			failCB("callback for #%d, which was never stored", v)
			return
		}
		if t.gone++; t.gone > 1 {
			failCB("callback %d for #%d", t.gone, v)
		}
		if t.over {
			failCB("callback for #%d, which was overwritten", v)
		}
		if background {
			nbg++
			if now() < t.exp-slack {
				failBG("the background pass at %d ms removed #%d, which expires at %d ms", now(), v, t.exp)
			}
		}
		if cur[t.key] == t {
			delete(cur, t.key)
		} else if !t.over {
			failCB("callback for #%d, which is not stored", v)
		}
	}
	if !withCB && i%2 == 0 {
		cb = nil
	} else if !withCB {
		cb = func(int) { ncb++ }
	}
	s := newCache(variant, r.IntN(4) == 0, cb)
	defer s.Close()
	store := func(k int, d time.Duration) *bigEnt {
		ids++
		t := &bigEnt{id: ids, key: k, exp: now() + d.Milliseconds()}
		byID[ids] = t
		return t
	}
	dur := func() time.Duration {
		return []time.Duration{0, 30 * time.Millisecond, time.Second, 4 * time.Second, 8 * time.Second, 25 * time.Second, time.Hour, 1<<63 - 1}[r.IntN(8)]
	}
	dead := func(t *bigEnt) bool { return t == nil || now() > t.exp+slack }
	live := func(t *bigEnt) bool { return t != nil && now() < t.exp-slack }
	put := func(k int) {
		d := dur()
		t := store(k, d)
		if o := cur[k]; o != nil {
			o.over = true
		}
		cur[k] = t
		s.Store(k, t.id, d)
	}
	forget := func(k int) {
		if t := cur[k]; t != nil && !withCB {
			delete(cur, k)
		}
	}
	left := func(op string, k int, t *bigEnt) { // it must have left through op
		if withCB && t != nil && t.gone != 1 {
			failCB("%s(k%d) removed #%d and ran %d callbacks", op, k, t.id, t.gone)
		}
	}
	for k := 0; k < nk; k++ {
		if r.IntN(4) > 0 {
			put(k)
		}
	}
	c.Max("most_entries", int64(len(cur)))
	steps := 300 + r.IntN(500)
	for j := 0; j < steps && bad == ""; j++ {
		k := r.IntN(nk)
		t := cur[k]
		switch p := r.IntN(40); {
		case p < 8:
			put(k)
		case p < 14:
			x, ok := s.Load(k)
			if ok && (t == nil || dead(t) || x.ID() != t.id) || !ok && (live(t) || x != nil) {
				fail("Load(k%d) at %d ms = %v, model has %+v", k, now(), ok, t)
			}
			if ok {
				t.e = x
			} else {
				forget(k)
				left("Load", k, t)
			}
		case p < 19:
			d := dur()
			nt := store(k, d)
			x, ok := s.LoadOrStore(k, nt.id, d)
			switch {
			case x == nil:
				fail("LoadOrStore(k%d) returned no entry", k)
			case ok && (t == nil || dead(t) || x.ID() != t.id):
				fail("LoadOrStore(k%d) at %d ms loaded #%d, model has %+v", k, now(), x.ID(), t)
			case !ok && (live(t) || x.ID() != nt.id):
				fail("LoadOrStore(k%d) at %d ms stored #%d, model has %+v", k, now(), x.ID(), t)
			case ok:
				t.e = x
			default:
				left("LoadOrStore", k, t)
				nt.e = x
				cur[k] = nt
			}
		case p < 22:
			x, ok := s.LoadAndDelete(k)
			if ok && (t == nil || dead(t) || x.ID() != t.id) || !ok && (live(t) || x != nil) {
				fail("LoadAndDelete(k%d) at %d ms = %v, model has %+v", k, now(), ok, t)
			}
			forget(k)
			left("LoadAndDelete", k, t)
		case p < 24:
			s.Delete(k)
			forget(k)
			left("Delete", k, t)
		case p < 26:
			var x *bigEnt
			if ids > 0 {
				x = byID[1+r.IntN(ids)]
			}
			if t != nil && r.IntN(2) == 0 {
				x = t
			}
			if x == nil || x.e == nil {
				break
			}
			ok := s.CAD(k, x.e)
			if t == x && !ok && !withCB && !live(t) {
				forget(k) // expired, and removed by a call that was not followed
			} else if t == nil && ok && !withCB && x.key == k && !live(x) {
				// expired, and still there
			} else if ok != (t == x) {
				fail("CompareAndDelete(k%d, #%d) = %v, model has %+v", k, x.id, ok, t)
			} else if ok {
				forget(k)
				left("CompareAndDelete", k, t)
			}
		case p < 28:
			v := 1 + r.IntN(ids+1)
			if t != nil && r.IntN(2) == 0 {
				v = t.id
			}
			ok := s.CVAD(k, v)
			if ok && (t == nil || dead(t) || t.id != v) || !ok && live(t) && t.id == v {
				fail("CompareValueAndDelete(k%d, #%d) at %d ms = %v, model has %+v", k, v, now(), ok, t)
			}
			if ok {
				forget(k)
				left("CompareValueAndDelete", k, t)
			}
		case p < 30 && j%5 == 0:
			seen := map[int]bool{}
			stop := 0
			if r.IntN(4) == 0 {
				stop = 1 + r.IntN(nk)
			}
			s.Range(func(k int, x ent) bool {
				t := cur[k]
				if stop > 0 && len(seen) >= stop {
					fail("Range went on after the callback returned false at visit %d", stop)
				}
				if seen[k] {
					fail("Range visited k%d twice", k)
				}
				seen[k] = true
				if t == nil || dead(t) || x.ID() != t.id {
					fail("Range at %d ms visited k%d with #%d, model has %+v", now(), k, x.ID(), t)
				}
				return len(seen) != stop
			})
			if stop > 0 && len(seen) >= stop {
				c.Count("stopped_ranges", 1)
				break
			}
			for k, t := range cur {
				if live(t) && !seen[k] {
					fail("Range at %d ms missed k%d, model has %+v", now(), k, t)
				}
			}
		case p == 30 && r.IntN(20) == 0:
			old := make([]*bigEnt, 0, len(cur))
			for _, t := range cur {
				old = append(old, t)
			}
			s.Clear()
			for _, t := range old {
				left("Clear", t.key, t)
			}
			clear(cur)
		case p < 34:
			if t == nil || t.e == nil || !live(t) {
				break
			}
			const day = 24 * time.Hour
			d := []time.Duration{3 * time.Second, 20 * time.Second, -2 * time.Second, -time.Hour, 30 * day, 40 * day, 60 * day, 20000 * day, 1<<63 - 1}[r.IntN(9)]
			if r.IntN(6) == 0 {
				at := []time.Time{{}, time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)}[r.IntN(5)]
				t.exp = at.UnixMilli() - base
				t.e.Set(at)
				c.Count("far_expiries", 1)
			} else if r.IntN(2) == 0 {
				t.exp += d.Milliseconds()
				t.e.Add(d)
			} else {
				t.exp = now() + d.Milliseconds()
				t.e.Set(time.UnixMilli(base + t.exp))
			}
		default:
			if p > 36 && j%3 > 0 {
				break
			}
			d := time.Duration(1+r.IntN(6000)) * time.Millisecond
			if r.IntN(3) == 0 {
				d = 10*time.Second + 2*slack*time.Millisecond
			}
			t0 := now()
			background = true
			vsched.Advance(d)
			background = false
			if d > 10*time.Second && withCB {
				for _, t := range cur {
					if t.exp+slack < t0 {
						failBG("#%d expired at %d ms and is still there at %d ms", t.id, t.exp, now())
					}
				}
			}
			if !withCB {
				// expired entries may or may not be there
				for k, t := range cur {
					if dead(t) {
						delete(cur, k)
					}
				}
			}
		}
		c.Tick()
	}
	if bad == "" && withCB {
		old := make([]*bigEnt, 0, len(cur))
		for _, t := range cur {
			old = append(old, t)
		}
		s.Clear()
		for _, t := range old {
			left("Clear", t.key, t)
		}
		if len(cur) > 0 {
			failCB("after Clear %d entries got no callback", len(cur))
		}
	}
	if bad != "" && kind != what {
		c.Inconclusive("other-property")
		return
	}
	if bad != "" {
		c.Fail("big", "SyncCache[%s], %d keys: %s", variantName[variant], nk, bad)
	}
	c.Count("callbacks", int64(ncb))
	c.Count("background_removals", int64(nbg))
	c.Seen(kit.Hash("big", i, ids, ncb))
}

// manyCaches: up to 300 caches in the process, all trimmed.
func manyCaches(c *kit.C, i int, r *rand.Rand) {
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
	n := 20 + r.IntN(280)
	type one struct {
		s       S
		started bool
		removed int
	}
	var all []*one
	defer func() {
		for _, b := range all {
			b.s.Close()
		}
	}()
	for j := 0; j < n; j++ {
		b := &one{started: true}
		anyTrimTime(r)
		b.s = newCache(r.IntN(nVariants), false, func(int) { b.removed++ })
		all = append(all, b)
	}
	for round := 0; round < 3; round++ {
		before := make([]int, n)
		const per = 6
		for j, b := range all {
			b.s.Clear()
			for k := 0; k < per; k++ {
				b.s.Store(k, 1+k, time.Duration(k%2)*time.Hour)
			}
			before[j] = b.removed
			switch r.IntN(6) {
			case 0:
				b.s.Close()
				b.started = false
			case 1:
				b.s.Start()
				b.started = true
			case 2:
				b.s.Close()
				b.s.Start()
				b.started = true
			}
		}
		vsched.Advance(10*time.Second + 2*slack*time.Millisecond)
		for j, b := range all {
			want := per / 2
			if !b.started {
				want = 0
			}
			if got := b.removed - before[j]; got != want {
				c.Fail("many", "%d caches, round %d: cache %d (started: %v) had %d entries removed in the background, want %d", n, round, j, b.started, got, want)
			}
		}
		c.Tick()
	}
	c.Max("most_caches", int64(n))
	c.Seen(kit.Hash("many", i))
}

// crowd: one cache with tens of thousands of entries that all expire, next to a
// small one; two passes must be enough for both.
func crowd(c *kit.C, i int, r *rand.Rand) {
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
	n := []int{9000, 20000, 70000}[i%3]
	gone := map[int]int{}
	anyTrimTime(r)
	a := newCache(0, false, func(v int) { gone[v]++ })
	defer a.Close()
	left := 0
	b := newCache(1, false, func(int) { left++ })
	defer b.Close()
	live := 0
	for k := 1; k <= n; k++ {
		d := time.Duration(r.IntN(1000)) * time.Millisecond
		if k%7 == 0 {
			d, live = time.Hour, live+1
		}
		a.Store(k, k, d)
	}
	b.Store(1, 1, 0)
	vsched.Advance(11*time.Second + 2*slack*time.Millisecond)
	for k := 1; k <= n; k++ {
		if want := 1 - b2i(k%7 == 0); gone[k] != want {
			c.Fail("crowd", "cache with %d entries: #%d removed %d times by the background passes within 10 s of its expiry, want %d (%d were removed)", n, k, gone[k], want, len(gone))
		}
	}
	if left != 1 {
		c.Fail("crowd", "the second cache lost %d entries, want 1", left)
	}
	c.Max("most_entries", int64(n))
	c.Seen(kit.Hash("crowd", i))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
