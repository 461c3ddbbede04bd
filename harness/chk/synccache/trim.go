package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"time"
	"weak"

	"github.com/zijiren233/gencontainer/synccache"
	"verif.local/h/kit"
	"verif.local/h/vsched"
)

type tracked struct {
	id      int
	key     int
	exp     int64 // ms
	removed bool  // callback ran
	over    bool  // overwritten
}

type box9 struct {
	s       S
	started bool
	since   int64
	ents    map[int]*tracked // by id
	cur     map[int]*tracked // by key
	hand    map[int]ent
	variant int
}

// trimSeq: several caches, sequential driver, exact expiries.
func trimSeq(c *kit.C, i int, r *rand.Rand) {
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
	base := vsched.NowNs() / 1e6
	now := func() int64 { return vsched.NowNs()/1e6 - base }
	var caches []*box9
	nextID := 0
	phase := "" // "", "background" or a foreground call
	var bad string
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	type fg struct {
		b  *box9
		id int
	}
	bgRemoved := 0
	add := func() {
		b := &box9{started: true, since: now(), ents: map[int]*tracked{}, cur: map[int]*tracked{}, hand: map[int]ent{}, variant: r.IntN(nVariants)}
		idx := len(caches)
		anyTrimTime(r)
		b.s = newCache(b.variant, false, func(v int) {
			t := b.ents[v]
			switch {
			case t == nil:
				fail("cache %d: callback for #%d which was never stored there", idx, v)
			case t.removed:
				fail("cache %d: second callback for #%d", idx, v)
			case t.over:
				fail("cache %d: callback for #%d which had been overwritten", idx, v)
			default:
				t.removed = true
			}
			if phase == "background" {
				bgRemoved++
				if !b.started {
					fail("cache %d is closed, but the background pass removed #%d at %d ms", idx, v, now())
				}
				if t != nil && now() < t.exp-slack {
					fail("cache %d: background pass at %d ms removed #%d, which expires only at %d ms", idx, now(), v, t.exp)
				}
			}
			if t != nil && b.cur[t.key] == t {
				delete(b.cur, t.key)
			}
		})
		caches = append(caches, b)
	}
	for n := 1 + r.IntN(5); n > 0; n-- {
		add()
	}
	defer func() {
		for _, b := range caches {
			b.s.Close()
		}
	}()
	check := func() {
		if bad != "" {
			c.Fail("trim", "%s", bad)
		}
		for x, b := range caches {
			if !b.started {
				continue
			}
			for _, t := range b.ents {
				from := max(t.exp, b.since)
				if !t.removed && !t.over && now()-from > 10000+slack {
					c.Fail("not-reclaimed", "cache %d SyncCache[%s] (started at %d ms): #%d expired at %d ms, still not removed at %d ms", x, variantName[b.variant], b.since, t.id, t.exp, now())
				}
			}
		}
	}
	steps := 10 + r.IntN(40)
	for j := 0; j < steps; j++ {
		b := caches[r.IntN(len(caches))]
		phase = "call"
		switch p := r.IntN(20); {
		case p < 7: // store
			nextID++
			k := r.IntN(4)
			d := []time.Duration{0, 50 * time.Millisecond, time.Second, 4 * time.Second, 7 * time.Second, 13 * time.Second, 30 * time.Second, 1000 * time.Hour}[r.IntN(8)]
			t := &tracked{id: nextID, key: k, exp: now() + d.Milliseconds()}
			if o := b.cur[k]; o != nil {
				o.over = true
			}
			b.ents[t.id], b.cur[k] = t, t
			b.s.Store(k, t.id, d)
			c.Logf("@%d Store(k%d,#%d,%v)", now(), k, t.id, d)
			if r.IntN(2) == 0 && d > 0 {
				e, ok := b.s.Load(k)
				if !ok || e.ID() != t.id {
					c.Fail("trim", "Load(k%d) misses #%d just stored for %v", k, t.id, d)
				}
				b.hand[t.id] = e
			}
		case p < 9: // look up, remembering the handle
			k := r.IntN(4)
			e, ok := b.s.Load(k)
			c.Logf("@%d Load(k%d) = %v", now(), k, ok)
			t := b.cur[k]
			if ok && (t == nil || e.ID() != t.id || now() > t.exp+slack) {
				c.Fail("trim", "Load(k%d) at %d ms returned #%d, expected %v", k, now(), e.ID(), t)
			}
			if !ok && t != nil && now() < t.exp-slack {
				c.Fail("trim", "Load(k%d) at %d ms misses #%d which expires at %d ms", k, now(), t.id, t.exp)
			}
			if ok {
				b.hand[t.id] = e
			}
		case p < 11: // extend or shorten
			for id := nextID; id > 0; id-- {
				e, t := b.hand[id], b.ents[id]
				if e == nil {
					continue
				}
				if t.removed || t.over || now() > t.exp-slack {
					continue
				}
				d := []time.Duration{3 * time.Second, 20 * time.Second, -2 * time.Second}[r.IntN(3)]
				if r.IntN(2) == 0 {
					e.Add(d)
					t.exp += d.Milliseconds()
				} else {
					t.exp = now() + d.Milliseconds()
					e.Set(time.UnixMilli(base + t.exp))
				}
				c.Logf("@%d extend #%d to %d", now(), id, t.exp)
				c.Count("extensions", 1)
				break
			}
		case p < 12:
			b.s.Close()
			b.started = false
			c.Logf("@%d Close", now())
		case p < 14:
			b.s.Start()
			if !b.started {
				b.since = now()
			}
			b.started = true
			c.Logf("@%d Start", now())
		case p < 15 && len(caches) < 8:
			add()
		default:
			d := []time.Duration{20 * time.Millisecond, 700 * time.Millisecond, 2 * time.Second, 4900 * time.Millisecond, 6 * time.Second, 10500 * time.Millisecond, 21 * time.Second}[r.IntN(7)]
			phase = "background"
			vsched.Advance(d)
			c.Logf("@%d after Advance(%v)", now(), d)
		}
		check()
	}
	phase = "background"
	for j := 0; j < 3; j++ {
		vsched.Advance(3600 * time.Millisecond)
		check()
	}
	c.Count("background_removals", int64(bgRemoved))
	c.Count("caches", int64(len(caches)))
	c.Max("most_caches", int64(len(caches)))
	c.Seen(kit.Hash("ts", i, nextID, bgRemoved))
	if c.WantSample() {
		c.Sample(fmt.Sprintf("case %d: %d caches, %d entries stored, %d removed in the background over %d ms of virtual time", i, len(caches), nextID, bgRemoved, now()))
	}
}

// reclaim: without a callback, removal shows in the values becoming garbage.
func reclaim(c *kit.C, i int, r *rand.Rand) {
	type blob [512]byte
	anyTrimTime(r)
	s := synccache.NewSyncCache[int, *blob](trimTime)
	if r.IntN(2) == 0 {
		s = &synccache.SyncCache[int, *blob]{}
		s.Start()
	}
	defer s.Close()
	n := 60
	var short, long []weak.Pointer[blob]
	func() {
		for k := 0; k < n; k++ {
			b := new(blob)
			b[0] = byte(k)
			if k%2 == 0 {
				s.Store(k, b, time.Duration(r.IntN(3000))*time.Millisecond)
				short = append(short, weak.Make(b))
			} else {
				s.Store(k, b, time.Hour)
				long = append(long, weak.Make(b))
			}
		}
	}()
	vsched.Advance(14 * time.Second)
	runtime.GC()
	runtime.GC()
	freed, lost := 0, 0
	for _, w := range short {
		if w.Value() == nil {
			freed++
		}
	}
	for _, w := range long {
		if w.Value() == nil {
			lost++
		}
	}
	if freed*2 < len(short) {
		c.Fail("not-reclaimed", "11 s after expiry only %d of %d expired values have been released", freed, len(short))
	}
	if lost > 0 {
		c.Fail("lost", "%d of %d live values were released", lost, len(long))
	}
	for k := 1; k < n; k += 2 {
		if e, ok := s.Load(k); !ok || e.Value()[0] != byte(k) {
			c.Fail("lost", "live entry %d is gone after a background pass", k)
		}
	}
	c.Count("values_released", int64(freed))
	c.Seen(kit.Hash("rc", i))
}

// trimCtl: the background pass interleaved with users of the cache.
func trimCtl(c *kit.C, i int, r *rand.Rand) {
	e := &env{c: c, base: vsched.NowNs() / 1e6, curOp: map[int]*op{}, hasCB: true}
	anyTrimTime(r)
	e.s = newCache(r.IntN(nVariants), false, e.callback)
	defer e.s.Close()
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond)
	e.base = vsched.NowNs() / 1e6
	type ctlOp struct {
		call, ret int64
		close     bool
	}
	var ctl []ctlOp
	var h []op
	mix := [][]kind{{oStore, oStore, oLoad, oTick}, {oStore, oLoad, oSetExp, oAddExp, oTick}, {oLOS, oStore, oTick, oLoad}}[r.IntN(3)]
	for j := 1 + r.IntN(6); j > 0; j-- {
		o := e.gen(r, mix, 2)
		e.exec(r, &o, -1)
		c.Logf("%v", o)
		if !o.skipped {
			h = append(h, o)
		}
	}
	nt := 2 + r.IntN(2)
	withClose := r.IntN(2) == 0
	threads := make([][]op, nt)
	fns := make([]func(), nt)
	for t := range threads {
		for j := 1 + r.IntN(4); j > 0; j-- {
			o := e.gen(r, mix, 2)
			if t == 0 && r.IntN(2) == 0 {
				o = op{k: oTick, d: []time.Duration{5 * time.Second, 5500 * time.Millisecond, 10 * time.Second}[r.IntN(3)]}
			}
			threads[t] = append(threads[t], o)
		}
		tr := rand.New(rand.NewPCG(r.Uint64(), 2))
		ops := threads[t]
		fns[t] = func() {
			for j := range ops {
				if withClose && t == nt-1 && tr.IntN(2) == 0 {
					x := ctlOp{call: e.stamp(), close: tr.IntN(3) != 0}
					if x.close {
						e.s.Close()
					} else {
						e.s.Start()
					}
					x.ret = e.stamp()
					ctl = append(ctl, x)
				}
				e.exec(tr, &ops[j], t)
			}
		}
	}
	res := vsched.Run(r.Uint64(), vsched.PickStrategy(r, 20), 40000, fns...)
	if len(res.Panics) > 0 {
		c.Fail("panic", "%s", res.Panics[0])
	}
	if res.Deadlock != "" {
		c.Fail("deadlock", "%s", res.Deadlock)
	}
	if res.StepLimit {
		c.Inconclusive("step-limit")
		return
	}
	for t := range threads {
		for _, o := range threads[t] {
			if !o.skipped {
				h = append(h, o)
				c.Logf("%v", o)
			}
		}
	}
	for _, x := range ctl {
		c.Logf("%+v", x)
	}
	c.Count("steps", int64(res.Steps))
	closed := func(call, ret int64) bool { // definitely closed throughout [call, ret]
		for _, x := range ctl {
			if !x.close || x.ret >= call {
				continue
			}
			reopened := false
			for _, y := range ctl {
				if !y.close && y.call > x.call && y.call < ret {
					reopened = true
				}
			}
			if !reopened {
				return true
			}
		}
		return false
	}
	hist := func() string {
		var b strings.Builder
		for _, x := range ctl {
			fmt.Fprintf(&b, "%+v; ", x)
		}
		return fmtHist(h) + b.String()
	}
	// Expiry bounds of each entry.
	bounds := func(id int, before int64) (lo int64, known bool) {
		for _, o := range h {
			if (o.k == oStore || o.k == oLOS && !o.ok) && o.id == id {
				lo, known = o.c0+o.d.Milliseconds(), true
			}
		}
		for _, o := range h {
			if (o.k == oAddExp || o.k == oSetExp) && o.id == id {
				known = false // handled only when not extended (see oracle C07)
			}
		}
		return
	}
	nb := 0
	judge := func(o *op) {
		for _, ev := range o.cbs {
			nb++
			if closed(o.call, ev.at) {
				c.Fail("trim-after-close", "background pass removed #%d although the cache was closed: %s", ev.id, hist())
			}
			if lo, known := bounds(ev.id, o.call); known && ev.nowMs < lo-slack {
				c.Fail("trim-live", "background pass at %d ms removed #%d which expires at %d ms or later: %s", ev.nowMs, ev.id, lo, hist())
			}
		}
	}
	for j := range h {
		if h[j].k == oTick {
			judge(&h[j])
		}
	}
	// Extended entries: those whose extension completed before a pass began stay.
	for j := range h {
		x := &h[j]
		if x.k != oSetExp && x.k != oAddExp {
			continue
		}
		only := true
		for _, y := range h {
			if (y.k == oSetExp || y.k == oAddExp) && y.id == x.id && y.call != x.call {
				only = false
			}
		}
		var lo int64
		if x.k == oSetExp {
			lo = x.setTo
		} else {
			for _, o := range h {
				if (o.k == oStore || o.k == oLOS && !o.ok) && o.id == x.id {
					lo = o.c0 + o.d.Milliseconds() + x.d.Milliseconds()
				}
			}
		}
		if !only {
			continue
		}
		for _, o := range h {
			if o.k == oTick && o.call > x.ret {
				for _, ev := range o.cbs {
					if ev.id == x.id && ev.nowMs < lo-slack {
						c.Fail("trim-extended", "background pass at %d ms removed #%d which had been extended to %d ms: %s", ev.nowMs, ev.id, lo, hist())
					}
				}
			}
		}
	}
	// Afterwards everything expired goes away within 10 s once started.
	e.s.Start()
	// Whatever is stored now and dead must be gone after 10 s.
	o := op{k: oTick, d: 10100 * time.Millisecond}
	t0 := e.now()
	e.exec(r, &o, final)
	c.Logf("%v", o)
	h = append(h, o)
	gone := map[int]bool{}
	for _, x := range h {
		for _, ev := range x.cbs {
			gone[ev.id] = true
		}
	}
	for k := 0; k < 2; k++ {
		// The entry stored last without any concurrent store on this key.
		var lastStore *op
		amb := false
		for j := range h {
			x := &h[j]
			if x.key != k || x.k != oStore && !(x.k == oLOS && !x.ok) {
				continue
			}
			if lastStore == nil || x.call > lastStore.ret {
				lastStore = x
				amb = false
			} else if x.ret > lastStore.call {
				amb = true
				if x.ret > lastStore.ret {
					lastStore = x
				}
			}
		}
		if lastStore == nil || amb {
			continue
		}
		ext := false
		for _, y := range h {
			if (y.k == oSetExp || y.k == oAddExp) && y.id == lastStore.id {
				ext = true
			}
		}
		hi := lastStore.c1 + lastStore.d.Milliseconds()
		if !ext && hi+slack < t0 && !gone[lastStore.id] {
			c.Fail("not-reclaimed", "#%d expired at %d ms and is still not removed at %d ms: %s", lastStore.id, hi, e.now(), hist())
		}
		if !ext && lastStore.c0+lastStore.d.Milliseconds()-slack > e.now() && gone[lastStore.id] && !deletedBy(h, lastStore.id) {
			c.Fail("trim-live", "#%d was removed although it is live: %s", lastStore.id, hist())
		}
	}
	c.Count("background_removals", int64(nb))
	if overlaps(h) > 0 {
		c.Seen(kit.Hash(res.Hash, hist()))
	}
	if c.WantSample() && nb > 0 {
		c.Sample(fmt.Sprintf("case %d: %s", i, hist()))
	}
}

// deletedBy reports whether a foreground call ran the callback for id.
func deletedBy(h []op, id int) bool {
	for _, o := range h {
		if o.k == oTick {
			continue
		}
		for _, ev := range o.cbs {
			if ev.id == id {
				return true
			}
		}
	}
	return false
}

func trimming(c *kit.C) {
	c.Cases("seq", c.N(12000, 5), func(i int, r *rand.Rand) { trimSeq(c, i, r) })
	c.Cases("reclaim", c.N(64, 10), func(i int, r *rand.Rand) { reclaim(c, i, r) })
	c.Cases("big", c.N(240, 20), func(i int, r *rand.Rand) { big(c, i, r, "C09") })
	c.Cases("crowd", c.N(6, 3), func(i int, r *rand.Rand) { crowd(c, i, r) })
	c.Cases("many", c.N(80, 20), func(i int, r *rand.Rand) { manyCaches(c, i, r) })
	c.Cases("ctl", c.N(80000, 5), func(i int, r *rand.Rand) { trimCtl(c, i, r) })
}
