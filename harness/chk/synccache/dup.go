package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
	"verif.local/h/kit"
	"verif.local/h/vsched"
)

// equalValues runs concurrent calls on one key whose entries never expire and
// often hold equal values: what the calls return must be explained by one plain
// map of values, whichever of the equal entries is stored.
func equalValues(c *kit.C, i int, r *rand.Rand) {
	type dop struct {
		k         kind
		v, got    int
		ok        bool
		call, ret int64
	}
	var clock int64
	stamp := func() int64 { clock++; return clock }
	var conf []synccache.SyncCacheConfig[int, int]
	if i%2 == 0 {
		conf = append(conf, synccache.WithDeletedCallback[int, int](func(int) {}))
	}
	m := synccache.NewSyncCache(time.Minute, conf...)
	defer m.Close()
	nv := 1 + r.IntN(2)
	mix := [][]kind{
		{oStore, oCVAD, oCVAD, oLoad},
		{oStore, oStore, oCVAD, oLOS, oLAD, oLoad},
		{oStore, oCVAD, oDelete, oLOS, oLAD},
	}[r.IntN(3)]
	exec := func(o *dop) {
		o.call = stamp()
		switch o.k {
		case oStore:
			m.Store(1, o.v, time.Hour)
		case oLoad:
			if e, ok := m.Load(1); ok {
				o.got, o.ok = e.Value(), true
			}
		case oLOS:
			e, ok := m.LoadOrStore(1, o.v, time.Hour)
			o.got, o.ok = e.Value(), ok
		case oLAD:
			if e, ok := m.LoadAndDelete(1); ok {
				o.got, o.ok = e.Value(), true
			}
		case oDelete:
			m.Delete(1)
		case oCVAD:
			o.ok = m.CompareValueAndDelete(1, o.v)
		}
		o.ret = stamp()
	}
	var h []*dop
	first := &dop{k: oStore, v: 1 + r.IntN(nv)}
	exec(first)
	h = append(h, first)
	if r.IntN(2) == 0 {
		m.Load(1)
		m.Range(func(int, *synccache.Entry[int]) bool { return true })
	}
	nt, total := 2+r.IntN(2), 0
	fns := make([]func(), nt)
	for t := range fns {
		var ops []*dop
		for j := 1 + r.IntN(4); j > 0; j-- {
			o := &dop{k: mix[r.IntN(len(mix))], v: 1 + r.IntN(nv)}
			ops = append(ops, o)
			h = append(h, o)
		}
		total += len(ops)
		fns[t] = func() {
			for _, o := range ops {
				exec(o)
			}
		}
	}
	strat := vsched.PickStrategy(r, total*2)
	res := vsched.Run(r.Uint64(), strat, 40000, fns...)
	if len(res.Panics) > 0 {
		c.Fail("panic", "%s", res.Panics[0])
	}
	if res.Deadlock != "" {
		c.Fail("deadlock", "%s", res.Deadlock)
	}
	if res.StepLimit {
		c.Inconclusive("step-limit")
		return
	}
	last := &dop{k: oLoad}
	exec(last)
	h = append(h, last)
	kops := make([]kit.Op, len(h))
	var b strings.Builder
	for j, o := range h {
		kops[j] = kit.Op{Call: o.call, Ret: o.ret}
		fmt.Fprintf(&b, "[%d,%d] %s(%d)=%d,%v; ", o.call, o.ret, kindName[o.k], o.v, o.got, o.ok)
	}
	// The state is the stored value, 0 if there is none.
	ok, concl, _, best := kit.Lin(0, kops, func(s, j int) []int {
		o := h[j]
		to, fits := s, true
		switch o.k {
		case oStore:
			to = o.v
		case oLoad:
			fits = o.ok == (s != 0) && o.got == s
		case oLOS:
			if s == 0 {
				to = o.v
			}
			fits = o.ok == (s != 0) && o.got == to
		case oLAD:
			to, fits = 0, o.ok == (s != 0) && o.got == s
		case oDelete:
			to = 0
		case oCVAD:
			if fits = o.ok == (s == o.v); o.ok {
				to = 0
			}
		}
		if !fits {
			return nil
		}
		return []int{to}
	}, 300000)
	if !concl {
		c.Inconclusive("linearizability-limit")
		return
	}
	c.Count("equal_value_histories", 1)
	c.Seen(kit.Hash(res.Hash, b.String()))
	if !ok {
		c.Fail("not-linearizable", "SyncCache with equal values under one key, nothing expires, %v: %s longest explainable prefix (indexes): %v", strat, b.String(), best)
	}
}
