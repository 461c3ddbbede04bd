// C29: containers of many key and value types, alone and at every alignment
// inside user structs, driven against plain models. Built for a 32-bit target.
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"time"
	"unsafe"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"verif.local/h/kit"
)

type one struct{ m byte }
type three [3]byte
type five [5]int32
type mixed struct {
	a byte
	b int64
	c byte
}

// places are the ways a user may hold a container.
type placed[M any] struct {
	a  byte
	m1 M
	b  [3]byte
	m2 M
	c  int32
	m3 M
	d  struct {
		x byte
		m M
	}
}

func places[M any](r *rand.Rand) (*M, string) {
	switch r.IntN(8) {
	case 0:
		return new(M), "alone"
	case 1:
		p := new(placed[M])
		return &p.m1, "struct, after a byte"
	case 2:
		p := new(placed[M])
		return &p.m2, "struct, second"
	case 3:
		p := new(placed[M])
		return &p.m3, "struct, after an int32"
	case 4:
		p := new(placed[M])
		return &p.d.m, "nested struct"
	case 5:
		s := make([]M, 1+r.IntN(5))
		return &s[r.IntN(len(s))], "slice element"
	case 6:
		s := make([]placed[M], 1+r.IntN(3))
		return &s[r.IntN(len(s))].m2, "slice of structs"
	}
	p := new(struct {
		p1 *int
		m  M
	})
	return &p.m, "struct, after a pointer"
}

type kv[K comparable, V any] struct {
	name string
	k    func(int) K
	v    func(int) V
}

func eq[V any](a, b V) bool { return any(a) == any(b) }

func (t kv[K, V]) rwmap(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	m, where := places[rwmap.RWMap[K, V]](r)
	model := map[K]V{}
	nk := 1 + r.IntN(12)
	var zero V
	for s := 10 + r.IntN(60); s > 0; s-- {
		ki, vi := r.IntN(nk), r.IntN(9)
		k, v := t.k(ki), t.v(vi)
		cur, has := model[k]
		bad := func(what string, got ...any) {
			c.Fail("result", "RWMap[%s] %s: %s(%v, %v) = %v, the map had %v %v", t.name, where, what, k, v, got, cur, has)
		}
		got := func(what string, x V, ok bool) {
			o.Op(what, ki, vi)
			if ok != has || ok && !eq(x, cur) || !ok && !eq(x, zero) {
				bad(what, x, ok)
			}
		}
		switch r.IntN(11) {
		case 0:
			x, ok := m.Load(k)
			got("Load", x, ok)
		case 1, 2:
			o.Op("Store", ki, vi)
			m.Store(k, v)
			model[k] = v
		case 3:
			x, ok := m.Swap(k, v)
			got("Swap", x, ok)
			model[k] = v
		case 4:
			x, ok := m.LoadAndDelete(k)
			got("LoadAndDelete", x, ok)
			delete(model, k)
		case 5:
			x, ok := m.LoadOrStore(k, v)
			if !has {
				cur, model[k] = v, v
				if ok {
					bad("LoadOrStore", x, ok)
				}
				ok = true
				has = true
			}
			got("LoadOrStore", x, ok)
		case 6:
			o.Op("CompareAndSwap", ki, vi)
			n := t.v(r.IntN(9))
			want := has && eq(cur, v)
			if ok := m.CompareAndSwap(k, v, n); ok != want {
				bad("CompareAndSwap", ok)
			}
			if want {
				model[k] = n
			}
		case 7:
			o.Op("CompareAndDelete", ki, vi)
			want := has && eq(cur, v)
			if ok := m.CompareAndDelete(k, v); ok != want {
				bad("CompareAndDelete", ok)
			}
			if want {
				delete(model, k)
			}
		case 8:
			o.Op("Delete", ki)
			m.Delete(k)
			delete(model, k)
		case 9:
			o.Op("Range")
			n := 0
			m.Range(func(k K, v V) bool {
				if x, ok := model[k]; !ok || !eq(x, v) {
					bad("Range", k, v)
				}
				n++
				return true
			})
			if n != len(model) {
				bad("Range", n)
			}
		case 10:
			if r.IntN(5) == 0 {
				o.Op("Clear")
				m.Clear()
				clear(model)
			}
		}
		if l, sl := m.Len(), m.SlowLen(); l != int64(len(model)) || sl != int64(len(model)) {
			c.Fail("len", "RWMap[%s] %s: Len %d SlowLen %d, %d keys", t.name, where, l, sl, len(model))
		}
		c.Tick()
	}
	c.Count("rwmap."+where, 1)
	o.Op("types", int(kit.Hash(t.name, where)>>34))
	o.Done("RWMap["+t.name+"] "+where, o.N > 3)
}

// Expirations are hours away from the present, so that the real clock decides.
var ages = []time.Duration{time.Hour, 30 * 24 * time.Hour, 20000 * time.Hour, -time.Hour, -50 * 24 * time.Hour}

func (t kv[K, V]) cache(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	var m *synccache.SyncCache[K, V]
	where := "NewSyncCache"
	if r.IntN(2) == 0 {
		m = synccache.NewSyncCache[K, V](time.Second)
	} else {
		m, where = places[synccache.SyncCache[K, V]](r)
		if r.IntN(3) == 0 {
			m.Start()
		}
	}
	defer m.Close()
	type st struct {
		e   *synccache.Entry[V]
		v   V
		exp time.Duration // relative to the present
	}
	model := map[K]*st{}
	nk := 1 + r.IntN(6)
	for s := 10 + r.IntN(50); s > 0; s-- {
		ki, vi := r.IntN(nk), r.IntN(9)
		k, v := t.k(ki), t.v(vi)
		d := ages[r.IntN(len(ages))]
		cur := model[k]
		bad := func(what string, got ...any) {
			c.Fail("result", "SyncCache[%s] %s: %s(%v, %v) = %v, model %+v", t.name, where, what, k, v, got, cur)
		}
		live := cur != nil && cur.exp > 0
		look := func(what string, e *synccache.Entry[V], ok bool) {
			o.Op(what, ki, vi)
			if ok != live || ok && (e == nil || !eq(e.Value(), cur.v) || e.IsExpired()) || !ok && e != nil {
				bad(what, e, ok)
			}
			if ok {
				if cur.e != nil && cur.e != e {
					bad(what+" (another entry)", e, ok)
				}
				cur.e = e
				if uintptr(unsafe.Pointer(e)) == 0 {
					bad(what)
				}
			}
		}
		switch r.IntN(12) {
		case 0, 1:
			o.Op("Store", ki, vi, int(d/time.Hour))
			m.Store(k, v, d)
			model[k] = &st{v: v, exp: d}
		case 2, 3:
			e, ok := m.Load(k)
			look("Load", e, ok)
		case 4:
			e, ok := m.LoadOrStore(k, v, d)
			if live {
				look("LoadOrStore", e, ok)
			} else {
				o.Op("LoadOrStore", ki, vi, int(d/time.Hour))
				if ok || e == nil || !eq(e.Value(), v) || e.IsExpired() != (d < 0) {
					bad("LoadOrStore", e, ok)
				}
				model[k] = &st{e, v, d}
			}
		case 5:
			e, ok := m.LoadAndDelete(k)
			look("LoadAndDelete", e, ok)
			delete(model, k)
		case 6:
			o.Op("Delete", ki)
			m.Delete(k)
			delete(model, k)
		case 7:
			o.Op("CompareValueAndDelete", ki, vi)
			want := live && eq(cur.v, v)
			if ok := m.CompareValueAndDelete(k, v); ok != want {
				bad("CompareValueAndDelete", ok)
			}
			if want {
				delete(model, k)
			}
		case 8:
			if cur != nil && cur.e != nil && live {
				o.Op("CompareAndDelete", ki)
				if !m.CompareAndDelete(k, cur.e) {
					bad("CompareAndDelete", false)
				}
				delete(model, k)
			}
		case 9:
			if cur != nil && cur.e != nil && live {
				o.Op("AddExpiration", ki, int(d/time.Hour))
				if cur.exp+d == 0 {
					d += 5 * time.Hour
				}
				cur.e.AddExpiration(d)
				cur.exp += d
				if cur.e.IsExpired() != (cur.exp < 0) {
					bad("AddExpiration")
				}
			}
		case 10:
			if cur != nil && cur.e != nil && live {
				o.Op("SetExpiration", ki, int(d/time.Hour))
				cur.e.SetExpiration(time.Now().Add(d))
				cur.exp = d
				if cur.e.IsExpired() != (d < 0) {
					bad("SetExpiration")
				}
			}
		case 11:
			o.Op("Range")
			n := 0
			m.Range(func(k K, e *synccache.Entry[V]) bool {
				x := model[k]
				if x == nil || x.exp < 0 || !eq(x.v, e.Value()) {
					bad("Range", k, e.Value())
				}
				n++
				return true
			})
			for _, x := range model {
				if x.exp > 0 {
					n--
				}
			}
			if n != 0 {
				bad("Range visits", n)
			}
			if r.IntN(4) == 0 {
				o.Op("Clear")
				m.Clear()
				clear(model)
			}
		}
		c.Tick()
	}
	e := synccache.NewEntry(t.v(1), time.Hour)
	if e.IsExpired() {
		c.Fail("entry", "a new Entry[%s] with an hour to live is expired", t.name)
	}
	e.AddExpiration(-2 * time.Hour)
	if !e.IsExpired() {
		c.Fail("entry", "an Entry[%s] moved into the past is not expired", t.name)
	}
	c.Count("synccache."+where, 1)
	o.Op("types", int(kit.Hash(t.name, where)>>34))
	o.Done("SyncCache["+t.name+"] "+where, o.N > 3)
}

// a refresh cache through common functions
type rc[V any] struct {
	get, refresh  func() (V, error)
	clear         func() error
	last, lastErr func() int64
	maxAge, erAge func() int64
	raw           func() (V, error)
}

func (t kv[K, V]) refresh(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	ctx := context.Background()
	maxAge := []time.Duration{-1, time.Hour, 100 * 24 * time.Hour, 90000 * time.Hour, 0, 1}[r.IntN(6)]
	errAge := []time.Duration{0, time.Hour, 50000 * time.Hour}[r.IntN(3)]
	var next V
	var nerr error
	runs := 0
	fn := func() (V, error) { runs++; return next, nerr }
	var x rc[V]
	pkg := r.IntN(3)
	switch pkg {
	case 0:
		p := refreshcache.NewRefreshCache(func(context.Context, ...K) (V, error) { return fn() }, maxAge, refreshcache.WithErrAge[V, K](errAge))
		x = rc[V]{func() (V, error) { return p.Get(ctx) }, func() (V, error) { return p.Refresh(ctx, t.k(1)) }, func() error { return p.Clear(ctx) }, p.Last, p.LastErr, p.MaxAge, p.MaxErrAge, p.Raw}
	case 1:
		p := refreshcache0.NewRefreshCache(func(context.Context) (V, error) { return fn() }, maxAge, refreshcache0.WithErrAge[V](errAge))
		x = rc[V]{func() (V, error) { return p.Get(ctx) }, func() (V, error) { return p.Refresh(ctx) }, func() error { return p.Clear(ctx) }, p.Last, p.LastErr, p.MaxAge, p.MaxErrAge, p.Raw}
	case 2:
		p := refreshcache1.NewRefreshCache(func(context.Context, K) (V, error) { return fn() }, maxAge, refreshcache1.WithErrAge[V, K](errAge))
		x = rc[V]{func() (V, error) { return p.Get(ctx, t.k(1)) }, func() (V, error) { return p.Refresh(ctx, t.k(2)) }, func() error { return p.Clear(ctx, t.k(0)) }, p.Last, p.LastErr, p.MaxAge, p.MaxErrAge, p.Raw}
	}
	name := fmt.Sprintf("refreshcache%d[%s] maxAge %v errAge %v", pkg, t.name, maxAge, errAge)
	if x.maxAge() != int64(maxAge) || x.erAge() != int64(errAge) {
		c.Fail("age", "%s: MaxAge %d MaxErrAge %d", name, x.maxAge(), x.erAge())
	}
	long := maxAge < 0 || maxAge > time.Minute
	state := 0 // 1 fresh value, 2 fresh error
	var val V
	var serr error
	for s := 5 + r.IntN(30); s > 0; s-- {
		vi := r.IntN(9)
		next, nerr = t.v(vi), nil
		if r.IntN(4) == 0 {
			nerr = errors.New("failure")
		}
		before, t0 := runs, time.Now().UnixNano()
		check := func(what string, v V, err error, wantRuns int, wv V, werr error, judgeV bool) {
			o.Op(what, vi)
			if runs-before != wantRuns || err != werr || judgeV && !eq(v, wv) {
				c.Fail("result", "%s: %s = %v, %v after %d runs; want %v, %v after %d", name, what, v, err, runs-before, wv, werr, wantRuns)
			}
		}
		ran := func() {
			if nerr == nil {
				if l := x.last(); l < t0 || l > time.Now().UnixNano() || x.lastErr() != 0 {
					c.Fail("last", "%s: Last %d LastErr %d after a success at %d", name, l, x.lastErr(), t0)
				}
				state = 0
				if long {
					state, val = 1, next
				}
				return
			}
			if l := x.lastErr(); l < t0 || l > time.Now().UnixNano() || x.last() != 0 {
				c.Fail("last", "%s: Last %d LastErr %d after a failure at %d", name, x.last(), l, t0)
			}
			state = 0
			if errAge > 0 {
				state, serr = 2, nerr
			}
		}
		switch r.IntN(6) {
		case 0, 1, 2:
			v, err := x.get()
			switch {
			case state == 1:
				check("Get", v, err, 0, val, nil, true)
			case state == 2:
				check("Get", v, err, 0, val, serr, false)
			case maxAge == 1:
				// one nanosecond: either way
				if runs != before {
					ran()
				}
			default:
				check("Get", v, err, 1, next, nerr, nerr == nil)
				ran()
			}
		case 3:
			v, err := x.refresh()
			check("Refresh", v, err, 1, next, nerr, nerr == nil)
			ran()
		case 4:
			if err := x.clear(); err != nil {
				c.Fail("result", "%s: Clear = %v", name, err)
			}
			o.Op("Clear")
			if state == 1 {
				state = 0
			}
			if x.last() != 0 {
				c.Fail("last", "%s: Last %d after Clear", name, x.last())
			}
		case 5:
			if state == 1 {
				v, err := x.raw()
				check("Raw", v, err, 0, val, nil, true)
			}
		}
		c.Tick()
	}
	o.Op("types", int(kit.Hash(name)>>34))
	o.Done(name, o.N > 3)
}

type runner interface {
	rwmap(*kit.C, *rand.Rand)
	cache(*kit.C, *rand.Rand)
	refresh(*kit.C, *rand.Rand)
}

func ki(i int) int { return i*7919 - 3 }

func vals[K comparable](kn string, k func(int) K) []runner {
	return []runner{
		kv[K, bool]{kn + ",bool", k, func(i int) bool { return i%2 == 0 }},
		kv[K, byte]{kn + ",byte", k, func(i int) byte { return byte(i) }},
		kv[K, int16]{kn + ",int16", k, func(i int) int16 { return int16(i) }},
		kv[K, int32]{kn + ",int32", k, func(i int) int32 { return int32(i) << 20 }},
		kv[K, int64]{kn + ",int64", k, func(i int) int64 { return int64(i) << 40 }},
		kv[K, float64]{kn + ",float64", k, func(i int) float64 { return float64(i) }},
		kv[K, string]{kn + ",string", k, func(i int) string { return fmt.Sprint(i) }},
		kv[K, three]{kn + ",[3]byte", k, func(i int) three { return three{byte(i), 1} }},
		kv[K, five]{kn + ",[5]int32", k, func(i int) five { return five{int32(i)} }},
		kv[K, mixed]{kn + ",struct", k, func(i int) mixed { return mixed{byte(i), int64(i) << 33, 1} }},
		kv[K, struct{}]{kn + ",struct{}", k, func(i int) struct{} { return struct{}{} }},
		kv[K, any]{kn + ",any", k, func(i int) any { return i }},
		kv[K, complex128]{kn + ",complex128", k, func(i int) complex128 { return complex(float64(i), 1) }},
		kv[K, uintptr]{kn + ",uintptr", k, func(i int) uintptr { return uintptr(i) }},
	}
}

func main() {
	var all []runner
	all = append(all, vals("int", ki)...)
	all = append(all, vals("int64", func(i int) int64 { return int64(i)<<32 | 5 })...)
	all = append(all, vals("string", func(i int) string { return fmt.Sprint("k", i) })...)
	all = append(all, vals("byte", func(i int) one { return one{byte(i)} })...)
	all = append(all, vals("[3]byte", func(i int) three { return three{1, byte(i)} })...)
	all = append(all, vals("any", func(i int) any { return mixed{b: int64(i) << 31} })...)
	kit.Main(map[string]func(*kit.C){"C29": func(c *kit.C) {
		if c.Leg == "386-answers" {
			c.Cases("answers", c.N(9600, 20), func(i int, r *rand.Rand) { answers(c, i, r) })
			return
		}
		c.Count("int_bits", int64(unsafe.Sizeof(int(0))*8))
		pick := func(i int) runner { return all[i%len(all)] }
		c.Cases("rwmap", c.N(12000, 20), func(i int, r *rand.Rand) { pick(i).rwmap(c, r) })
		c.Cases("synccache", c.N(12000, 20), func(i int, r *rand.Rand) { pick(i).cache(c, r) })
		c.Cases("refresh", c.N(12000, 20), func(i int, r *rand.Rand) { pick(i).refresh(c, r) })
	}})
}
