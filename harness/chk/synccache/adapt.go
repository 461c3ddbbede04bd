package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"time"

	"github.com/zijiren233/gencontainer/synccache"
)

// ent is an entry handed out by a cache, seen through integer value ids.
type ent interface {
	ID() int
	Expired() bool
	Add(d time.Duration)
	Set(t time.Time)
	Same(o ent) bool
}

// S is a SyncCache seen through integer keys and value ids.
type S interface {
	Store(k, v int, d time.Duration)
	Load(k int) (ent, bool)
	LoadOrStore(k, v int, d time.Duration) (ent, bool)
	LoadAndDelete(k int) (ent, bool)
	Delete(k int)
	CAD(k int, e ent) bool
	CVAD(k, v int) bool
	Range(f func(k int, e ent) bool)
	Clear()
	Start()
	Close()
	Foreign(v int, d time.Duration) ent // an entry never stored in the cache
}

type entry[V any] struct {
	e  *synccache.Entry[V]
	vi func(V) int
}

func (e entry[V]) ID() int             { return e.vi(e.e.Value()) }
func (e entry[V]) Expired() bool       { return e.e.IsExpired() }
func (e entry[V]) Add(d time.Duration) { e.e.AddExpiration(d) }
func (e entry[V]) Set(t time.Time)     { e.e.SetExpiration(t) }
func (e entry[V]) Same(o ent) bool     { return e.e == o.(entry[V]).e }

type sc[K comparable, V any] struct {
	c  *synccache.SyncCache[K, V]
	kf func(int) K
	ki func(K) int
	vf func(int) V
	vi func(V) int
}

func (a *sc[K, V]) w(e *synccache.Entry[V], ok bool) (ent, bool) {
	if e == nil {
		return nil, ok
	}
	return entry[V]{e, a.vi}, ok
}
func (a *sc[K, V]) Store(k, v int, d time.Duration) { a.c.Store(a.kf(k), a.vf(v), d) }
func (a *sc[K, V]) Load(k int) (ent, bool)          { return a.w(a.c.Load(a.kf(k))) }
func (a *sc[K, V]) LoadOrStore(k, v int, d time.Duration) (ent, bool) {
	return a.w(a.c.LoadOrStore(a.kf(k), a.vf(v), d))
}
func (a *sc[K, V]) LoadAndDelete(k int) (ent, bool) { return a.w(a.c.LoadAndDelete(a.kf(k))) }
func (a *sc[K, V]) Delete(k int)                    { a.c.Delete(a.kf(k)) }
func (a *sc[K, V]) CAD(k int, e ent) bool           { return a.c.CompareAndDelete(a.kf(k), e.(entry[V]).e) }
func (a *sc[K, V]) CVAD(k, v int) bool              { return a.c.CompareValueAndDelete(a.kf(k), a.vf(v)) }
func (a *sc[K, V]) Range(f func(k int, e ent) bool) {
	a.c.Range(func(k K, e *synccache.Entry[V]) bool { return f(a.ki(k), entry[V]{e, a.vi}) })
}
func (a *sc[K, V]) Clear() { a.c.Clear() }
func (a *sc[K, V]) Start() { a.c.Start() }
func (a *sc[K, V]) Close() { a.c.Close() }
func (a *sc[K, V]) Foreign(v int, d time.Duration) ent {
	return entry[V]{synccache.NewEntry(a.vf(v), d), a.vi}
}

type rec struct {
	id int
	s  string
}

type key struct {
	a int8
	b string
}

var boxes = map[int]*int{}

func box(i int) *int {
	p := boxes[i]
	if p == nil {
		p = new(int)
		*p = i
		boxes[i] = p
	}
	return p
}

func id(i int) int { return i }

func sat(s string) int {
	n := 0
	fmt.Sscanf(s, "v%d", &n)
	return n
}

// trimTime is what caches are created with; what it says, the library takes care of every cache as promised.
var trimTime = time.Second

func anyTrimTime(r *rand.Rand) {
	trimTime = []time.Duration{time.Second, time.Second, time.Second, 0, -1, 1, time.Millisecond, 7 * time.Second, time.Minute, time.Hour, math.MaxInt64}[r.IntN(11)]
}

func mk[K comparable, V any](cb func(v int), zero bool, kf func(int) K, ki func(K) int, vf func(int) V, vi func(V) int) S {
	var conf []synccache.SyncCacheConfig[K, V]
	if cb != nil {
		conf = append(conf, synccache.WithDeletedCallback[K, V](func(v V) { cb(vi(v)) }))
	}
	a := &sc[K, V]{kf: kf, ki: ki, vf: vf, vi: vi}
	if zero && cb == nil {
		a.c = &synccache.SyncCache[K, V]{}
		a.c.Start()
	} else {
		a.c = synccache.NewSyncCache(trimTime, conf...)
	}
	return a
}

const nVariants = 5

var variantName = []string{"int,int", "string,string", "struct,struct", "any,*int", "int,any"}

// newCache makes a started cache; cb may be nil.
func newCache(variant int, zero bool, cb func(v int)) S {
	switch variant {
	case 0:
		return mk(cb, zero, id, id, id, id)
	case 1:
		return mk(cb, zero, func(i int) string { return fmt.Sprint("v", i) }, sat, func(i int) string { return fmt.Sprint("v", i) }, sat)
	case 2:
		return mk(cb, zero, func(i int) key { return key{int8(i), "k"} }, func(k key) int { return int(k.a) },
			func(i int) rec { return rec{i, "r"} }, func(r rec) int { return r.id })
	case 3:
		return mk(cb, zero, func(i int) any {
			if i == 0 {
				return nil
			}
			return i
		}, func(k any) int {
			if k == nil {
				return 0
			}
			return k.(int)
		}, box, func(p *int) int { return *p })
	}
	return mk(cb, zero, id, id, func(i int) any { return any(i) }, func(v any) int { return v.(int) })
}
