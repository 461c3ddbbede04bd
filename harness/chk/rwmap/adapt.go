package main

import (
	"fmt"
	"math"

	"github.com/zijiren233/gencontainer/rwmap"
)

// M is an RWMap seen through integer keys and value ids, so that one oracle
// serves every instantiation.
type M interface {
	Load(k int) (int, bool)
	Store(k, v int)
	Swap(k, v int) (int, bool)
	LoadOrStore(k, v int) (int, bool)
	LoadAndDelete(k int) (int, bool)
	Delete(k int)
	CAS(k, o, n int) bool
	CAD(k, o int) bool
	Range(f func(k, v int) bool)
	Clear()
	Len() int64
	SlowLen() int64
	Norm(v int) int // id a value is observed as
}

type rw[K comparable, V any] struct {
	m  *rwmap.RWMap[K, V]
	kf func(int) K
	ki func(K) int
	vf func(int) V
	vi func(V) int
}

func (a *rw[K, V]) res(v V, ok bool) (int, bool) {
	if !ok {
		// the value of a miss must be the zero value
		var z V
		if any(v) != any(z) {
			return -999, false
		}
		return 0, false
	}
	return a.vi(v), true
}
func (a *rw[K, V]) Load(k int) (int, bool)    { return a.res(a.m.Load(a.kf(k))) }
func (a *rw[K, V]) Store(k, v int)            { a.m.Store(a.kf(k), a.vf(v)) }
func (a *rw[K, V]) Swap(k, v int) (int, bool) { return a.res(a.m.Swap(a.kf(k), a.vf(v))) }
func (a *rw[K, V]) LoadOrStore(k, v int) (int, bool) {
	x, l := a.m.LoadOrStore(a.kf(k), a.vf(v))
	return a.vi(x), l
}
func (a *rw[K, V]) LoadAndDelete(k int) (int, bool) { return a.res(a.m.LoadAndDelete(a.kf(k))) }
func (a *rw[K, V]) Delete(k int)                    { a.m.Delete(a.kf(k)) }
func (a *rw[K, V]) CAS(k, o, n int) bool            { return a.m.CompareAndSwap(a.kf(k), a.vf(o), a.vf(n)) }
func (a *rw[K, V]) CAD(k, o int) bool               { return a.m.CompareAndDelete(a.kf(k), a.vf(o)) }
func (a *rw[K, V]) Range(f func(k, v int) bool) {
	a.m.Range(func(k K, v V) bool { return f(a.ki(k), a.vi(v)) })
}
func (a *rw[K, V]) Clear()         { a.m.Clear() }
func (a *rw[K, V]) Len() int64     { return a.m.Len() }
func (a *rw[K, V]) SlowLen() int64 { return a.m.SlowLen() }
func (a *rw[K, V]) Norm(v int) int { return a.vi(a.vf(v)) }

type pt struct {
	a int16
	b string
}
type big struct {
	x [7]int
	s string
}
type holder[K comparable, V any] struct { // embedding at an odd offset
	tag bool
	m   rwmap.RWMap[K, V]
}

var ptrs [1 << 14]*int

func init() {
	for i := range ptrs {
		v := i
		ptrs[i] = &v
	}
}

const nVariants = 9

var variantName = [nVariants]string{"int,int", "string,string", "any,any", "struct,big struct", "int,*int", "int,struct{}", "uint8,float64", "*int,any(embedded)", "int,int(small values)"}

func newMap(variant int) M {
	id := func(i int) int { return i }
	switch variant {
	case 1:
		return &rw[string, string]{new(rwmap.RWMap[string, string]),
			func(i int) string { return fmt.Sprint("k", i) }, func(s string) (i int) { fmt.Sscanf(s, "k%d", &i); return },
			func(i int) string { return fmt.Sprint("v", i) }, func(s string) (i int) { fmt.Sscanf(s, "v%d", &i); return }}
	case 2:
		return &rw[any, any]{new(rwmap.RWMap[any, any]), anyKey, unAnyKey, anyVal, unAnyVal}
	case 3:
		return &rw[pt, big]{new(rwmap.RWMap[pt, big]),
			func(i int) pt { return pt{int16(i), "x"} }, func(p pt) int { return int(p.a) },
			func(i int) big { return big{x: [7]int{i, 1, 2, 3, 4, 5, i}, s: "s"} },
			func(b big) int {
				if b == (big{}) {
					return 0
				}
				if b.x[0] != b.x[6] || b.x[3] != 3 || b.s != "s" {
					return -998 // torn
				}
				return b.x[0]
			}}
	case 4:
		return &rw[int, *int]{new(rwmap.RWMap[int, *int]), id, id,
			func(i int) *int { return ptrs[i] }, func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			}}
	case 5:
		return &rw[int, struct{}]{new(rwmap.RWMap[int, struct{}]), id, id,
			func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 }}
	case 6:
		return &rw[uint8, float64]{new(rwmap.RWMap[uint8, float64]),
			func(i int) uint8 { return uint8(i * 37) }, func(u uint8) int {
				for i := 0; i < 256; i++ {
					if uint8(i*37) == u {
						return i
					}
				}
				return -1
			},
			func(i int) float64 { return float64(i) / 4 }, func(f float64) int { return int(math.Round(f * 4)) }}
	case 7:
		h := new(holder[*int, any])
		return &rw[*int, any]{&h.m, func(i int) *int { return ptrs[i] }, func(p *int) int { return *p }, anyVal, unAnyVal}
	case 8:
		return &rw[int, int]{new(rwmap.RWMap[int, int]), id, id, func(i int) int { return i % 2 }, id}
	}
	return &rw[int, int]{new(rwmap.RWMap[int, int]), id, id, id, id}
}

func anyKey(i int) any {
	switch i % 4 {
	case 0:
		return i
	case 1:
		return fmt.Sprint("k", i)
	case 2:
		return pt{int16(i), "k"}
	}
	return ptrs[i]
}

func unAnyKey(k any) int {
	switch x := k.(type) {
	case int:
		return x
	case string:
		var i int
		fmt.Sscanf(x, "k%d", &i)
		return i
	case pt:
		return int(x.a)
	case *int:
		return *x
	}
	return -1
}

func anyVal(i int) any {
	if i == 0 || i%5 == 4 {
		return nil
	}
	switch i % 5 {
	case 0:
		return i
	case 1:
		return int64(i)
	case 2:
		return fmt.Sprint(i)
	}
	return pt{int16(i), "v"}
}

func unAnyVal(v any) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	case int64:
		return int(x)
	case string:
		var i int
		fmt.Sscan(x, &i)
		return i
	case pt:
		return int(x.a)
	}
	return -997
}

// capKeys is the number of distinct keys a variant can have, at most n.
func capKeys(variant, n int) int {
	if variant == 6 {
		return min(n, 200)
	}
	return n
}
