// Monitor for lhashmap (C16): several maps against an ordered association list.
package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/lhashmap"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C16": c16}) }

type kv struct{ k, v int }

type runner interface {
	run(n int)
	large()
}

type world[K comparable, V any] struct {
	c     *kit.C
	r     *rand.Rand
	o     *kit.Ops
	kf    func(int) K
	ki    func(K) int
	vf    func(int) V
	vi    func(V) int
	m     []*lhashmap.Lhashmap[K, V]
	s     [][]kv // most recent first
	nk    int
	every int // check every so many operations
}

func mk[K comparable, V any](c *kit.C, r *rand.Rand, kf func(int) K, ki func(K) int, vf func(int) V, vi func(V) int) runner {
	w := &world[K, V]{c: c, r: r, o: c.NewOps(), kf: kf, ki: ki, vf: vf, vi: vi, nk: []int{1, 2, 4, 9, 40}[r.IntN(5)]}
	for i := 0; i < 1+r.IntN(2); i++ {
		if r.IntN(2) == 0 {
			w.m = append(w.m, lhashmap.New[K, V]())
		} else {
			w.m = append(w.m, lhashmap.New(lhashmap.WithCap[K, V](r.IntN(70))))
		}
		w.s = append(w.s, nil)
	}
	return w
}

func (w *world[K, V]) find(mi, k int) int {
	for i, e := range w.s[mi] {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (w *world[K, V]) drop(mi, i int) kv {
	e := w.s[mi][i]
	w.s[mi] = append(append([]kv(nil), w.s[mi][:i]...), w.s[mi][i+1:]...)
	return e
}

func (w *world[K, V]) check() {
	if w.every > 1 && w.r.IntN(w.every) > 0 {
		return
	}
	for mi, m := range w.m {
		s := w.s[mi]
		if m.Len() != len(s) {
			w.c.Fail("len", "map %d: Len() = %d, want %v", mi, m.Len(), s)
		}
		for round := 0; round < 2; round++ {
			stop := -1
			if round == 1 {
				if len(s) == 0 {
					break
				}
				stop = w.r.IntN(len(s))
			}
			var got []kv
			m.Range(func(k K, v V) bool {
				got = append(got, kv{w.ki(k), w.vi(v)})
				if len(got) > len(s)+3 {
					return false
				}
				return len(got)-1 != stop
			})
			want := s
			if stop >= 0 {
				want = s[:stop+1]
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				w.c.Fail("range", "map %d: Range (stop at visit %d) visited %v, want %v", mi, stop, got, want)
			}
		}
	}
	w.c.Tick()
}

func (w *world[K, V]) run(n int) {
	var ids int
	for i := 0; i < n; i++ {
		mi := w.r.IntN(len(w.m))
		m := w.m[mi]
		k := w.r.IntN(w.nk)
		if len(w.s[mi]) > 0 && w.r.IntN(3) == 0 { // the ends
			k = w.s[mi][(len(w.s[mi])-1)*w.r.IntN(2)].k
		}
		j := w.find(mi, k)
		op := w.r.IntN(11)
		if w.every > 1 { // large: fill, use, drain
			switch {
			case i < n/3:
				op = w.r.IntN(8)
				k = w.r.IntN(w.nk)
			case i > 3*n/4 && w.r.IntN(2) == 0 && len(w.s[mi]) > 0:
				op = 7
				k = w.s[mi][w.r.IntN(len(w.s[mi]))].k
			}
			w.c.Max("most_elements", int64(len(w.s[mi])))
			j = w.find(mi, k)
		}
		switch op {
		case 0, 1, 2, 3:
			ids++
			w.o.Op("Store", mi, k, ids)
			m.Store(w.kf(k), w.vf(ids))
			if j >= 0 {
				w.drop(mi, j)
			}
			w.s[mi] = append([]kv{{k, w.vi(w.vf(ids))}}, w.s[mi]...)
		case 4, 5, 6:
			w.o.Op("Load", mi, k)
			v, ok := m.Load(w.kf(k))
			if ok != (j >= 0) {
				w.c.Fail("load", "Load(%d) = _, %v on %v", k, ok, w.s[mi])
			}
			if ok {
				e := w.drop(mi, j)
				if w.vi(v) != e.v {
					w.c.Fail("load", "Load(%d) = %d, want %d", k, w.vi(v), e.v)
				}
				w.s[mi] = append([]kv{e}, w.s[mi]...)
			} else {
				var z V
				if any(v) != any(z) {
					w.c.Fail("load", "Load of an absent key returned %v", v)
				}
			}
		case 7, 8, 9:
			w.o.Op("Remove", mi, k)
			m.Remove(w.kf(k))
			if j >= 0 {
				w.drop(mi, j)
			}
		case 10:
			if w.r.IntN(5*max(1, w.every)) == 0 {
				w.o.Op("Clear", mi)
				m.Clear()
				w.s[mi] = nil
			}
		}
		w.check()
	}
	w.o.Done("maps", w.o.N > 3)
}

func (w *world[K, V]) large() {
	w.nk = 100 + w.r.IntN(3000)
	w.every = 100
}

type st struct {
	a int32
	b string
}

func c16(c *kit.C) {
	id := func(i int) int { return i }
	ss := func(i int) string { return fmt.Sprint("s", i) }
	us := func(s string) (i int) { fmt.Sscanf(s, "s%d", &i); return }
	one := func(i int, r *rand.Rand, large bool) {
		var w runner
		switch i % 5 {
		case 0, 1:
			w = mk(c, r, id, id, id, id)
		case 2:
			w = mk(c, r, ss, us, ss, us)
		case 3:
			w = mk(c, r, func(i int) any {
				if i == 0 {
					return nil
				}
				if i%2 == 0 {
					return i
				}
				return ss(i)
			}, func(a any) int {
				switch a := a.(type) {
				case int:
					return a
				case string:
					return us(a)
				}
				return 0
			}, func(i int) *int { return &i }, func(p *int) int {
				if p == nil {
					return -1
				}
				return *p
			})
		case 4:
			w = mk(c, r, func(i int) st { return st{int32(i), "x"} }, func(s st) int { return int(s.a) }, func(i int) struct{} { return struct{}{} }, func(struct{}) int { return 0 })
		}
		if large {
			w.large()
			w.run(200 + r.IntN(12000))
		} else {
			w.run(4 + r.IntN(70))
		}
	}
	c.Cases("ops", c.N(150000, 16), func(i int, r *rand.Rand) { one(i, r, false) })
	c.Cases("large", c.N(240, 20), func(i int, r *rand.Rand) { one(i, r, true) })
}
