// Monitor for ring (C26): random links and unlinks over a set of ring elements,
// against a model that keeps the circular sequences.
package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/ring"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C26": c26}) }

type world[T any] struct {
	c    *kit.C
	r    *rand.Rand
	o    *kit.Ops
	mk   func(int) T
	un   func(T) int
	e    []*ring.Ring[T]
	id   map[*ring.Ring[T]]int
	cyc  [][]int // the circular sequences
	in   []int   // which cycle an element is in
	val  []int
	used []bool // the element was touched (zero rings become initialised lazily)
}

func (w *world[T]) add(e *ring.Ring[T], v int) int {
	i := len(w.e)
	w.e = append(w.e, e)
	w.id[e] = i
	w.in = append(w.in, -1)
	w.val = append(w.val, v)
	return i
}

func (w *world[T]) setCycle(ci int, s []int) {
	w.cyc[ci] = s
	for _, i := range s {
		w.in[i] = ci
	}
}

func (w *world[T]) pos(i int) (cyc []int, at int) {
	cyc = w.cyc[w.in[i]]
	for k, j := range cyc {
		if j == i {
			return cyc, k
		}
	}
	panic("model")
}

// from returns the cycle starting at element i.
func (w *world[T]) from(i int) []int {
	cyc, at := w.pos(i)
	return append(append([]int(nil), cyc[at:]...), cyc[:at]...)
}

func (w *world[T]) expect(got *ring.Ring[T], want int, what string, n, from int, in []int) {
	if got == w.e[want] {
		return
	}
	id, ok := w.id[got]
	if !ok {
		id = -1 // nil or unknown
	}
	w.c.Fail("result", "%s %d from element %d of the ring %v returned element %d, want %d", what, n, from, in, id, want)
}

func (w *world[T]) checkFrom(i int) {
	s := w.from(i)
	e := w.e[i]
	n := len(s)
	k := w.r.IntN(6)
	if k == 0 { // first touch through different methods
		if l := e.Len(); l != n {
			w.c.Fail("len", "Len() from element %d = %d, want %d (%v)", i, l, n, s)
		}
	}
	if k == 1 {
		w.expect(e.Prev(), s[n-1], "Prev", 1, i, s)
	}
	if k == 2 {
		w.do(i, s)
	}
	if k == 3 {
		m := w.r.IntN(5*n+3) - 2*n - 1
		w.expect(e.Move(m), s[((m%n)+n)%n], "Move", m, i, s)
	}
	if k == 4 && w.r.IntN(20) == 0 { // many times round
		m := w.r.IntN(200001) - 100000
		w.expect(e.Move(m), s[((m%n)+n)%n], "Move", m, i, s)
	}
	p := e
	for j := 1; j <= n; j++ {
		p = p.Next()
		w.expect(p, s[j%n], "Next", j, i, s)
	}
	p = e
	for j := 1; j <= n; j++ {
		p = p.Prev()
		w.expect(p, s[n-j], "Prev", j, i, s)
	}
	if l := e.Len(); l != n {
		w.c.Fail("len", "Len() from element %d = %d, want %d (%v)", i, l, n, s)
	}
	w.do(i, s)
	for _, m := range []int{0, 1, -1, n, -n, n + 1, -n - 1, w.r.IntN(5*n+3) - 2*n} {
		w.expect(e.Move(m), s[((m%n)+n)%n], "Move", m, i, s)
	}
}

func (w *world[T]) do(i int, s []int) {
	j := 0
	w.e[i].Do(func(v T) {
		if j >= len(s) || w.un(v) != w.val[s[j]] {
			w.c.Fail("do", "Do from %d: visit %d has value %d, expected the elements %v", i, j, w.un(v), s)
		}
		j++
	})
	if j != len(s) {
		w.c.Fail("do", "Do from %d visited %d of %v", i, j, s)
	}
}

func (w *world[T]) check() {
	for _, s := range w.cyc {
		if len(s) > 0 {
			w.checkFrom(s[w.r.IntN(len(s))])
			if len(s) < 20 && w.r.IntN(4) == 0 {
				for _, i := range s {
					w.checkFrom(i)
				}
			}
		}
	}
	w.c.Tick()
}

func (w *world[T]) link(a, b int) {
	w.o.Op("Link", a, b)
	next := w.from(a)[1%len(w.from(a))]
	got := w.e[a].Link(w.e[b])
	w.expect(got, next, "Link", b, a, nil)
	if w.in[a] == w.in[b] {
		// split: the elements strictly between a and b leave
		s := w.from(a)
		k := 0
		for i, x := range s {
			if x == b {
				k = i
			}
		}
		ci := w.in[a]
		if a == b {
			k = len(s)
		}
		out := append([]int(nil), s[1:k]...)
		rest := append([]int{a}, s[k:]...)
		w.setCycle(ci, rest)
		if len(out) > 0 {
			w.cyc = append(w.cyc, nil)
			w.setCycle(len(w.cyc)-1, out)
		}
		return
	}
	sa, sb := w.from(a), w.from(b)
	ci, cj := w.in[a], w.in[b]
	n := append([]int{a}, sb...)
	n = append(n, sa[1:]...)
	w.setCycle(ci, n)
	w.cyc[cj] = nil
}

func (w *world[T]) unlink(a, n int) {
	w.o.Op("Unlink", a, n)
	s := w.from(a)
	got := w.e[a].Unlink(n)
	if n <= 0 {
		if got != nil {
			w.c.Fail("result", "Unlink(%d) returned an element", n)
		}
		return
	}
	k := n % len(s)
	if len(s) == 1 || k == 0 {
		// nothing to remove; what is returned then is not claimed
		return
	}
	w.expect(got, s[1], "Unlink", n, a, s)
	ci := w.in[a]
	w.setCycle(ci, append([]int{a}, s[k+1:]...))
	w.cyc = append(w.cyc, nil)
	w.setCycle(len(w.cyc)-1, append([]int(nil), s[1:k+1]...))
}

func (w *world[T]) create(n int) {
	if n == 0 { // a zero Ring
		w.o.Op("zero")
		e := new(ring.Ring[T])
		v := len(w.e) + 1
		e.Value = w.mk(v)
		i := w.add(e, v)
		w.cyc = append(w.cyc, nil)
		w.setCycle(len(w.cyc)-1, []int{i})
		return
	}
	w.o.Op("New", n)
	p := ring.New[T](n)
	if p == nil {
		w.c.Fail("new", "New(%d) returned nil", n)
	}
	var s []int
	q := p
	for k := 0; k < n; k++ {
		if _, dup := w.id[q]; dup {
			w.c.Fail("new", "New(%d) has only %d elements", n, k)
		}
		v := len(w.e) + 1
		q.Value = w.mk(v)
		s = append(s, w.add(q, v))
		q = q.Next()
	}
	if q != p {
		w.c.Fail("new", "New(%d) is not closed after %d elements", n, n)
	}
	w.cyc = append(w.cyc, nil)
	w.setCycle(len(w.cyc)-1, s)
}

func (w *world[T]) run(steps, size int) {
	for _, n := range []int{0, -1, -5} {
		if ring.New[T](n) != nil {
			w.c.Fail("new", "New(%d) is not nil", n)
		}
	}
	var nilRing *ring.Ring[T]
	if nilRing.Len() != 0 {
		w.c.Fail("nil", "Len of a nil ring is %d", nilRing.Len())
	}
	nilRing.Do(func(T) { w.c.Fail("nil", "Do of a nil ring calls its function") })
	w.create(w.r.IntN(size + 1))
	w.create(w.r.IntN(size + 1))
	for s := 0; s < steps; s++ {
		switch k := w.r.IntN(10); {
		case k == 0 && len(w.e) < 4*size+8:
			w.create(w.r.IntN(size + 1))
		case k < 5:
			a := w.r.IntN(len(w.e))
			b := w.r.IntN(len(w.e))
			if w.r.IntN(3) == 0 {
				f := w.from(a)
				b = f[w.r.IntN(min(3, len(f)))]
			}
			w.link(a, b)
		case k == 5:
			a := w.r.IntN(len(w.e))
			w.o.Op("Link nil", a)
			f := w.from(a)
			w.expect(w.e[a].Link(nil), f[1%len(f)], "Link(nil)", 0, a, f)
		case k < 9:
			a := w.r.IntN(len(w.e))
			f := w.from(a)
			n := w.r.IntN(len(f)+2) - 1
			if w.r.IntN(5) == 0 {
				n = w.r.IntN(4*len(f) + 3)
			}
			w.unlink(a, n)
		default:
			a := w.r.IntN(len(w.e))
			w.o.Op("set Value", a)
			w.val[a] += 1000
			w.e[a].Value = w.mk(w.val[a])
		}
		w.check()
	}
	w.o.Done("rings", w.o.N > 3)
}

func start[T any](c *kit.C, r *rand.Rand, mk func(int) T, un func(T) int) interface{ run(steps, size int) } {
	return &world[T]{c: c, r: r, o: c.NewOps(), mk: mk, un: un, id: map[*ring.Ring[T]]int{}}
}

func c26(c *kit.C) {
	one := func(i int, r *rand.Rand, steps, size int) {
		var w interface{ run(steps, size int) }
		switch i % 3 {
		case 0:
			w = start(c, r, func(i int) int { return i }, func(i int) int { return i })
		case 1:
			w = start(c, r, func(i int) string { return fmt.Sprint(i) }, func(s string) (i int) { fmt.Sscan(s, &i); return })
		case 2:
			w = start(c, r, func(i int) *int { return &i }, func(p *int) int {
				if p == nil {
					return 0
				}
				return *p
			})
		}
		w.run(steps, size)
	}
	c.Cases("ops", c.N(240000, 8), func(i int, r *rand.Rand) {
		one(i, r, 3+r.IntN(30), []int{1, 2, 3, 6, 12}[r.IntN(5)])
	})
	c.Cases("large", c.N(160, 20), func(i int, r *rand.Rand) { one(i, r, 20+r.IntN(60), 50+r.IntN(300)) })
	c.Cases("huge", c.N(32, 20), func(i int, r *rand.Rand) { one(i, r, 10+r.IntN(30), 400+r.IntN(5000)) })
}
