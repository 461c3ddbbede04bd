// Monitors for vec: C17 (edits, this file), C18 (order.go), C19 (alias.go).
package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C17": c17, "C18": c18, "C19": c19}) }

type big struct {
	a string
	b [4]int
}

// edits drives Vecs of T against plain slices. Elements are made from ids; un
// maps an element back.
type edits[T any] struct {
	c     *kit.C
	r     *rand.Rand
	o     *kit.Ops
	mk    func(int) T
	un    func(T) int
	v     []*vec.Vec[T]
	m     [][]int
	ids   int
	room  int
	every int
}

func newEdits[T any](c *kit.C, r *rand.Rand, mk func(int) T, un func(T) int, auto bool) runner {
	w := &edits[T]{c: c, r: r, o: c.NewOps(), mk: mk, un: un, room: 40, every: 1}
	for i := 0; i < 1+r.IntN(2); i++ {
		var v *vec.Vec[T]
		if auto && r.IntN(2) == 0 {
			v = new(vec.Vec[T])
		} else {
			v = vec.New(vec.WithCmpEqual(func(a, b T) bool { return un(a) == un(b) }), vec.WithCmpLess(func(a, b T) bool { return un(a) < un(b) }))
		}
		w.v = append(w.v, v)
		w.m = append(w.m, nil)
	}
	return w
}

type runner interface {
	run(n int)
	large()
}

func (w *edits[T]) large() { w.room, w.every = 3000, 40 }

func (w *edits[T]) uns(s []T) []int {
	out := make([]int, 0, len(s))
	for _, x := range s {
		out = append(out, w.un(x))
	}
	return out
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *edits[T]) zero(x T) bool {
	var z T
	return fmt.Sprintf("%#v", x) == fmt.Sprintf("%#v", z)
}

func (w *edits[T]) check(what string) {
	if w.every > 1 && w.r.IntN(w.every) > 0 {
		return
	}
	for vi, v := range w.v {
		m := w.m[vi]
		bad := func(format string, a ...any) {
			w.c.Fail("content", "vec %d after %s: %s; expected %v", vi, what, fmt.Sprintf(format, a...), m)
		}
		if v.Len() != len(m) {
			bad("Len() = %d", v.Len())
		}
		if v.IsEmpty() != (len(m) == 0) {
			bad("IsEmpty() = %v", v.IsEmpty())
		}
		if v.Cap() < len(m) {
			bad("Cap() = %d", v.Cap())
		}
		if s := w.uns(v.Slice()); !eq(s, m) {
			bad("Slice() = %v", s)
		}
		for i := range m {
			if x, ok := v.Get(i); !ok || w.un(x) != m[i] {
				bad("Get(%d) = %v, %v", i, x, ok)
			}
		}
		for _, i := range []int{-1, len(m), len(m) + w.r.IntN(50), v.Cap()} {
			if i >= 0 && i < len(m) {
				continue
			}
			if x, ok := v.Get(i); ok || !w.zero(x) {
				bad("Get(%d) = %v, %v", i, x, ok)
			}
		}
		f, fok := v.First()
		l, lok := v.Last()
		if len(m) == 0 {
			if fok || lok || !w.zero(f) || !w.zero(l) {
				bad("First() = %v, %v, Last() = %v, %v", f, fok, l, lok)
			}
		} else if !fok || !lok || w.un(f) != m[0] || w.un(l) != m[len(m)-1] {
			bad("First() = %v, %v, Last() = %v, %v", f, fok, l, lok)
		}
		stop := w.r.IntN(len(m) + 2)
		n := 0
		v.Range(func(i int, x T) bool {
			if i != n || n >= len(m) || w.un(x) != m[n] {
				bad("Range visit %d: %d, %v", n, i, x)
			}
			n++
			return i != stop
		})
		if n != min(len(m), stop+1) {
			bad("Range stopped at index %d made %d visits", stop, n)
		}
		i, j := w.r.IntN(len(m)+3)-1, w.r.IntN(len(m)+3)-1
		s := v.SliceCut(i, j)
		if i < 0 || j > len(m) || i > j {
			if s != nil {
				bad("SliceCut(%d, %d) = %v", i, j, s)
			}
		} else if !eq(w.uns(s), m[i:j]) {
			bad("SliceCut(%d, %d) = %v", i, j, s)
		}
	}
	w.c.Tick()
}

func (w *edits[T]) fresh(n int) (ts []T, is []int) {
	for i := 0; i < n; i++ {
		w.ids++
		id := w.ids
		if w.r.IntN(4) == 0 && w.ids > 2 {
			id = 1 + w.r.IntN(w.ids) // repeated values
		}
		ts = append(ts, w.mk(id))
		is = append(is, id)
	}
	return
}

// args are the values of an edit: fresh ones or part of a Vec's own storage.
func (w *edits[T]) args(vi int) (ts []T, is []int) {
	m := w.m[vi]
	if len(m) > 0 && len(m) < w.room && w.r.IntN(4) == 0 {
		i := w.r.IntN(len(m))
		j := i + w.r.IntN(len(m)-i+1)
		w.o.Op("own storage", i, j)
		return w.v[vi].Slice()[i:j], append([]int(nil), m[i:j]...)
	}
	n := w.r.IntN(4)
	if w.room > 1000 || w.r.IntN(10) == 0 {
		n = w.r.IntN(40)
	}
	return w.fresh(n)
}

func cat(parts ...[]int) []int {
	s := []int{}
	for _, p := range parts {
		s = append(s, p...)
	}
	return s
}

func (w *edits[T]) step() {
	r := w.r
	vi := r.IntN(len(w.v))
	v, m := w.v[vi], w.m[vi]
	n := len(m)
	idx := func() int { // any index, mostly valid
		switch r.IntN(8) {
		case 0:
			return -1 - r.IntN(3)
		case 1:
			return n + r.IntN(5)
		case 2:
			return max(n-1, 0)
		case 3:
			return 0
		}
		return r.IntN(n + 1)
	}
	name := ""
	removed := func(x T, ok bool, i int) {
		valid := i >= 0 && i < n
		if ok != valid || valid && w.un(x) != m[i] || !valid && !w.zero(x) {
			w.c.Fail("result", "%s at %d of %v = %v, %v", name, i, m, x, ok)
		}
		if valid {
			w.m[vi] = cat(m[:i], m[i+1:])
		}
	}
	chain := func(x *vec.Vec[T]) {
		if x == nil || !eq(w.uns(x.Slice()), w.m[vi]) {
			w.c.Fail("result", "%s does not return the Vec", name)
		}
	}
	k := r.IntN(24)
	if n > w.room && r.IntN(3) > 0 {
		k = 4 + r.IntN(6)
	}
	switch k {
	case 0, 1, 2:
		name = "Push"
		ts, is := w.args(vi)
		w.o.Op(name, append([]int{vi}, is...)...)
		x := v.Push(ts...)
		w.m[vi] = cat(m, is)
		chain(x)
	case 3:
		name = "Pop"
		w.o.Op(name, vi)
		x, ok := v.Pop()
		removed(x, ok, n-1)
	case 4, 5:
		name = "Remove"
		i := idx()
		w.o.Op(name, vi, i)
		x, ok := v.Remove(i)
		removed(x, ok, i)
	case 6, 7:
		name = "Cut"
		i, j := idx(), idx()
		if r.IntN(2) == 0 && i > j {
			i, j = j, i
		}
		w.o.Op(name, vi, i, j)
		got := w.uns(v.Cut(i, j))
		if i < 0 || j > n || i > j {
			if len(got) != 0 {
				w.c.Fail("result", "Cut(%d, %d) of %v = %v", i, j, m, got)
			}
		} else {
			if !eq(got, m[i:j]) {
				w.c.Fail("result", "Cut(%d, %d) of %v = %v", i, j, m, got)
			}
			w.m[vi] = cat(m[:i], m[j:])
		}
	case 8:
		name = "SplitOff"
		i := idx()
		w.o.Op(name, vi, i)
		x := v.SplitOff(i)
		want := []int{}
		if i >= 0 && i <= n {
			want = cat(m[i:])
			w.m[vi] = cat(m[:i])
		}
		if x == nil && len(want) > 0 || x != nil && !eq(w.uns(x.Slice()), want) {
			w.c.Fail("result", "SplitOff(%d) of %v = %v", i, m, x)
		}
		if x != nil && len(w.v) < 3 {
			w.v = append(w.v, x)
			w.m = append(w.m, want)
		}
	case 9:
		name = "Delete"
		i := r.IntN(n + 1)
		j := i + r.IntN(n-i+1)
		w.o.Op(name, vi, i, j)
		v.Delete(i, j)
		w.m[vi] = cat(m[:i], m[j:])
	case 10, 11, 12:
		name = "Insert"
		i := idx()
		ts, is := w.args(vi)
		w.o.Op(name, append([]int{vi, i}, is...)...)
		if i < 0 || i > n {
			// documented: panics
			if p := kit.Catch(func() { v.Insert(i, ts...) }); p == nil && len(ts) > 0 {
				w.c.Fail("result", "Insert at %d of a Vec of length %d did not panic", i, n)
			}
			break
		}
		x := v.Insert(i, ts...)
		w.m[vi] = cat(m[:i], is, m[i:])
		chain(x)
	case 13:
		name = "Set"
		i := idx()
		ts, is := w.fresh(1)
		w.o.Op(name, vi, i, is[0])
		ok := v.Set(i, ts[0])
		if ok != (i >= 0 && i < n) {
			w.c.Fail("result", "Set(%d) on length %d = %v", i, n, ok)
		}
		if ok {
			w.m[vi] = cat(m[:i], is, m[i+1:])
		}
	case 14, 15:
		name = "Swap"
		i, j := idx(), idx()
		w.o.Op(name, vi, i, j)
		v.Swap(i, j)
		if i >= 0 && i < n && j >= 0 && j < n {
			x := cat(m)
			x[i], x[j] = x[j], x[i]
			w.m[vi] = x
		}
	case 16, 17:
		name = "Replace"
		i := r.IntN(n + 1)
		j := i + r.IntN(n-i+1)
		ts, is := w.args(vi)
		w.o.Op(name, append([]int{vi, i, j}, is...)...)
		v.Replace(i, j, ts...)
		w.m[vi] = cat(m[:i], is, m[j:])
	case 18:
		name = "Reverse"
		w.o.Op(name, vi)
		x := v.Reverse()
		rev := cat(m)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		w.m[vi] = rev
		chain(x)
	case 19:
		if r.IntN(4) > 0 {
			return
		}
		name = "Clear"
		w.o.Op(name, vi)
		x := v.Clear()
		w.m[vi] = nil
		chain(x)
	case 20:
		name = "Grow"
		g := r.IntN(60)
		if w.every > 1 {
			g = r.IntN(5000)
		}
		w.o.Op(name, vi, g)
		x := v.Grow(g)
		chain(x)
		if v.Cap()-v.Len() < g {
			w.c.Fail("result", "after Grow(%d) Len() = %d, Cap() = %d", g, v.Len(), v.Cap())
		}
	case 21:
		name = "Clip"
		w.o.Op(name, vi)
		chain(v.Clip())
		if v.Cap() != v.Len() {
			w.c.Fail("result", "after Clip() Len() = %d, Cap() = %d", v.Len(), v.Cap())
		}
	case 22, 23:
		name = "ConpareAndRemove"
		i := idx()
		id := 1 + r.IntN(w.ids+1)
		if i >= 0 && i < n && r.IntN(2) == 0 {
			id = m[i]
		}
		w.o.Op(name, vi, i, id)
		x, ok := v.ConpareAndRemove(i, w.mk(id))
		if i >= 0 && i < n && m[i] == id {
			removed(x, ok, i)
		} else if ok || !w.zero(x) {
			w.c.Fail("result", "ConpareAndRemove(%d, %d) of %v = %v, %v", i, id, m, x, ok)
		}
	}
	w.check(name)
}

func r1(r *rand.Rand, n int) bool { return r.IntN(n) == 0 }

func (w *edits[T]) run(n int) {
	w.check("creation")
	for i := 0; i < n; i++ {
		if w.every > 1 && r1(w.r, 40) { // large: refill
			vi := w.r.IntN(len(w.v))
			if len(w.m[vi]) < w.room {
				ts, is := w.fresh(w.r.IntN(3000))
				w.o.Op("Push many", vi, len(ts))
				w.v[vi].Push(ts...)
				w.m[vi] = cat(w.m[vi], is)
				w.c.Max("most_elements", int64(len(w.m[vi])))
			}
		}
		w.step()
	}
	w.every = 1
	w.check("the end")
	for _, m := range w.m {
		w.c.Max("most_elements", int64(len(m)))
	}
	w.o.Done("vecs", w.o.N > 3)
}

func c17(c *kit.C) {
	id := func(i int) int { return i }
	one := func(i int, r *rand.Rand, n int, large bool) {
		var w runner
		switch i % 5 {
		case 0:
			w = newEdits(c, r, id, id, true)
		case 1:
			w = newEdits(c, r, func(i int) string { return fmt.Sprint("s", i) }, func(s string) (i int) {
				for _, b := range s[min(1, len(s)):] {
					i = i*10 + int(b-'0')
				}
				return
			}, true)
		case 2:
			w = newEdits(c, r, func(i int) big { return big{fmt.Sprint(i), [4]int{i, i, i, i}} }, func(b big) int {
				if b.b[0] != b.b[3] {
					return -7
				}
				return b.b[0]
			}, false)
		case 3:
			w = newEdits(c, r, func(i int) *int { return &i }, func(p *int) int {
				if p == nil {
					return -1
				}
				return *p
			}, false)
		case 4:
			w = newEdits(c, r, func(i int) any { return i }, func(a any) int {
				i, ok := a.(int)
				if !ok {
					return -1
				}
				return i
			}, false)
		}
		if large {
			w.large()
		}
		w.run(n)
	}
	c.Cases("ops", c.N(150000, 16), func(i int, r *rand.Rand) { one(i, r, 4+r.IntN(60), false) })
	c.Cases("large", c.N(400, 20), func(i int, r *rand.Rand) { one(i, r, 50+r.IntN(400), true) })
}
