package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

// C19: a family of Vecs and slices derived from each other by Clone,
// CloneToSlice, SplitOff and Cut; every edit of one must leave all others as
// they are, and every Vec must compare as recorded when it was made or set.
type member[T any] struct {
	v    *vec.Vec[T] // or
	s    []T
	want []int
	less int // which comparison the Vec must use
	eq   int
	from string
}

type family[T any] struct {
	c    *kit.C
	r    *rand.Rand
	o    *kit.Ops
	mk   func(int) T
	un   func(T) int
	m    []*member[T]
	auto bool // the built-in comparison exists for T
	ids  int
	big  int // up to this many elements to start with
}

// comparison modes: 0 built-in (numeric), 1.. user functions
func cmpLess(mode, a, b int) bool {
	switch mode {
	case 1:
		return a > b
	case 2:
		return a%10 < b%10
	case 3:
		return a%7 < b%7
	}
	return a < b
}

func cmpEq(mode, a, b int) bool {
	switch mode {
	case 1:
		return a/2 == b/2
	case 2:
		return a%10 == b%10
	case 3:
		return a%7 == b%7
	}
	return a == b
}

func (f *family[T]) lessOf(mode int) func(T, T) bool {
	return func(a, b T) bool { return cmpLess(mode, f.un(a), f.un(b)) }
}

func (f *family[T]) eqOf(mode int) func(T, T) bool {
	return func(a, b T) bool { return cmpEq(mode, f.un(a), f.un(b)) }
}

func (f *family[T]) vals(n int) (ts []T, is []int) {
	for i := 0; i < n; i++ {
		f.ids++
		ts = append(ts, f.mk(f.ids))
		is = append(is, f.ids)
	}
	return
}

func (f *family[T]) check(what string, compare bool) {
	for i, m := range f.m {
		var got []int
		s := m.s
		if m.v != nil {
			s = m.v.Slice()
		}
		for _, x := range s {
			got = append(got, f.un(x))
		}
		if !eq(got, m.want) {
			f.c.Fail("aliasing", "after %s member %d (made by %s) has %v, want %v", what, i, m.from, got, m.want)
		}
		if m.v != nil && compare {
			a, b := f.r.IntN(60), f.r.IntN(60)
			if m.less >= 0 && m.v.CmpLess(f.mk(a), f.mk(b)) != cmpLess(m.less, a, b) {
				f.c.Fail("comparison", "after %s member %d (made by %s): CmpLess(%d, %d) is not that of order %d", what, i, m.from, a, b, m.less)
			}
			if m.eq >= 0 && m.v.CmpEqual(f.mk(a), f.mk(b)) != cmpEq(m.eq, a, b) {
				f.c.Fail("comparison", "after %s member %d (made by %s): CmpEqual(%d, %d) is not that of order %d", what, i, m.from, a, b, m.eq)
			}
		}
	}
	f.c.Tick()
}

func (f *family[T]) add(m *member[T]) {
	if len(f.m) < 8 {
		f.m = append(f.m, m)
	} else {
		f.m[1+f.r.IntN(7)] = m
	}
}

func (f *family[T]) edit(k int) string {
	m := f.m[k]
	r := f.r
	n := len(m.want)
	if m.v == nil {
		switch {
		case n > 0 && r.IntN(2) == 0:
			i := r.IntN(n)
			ts, is := f.vals(1)
			f.o.Op("slice set", k, i)
			m.s[i] = ts[0]
			m.want = cat(m.want)
			m.want[i] = is[0]
			return "assigning to a slice"
		default:
			ts, is := f.vals(1 + r.IntN(3))
			f.o.Op("slice append", k, len(ts))
			m.s = append(m.s, ts...)
			m.want = cat(m.want, is)
			return "appending to a slice"
		}
	}
	v := m.v
	switch r.IntN(11) {
	case 0, 1:
		ts, is := f.vals(1 + r.IntN(4))
		f.o.Op("Push", k, len(ts))
		v.Push(ts...)
		m.want = cat(m.want, is)
	case 2:
		f.o.Op("Reverse", k)
		v.Reverse()
		m.want = cat(m.want)
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			m.want[i], m.want[j] = m.want[j], m.want[i]
		}
	case 3:
		if n == 0 {
			return ""
		}
		i := r.IntN(n)
		ts, is := f.vals(1)
		f.o.Op("Set", k, i)
		v.Set(i, ts[0])
		m.want = cat(m.want[:i], is, m.want[i+1:])
	case 4:
		i := r.IntN(n + 1)
		ts, is := f.vals(1 + r.IntN(3))
		f.o.Op("Insert", k, i, len(ts))
		v.Insert(i, ts...)
		m.want = cat(m.want[:i], is, m.want[i:])
	case 5:
		if n == 0 {
			return ""
		}
		i := r.IntN(n)
		f.o.Op("Remove", k, i)
		v.Remove(i)
		m.want = cat(m.want[:i], m.want[i+1:])
	case 6:
		f.o.Op("Clear", k)
		v.Clear()
		m.want = nil
	case 7:
		if n < 2 {
			return ""
		}
		i, j := r.IntN(n), r.IntN(n)
		f.o.Op("Swap", k, i, j)
		v.Swap(i, j)
		m.want = cat(m.want)
		m.want[i], m.want[j] = m.want[j], m.want[i]
	case 8:
		i := r.IntN(n + 1)
		j := i + r.IntN(n-i+1)
		f.o.Op("Delete", k, i, j)
		v.Delete(i, j)
		m.want = cat(m.want[:i], m.want[j:])
	case 9:
		i := r.IntN(n + 1)
		j := i + r.IntN(n-i+1)
		ts, is := f.vals(r.IntN(4))
		f.o.Op("Replace", k, i, j, len(ts))
		v.Replace(i, j, ts...)
		m.want = cat(m.want[:i], is, m.want[j:])
	case 10:
		g := r.IntN(30)
		f.o.Op("Grow", k, g)
		v.Grow(g)
		if r.IntN(2) == 0 {
			v.Clip()
		}
	}
	return "editing a Vec"
}

func (f *family[T]) derive(k int) string {
	m := f.m[k]
	r := f.r
	if m.v == nil {
		return ""
	}
	n := len(m.want)
	switch r.IntN(4) {
	case 0:
		f.o.Op("Clone", k)
		f.add(&member[T]{v: m.v.Clone(), want: cat(m.want), less: m.less, eq: m.eq, from: "Clone"})
		return "Clone"
	case 1:
		f.o.Op("CloneToSlice", k)
		f.add(&member[T]{s: m.v.CloneToSlice(), want: cat(m.want), from: "CloneToSlice"})
		return "CloneToSlice"
	case 2:
		i := r.IntN(n + 1)
		f.o.Op("SplitOff", k, i)
		x := m.v.SplitOff(i)
		tail := cat(m.want[i:])
		m.want = cat(m.want[:i])
		f.add(&member[T]{v: x, want: tail, less: m.less, eq: m.eq, from: "SplitOff"})
		return "SplitOff"
	}
	i := r.IntN(n + 1)
	j := i + r.IntN(n-i+1)
	f.o.Op("Cut", k, i, j)
	s := m.v.Cut(i, j)
	mid := cat(m.want[i:j])
	m.want = cat(m.want[:i], m.want[j:])
	f.add(&member[T]{s: s, want: mid, from: "Cut"})
	return "Cut"
}

func (f *family[T]) compare(k int) string {
	m := f.m[k]
	if m.v == nil {
		return ""
	}
	switch f.r.IntN(4) {
	case 0, 1:
		m.less = f.r.IntN(4)
		f.o.Op("SetCmpLess", k, m.less)
		m.v.SetCmpLess(f.lessOf(m.less))
		return "SetCmpLess"
	case 2:
		m.eq = f.r.IntN(4)
		f.o.Op("SetCmpEqual", k, m.eq)
		m.v.SetCmpEqual(f.eqOf(m.eq))
		return "SetCmpEqual"
	}
	return ""
}

func (f *family[T]) run(steps int) {
	m := &member[T]{from: "New", less: -1, eq: -1}
	switch {
	case f.r.IntN(3) == 0:
		m.v = vec.New[T]()
	case f.r.IntN(2) == 0:
		m.v = new(vec.Vec[T])
	default:
		m.less, m.eq = f.r.IntN(4), f.r.IntN(4)
		m.v = vec.New(vec.WithCmpLess(f.lessOf(m.less)), vec.WithCmpEqual(f.eqOf(m.eq)))
	}
	if f.auto && m.less < 0 {
		m.less, m.eq = 0, 0
	}
	f.m = append(f.m, m)
	ts, is := f.vals(f.r.IntN(max(20, f.big)))
	f.c.Max("most_elements", int64(len(ts)))
	m.v.Push(ts...)
	m.want = is
	if f.r.IntN(3) == 0 {
		m.v.Grow(f.r.IntN(100 + 2*f.big))
	}
	for s := 0; s < steps; s++ {
		k := f.r.IntN(len(f.m))
		what := ""
		switch f.r.IntN(6) {
		case 0:
			what = f.compare(k)
		case 1, 2:
			what = f.derive(k)
		default:
			what = f.edit(k)
		}
		// Compare only now and then: a comparison may itself settle lazily
		// detected functions.
		f.check(what, f.r.IntN(4) == 0)
	}
	f.check("the end", true)
	f.o.Done("family of vecs", len(f.m) > 1)
}

func c19(c *kit.C) {
	one := func(i int, r *rand.Rand, n, big0 int) {
		id := func(i int) int { return i }
		switch i % 4 {
		case 0, 1:
			(&family[int]{c: c, r: r, o: c.NewOps(), big: big0, mk: id, un: id, auto: true}).run(n)
		case 2:
			(&family[big]{c: c, r: r, o: c.NewOps(), big: big0, mk: func(i int) big { return big{fmt.Sprint(i), [4]int{i}} }, un: func(b big) int { return b.b[0] }}).run(n)
		case 3:
			(&family[*int]{c: c, r: r, o: c.NewOps(), big: big0, mk: func(i int) *int { return &i }, un: func(p *int) int {
				if p == nil {
					return -1
				}
				return *p
			}, auto: true}).run(n)
		}
	}
	c.Cases("families", c.N(600000, 5), func(i int, r *rand.Rand) { one(i, r, 4+r.IntN(40), 0) })
	c.Cases("large", c.N(3200, 6), func(i int, r *rand.Rand) { one(i, r, 4+r.IntN(60), []int{300, 1200, 5000}[r.IntN(3)]) })
}
