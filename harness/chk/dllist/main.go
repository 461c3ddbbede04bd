// Monitors for dllist: C14 (sequence and handles) and C15 (sort, bulk inserts).
//
// Several lists are driven side by side; a model keeps, per list, the sequence
// of handles. After every operation every list is read through every accessor.
package main

import (
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
	"verif.local/h/kit"
)

func main() {
	kit.Main(map[string]func(*kit.C){"C14": c14, "C15": c15})
}

type item struct{ key, seq int }

type h[T any] struct {
	e   *dllist.Element[T]
	id  int
	own int // list index, -1: in no list
	n   int // name
}

type world[T any] struct {
	c     *kit.C
	r     *rand.Rand
	o     *kit.Ops
	mk    func(int) T
	un    func(T) int
	l     []*dllist.Dllist[T]
	m     [][]*h[T]
	all   []*h[T]
	by    map[*dllist.Element[T]]*h[T]
	ids   int
	names int
	nkeys int
	stale int // stale or foreign handles used
	every int // check every so many operations
	room  int
	loose bool // C15: handles that left a list are not looked at again
}

func newWorld[T any](c *kit.C, r *rand.Rand, mk func(int) T, un func(T) int) *world[T] {
	w := &world[T]{c: c, r: r, o: c.NewOps(), mk: mk, un: un, by: map[*dllist.Element[T]]*h[T]{}, nkeys: 1 + r.IntN(9)}
	for i := 0; i < 1+r.IntN(3); i++ {
		if r.IntN(2) == 0 {
			w.l = append(w.l, new(dllist.Dllist[T]))
		} else {
			w.l = append(w.l, dllist.New[T]())
		}
		w.m = append(w.m, nil)
	}
	return w
}

func (w *world[T]) name() int { w.names++; return w.names - 1 }

func (w *world[T]) id() int { w.ids++; return w.ids*w.nkeys + w.r.IntN(w.nkeys) }

// adopt registers an element the library created.
func (w *world[T]) adopt(e *dllist.Element[T], id, own int, what string) *h[T] {
	if e == nil {
		w.c.Fail("handle", "%s returned a nil handle", what)
	}
	if w.by[e] != nil {
		w.c.Fail("handle", "%s returned a handle that is already in use", what)
	}
	x := &h[T]{e: e, id: id, own: own, n: w.name()}
	w.all = append(w.all, x)
	w.by[e] = x
	return x
}

func (w *world[T]) pick() *h[T] {
	if w.loose {
		for try := 0; try < 20; try++ {
			if s := w.m[w.r.IntN(len(w.m))]; len(s) > 0 {
				return s[w.r.IntN(len(s))]
			}
		}
	}
	// Mostly recent or live handles, sometimes any that ever existed.
	if len(w.all) == 0 || w.r.IntN(40) == 0 {
		// a user-made element that never was in a list
		x := &h[T]{e: &dllist.Element[T]{}, id: w.id(), own: -1, n: w.name()}
		x.e.Value = w.mk(x.id)
		w.all = append(w.all, x)
		w.by[x.e] = x
		return x
	}
	if w.r.IntN(4) > 0 {
		li := w.r.IntN(len(w.m))
		if s := w.m[li]; len(s) > 0 {
			switch w.r.IntN(4) {
			case 0:
				return s[0]
			case 1:
				return s[len(s)-1]
			}
			return s[w.r.IntN(len(s))]
		}
	}
	return w.all[w.r.IntN(len(w.all))]
}

func (w *world[T]) pos(x *h[T]) int {
	for i, y := range w.m[x.own] {
		if y == x {
			return i
		}
	}
	return -1
}

func (w *world[T]) ins(li, at int, x *h[T]) {
	s := append([]*h[T](nil), w.m[li][:at]...)
	s = append(s, x)
	w.m[li] = append(s, w.m[li][at:]...)
}

func (w *world[T]) del(x *h[T]) (at int) {
	at = w.pos(x)
	w.m[x.own] = append(append([]*h[T](nil), w.m[x.own][:at]...), w.m[x.own][at+1:]...)
	return
}

func (w *world[T]) usedStale(li int, xs ...*h[T]) {
	for _, x := range xs {
		if x.own != li {
			w.stale++
		}
	}
}

// check reads every list through every accessor.
func (w *world[T]) check() {
	if w.every > 1 && w.r.IntN(w.every) > 0 {
		return
	}
	for li, l := range w.l {
		m := w.m[li]
		ids := func() (s []int) {
			for _, x := range m {
				s = append(s, x.id)
			}
			return
		}
		bad := func(format string, a ...any) {
			w.c.Fail("sequence", "list %d: %s; expected the sequence %v", li, fmt.Sprintf(format, a...), ids())
		}
		if l.Len() != len(m) {
			bad("Len() = %d", l.Len())
		}
		e := l.Front()
		for i, x := range m {
			if e == nil {
				bad("forward traversal ends after %d elements", i)
			}
			if e != x.e {
				bad("forward traversal: element %d is not the expected handle (value %d)", i, w.un(e.Value))
			}
			if w.un(e.Value) != x.id {
				bad("element %d has value %d", i, w.un(e.Value))
			}
			e = e.Next()
		}
		if e != nil {
			bad("forward traversal goes on after %d elements", len(m))
		}
		e = l.Back()
		for i := len(m) - 1; i >= 0; i-- {
			if e == nil {
				bad("backward traversal ends before element %d", i)
			}
			if e != m[i].e {
				bad("backward traversal: element %d is not the expected handle (value %d)", i, w.un(e.Value))
			}
			e = e.Prev()
		}
		if e != nil {
			bad("backward traversal goes on after %d elements", len(m))
		}
		s := l.Slice()
		if len(s) != len(m) {
			bad("Slice() has %d elements", len(s))
		}
		for i := range s {
			if w.un(s[i]) != m[i].id {
				bad("Slice()[%d] = %d", i, w.un(s[i]))
			}
		}
		n := 0
		stop := -1
		if w.r.IntN(3) == 0 {
			stop = w.r.IntN(len(m) + 2)
		}
		all := l.Range(func(e *dllist.Element[T]) bool {
			if n >= len(m) || e != m[n].e {
				bad("Range visit %d is not the expected handle", n)
			}
			n++
			return n-1 != stop
		})
		if want := min(len(m), stop+1); stop >= 0 && n != want {
			bad("Range stopped at %d visited %d", stop, n)
		} else if stop < 0 && n != len(m) {
			bad("Range visited %d", n)
		}
		if all != (stop < 0 || stop >= len(m)) {
			bad("Range (stopped at visit %d) returned %v", stop, all)
		}
		if len(m) > 0 {
			k := w.r.IntN(len(m))
			n := k
			stop := len(m)
			if w.r.IntN(3) == 0 {
				stop = k + 1 + w.r.IntN(len(m)-k)
			}
			m[k].e.Range(func(e *dllist.Element[T]) bool {
				if n >= stop || e != m[n].e {
					bad("Element.Range from %d (to stop before %d): visit %d is not the expected handle", k, stop, n)
				}
				n++
				return n < stop || stop == len(m)
			})
			if n != stop {
				bad("Element.Range from %d ended at %d, not %d", k, n, stop)
			}
		}
		for i := range m {
			if len(m) > 16 && w.r.IntN(len(m)) > 8 {
				continue
			}
			if l.Get(i) != m[i].e {
				bad("Get(%d) is not the expected handle", i)
			}
		}
		for _, i := range []int{-1, len(m), len(m) + 1 + w.r.IntN(5), -1 - w.r.IntN(5)} {
			if l.Get(i) != nil {
				bad("Get(%d) is not nil", i)
			}
		}
	}
	for _, x := range w.all {
		if w.un(x.e.Value) != x.id {
			w.c.Fail("handle", "handle of value %d now has value %d", x.id, w.un(x.e.Value))
		}
	}
	w.c.Tick()
}

// resync adopts the observed sequence of list li after an operation that may
// have created elements; the old handles not seen any more are stale.
func (w *world[T]) resync(li int, what string) {
	for _, x := range w.m[li] {
		x.own = -1
	}
	if w.loose && what == "Sort" {
		// Whether the handles survive Sort is not C15's business: start afresh.
		var all []*h[T]
		for _, x := range w.all {
			if x.own < 0 {
				delete(w.by, x.e)
			} else {
				all = append(all, x)
			}
		}
		w.all = all
	}
	var m []*h[T]
	for e := w.l[li].Front(); e != nil; e = e.Next() {
		if len(m) > 100000 {
			w.c.Fail("sequence", "%s: traversal does not end", what)
		}
		x := w.by[e]
		if x == nil {
			x = w.adopt(e, w.un(e.Value), li, what)
		}
		x.own = li
		m = append(m, x)
	}
	w.m[li] = m
}

func (w *world[T]) vals(li int) (s []int) {
	for _, x := range w.m[li] {
		s = append(s, x.id)
	}
	return
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *world[T]) clear(li int) {
	w.o.Op("Clear", li)
	w.l[li].Clear()
	for _, x := range w.m[li] {
		x.own = -1
	}
	w.m[li] = nil
}

// sort runs Sort. exact: judge the result (C15), otherwise only adopt it.
func (w *world[T]) sort(li int, exact bool) {
	mode := w.r.IntN(4)
	less := func(a, b int) bool {
		switch mode {
		case 0:
			return a%w.nkeys < b%w.nkeys
		case 1:
			return a%w.nkeys > b%w.nkeys
		case 2:
			return false
		}
		return a < b
	}
	w.o.Op("Sort", li, mode)
	before := w.vals(li)
	w.l[li].Sort(func(a, b T) bool { return less(w.un(a), w.un(b)) })
	want := append([]int(nil), before...)
	sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) })
	w.resync(li, "Sort")
	if got := w.vals(li); exact && !eq(got, want) {
		w.c.Fail("sort", "Sort (mode %d, keys mod %d) of %v gives %v, want %v", mode, w.nkeys, before, got, want)
	}
}

// bulk runs one of the list insertions and judges it.
func (w *world[T]) bulk(li, lj, kind int, mark *h[T]) {
	src := w.vals(lj)
	old := append([]*h[T](nil), w.m[li]...)
	known := w.names
	at := 0
	switch kind {
	case 0:
		w.o.Op("PushBackList", li, lj)
		w.l[li].PushBackList(w.l[lj])
		at = len(old)
	case 1:
		w.o.Op("PushFrontList", li, lj)
		w.l[li].PushFrontList(w.l[lj])
	case 2:
		w.o.Op("PushFrontListTo", li, lj, mark.n)
		w.l[li].PushFrontListTo(w.l[lj], mark.e)
	case 3:
		w.o.Op("PushBackListTo", li, lj, mark.n)
		w.l[li].PushBackListTo(w.l[lj], mark.e)
	}
	if kind >= 2 {
		if mark.own != li {
			w.stale++
			return // nothing may have changed; check() compares
		}
		at = w.pos(mark) + 1
	}
	w.resync(li, "bulk insert")
	got := w.vals(li)
	var ins []int
	ok := len(got) == len(old)+len(src)
	if ok {
		for i, x := range w.m[li] {
			switch {
			case i < at:
				ok = ok && x == old[i]
			case i < at+len(src):
				ins = append(ins, x.id)
				ok = ok && x.n >= known // a new element
			default:
				ok = ok && x == old[i-len(src)]
			}
		}
	}
	if ok && kind == 3 { // order among the inserted values is not claimed
		ok = eq(kit.SortedInts(ins), kit.SortedInts(src))
	} else if ok {
		ok = eq(ins, src)
	}
	if !ok {
		o := make([]int, len(old))
		for i, x := range old {
			o[i] = x.id
		}
		w.c.Fail("bulk", "bulk insert %d of %v into %v at %d (self: %v) gives %v", kind, src, o, at, li == lj, got)
	}
}

func (w *world[T]) step() {
	r := w.r
	li := r.IntN(len(w.l))
	l := w.l[li]
	switch k := r.IntN(26); k {
	case 0, 1:
		id := w.id()
		w.o.Op("PushFront", li, id)
		w.ins(li, 0, w.adopt(l.PushFront(w.mk(id)), id, li, "PushFront"))
	case 2, 3:
		id := w.id()
		w.o.Op("PushBack", li, id)
		w.ins(li, len(w.m[li]), w.adopt(l.PushBack(w.mk(id)), id, li, "PushBack"))
	case 4, 5, 6, 7:
		mark, id := w.pick(), w.id()
		var e *dllist.Element[T]
		name := []string{"InsertBefore", "InsertAfter", "Element.InsertBefore", "Element.InsertAfter"}[k-4]
		w.o.Op(name, li, mark.n, id)
		own := li
		switch k {
		case 4:
			e = l.InsertBefore(w.mk(id), mark.e)
		case 5:
			e = l.InsertAfter(w.mk(id), mark.e)
		case 6:
			e = mark.e.InsertBefore(w.mk(id))
			own = mark.own
		case 7:
			e = mark.e.InsertAfter(w.mk(id))
			own = mark.own
		}
		if mark.own != own || own < 0 {
			w.stale++
			if e != nil {
				w.c.Fail("stale", "%s with a handle that is not in the list returned an element", name)
			}
			return
		}
		at := w.pos(mark)
		if k%2 == 1 {
			at++
		}
		w.ins(own, at, w.adopt(e, id, own, name))
	case 8, 9:
		x := w.pick()
		w.o.Op("Remove", li, x.n)
		if v := w.un(l.Remove(x.e)); v != x.id {
			w.c.Fail("remove", "Remove returned %d, handle's value is %d", v, x.id)
		}
		if x.own == li {
			w.del(x)
			x.own = -1
		} else {
			w.stale++
		}
	case 10, 11:
		x := w.pick()
		w.o.Op("Element.Remove", x.n)
		if v := w.un(x.e.Remove()); v != x.id {
			w.c.Fail("remove", "Element.Remove returned %d, handle's value is %d", v, x.id)
		}
		if x.own >= 0 {
			w.del(x)
			x.own = -1
		} else {
			w.stale++
		}
	case 12, 13:
		x := w.pick()
		w.usedStale(li, x)
		if k == 12 {
			w.o.Op("MoveToFront", li, x.n)
			l.MoveToFront(x.e)
		} else {
			w.o.Op("MoveToBack", li, x.n)
			l.MoveToBack(x.e)
		}
		if x.own == li {
			w.del(x)
			if k == 12 {
				w.ins(li, 0, x)
			} else {
				w.ins(li, len(w.m[li]), x)
			}
		}
	case 14, 15, 16, 17:
		x, y := w.pick(), w.pick()
		if r.IntN(3) == 0 && x.own >= 0 { // neighbours
			s := w.m[x.own]
			y = s[(w.pos(x)+1+len(s)*r.IntN(2)-2*r.IntN(2)+len(s))%len(s)]
		}
		w.usedStale(li, x, y)
		if k < 16 {
			w.o.Op("MoveBefore", li, x.n, y.n)
			l.MoveBefore(x.e, y.e)
		} else {
			w.o.Op("MoveAfter", li, x.n, y.n)
			l.MoveAfter(x.e, y.e)
		}
		if x.own == li && y.own == li && x != y {
			w.del(x)
			at := w.pos(y)
			if k >= 16 {
				at++
			}
			w.ins(li, at, x)
		}
	case 18, 19, 20:
		x, y := w.pick(), w.pick()
		if r.IntN(2) == 0 && x.own >= 0 {
			s := w.m[x.own]
			y = s[(w.pos(x)+1-2*r.IntN(2)+len(s))%len(s)]
		}
		w.usedStale(li, x, y)
		w.o.Op("Swap", li, x.n, y.n)
		l.Swap(x.e, y.e)
		if x.own == li && y.own == li && x != y {
			i, j := w.pos(x), w.pos(y)
			m := append([]*h[T](nil), w.m[li]...)
			m[i], m[j] = y, x
			w.m[li] = m
		}
	case 21:
		if r.IntN(4*max(1, w.every)) == 0 {
			w.clear(li)
		}
	case 22:
		if r.IntN(3) == 0 && (len(w.m[li]) < 300 || r.IntN(40) == 0 && len(w.m[li]) < 1000) {
			w.sort(li, false)
		}
	case 23:
		lj := r.IntN(len(w.l))
		if len(w.m[lj])+len(w.m[li]) < 60+w.room {
			w.bulk(li, lj, r.IntN(4), w.pick())
		}
	case 24, 25:
		x := w.pick()
		id := w.id()
		w.o.Op("set Value", x.n, id)
		x.e.Value = w.mk(id)
		x.id = id
	}
}

func mkString(i int) string { return fmt.Sprint("s", i) }
func unString(s string) (i int) {
	for j := 1; j < len(s); j++ {
		i = i*10 + int(s[j]-'0')
	}
	return
}

func typed(c *kit.C, r *rand.Rand, i int, n int, run func(w any)) {
	switch i % 5 {
	case 0:
		run(newWorld(c, r, func(i int) int { return i }, func(i int) int { return i }))
	case 1:
		run(newWorld(c, r, mkString, unString))
	case 2:
		run(newWorld(c, r, func(i int) item { return item{i, i} }, func(x item) int { return x.seq }))
	case 3:
		run(newWorld(c, r, func(i int) *item { return &item{0, i} }, func(x *item) int {
			if x == nil {
				return -1
			}
			return x.seq
		}))
	case 4:
		run(newWorld(c, r, func(i int) any { return i }, func(x any) int {
			i, ok := x.(int)
			if !ok {
				return -1
			}
			return i
		}))
	}
}

type runner interface {
	run14(n int)
	run15(n int)
	big15()
	large()
}

func (w *world[T]) run14(n int) {
	for i := 0; i < n; i++ {
		w.step()
		w.check()
	}
	w.c.Count("stale_handle_uses", int64(w.stale))
	w.o.Done("lists", w.o.N > 3)
}

func (w *world[T]) run15(n int) {
	w.loose = true
	w.check()
	for i := 0; i < n; i++ {
		li := w.r.IntN(len(w.l))
		switch w.r.IntN(8) {
		case 0, 1, 2:
			for k := w.r.IntN(6); k >= 0; k-- {
				id := w.id()
				w.o.Op("PushBack", li, id)
				w.ins(li, len(w.m[li]), w.adopt(w.l[li].PushBack(w.mk(id)), id, li, "PushBack"))
			}
		case 3:
			w.sort(li, true)
		case 4:
			w.step()
		case 5:
			lj := w.r.IntN(len(w.l))
			if len(w.m[lj])+len(w.m[li]) < 80 {
				w.bulk(li, lj, w.r.IntN(2), nil)
			}
		case 6:
			lj := w.r.IntN(len(w.l))
			if s := w.m[li]; len(s) > 0 && len(w.m[lj])+len(s) < 80 {
				mark := s[w.r.IntN(len(s))]
				if w.r.IntN(4) == 0 {
					mark = s[(len(s)-1)*w.r.IntN(2)]
				}
				w.bulk(li, lj, 2+w.r.IntN(2), mark)
			}
		case 7:
			if w.r.IntN(4) == 0 {
				w.clear(li)
			}
		}
		w.check()
	}
	w.o.Done("lists", w.o.N > 3)
}

// big15 sorts one larger list of a given shape.
func (w *world[T]) big15() {
	w.loose = true
	n := w.r.IntN(150)
	if w.r.IntN(10) == 0 {
		n = w.r.IntN(1200)
		if w.r.IntN(10) == 0 {
			n = w.r.IntN(2000)
		}
		w.c.Max("most_elements", int64(n))
	}
	shape := w.r.IntN(6)
	w.nkeys = []int{1, 2, 3, 10, 1000}[w.r.IntN(5)]
	w.o.Op("shape", n, shape, w.nkeys)
	for i := 0; i < n; i++ {
		k := w.r.IntN(w.nkeys)
		switch shape {
		case 0:
			k = i * w.nkeys / n
		case 1:
			k = (n - 1 - i) * w.nkeys / n
		case 2:
			k = i % w.nkeys
		case 3:
			if w.r.IntN(20) > 0 {
				k = i * w.nkeys / n
			}
		}
		w.ids++
		id := w.ids*w.nkeys + k
		w.ins15(id)
	}
	w.sort(0, true)
	w.check()
	w.sort(0, true)
	w.check()
	w.o.Done("large list", n > 1)
}

func (w *world[T]) large() {
	w.every, w.room = 60, 500
	if w.r.IntN(2) == 0 { // start well filled
		n := w.r.IntN(2500)
		w.room = 2 * n
		w.o.Op("fill", n)
		for i := 0; i < n; i++ {
			w.ins15(w.id())
		}
		w.c.Max("most_elements", int64(n))
	}
}

func (w *world[T]) ins15(id int) {
	w.m[0] = append(w.m[0], w.adopt(w.l[0].PushBack(w.mk(id)), id, 0, "PushBack"))
}

func c14(c *kit.C) {
	c.Cases("ops", c.N(400000, 12), func(i int, r *rand.Rand) {
		typed(c, r, i, 0, func(w any) { w.(runner).run14(5 + r.IntN(90)) })
	})
	c.Cases("large", c.N(80, 30), func(i int, r *rand.Rand) {
		typed(c, r, i, 0, func(w any) { w.(runner).large(); w.(runner).run14(500 + r.IntN(1000)) })
	})
}

func c15(c *kit.C) {
	c.Cases("ops", c.N(30000, 20), func(i int, r *rand.Rand) {
		typed(c, r, i, 0, func(w any) { w.(runner).run15(3 + r.IntN(40)) })
	})
	c.Cases("large", c.N(1600, 20), func(i int, r *rand.Rand) {
		typed(c, r, i, 0, func(w any) { w.(runner).big15() })
	})
}
