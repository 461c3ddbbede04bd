package main

import (
	"math/rand/v2"
	"slices"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

// chain is a reference list over element numbers: plain links in two slices.
type chain struct{ next, prev []int } // number 0 is the end of the list

func (m *chain) add() int {
	m.next = append(m.next, -1)
	m.prev = append(m.prev, -1)
	return len(m.next) - 1
}
func (m *chain) in(i int) bool { return m.next[i] >= 0 }
func (m *chain) cut(i int) {
	m.next[m.prev[i]], m.prev[m.next[i]] = m.next[i], m.prev[i]
	m.next[i], m.prev[i] = -1, -1
}
func (m *chain) after(i, at int) {
	m.next[i], m.prev[i] = m.next[at], at
	m.prev[m.next[at]] = i
	m.next[at] = i
}

func listEdits(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	l := dllist.New[int]()
	m := &chain{}
	m.add()
	m.next[0], m.prev[0] = 0, 0
	e := []*dllist.Element[int]{nil}
	num := 0
	put := func(x *dllist.Element[int], at int) {
		k := m.add()
		m.after(k, at)
		e = append(e, x)
		num++
	}
	check := func() {
		if l.Len() != num {
			c.Fail("len", "Len() = %d, want %d", l.Len(), num)
		}
		k := 0
		x := l.Front()
		for at := m.next[0]; at != 0; at = m.next[at] {
			if x != e[at] || x.Value != at {
				c.Fail("content", "element %d of %d is wrong, walking forwards", k, num)
			}
			x = x.Next()
			k++
		}
		if x != nil {
			c.Fail("content", "more than %d elements, walking forwards", num)
		}
		x = l.Back()
		for at := m.prev[0]; at != 0; at = m.prev[at] {
			if x != e[at] {
				c.Fail("content", "element %d of %d is wrong, walking backwards", k, num)
			}
			x = x.Prev()
			k--
		}
		if x != nil || k != 0 {
			c.Fail("content", "not %d elements, walking backwards", num)
		}
		at := m.next[0]
		if !l.Range(func(x *dllist.Element[int]) bool {
			if at == 0 || x != e[at] {
				c.Fail("content", "Range visits a wrong element")
			}
			at = m.next[at]
			return true
		}) || at != 0 {
			c.Fail("content", "Range of %d elements ends early", num)
		}
		s := l.Slice()
		at = m.next[0]
		for _, v := range s {
			if v != at {
				c.Fail("content", "Slice() has a wrong value")
			}
			at = m.next[at]
		}
		if len(s) != num {
			c.Fail("content", "Slice() has %d values, want %d", len(s), num)
		}
		for j := 0; j < 6 && num > 0; j++ {
			k := r.IntN(num)
			if j == 0 {
				k = num - 1
			}
			if x := l.Get(k); x == nil || x.Value != s[k] {
				c.Fail("content", "Get(%d) of %d is wrong", k, num)
			}
		}
		if l.Get(num) != nil {
			c.Fail("content", "Get(%d) of %d is not nil", num, num)
		}
		c.Tick()
	}
	o.Op("fill", n)
	for k := 0; k < n; k++ {
		switch (k >> 6) % 4 {
		case 0, 1:
			put(l.PushBack(len(e)), m.prev[0])
		case 2:
			put(l.PushFront(len(e)), 0)
		case 3:
			put(l.InsertAfter(len(e), e[m.prev[0]]), m.prev[0])
		}
	}
	check()
	live := func() int {
		for range 50 {
			if k := 1 + r.IntN(len(e)-1); m.in(k) {
				return k
			}
		}
		return m.next[0]
	}
	for round := 1 + r.IntN(3); round > 0; round-- {
		steps := n/2 + r.IntN(n)
		drain := r.IntN(3) == 0
		o.Op("steps", steps, len(e))
		for ; steps > 0 && num > 2; steps-- {
			a, b := live(), live()
			op := r.IntN(12)
			if drain && r.IntN(2) == 0 {
				op = 10
			}
			switch op {
			case 0:
				put(l.PushBack(len(e)), m.prev[0])
			case 1:
				put(l.PushFront(len(e)), 0)
			case 2:
				put(l.InsertAfter(len(e), e[a]), a)
			case 3:
				put(l.InsertBefore(len(e), e[a]), m.prev[a])
			case 4:
				l.MoveToFront(e[a])
				m.cut(a)
				m.after(a, 0)
			case 5:
				l.MoveToBack(e[a])
				m.cut(a)
				m.after(a, m.prev[0])
			case 6:
				l.MoveAfter(e[a], e[b])
				if a != b {
					m.cut(a)
					m.after(a, b)
				}
			case 7:
				l.MoveBefore(e[a], e[b])
				if a != b {
					m.cut(a)
					m.after(a, m.prev[b])
				}
			case 8:
				l.Swap(e[a], e[b])
				if a != b {
					pa, pb := m.prev[a], m.prev[b]
					switch {
					case pa == b:
						m.cut(a)
						m.after(a, pb)
					case pb == a:
						m.cut(b)
						m.after(b, pa)
					default:
						m.cut(a)
						m.cut(b)
						m.after(a, pb)
						m.after(b, pa)
					}
				}
			case 9, 10:
				var v int
				if steps%2 == 0 {
					v = l.Remove(e[a])
				} else {
					v = e[a].Remove()
				}
				if v != a {
					c.Fail("result", "Remove returned %d, want %d", v, a)
				}
				m.cut(a)
				num--
			case 11: // a stale handle
				if k := 1 + r.IntN(len(e)-1); !m.in(k) {
					l.Remove(e[k])
					l.MoveToFront(e[k])
				}
			}
		}
		check()
	}
	if r.IntN(2) == 0 {
		o.Op("Clear", num)
		l.Clear()
		m.next[0], m.prev[0], num = 0, 0, 0
		check()
		old := len(e) - 1
		for k := 0; k < 20; k++ {
			l.Remove(e[1+r.IntN(old)])
			put(l.PushBack(len(e)), m.prev[0])
		}
		check()
	}
	o.Done("dllist", true)
}

func listBulk(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	type pair struct{ key, at int }
	same := func(what string, l *dllist.Dllist[pair], want []pair) {
		if got := l.Slice(); !slices.Equal(got, want) {
			k := 0
			for k < len(got) && k < len(want) && got[k] == want[k] {
				k++
			}
			c.Fail("content", "%s: %d values, want %d, they differ from position %d", what, len(got), len(want), k)
		}
		if l.Len() != len(want) {
			c.Fail("content", "%s: Len() = %d, want %d", what, l.Len(), len(want))
		}
		k := len(want)
		for e := l.Back(); e != nil; e = e.Prev() {
			k--
			if k < 0 || e.Value != want[k] {
				c.Fail("content", "%s: position %d differs, walking backwards", what, k)
			}
		}
		c.Tick()
	}
	mk := func(n int) (*dllist.Dllist[pair], []pair) {
		l := dllist.New[pair]()
		var w []pair
		for j, v := range shape(r, n, spread(r, n)) {
			l.PushBack(pair{v, j})
			w = append(w, pair{v, j})
		}
		return l, w
	}
	l, w := mk(n)
	for round := 0; round < 3; round++ {
		switch r.IntN(5) {
		case 0, 1, 2:
			up := r.IntN(2) == 0
			o.Op("Sort", len(w), r.IntN(1<<30))
			less := func(a, b pair) bool { return a.key < b.key }
			if !up {
				less = func(a, b pair) bool { return a.key > b.key }
			}
			l.Sort(less)
			slices.SortStableFunc(w, func(a, b pair) int {
				if less(a, b) {
					return -1
				} else if less(b, a) {
					return 1
				}
				return 0
			})
			c.Count("sorted.values", int64(len(w)))
			same("Sort", l, w)
		case 3:
			x, wx := mk(1 + r.IntN(n))
			o.Op("PushList", len(w), len(wx))
			if r.IntN(2) == 0 {
				l.PushBackList(x)
				w = append(w, wx...)
			} else {
				l.PushFrontList(x)
				w = append(slices.Clone(wx), w...)
			}
			same("PushList", l, w)
			same("the pushed list", x, wx)
		case 4:
			x, wx := mk(1 + r.IntN(n))
			at := r.IntN(len(w))
			o.Op("PushListTo", len(w), len(wx), at)
			if r.IntN(4) == 0 {
				x, wx = l, slices.Clone(w)
			}
			if r.IntN(2) == 0 {
				l.PushFrontListTo(x, l.Get(at))
				w = slices.Insert(w, at+1, wx...)
				same("PushFrontListTo", l, w)
				break
			}
			l.PushBackListTo(x, l.Get(at))
			// The order among the inserted values is not claimed.
			got := l.Slice()
			byAt := func(a, b pair) int {
				if a.at != b.at {
					return a.at - b.at
				}
				return a.key - b.key
			}
			if len(got) == len(w)+len(wx) {
				in, want := slices.Clone(got[at+1:at+1+len(wx)]), slices.Clone(wx)
				slices.SortFunc(in, byAt)
				slices.SortFunc(want, byAt)
				if !slices.Equal(in, want) {
					c.Fail("content", "PushBackListTo of %d at %d of %d inserts other values", len(wx), at, len(w))
				}
				wx = got[at+1 : at+1+len(wx)]
			}
			w = slices.Insert(w, at+1, wx...)
			same("PushBackListTo", l, w)
		}
		if len(w) > 200000 {
			break
		}
	}
	o.Done("dllist", true)
}

func circles(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	name := func(x *ring.Ring[int], from int) {
		y := x
		for k := 0; ; k++ { // numbered by walking with Next
			y.Value = from + k
			if y = y.Next(); y == x {
				return
			}
			if k > 1000000 {
				c.Fail("content", "Next never comes back")
			}
		}
	}
	is := func(what string, x *ring.Ring[int], w []int) {
		if x.Len() != len(w) {
			c.Fail("len", "%s: Len() = %d, want %d", what, x.Len(), len(w))
		}
		k := 0
		x.Do(func(v int) {
			if k >= len(w) || v != w[k] {
				c.Fail("content", "%s: visit %d of Do is %d", what, k, v)
			}
			k++
		})
		if k != len(w) {
			c.Fail("content", "%s: Do made %d visits of %d", what, k, len(w))
		}
		y := x
		for k := range w {
			if y.Value != w[k] {
				c.Fail("content", "%s: %d steps of Next lead to %d, want %d", what, k, y.Value, w[k])
			}
			y = y.Next()
		}
		if y != x {
			c.Fail("content", "%s: %d steps of Next do not come back", what, len(w))
		}
		for k := range w {
			y = y.Prev()
			if v := w[len(w)-1-k]; y.Value != v {
				c.Fail("content", "%s: %d steps of Prev lead to %d, want %d", what, k+1, y.Value, v)
			}
		}
		for range 4 {
			d := r.IntN(3*len(w)) - len(w)*3/2
			if y := x.Move(d); y.Value != w[((d%len(w))+len(w))%len(w)] {
				c.Fail("result", "%s: Move(%d) in a ring of %d leads to %d", what, d, len(w), y.Value)
			}
		}
		c.Tick()
	}
	seq := func(from, n int) []int {
		w := make([]int, n)
		for k := range w {
			w[k] = from + k
		}
		return w
	}
	o.Op("New", n)
	x := ring.New[int](n)
	name(x, 0)
	w := seq(0, n)
	is("New", x, w)
	next := n
	for round := 0; round < 3; round++ {
		switch r.IntN(3) {
		case 0:
			m := size(r, 60000)
			y := ring.New[int](m)
			name(y, next)
			o.Op("Link", len(w), m)
			if g := x.Link(y); g.Value != w[1%len(w)] {
				c.Fail("result", "Link returned %d", g.Value)
			}
			w = slices.Insert(w, 1, seq(next, m)...)
			next += m
			is("Link", x, w)
		case 1:
			if len(w) < 3 {
				continue
			}
			k := 1 + r.IntN(len(w)-1)
			o.Op("Unlink", len(w), k)
			y := x.Unlink(k)
			part := slices.Clone(w[1 : k+1])
			w = slices.Delete(w, 1, k+1)
			is("Unlink", x, w)
			is("what Unlink returned", y, part)
		case 2: // split by linking inside one ring
			if len(w) < 4 {
				continue
			}
			k := 2 + r.IntN(len(w)-2)
			o.Op("Link inside", len(w), k)
			y := x.Move(k)
			g := x.Link(y)
			part := slices.Clone(w[1:k])
			w = slices.Delete(w, 1, k)
			is("Link inside", x, w)
			is("what Link cut off", g, part)
		}
	}
	o.Done("ring", true)
}

func diff(got, want []int) int {
	k := 0
	for k < len(got) && k < len(want) && got[k] == want[k] {
		k++
	}
	return k
}

func vecEdits(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	v := vec.New[int]()
	var w []int
	is := func(what string) {
		if !slices.Equal(v.Slice(), w) || v.Len() != len(w) {
			c.Fail("content", "%s: %d values, want %d, they differ from position %d", what, v.Len(), len(w), diff(v.Slice(), w))
		}
		c.Tick()
	}
	vals := func(n int) []int {
		x := make([]int, n)
		for k := range x {
			x[k] = r.IntN(1 << 20)
		}
		return x
	}
	if r.IntN(2) == 0 {
		for k := 0; k < n; k++ {
			v.Push(k)
			w = append(w, k)
		}
	} else {
		for len(w) < n {
			x := vals(1 + r.IntN(n))
			v.Push(x...)
			w = append(w, x...)
		}
	}
	o.Op("Push", len(w))
	is("Push")
	for round := 0; round < 12 && len(w) > 10; round++ {
		a, b := r.IntN(len(w)+1), r.IntN(len(w)+1)
		if a > b {
			a, b = b, a
		}
		op := r.IntN(13)
		o.Op("op", op, a, b, len(w))
		switch op {
		case 0:
			x := vals(r.IntN(n))
			v.Insert(a, x...)
			w = slices.Insert(w, a, x...)
			is("Insert")
		case 1:
			got := v.Cut(a, b)
			if !slices.Equal(got, w[a:b]) {
				c.Fail("result", "Cut(%d, %d) of %d returns other values from position %d", a, b, len(w), diff(got, w[a:b]))
			}
			w = slices.Delete(w, a, b)
			is("Cut")
		case 2:
			v.Delete(a, b)
			w = slices.Delete(w, a, b)
			is("Delete")
		case 3:
			x := vals(r.IntN(n))
			v.Replace(a, b, x...)
			w = slices.Replace(w, a, b, x...)
			is("Replace")
		case 4:
			v.Reverse()
			slices.Reverse(w)
			is("Reverse")
		case 5:
			if a == len(w) {
				a--
			}
			t := v.SplitOff(a)
			if !slices.Equal(t.Slice(), w[a:]) {
				c.Fail("result", "SplitOff(%d) of %d returns other values from position %d", a, len(w), diff(t.Slice(), w[a:]))
			}
			tail := slices.Clone(w[a:])
			w = w[:a:a]
			is("SplitOff")
			if r.IntN(3) > 0 {
				v.Push(tail...)
				w = append(w, tail...)
			}
			is("Push")
		case 6:
			for k := min(len(w)-5, 1+r.IntN(2000)); k > 0; k-- {
				p := r.IntN(len(w))
				x, ok := v.Remove(p)
				if !ok || x != w[p] {
					c.Fail("result", "Remove(%d) of %d returned %d, %v, want %d", p, len(w), x, ok, w[p])
				}
				w = slices.Delete(w, p, p+1)
			}
			is("Remove")
		case 7:
			for k := r.IntN(len(w)); k > 0; k-- {
				x, ok := v.Pop()
				if !ok || x != w[len(w)-1] {
					c.Fail("result", "Pop() of %d returned %d, %v", len(w), x, ok)
				}
				w = w[:len(w)-1]
			}
			is("Pop")
		case 8:
			for k := 0; k < len(w); k++ {
				p, q, x := r.IntN(len(w)), r.IntN(len(w)), r.IntN(1<<20)
				v.Swap(p, q)
				w[p], w[q] = w[q], w[p]
				if !v.Set(p, x) {
					c.Fail("result", "Set(%d) of %d = false", p, len(w))
				}
				w[p] = x
			}
			is("Swap and Set")
		case 9:
			v.Grow(n)
			if v.Cap()-v.Len() < n {
				c.Fail("result", "after Grow(%d) Len() = %d, Cap() = %d", n, v.Len(), v.Cap())
			}
			is("Grow")
			v.Clip()
			is("Clip")
		case 10:
			for k := range w {
				if x, ok := v.Get(k); !ok || x != w[k] {
					c.Fail("result", "Get(%d) of %d = %d, %v, want %d", k, len(w), x, ok, w[k])
				}
			}
			f, ok1 := v.First()
			l, ok2 := v.Last()
			if !ok1 || !ok2 || f != w[0] || l != w[len(w)-1] || v.IsEmpty() {
				c.Fail("result", "First, Last, IsEmpty of %d are wrong", len(w))
			}
			if g := v.SliceCut(a, b); !slices.Equal(g, w[a:b]) {
				c.Fail("result", "SliceCut(%d, %d) of %d is wrong", a, b, len(w))
			}
		case 11:
			stop := 1 + r.IntN(len(w)+1)
			k := 0
			v.Range(func(i, x int) bool {
				if i != k || i >= len(w) || x != w[i] || k >= stop {
					c.Fail("result", "visit %d of Range over %d is %d=%d (stop at %d)", k, len(w), i, x, stop)
				}
				k++
				return k < stop
			})
			if k != min(stop, len(w)) {
				c.Fail("result", "Range made %d visits of %d, stop at %d", k, len(w), stop)
			}
		case 12:
			p := r.IntN(len(w))
			x, ok := v.ConpareAndRemove(p, w[p]+round%2)
			if ok != (round%2 == 0) || ok && x != w[p] {
				c.Fail("result", "ConpareAndRemove(%d) of %d returned %d, %v", p, len(w), x, ok)
			}
			if ok {
				w = slices.Delete(w, p, p+1)
			}
			is("ConpareAndRemove")
		}
		if len(w) > 400000 {
			v.Clear()
			w = w[:0]
			is("Clear")
		}
	}
	o.Done("vec", true)
}

func vecOrder(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	d := spread(r, n)
	w := shape(r, n, d)
	type pair struct{ key, at int }
	less := func(a, b pair) bool { return a.key < b.key }
	equal := func(a, b pair) bool { return a.key == b.key }
	v, p := vec.New[int](), vec.New[pair](vec.WithCmpLess(less), vec.WithCmpEqual(equal))
	wp := make([]pair, n)
	for k, x := range w {
		wp[k] = pair{x, k}
	}
	v.Push(w...)
	p.Push(wp...)
	o.Op("fill", n, d, w[0], w[n/2])
	if g := v.IsSorted(); g != slices.IsSorted(w) {
		c.Fail("result", "IsSorted() of %d = %v", n, g)
	}
	if g := v.Max(); g != slices.Max(w) {
		c.Fail("result", "Max() of %d = %d, want %d", n, g, slices.Max(w))
	}
	if g := v.Min(); g != slices.Min(w) {
		c.Fail("result", "Min() of %d = %d, want %d", n, g, slices.Min(w))
	}
	for range 8 {
		t := w[r.IntN(n)]
		if r.IntN(3) == 0 {
			t = -1
		}
		if g := v.Search(t); g != slices.Index(w, t) {
			c.Fail("result", "Search(%d) in %d values = %d, want %d", t, n, g, slices.Index(w, t))
		}
		if g := v.Contains(t); g != slices.Contains(w, t) {
			c.Fail("result", "Contains(%d) in %d values = %v", t, n, g)
		}
		var all []int
		for k, x := range w {
			if x == t {
				all = append(all, k)
			}
		}
		if g := v.SearchAll(t); !slices.Equal(g, all) {
			c.Fail("result", "SearchAll(%d) in %d values has %d positions, want %d; they differ from %d", t, n, len(g), len(all), diff(g, all))
		}
		c.Tick()
	}
	u := v.Clone()
	if !u.EqualVec(*v) || !u.EqualSlice(w) || u.Compare(*v) != 0 {
		c.Fail("result", "a clone of %d is not equal", n)
	}
	k := r.IntN(n)
	u.Set(k, w[k]+1)
	if u.EqualVec(*v) || u.EqualSlice(w) || u.Compare(*v) <= 0 || v.Compare(*u) >= 0 {
		c.Fail("result", "%d values that differ at %d compare equal or wrongly", n, k)
	}
	v.Sort()
	sw := slices.Clone(w)
	slices.Sort(sw)
	if !slices.Equal(v.Slice(), sw) {
		c.Fail("result", "Sort of %d: wrong from position %d", n, diff(v.Slice(), sw))
	}
	p.SortStable()
	slices.SortStableFunc(wp, func(a, b pair) int { return a.key - b.key })
	if !slices.Equal(p.Slice(), wp) {
		c.Fail("result", "SortStable of %d (%d distinct) is wrong or not stable", n, d)
	}
	if !v.IsSorted() || !p.IsSorted() {
		c.Fail("result", "IsSorted() = false after Sort of %d", n)
	}
	c.Tick()
	for range 2000 {
		t := sw[r.IntN(n)] + r.IntN(3) - 1
		g, ok := v.BinarySearch(t)
		at, has := slices.BinarySearch(sw, t)
		if g != at || ok != has {
			c.Fail("result", "BinarySearch(%d) in %d values = %d, %v, want %d, %v", t, n, g, ok, at, has)
		}
	}
	if n > 2 {
		a := r.IntN(n - 1)
		if sw[a] < sw[n-1] {
			v.Swap(a, n-1)
			if v.IsSorted() {
				c.Fail("result", "IsSorted() = true with positions %d and %d exchanged in %d values", a, n-1, n)
			}
			v.Swap(a, n-1)
		}
	}
	// One descent, at every position.
	few := min(n, 1200+r.IntN(900))
	up := vec.New[int]()
	for k := 0; k < few; k++ {
		up.Push(2 * k)
	}
	for k := 0; k+1 < few; k++ {
		up.Set(k, 2*k+3)
		if up.IsSorted() {
			c.Fail("result", "IsSorted() = true with positions %d and %d out of order in %d values", k, k+1, few)
		}
		if g := up.Max(); g != max(2*k+3, 2*few-2) {
			c.Fail("result", "Max() = %d, want %d", g, max(2*k+3, 2*few-2))
		}
		up.Set(k, -1)
		if g := up.Min(); g != -1 {
			c.Fail("result", "Min() = %d of %d values, but position %d is -1", g, few, k)
		}
		if g := up.Search(-1); g != k {
			c.Fail("result", "Search(-1) in %d values = %d, want %d", few, g, k)
		}
		up.Set(k, 2*k)
		if k%64 == 0 {
			c.Tick()
		}
	}
	v.Compact()
	if g := slices.Compact(slices.Clone(sw)); !slices.Equal(v.Slice(), g) {
		c.Fail("result", "Compact of %d leaves %d, want %d", n, v.Len(), len(g))
	}
	o.Done("vec", true)
}

func vecCopies(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	type copyOf struct {
		what string
		v    *vec.Vec[int]
		s    []int // a raw slice, if v is nil
		w    []int
	}
	v := vec.New[int]()
	if r.IntN(2) == 0 {
		v.Grow(n + r.IntN(n))
	}
	for k := 0; k < n; k++ {
		v.Push(k)
	}
	if r.IntN(3) == 0 {
		v.Clip()
	}
	all := []*copyOf{{what: "the Vec", v: v, w: slices.Clone(v.Slice())}}
	is := func(after string) {
		for _, x := range all {
			got := x.s
			if x.v != nil {
				got = x.v.Slice()
			}
			if !slices.Equal(got, x.w) {
				c.Fail("shared", "%s (%d values) changed at position %d by %s of another", x.what, len(x.w), diff(got, x.w), after)
			}
		}
		c.Tick()
	}
	for round := 0; round < 14; round++ {
		x := all[r.IntN(len(all))]
		if x.v == nil || x.v.Len() < 4 {
			continue
		}
		l := x.v.Len()
		a, b := r.IntN(l), r.IntN(l)
		if a > b {
			a, b = b, a
		}
		op := r.IntN(10)
		o.Op("op", op, a, b, l)
		switch op {
		case 0, 1:
			all = append(all, &copyOf{what: "a clone", v: x.v.Clone(), w: slices.Clone(x.w)})
		case 2:
			all = append(all, &copyOf{what: "CloneToSlice", s: x.v.CloneToSlice(), w: slices.Clone(x.w)})
		case 3, 4:
			all = append(all, &copyOf{what: "a split off part", v: x.v.SplitOff(a), w: slices.Clone(x.w[a:])})
			x.w = x.w[:a:a]
		case 5:
			all = append(all, &copyOf{what: "a cut", s: x.v.Cut(a, b), w: slices.Clone(x.w[a:b])})
			x.w = slices.Delete(x.w, a, b)
		case 6:
			y := make([]int, 1+r.IntN(n))
			for k := range y {
				y[k] = -k
			}
			x.v.Push(y...)
			x.w = append(x.w[:len(x.w):len(x.w)], y...)
		case 7:
			x.v.Reverse()
			slices.Reverse(x.w)
		case 8:
			for k := range x.w {
				x.w[k] += 7
				x.v.Set(k, x.w[k])
			}
		case 9:
			x.v.Delete(a, b)
			x.w = slices.Delete(x.w, a, b)
		}
		is([]string{"Clone", "Clone", "CloneToSlice", "SplitOff", "SplitOff", "Cut", "Push", "Reverse", "Set", "Delete"}[op])
		for _, y := range all { // a detached slice is the caller's
			if y.v == nil && r.IntN(3) == 0 {
				for k := range y.s {
					y.s[k]++
					y.w[k]++
				}
				y.s = append(y.s, 1, 2, 3)
				y.w = append(y.w, 1, 2, 3)
			}
		}
		is("writing to a slice")
	}
	o.Done("vec", true)
}
