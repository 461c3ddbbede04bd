package main

import (
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

type boom struct{}

// fuse makes a user function panic at its n-th call, and lets it use the
// container itself before that.
type fuse struct {
	n     int // panics at this call; negative: never
	calls int
	use   func() // what the function does with the container
	blown bool
}

func (f *fuse) hit() {
	f.calls++
	if f.use != nil {
		f.use()
	}
	if f.calls-1 == f.n {
		f.blown = true
		panic(boom{})
	}
}

// run reports whether op was ended by the fuse's panic; another panic is a failure.
func run(c *kit.C, what string, op func()) (blown bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(boom); !ok {
				panic(p)
			}
			blown = true
		}
	}()
	op()
	return
}

// do runs op, whose user functions call f.hit, and requires that the panic, if
// it happened, came through to the caller.
func do(c *kit.C, f *fuse, what string, op func()) bool {
	blown := run(c, what, op)
	if blown != f.blown {
		c.Fail("panic-lost", "%s: the user function's panic did not reach the caller", what)
	}
	if blown {
		c.Count("panics."+what, 1)
	} else if f.calls > 0 {
		c.Count("ran."+what, 1)
	}
	return blown
}

func newFuse(r *rand.Rand, n int) *fuse {
	f := &fuse{n: -1}
	if r.IntN(4) > 0 {
		f.n = r.IntN(n + 1)
	}
	return f
}

func sortedInts(x []int) []int {
	x = slices.Clone(x)
	sort.Ints(x)
	return x
}

func same(c *kit.C, what string, got, want []int) {
	if !slices.Equal(got, want) {
		c.Fail("content", "after %s the container holds %v, want %v", what, got, want)
	}
}

func ints(r *rand.Rand, n, m int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = r.IntN(m)
	}
	return x
}

func size(r *rand.Rand) int {
	if r.IntN(10) == 0 {
		return r.IntN(300)
	}
	return r.IntN(25)
}

func c33(c *kit.C) {
	c.Cases("dllist", c.N(4000, 20), func(i int, r *rand.Rand) { listPanics(c, r) })
	c.Cases("vec", c.N(8000, 20), func(i int, r *rand.Rand) { vecPanics(c, r) })
	c.Cases("set", c.N(3000, 20), func(i int, r *rand.Rand) { setPanics(c, r) })
	c.Cases("genmap", c.N(3000, 20), func(i int, r *rand.Rand) { genPanics(c, r) })
	c.Cases("lhashmap", c.N(3000, 20), func(i int, r *rand.Rand) { lhashPanics(c, r) })
	c.Cases("ring", c.N(3000, 20), func(i int, r *rand.Rand) { ringPanics(c, r) })
	c.Cases("heap", c.N(5000, 20), func(i int, r *rand.Rand) { heapPanics(c, r) })
}

// --- dllist ---

func listPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	l := dllist.New[int]()
	var model []int
	for range size(r) {
		x := r.IntN(20)
		model = append(model, x)
		l.PushBack(x)
	}
	check := func(what string) {
		same(c, what, l.Slice(), model)
		var back []int
		for e := l.Back(); e != nil; e = e.Prev() {
			back = append(back, e.Value)
		}
		slices.Reverse(back)
		same(c, what+" (backwards)", back, model)
		if l.Len() != len(model) {
			c.Fail("len", "after %s Len is %d, want %d", what, l.Len(), len(model))
		}
	}
	var peek func(depth int)
	peek = func(depth int) {
		switch r.IntN(5) {
		case 0:
			same(c, "a read in a callback", l.Slice(), model)
		case 1:
			j := r.IntN(len(model))
			if e := l.Get(j); e == nil || e.Value != model[j] {
				c.Fail("nested", "Get(%d) in a callback found another element", j)
			}
		case 2:
			if l.Len() != len(model) || l.Front().Value != model[0] || l.Back().Value != model[len(model)-1] {
				c.Fail("nested", "Len, Front or Back wrong in a callback")
			}
		case 3:
			if depth < 2 {
				var got []int
				l.Range(func(e *dllist.Element[int]) bool {
					got = append(got, e.Value)
					if r.IntN(8) == 0 {
						peek(depth + 1)
					}
					return true
				})
				same(c, "Range in a callback", got, model)
			}
		}
	}
	handles := func() []*dllist.Element[int] {
		var h []*dllist.Element[int]
		for e := l.Front(); e != nil; e = e.Next() {
			h = append(h, e)
		}
		return h
	}
	for range 1 + r.IntN(6) {
		f := newFuse(r, len(model))
		h := handles()
		sorted := false
		switch k := r.IntN(5); k {
		case 0, 1:
			o.Op("Sort", f.n, len(model))
			f.n = newFuse(r, 1+len(model)*4).n
			if r.IntN(3) == 0 && len(model) > 0 {
				f.use = func() { peek(0) }
			}
			down := r.IntN(2) == 0
			blown := do(c, f, "list.Sort", func() {
				l.Sort(func(a, b int) bool {
					f.hit()
					if down {
						a, b = b, a
					}
					return a < b
				})
			})
			if blown {
				same(c, "a Sort whose function panicked (in any order)", sortedInts(l.Slice()), sortedInts(model))
				model = l.Slice()
			} else {
				slices.Sort(model)
				if down {
					slices.Reverse(model)
				}
			}
			sorted = true
		case 2:
			f.use = func() { peek(0) }
			o.Op("Range", f.n)
			var got []int
			if do(c, f, "list.Range", func() {
				if !l.Range(func(e *dllist.Element[int]) bool { f.hit(); got = append(got, e.Value); return true }) {
					c.Fail("result", "Range reported an early end")
				}
			}) {
				same(c, "(visited before the panic)", got, model[:f.n])
			} else {
				same(c, "(visited)", got, model)
			}
		case 3:
			if len(h) == 0 {
				continue
			}
			f.use = func() { peek(0) }
			j := r.IntN(len(h))
			o.Op("Element.Range", f.n, j)
			var got []int
			if !do(c, f, "element.Range", func() {
				h[j].Range(func(e *dllist.Element[int]) bool { f.hit(); got = append(got, e.Value); return true })
			}) {
				same(c, "(visited from an element)", got, model[j:])
			}
		case 4:
			x := r.IntN(20)
			o.Op("Push", x)
			l.PushBack(x)
			model = append(model, x)
			sorted = true
		}
		check("a step")
		if !sorted {
			for j, e := range handles() {
				if e != h[j] {
					c.Fail("handles", "a callback's panic changed the list's elements")
				}
			}
		}
	}
	o.Done("dllist", o.N > 0)
}

// --- vec ---

func vecPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	model := ints(r, size(r), 20)
	if r.IntN(3) == 0 {
		slices.Sort(model)
	}
	var f *fuse
	le := func(a, b int) bool { f.hit(); return a < b }
	eq := func(a, b int) bool { f.hit(); return a == b }
	v := vec.New(vec.WithCmpLess(le), vec.WithCmpEqual(eq))
	if len(model) > 0 {
		v.Push(model...)
	}
	peek := func() {
		if len(model) == 0 {
			return
		}
		j := r.IntN(len(model))
		switch r.IntN(5) {
		case 0:
			if x, ok := v.Get(j); !ok || x != model[j] {
				c.Fail("nested", "Get(%d) in a callback gave %d, want %d", j, x, model[j])
			}
		case 1:
			same(c, "Slice in a callback", v.Slice(), model)
		case 2:
			if k := v.SearchFunc(func(x int) bool { return x == model[j] }); k != slices.Index(model, model[j]) {
				c.Fail("nested", "SearchFunc in a callback found %d", k)
			}
		case 3:
			var got []int
			v.Range(func(k, x int) bool { got = append(got, x); return k < 20 })
			same(c, "Range in a callback", got, model[:min(len(model), 21)])
		case 4:
			if k := v.SearchAllFunc(func(x int) bool { return x == model[j] }); !slices.Contains(k, j) {
				c.Fail("nested", "SearchAllFunc in a callback missed %d", j)
			}
		}
	}
	n := len(model)
	for range 1 + r.IntN(6) {
		f = newFuse(r, n)
		if r.IntN(2) == 0 {
			f.use = peek
		}
		t := r.IntN(21)
		reorder := false
		k := r.IntN(17)
		o.Op("op", k, f.n, n)
		switch k {
		case 0:
			var got []int
			if !do(c, f, "vec.Range", func() { v.Range(func(i, x int) bool { f.hit(); got = append(got, x); return true }) }) {
				same(c, "(visited)", got, model)
			}
		case 1:
			do(c, f, "vec.SearchFunc", func() {
				if j := v.SearchFunc(func(x int) bool { f.hit(); return x == t }); j != slices.Index(model, t) {
					c.Fail("result", "SearchFunc(%d) = %d in %v", t, j, model)
				}
			})
		case 2:
			do(c, f, "vec.SearchAllFunc", func() { v.SearchAllFunc(func(x int) bool { f.hit(); return x == t }) })
		case 3:
			do(c, f, "vec.ContainsFunc", func() {
				if v.ContainsFunc(func(x int) bool { f.hit(); return x == t }) != slices.Contains(model, t) {
					c.Fail("result", "ContainsFunc(%d) wrong in %v", t, model)
				}
			})
		case 4:
			do(c, f, "vec.Search", func() { v.Search(t) })
		case 5:
			do(c, f, "vec.Contains", func() { v.Contains(t) })
		case 6, 7:
			f.use = nil // the order is in flux
			f.n = newFuse(r, 1+n*5).n
			reorder = true
			o.Op("Sort", f.n)
			if k == 6 {
				do(c, f, "vec.Sort", func() { v.Sort() })
			} else {
				do(c, f, "vec.SortStable", func() { v.SortStable() })
			}
		case 8, 9:
			f.use = nil
			f.n = newFuse(r, 1+n*5).n
			reorder = true
			o.Op("SortFunc", f.n)
			g := func(a, b int) bool { f.hit(); return a > b }
			if k == 8 {
				do(c, f, "vec.SortFunc", func() { v.SortFunc(g, func(a, b int) bool { return a == b }) })
			} else {
				do(c, f, "vec.SortStableFunc", func() { v.SortStableFunc(g, func(a, b int) bool { return a == b }) })
			}
		case 10:
			do(c, f, "vec.IsSorted", func() { v.IsSorted() })
		case 11:
			if n > 0 {
				do(c, f, "vec.Max", func() { v.Max() })
			}
		case 12:
			if n > 0 {
				do(c, f, "vec.Min", func() { v.Min() })
			}
		case 13:
			do(c, f, "vec.EqualSlice", func() {
				if !v.EqualSlice(slices.Clone(model)) {
					c.Fail("result", "EqualSlice with its own content is false")
				}
			})
		case 14:
			w := vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
			w.Push(model...)
			do(c, f, "vec.Compare", func() {
				if v.Compare(*w) != 0 {
					c.Fail("result", "Compare with its own content is not 0")
				}
			})
			same(c, "Compare (the other side)", w.Slice(), model)
		case 15:
			if slices.IsSorted(model) {
				do(c, f, "vec.BinarySearch", func() {
					i, ok := v.BinarySearch(t)
					j, ok2 := slices.BinarySearch(model, t)
					if i != j || ok != ok2 {
						c.Fail("result", "BinarySearch(%d) = %d, %v in %v", t, i, ok, model)
					}
				})
			}
		case 16:
			if n > 0 {
				j := r.IntN(n)
				if do(c, f, "vec.ConpareAndRemove", func() { v.ConpareAndRemove(j, model[j]) }) {
					break
				}
				model = slices.Delete(slices.Clone(model), j, j+1)
				n--
			}
		}
		f.n = -1
		if reorder {
			same(c, "a sort (in any order)", sortedInts(v.Slice()), sortedInts(model))
			model = slices.Clone(v.Slice())
			if !f.blown && (k < 8 && !slices.IsSorted(model) || k >= 8 && !slices.IsSortedFunc(model, func(a, b int) int { return b - a })) {
				c.Fail("unsorted", "a sort left %v", model)
			}
		}
		f = &fuse{n: -1}
		if v.Len() != n {
			c.Fail("len", "Len is %d, want %d", v.Len(), n)
		}
		same(c, "a step", v.CloneToSlice(), model)
	}
	o.Done("vec", o.N > 0)
}

// --- set ---

func setPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	s := set.New[int]()
	model := map[int]bool{}
	for range size(r) {
		x := r.IntN(200)
		s.Insert(x)
		model[x] = true
	}
	all := func() []int {
		var x []int
		for k := range model {
			x = append(x, k)
		}
		return sortedInts(x)
	}
	want := all()
	for range 1 + r.IntN(6) {
		f := newFuse(r, len(model))
		f.use = func() {
			x := r.IntN(200)
			switch r.IntN(4) {
			case 0:
				if s.Contain(x) != model[x] {
					c.Fail("nested", "Contain(%d) wrong in a callback", x)
				}
			case 1:
				if s.Len() != len(model) {
					c.Fail("nested", "Len wrong in a callback")
				}
			case 2:
				same(c, "Slice in a callback", sortedInts(s.Slice()), want)
			case 3:
				var got []int
				s.Range(func(x int) bool { got = append(got, x); return true })
				same(c, "Range in a callback", sortedInts(got), want)
			}
		}
		o.Op("Range", f.n, len(model))
		var got []int
		if do(c, f, "set.Range", func() { s.Range(func(x int) bool { f.hit(); got = append(got, x); return true }) }) {
			if len(got) != f.n {
				c.Fail("visits", "%d elements visited before the panic, want %d", len(got), f.n)
			}
		} else {
			same(c, "(visited)", sortedInts(got), want)
		}
		same(c, "a step", sortedInts(s.Slice()), want)
		x := r.IntN(200)
		o.Op("Insert", x)
		if s.Insert(x) == model[x] {
			c.Fail("result", "Insert(%d) reported the wrong thing", x)
		}
		model[x] = true
		want = all()
	}
	o.Done("set", o.N > 0)
}

// --- genmap ---

func genPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	m := genmap.New[int, int]()
	model := map[int]int{}
	for range size(r) {
		x := r.IntN(60)
		m.Store(x, x*7)
		model[x] = x * 7
	}
	flat := func(m map[int]int) []int {
		var x []int
		for k, v := range m {
			x = append(x, k*10000+v)
		}
		return sortedInts(x)
	}
	check := func(what string) { same(c, what, flat(m.Map()), flat(model)) }
	for range 1 + r.IntN(6) {
		f := newFuse(r, len(model))
		f.use = func() {
			x := r.IntN(60)
			switch r.IntN(3) {
			case 0:
				v, ok := m.Load(x)
				if w, ok2 := model[x]; v != w || ok != ok2 {
					c.Fail("nested", "Load(%d) wrong in a callback", x)
				}
			case 1:
				if m.Len() != len(model) {
					c.Fail("nested", "Len wrong in a callback")
				}
			case 2:
				check("a callback")
			}
		}
		k := r.IntN(4)
		o.Op("op", k, f.n, len(model))
		switch k {
		case 0:
			got := map[int]int{}
			if do(c, f, "genmap.Range", func() { m.Range(func(k, v int) bool { f.hit(); got[k] = v; return true }) }) {
				if len(got) != f.n {
					c.Fail("visits", "%d entries visited before the panic, want %d", len(got), f.n)
				}
			} else {
				same(c, "(visited)", flat(got), flat(model))
			}
		case 1:
			f.n = min(f.n, 0)
			x := r.IntN(60)
			old, had := model[x]
			if !do(c, f, "genmap.LoadOrStoreFunc", func() {
				v, ok := m.LoadOrStoreFunc(x, func() int { f.hit(); return -x })
				if ok != had || had && v != old || !had && v != -x {
					c.Fail("result", "LoadOrStoreFunc(%d) = %d, %v", x, v, ok)
				}
			}) && !had {
				model[x] = -x
			}
			if had && f.calls > 0 {
				c.Fail("called", "LoadOrStoreFunc ran its function for a present key")
			}
		case 2:
			f.use = nil
			gone := map[int]bool{}
			blown := do(c, f, "genmap.DeleteFunc", func() {
				m.DeleteFunc(func(k, v int) bool {
					f.hit()
					gone[k] = k%2 == 0
					return k%2 == 0
				})
			})
			for k, g := range gone {
				if _, still := m.Load(k); g && (!blown || !still) {
					delete(model, k)
				}
			}
		case 3:
			do(c, f, "genmap.EqualFunc", func() {
				if !m.EqualFunc(m.Clone(), func(a, b int) bool { f.hit(); return a == b }) {
					c.Fail("result", "EqualFunc with its clone is false")
				}
			})
		}
		check("a step")
		x := r.IntN(60)
		m.Store(x, x*7)
		model[x] = x * 7
		check("a store")
	}
	o.Done("genmap", o.N > 0)
}

// --- lhashmap ---

func lhashPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	m := lhashmap.New[int, int]()
	var model []int // keys, most recent first; the value is the key times 7
	touch := func(k int) {
		if j := slices.Index(model, k); j >= 0 {
			model = slices.Delete(model, j, j+1)
		}
		model = slices.Insert(model, 0, k)
	}
	for range size(r) {
		x := r.IntN(60)
		m.Store(x, x*7)
		touch(x)
	}
	rng := func() []int {
		var got []int
		m.Range(func(k, v int) bool {
			if v != k*7 {
				c.Fail("value", "key %d has value %d", k, v)
			}
			got = append(got, k)
			return true
		})
		return got
	}
	for range 1 + r.IntN(6) {
		f := newFuse(r, len(model))
		f.use = func() {
			if r.IntN(2) == 0 {
				same(c, "Range in a callback", rng(), model)
			} else if m.Len() != len(model) {
				c.Fail("nested", "Len wrong in a callback")
			}
		}
		o.Op("Range", f.n, len(model))
		var got []int
		if do(c, f, "lhashmap.Range", func() { m.Range(func(k, v int) bool { f.hit(); got = append(got, k); return true }) }) {
			same(c, "(visited before the panic)", got, model[:f.n])
		} else {
			same(c, "(visited)", got, model)
		}
		x := r.IntN(60)
		switch r.IntN(3) {
		case 0:
			o.Op("Store", x)
			m.Store(x, x*7)
			touch(x)
		case 1:
			o.Op("Load", x)
			if _, ok := m.Load(x); ok != slices.Contains(model, x) {
				c.Fail("result", "Load(%d) wrong", x)
			} else if ok {
				touch(x)
			}
		case 2:
			o.Op("Remove", x)
			m.Remove(x)
			if j := slices.Index(model, x); j >= 0 {
				model = slices.Delete(model, j, j+1)
			}
		}
		same(c, "a step", rng(), model)
	}
	o.Done("lhashmap", o.N > 0)
}

// --- ring ---

func ringPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	n := 1 + size(r)
	e := ring.New[int](n)
	for i := range n {
		e.Value = i
		e = e.Next()
	}
	at := 0
	expect := func() []int {
		var x []int
		for i := range n {
			x = append(x, (at+i)%n)
		}
		return x
	}
	collect := func() []int {
		var x []int
		e.Do(func(v int) { x = append(x, v) })
		return x
	}
	for range 1 + r.IntN(5) {
		f := newFuse(r, n)
		f.use = func() {
			switch r.IntN(3) {
			case 0:
				if e.Len() != n {
					c.Fail("nested", "Len wrong in a callback")
				}
			case 1:
				if r.IntN(4) == 0 {
					same(c, "Do in a callback", collect(), expect())
				}
			case 2:
				if k := r.IntN(2*n) - n; e.Move(k).Value != ((at+k)%n+n)%n {
					c.Fail("nested", "Move wrong in a callback")
				}
			}
		}
		o.Op("Do", f.n, n)
		var got []int
		if do(c, f, "ring.Do", func() { e.Do(func(v int) { f.hit(); got = append(got, v) }) }) {
			same(c, "(visited before the panic)", got, expect()[:f.n])
		} else {
			same(c, "(visited)", got, expect())
		}
		same(c, "a step", collect(), expect())
		k := r.IntN(n)
		e = e.Move(k)
		at = (at + k) % n
	}
	o.Done("ring", o.N > 0)
}

// --- heap ---

type userHeap struct {
	x []int
	f *fuse
}

func (h *userHeap) Len() int           { return len(h.x) }
func (h *userHeap) Less(i, j int) bool { h.f.hit(); return h.x[i] < h.x[j] }
func (h *userHeap) Swap(i, j int)      { h.x[i], h.x[j] = h.x[j], h.x[i] }
func (h *userHeap) Push(x int)         { h.x = append(h.x, x) }
func (h *userHeap) Pop() int {
	n := len(h.x) - 1
	x := h.x[n]
	h.x = h.x[:n]
	return x
}

func heapPanics(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	h := &userHeap{x: ints(r, size(r), 50), f: &fuse{n: -1}}
	model := sortedInts(h.x)
	heap.Init[int](h)
	for range 1 + r.IntN(8) {
		f := newFuse(r, 6)
		h.f = f
		n := len(h.x)
		k := r.IntN(5)
		if n == 0 && k > 1 {
			k = 0
		}
		o.Op("op", k, f.n, n)
		var blown bool
		switch k {
		case 0:
			x := r.IntN(50)
			blown = do(c, f, "heap.Push", func() { heap.Push[int](h, x) })
			if blown && len(h.x) == n {
				break // not pushed at all
			}
			model = sortedInts(append(model, x))
		case 1:
			blown = do(c, f, "heap.Init", func() { heap.Init[int](h) })
		case 2:
			var x int
			if blown = do(c, f, "heap.Pop", func() { x = heap.Pop[int](h) }); !blown {
				if x != model[0] {
					c.Fail("pop", "Pop returned %d, least is %d", x, model[0])
				}
				model = model[1:]
			}
		case 3:
			i := r.IntN(n)
			want, x := h.x[i], 0
			if blown = do(c, f, "heap.Remove", func() { x = heap.Remove[int](h, i) }); !blown {
				if x != want {
					c.Fail("remove", "Remove returned %d, want %d", x, want)
				}
				j := slices.Index(model, x)
				model = slices.Delete(slices.Clone(model), j, j+1)
			}
		case 4:
			i := r.IntN(n)
			j := slices.Index(model, h.x[i])
			h.x[i] = r.IntN(50)
			model = slices.Clone(model)
			model[j] = h.x[i]
			slices.Sort(model)
			blown = do(c, f, "heap.Fix", func() { heap.Fix[int](h, i) })
		}
		same(c, "a heap operation (in any order)", sortedInts(h.x), model)
		h.f = &fuse{n: -1}
		if blown {
			heap.Init[int](h)
		}
		for i := range h.x {
			if i > 0 && h.x[i] < h.x[(i-1)/2] {
				c.Fail("order", "no heap: %v", h.x)
			}
		}
	}
	o.Done("heap", o.N > 0)
}
