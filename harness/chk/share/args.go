package main

import (
	"cmp"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

// A loan is a slice of the user's that a container was given. It may have spare
// capacity with content behind its end, and duplicates.
type loan[T comparable] struct {
	all  []T // the whole backing array
	n    int
	want []T
}

func lend[T comparable](r *rand.Rand, mk func(int) T, n int) *loan[T] {
	l := &loan[T]{n: n}
	for range n + r.IntN(6) {
		l.all = append(l.all, mk(r.IntN(40)))
	}
	if r.IntN(4) == 0 { // already in order or in reverse
		switch mk(0); any(l.all).(type) {
		case []int:
			sort.Ints(any(l.all).([]int))
		case []string:
			sort.Strings(any(l.all).([]string))
		}
		if r.IntN(2) == 0 {
			slices.Reverse(l.all)
		}
	}
	l.all = slices.Clip(l.all)
	l.want = slices.Clone(l.all)
	return l
}

func (l *loan[T]) arg() []T { return l.all[:l.n] }

func (l *loan[T]) unchanged(c *kit.C, what string) {
	if !slices.Equal(l.all, l.want) {
		c.Fail("argument", "%s changed its caller's slice: %v, was %v (length passed: %d)", what, l.all, l.want, l.n)
	}
}

// scribble writes over a slice that belongs to the user, which no container may notice.
func scribble[T any](r *rand.Rand, mk func(int) T, s []T) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = mk(1000 + r.IntN(1000))
	}
}

// A keep is a slice that a container handed out: nothing the container does later
// may change it.
type keep[T any] struct {
	s, want []T
	what    string
}

type keeps[T any] struct {
	list []*keep[T]
	same func(a, b T) bool
}

func (k *keeps[T]) add(what string, s []T) {
	k.list = append(k.list, &keep[T]{s, slices.Clone(s), what})
}

func (k *keeps[T]) check(c *kit.C, what string) {
	for _, x := range k.list {
		if !slices.EqualFunc(x.s, x.want, k.same) {
			c.Fail("result", "after %s a slice of length %d that %s had returned earlier is different", what, len(x.s), x.what)
		}
	}
}

// write lets the user write over one of them.
func (k *keeps[T]) write(r *rand.Rand, mk func(int) T) bool {
	if len(k.list) == 0 {
		return false
	}
	x := k.list[r.IntN(len(k.list))]
	scribble(r, mk, x.s)
	x.want = slices.Clone(x.s)
	return true
}

func eqOf[T comparable](a, b T) bool { return a == b }

// many is usually small, sometimes large.
func many(r *rand.Rand, n int) int {
	switch r.IntN(25) {
	case 0:
		return r.IntN(60 * n)
	case 1:
		return r.IntN(300 * n)
	}
	return r.IntN(n)
}

func c34(c *kit.C) {
	mi := func(i int) int { return i }
	ms := func(i int) string { return "s" + strconv.Itoa(i) }
	c.Cases("vec", c.N(15000, 20), func(i int, r *rand.Rand) {
		if r.IntN(2) == 0 {
			vecArgs(c, r, mi)
		} else {
			vecArgs(c, r, ms)
		}
	})
	c.Cases("set", c.N(12000, 20), func(i int, r *rand.Rand) {
		if r.IntN(2) == 0 {
			setArgs(c, r, mi)
		} else {
			setArgs(c, r, ms)
		}
	})
	c.Cases("hashring", c.N(7500, 20), func(i int, r *rand.Rand) {
		if r.IntN(2) == 0 {
			ringArgs(c, r, mi)
		} else {
			ringArgs(c, r, ms)
		}
	})
	c.Cases("tree", c.N(9000, 20), func(i int, r *rand.Rand) { treeArgs(c, r, ms) })
	c.Cases("dllist", c.N(9000, 20), func(i int, r *rand.Rand) { listArgs(c, r, mi) })
	c.Cases("genmap", c.N(9000, 20), func(i int, r *rand.Rand) { genArgs(c, r) })
}

func vecArgs[T cmp.Ordered](c *kit.C, r *rand.Rand, mk func(int) T) {
	o := c.NewOps()
	v := vec.New(vec.WithCmpLess(func(a, b T) bool { return a < b }), vec.WithCmpEqual(func(a, b T) bool { return a == b }))
	if r.IntN(3) == 0 {
		v = &vec.Vec[T]{}
	}
	var model []T
	var loans []*loan[T]
	mine := keeps[T]{same: eqOf[T]}
	check := func(what string) {
		mine.check(c, what)
		if !slices.Equal(v.CloneToSlice(), model) {
			c.Fail("content", "after %s the Vec holds %v, want %v", what, v.CloneToSlice(), model)
		}
		for _, l := range loans {
			l.unchanged(c, what)
		}
	}
	for range 2 + r.IntN(15) {
		n := len(model)
		l := lend(r, mk, many(r, 9))
		a := l.arg()
		k := r.IntN(14)
		o.Op("op", k, n, l.n, len(l.all))
		switch k {
		case 0, 1, 2:
			v.Push(a...)
			model = append(slices.Clip(model), a...)
		case 3:
			i := r.IntN(n + 1)
			v.Insert(i, a...)
			model = slices.Insert(slices.Clone(model), i, a...)
		case 4:
			i := r.IntN(n + 1)
			j := i + r.IntN(n-i+1)
			v.Replace(i, j, a...)
			model = slices.Replace(slices.Clone(model), i, j, a...)
		case 5:
			if v.EqualSlice(a) != slices.Equal(model, a) {
				c.Fail("result", "EqualSlice wrong")
			}
		case 6:
			v.EqualSliceFunc(a, func(x, y T) bool { return x == y })
		case 7:
			v.Clear()
			v.Push(a...)
			model = slices.Clone(a)
		case 8: // what came out belongs to the user
			i := r.IntN(n + 1)
			j := i + r.IntN(n-i+1)
			mine.add("Cut", v.Cut(i, j))
			model = slices.Delete(slices.Clone(model), i, j)
		case 9:
			mine.add("CloneToSlice", v.CloneToSlice())
		case 10:
			idx := v.SearchAll(mk(r.IntN(40)))
			scribble(r, func(i int) int { return i }, idx)
		case 11:
			v.SortFunc(func(a, b T) bool { return a < b }, func(a, b T) bool { return a == b })
			model = slices.Clone(model)
			slices.Sort(model)
		case 12:
			if n > 0 {
				v.Set(r.IntN(n), mk(5))
				model = slices.Clone(v.CloneToSlice())
			}
		case 13:
			w := vec.New[T]().Push(a...)
			v.EqualVecFunc(*w, func(x, y T) bool { return x == y })
			v.CompareFunc(*w, func(a, b T) bool { return a < b }, func(a, b T) bool { return a == b })
			v.Reverse()
			model = slices.Clone(model)
			slices.Reverse(model)
			if !slices.Equal(w.CloneToSlice(), a) {
				c.Fail("argument", "comparing changed the other Vec")
			}
		}
		loans = append(loans, l)
		check("an operation")
		switch r.IntN(4) {
		case 0: // the user writes over what it lent
			l := loans[r.IntN(len(loans))]
			scribble(r, mk, l.all)
			l.want = slices.Clone(l.all)
			check("the user wrote over a slice it had passed")
		case 1:
			if mine.write(r, mk) {
				check("the user wrote over a slice it had got")
			}
		}
	}
	o.Done("vec", o.N > 3)
}

func setArgs[T cmp.Ordered](c *kit.C, r *rand.Rand, mk func(int) T) {
	o := c.NewOps()
	s := set.New[T]()
	model := map[T]bool{}
	var loans []*loan[T]
	mine := keeps[T]{same: eqOf[T]}
	check := func(what string) {
		mine.check(c, what)
		x := s.Slice()
		slices.Sort(x)
		var want []T
		for k := range model {
			want = append(want, k)
		}
		slices.Sort(want)
		if !slices.Equal(x, want) {
			c.Fail("content", "after %s the set is %v, want %v", what, x, want)
		}
		for _, l := range loans {
			l.unchanged(c, what)
		}
	}
	for range 2 + r.IntN(12) {
		l := lend(r, mk, many(r, 9))
		k := r.IntN(4)
		o.Op("op", k, l.n, len(l.all))
		switch k {
		case 0, 1:
			s.Push(l.arg()...)
			for _, x := range l.arg() {
				model[x] = true
			}
		case 2:
			mine.add("Slice", s.Slice())
		case 3:
			x := mk(r.IntN(40))
			s.Remove(x)
			delete(model, x)
			a, b := set.New[T]().Push(l.arg()...), set.New[T]().Push(mk(1))
			others := []set.Set[T]{a, b, a}
			u := s.Union(others...)
			if len(others) != 3 || !others[0].Equal(others[2]) || others[1].Len() != 1 || others[0].Equal(u) != (len(u) == len(a)) {
				c.Fail("argument", "Union changed the sets it was given")
			}
			u.Clear()
		}
		loans = append(loans, l)
		check("an operation")
		switch r.IntN(4) {
		case 0:
			l := loans[r.IntN(len(loans))]
			scribble(r, mk, l.all)
			l.want = slices.Clone(l.all)
			check("the user wrote over a slice it had passed")
		case 1:
			if mine.write(r, mk) {
				check("the user wrote over a slice it had got")
			}
		}
	}
	o.Done("set", o.N > 3)
}

func ringArgs[T cmp.Ordered](c *kit.C, r *rand.Rand, mk func(int) T) {
	o := c.NewOps()
	rep := 1 + r.IntN(8)
	h := hashring.New[T](rep)
	members := map[T]bool{}
	var loans []*loan[T]
	owners := func() []T {
		var x []T
		for i := range 60 {
			x = append(x, h.GetNode(mk(100+i)))
		}
		return x
	}
	fresh := func() []T { // what a ring with these members answers
		g := hashring.New[T](rep)
		for m := range members {
			g.AddNodes(m)
		}
		var x []T
		for i := range 60 {
			x = append(x, g.GetNode(mk(100+i)))
		}
		return x
	}
	for range 2 + r.IntN(6) {
		l := lend(r, mk, r.IntN(7))
		k := r.IntN(4)
		o.Op("op", k, l.n, len(l.all), rep)
		switch k {
		case 0, 1:
			h.AddNodes(l.arg()...)
			for _, x := range l.arg() {
				members[x] = true
			}
		case 2:
			h.RemoveNodes(l.arg()...)
			for _, x := range l.arg() {
				delete(members, x)
			}
		case 3:
			h.ResetNodes(l.arg()...)
			members = map[T]bool{}
			for _, x := range l.arg() {
				members[x] = true
			}
		}
		loans = append(loans, l)
		for _, l := range loans {
			l.unchanged(c, "a membership change")
		}
		before := owners()
		if !slices.Equal(before, fresh()) {
			c.Fail("owners", "owners differ from those of a ring with the same members")
		}
		l = loans[r.IntN(len(loans))]
		scribble(r, mk, l.all)
		l.want = slices.Clone(l.all)
		if !slices.Equal(before, owners()) {
			c.Fail("owners", "owners changed when the user wrote over a slice it had passed")
		}
	}
	o.Done("hashring", o.N > 1)
}

func treeArgs(c *kit.C, r *rand.Rand, mk func(int) string) {
	o := c.NewOps()
	l := lend(r, mk, 1+many(r, 30))
	o.Op("BuildTree", l.n, len(l.all), r.IntN(1000))
	root := tree.BuildTree(l.arg())
	l.unchanged(c, "BuildTree")
	vals := func(ns []*tree.Node[string]) []string {
		var x []string
		for _, n := range ns {
			x = append(x, n.Val)
		}
		return x
	}
	want := slices.Clone(l.arg())
	dfs := root.TraversalDFS()
	pre := vals(dfs)
	bfs := root.TraversalBFS()
	if !slices.Equal(vals(bfs), want) {
		c.Fail("values", "BuildTree holds %v, want %v", vals(bfs), want)
	}
	mine := keeps[*tree.Node[string]]{same: eqOf[*tree.Node[string]]}
	for range 1 + r.IntN(3) {
		o.Op("write")
		scribble(r, mk, l.all)
		// The returned node lists are the user's.
		nodes := func(int) *tree.Node[string] { return nil }
		scribble(r, nodes, bfs)
		scribble(r, nodes, dfs)
		bfs, dfs = root.TraversalBFS(), root.TraversalDFS()
		if !slices.Equal(vals(bfs), want) || !slices.Equal(vals(dfs), pre) {
			c.Fail("values", "a tree changed when the user wrote over its own slices: %v, want %v", vals(bfs), want)
		}
		n := bfs[r.IntN(len(bfs))]
		mine.add("TraversalBFS", n.TraversalBFS())
		mine.add("TraversalDFS", n.TraversalDFS())
		mine.add("TraversalDFS", root.TraversalDFS())
		mine.check(c, "another traversal")
		m := bfs[r.IntN(len(bfs))]
		m.TraversalDFS()
		m.TraversalBFS()
		mine.check(c, "another traversal")
		scribble(r, nodes, root.TraversalBFS())
		scribble(r, nodes, n.TraversalDFS())
		mine.check(c, "the user wrote over the result of another traversal")
		if r.IntN(2) == 0 {
			m.DrawTree()
			m.MaxDepth()
			x := tree.NewNode(m.Val)
			if m.Left == nil {
				m.SetLeft(x)
				m.TraversalDFS()
				m.SetLeft(nil)
			}
			mine.check(c, "a change of the tree")
		}
	}
	o.Done("tree", true)
}

func listArgs(c *kit.C, r *rand.Rand, mk func(int) int) {
	o := c.NewOps()
	l := dllist.New[int]()
	var model []int
	mine := keeps[int]{same: eqOf[int]}
	for range many(r, 4) {
		l.PushBack(len(model))
		model = append(model, len(model))
	}
	for range 2 + r.IntN(20) {
		x := r.IntN(100)
		k := r.IntN(8)
		o.Op("op", k, x)
		switch k {
		case 0, 1:
			l.PushBack(x)
			model = append(model, x)
		case 2:
			mine.add("Slice", l.Slice())
		case 3:
			mine.write(r, mk)
		case 5:
			if len(model) > 0 {
				l.Front().Remove()
				model = model[1:]
			}
		case 6:
			l.Sort(func(a, b int) bool { return a < b })
			slices.Sort(model)
		case 7:
			for e := l.Front(); e != nil; e = e.Next() {
				e.Value++
			}
			for i := range model {
				model[i]++
			}
		case 4: // two results are two slices
			a, b := l.Slice(), l.Slice()
			scribble(r, mk, a)
			if !slices.Equal(b, model) {
				c.Fail("shared", "two Slice results share storage")
			}
		}
		mine.check(c, "an operation")
		if !slices.Equal(l.Slice(), model) {
			c.Fail("content", "the list is %v, want %v", l.Slice(), model)
		}
	}
	o.Done("dllist", o.N > 3)
}

func genArgs(c *kit.C, r *rand.Rand) {
	o := c.NewOps()
	m := genmap.New[int, int]()
	model := map[int]int{}
	mk := func(i int) int { return i }
	eq := func(what string) {
		if m.Len() != len(model) {
			c.Fail("content", "after %s: %d entries, want %d", what, m.Len(), len(model))
		}
		for k, v := range model {
			if x, ok := m.Load(k); !ok || x != v {
				c.Fail("content", "after %s: key %d is %d, %v, want %d", what, k, x, ok, v)
			}
		}
	}
	mine := keeps[int]{same: eqOf[int]}
	for i := range many(r, 4) {
		m.Store(100+i, i)
		model[100+i] = i
	}
	for range 2 + r.IntN(20) {
		x := r.IntN(30)
		k := r.IntN(8)
		o.Op("op", k, x)
		switch k {
		case 0, 1:
			m.Store(x, x+1)
			model[x] = x + 1
		case 2:
			a, b := m.Keys(), m.Keys()
			scribble(r, mk, a)
			slices.Sort(b)
			for i, k := range b {
				if _, ok := model[k]; !ok || i > 0 && b[i-1] == k {
					c.Fail("shared", "two Keys results share storage")
				}
			}
		case 3:
			scribble(r, mk, m.Values())
		case 6:
			mine.add("Keys", m.Keys())
			mine.add("Values", m.Values())
		case 7:
			m.Delete(x)
			delete(model, x)
			mine.write(r, mk)
		case 4: // the maps handed over are read only
			src := map[int]int{x: x + 1, x + 1: x + 2}
			m.CopyFromRaw(src)
			model[x], model[x+1] = x+1, x+2
			if len(src) != 2 || src[x] != x+1 || src[x+1] != x+2 {
				c.Fail("argument", "CopyFromRaw changed its argument")
			}
			src[x] = -1
			delete(src, x+1)
		case 5:
			dst := map[int]int{-7: 1}
			m.CopyToRaw(dst)
			if len(dst) != len(model)+1 {
				c.Fail("result", "CopyToRaw gave %d entries", len(dst))
			}
			clear(dst)
			e := m.Clone()
			e.Store(x, -5)
			e.Delete(x + 1)
		}
		eq("an operation")
		mine.check(c, "an operation")
	}
	o.Done("genmap", o.N > 3)
}
