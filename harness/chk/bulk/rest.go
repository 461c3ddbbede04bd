package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"verif.local/h/kit"
)

// cacheLife: entries that stay, and entries that are expired from the start; no
// entry changes its state during the case, so the real clock does not matter.
func cacheLife(c *kit.C, i int, r *rand.Rand, cb bool) {
	o := c.NewOps()
	n := size(r, 70000)
	c.Max("max.elements", int64(n))
	// The background trimming works by the real clock: it may come at any time and
	// may drop expired entries, with their callbacks.
	var mu sync.Mutex
	told := map[int]int{}
	var conf []synccache.SyncCacheConfig[int, int]
	if cb {
		conf = append(conf, synccache.WithDeletedCallback[int, int](func(v int) {
			mu.Lock()
			told[v]++
			mu.Unlock()
		}))
	}
	sc := synccache.NewSyncCache[int, int](time.Hour, conf...)
	defer sc.Close()
	type ent struct {
		v    int
		dead bool
	}
	w := map[int]ent{}
	due := map[int]bool{} // values that must have been told
	may := map[int]bool{} // expired entries: told if the cache dropped them
	next := 1
	put := func(k int) int {
		next++
		return next
	}
	drop := func(k int) {
		if x, ok := w[k]; ok {
			delete(w, k)
			if x.dead {
				may[x.v] = true
			} else {
				due[x.v] = true
			}
		}
	}
	ages := []time.Duration{time.Hour, 90 * 24 * time.Hour, -time.Second, -time.Hour}
	store := func(k int) {
		v := put(k)
		a := ages[min(r.IntN(12), 3)]
		if r.IntN(2) == 0 {
			a = time.Hour
		}
		if x, ok := w[k]; ok && x.dead {
			may[x.v] = true
		}
		sc.Store(k, v, a)
		w[k] = ent{v, a < 0}
	}
	is := func(what string, k int, e *synccache.Entry[int], ok bool) {
		x, has := w[k]
		if has = has && !x.dead; ok != has || ok && e.Value() != x.v {
			c.Fail("result", "%s(%d) in a cache of about %d: %v, want %v, %v", what, k, len(w), ok, has, x)
		}
	}
	check := func() {
		for k := 0; k < n+n/8; k++ {
			e, ok := sc.Load(k)
			is("Load", k, e, ok)
			if x, has := w[k]; has && x.dead {
				drop(k)
			}
		}
		live := 0
		for _, x := range w {
			if !x.dead {
				live++
			}
		}
		seen := map[int]bool{}
		sc.Range(func(k int, e *synccache.Entry[int]) bool {
			if seen[k] {
				c.Fail("range", "Range visits %d twice", k)
			}
			seen[k] = true
			is("a visit of Range", k, e, true)
			return true
		})
		if len(seen) != live {
			c.Fail("range", "Range made %d visits, want %d", len(seen), live)
		}
		c.Tick()
	}
	o.Op("fill", n)
	for k := 0; k < n; k++ {
		store(k)
	}
	if r.IntN(2) == 0 {
		check()
	}
	for round := 1 + r.IntN(2); round > 0; round-- {
		steps := n/2 + r.IntN(n)
		o.Op("steps", steps, r.IntN(1<<30))
		for ; steps > 0; steps-- {
			k := r.IntN(n + n/8)
			x, has := w[k]
			switch r.IntN(8) {
			case 0, 1:
				store(k)
			case 2:
				e, ok := sc.Load(k)
				is("Load", k, e, ok)
				if has && x.dead {
					drop(k)
				}
			case 3:
				sc.Delete(k)
				drop(k)
			case 4:
				e, ok := sc.LoadAndDelete(k)
				is("LoadAndDelete", k, e, ok)
				drop(k)
			case 5:
				v := put(k)
				e, ok := sc.LoadOrStore(k, v, time.Hour)
				if ok != (has && !x.dead) || ok && e.Value() != x.v || !ok && e.Value() != v {
					c.Fail("result", "LoadOrStore(%d) = %v, previously %v, %v", k, ok, has, x)
				}
				if !ok {
					if has { // expired
						may[x.v] = true
					}
					w[k] = ent{v, false}
				}
			case 6:
				v := x.v
				if r.IntN(2) == 0 {
					v++
				}
				if ok := sc.CompareValueAndDelete(k, v); has && !x.dead || !has {
					if ok != (has && v == x.v) {
						c.Fail("result", "CompareValueAndDelete(%d, %d) = %v, the value is %d, %v", k, v, ok, x.v, has)
					}
					if ok {
						drop(k)
					}
				} else if ok || v == x.v {
					drop(k)
				}
			case 7:
				e, ok := sc.Load(k)
				is("Load", k, e, ok)
				if has && x.dead {
					drop(k)
				} else if has {
					if !sc.CompareAndDelete(k, e) {
						c.Fail("result", "CompareAndDelete(%d) of the entry just loaded = false", k)
					}
					drop(k)
				}
			}
		}
		check()
	}
	if cb {
		o.Op("Clear", len(w))
		sc.Clear()
		for k := range w {
			drop(k)
		}
		mu.Lock()
		defer mu.Unlock()
		for v := range due {
			if told[v] != 1 {
				c.Fail("callback", "%d callbacks for value %d, which was removed from a cache of %d", told[v], v, n)
			}
		}
		for v, k := range told {
			if k > 1 || !due[v] && !may[v] {
				c.Fail("callback", "%d callbacks for value %d (removed: %v)", k, v, due[v])
			}
		}
		c.Count("callbacks", int64(len(told)))
	}
	o.Done("synccache", true)
}

func cacheOps(c *kit.C, i int, r *rand.Rand)       { cacheLife(c, i, r, false) }
func cacheCallbacks(c *kit.C, i int, r *rand.Rand) { cacheLife(c, i, r, true) }

// user is a container of the caller.
type user struct {
	s    []int
	down bool
	c    *kit.C
}

func (u *user) Len() int { return len(u.s) }
func (u *user) Less(i, j int) bool {
	if u.down {
		return u.s[i]>>20 > u.s[j]>>20
	}
	return u.s[i]>>20 < u.s[j]>>20
}
func (u *user) Swap(i, j int) { u.s[i], u.s[j] = u.s[j], u.s[i] }
func (u *user) Push(x int)    { u.s = append(u.s, x) }
func (u *user) Pop() int {
	x := u.s[len(u.s)-1]
	u.s = u.s[:len(u.s)-1]
	return x
}
func (u *user) ordered(what string) {
	for i := 1; i < len(u.s); i++ {
		if u.Less(i, (i-1)/2) {
			u.c.Fail("order", "%s: position %d of %d goes before its parent", what, i, len(u.s))
		}
	}
	u.c.Tick()
}

func heaps(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 100000)
	c.Max("max.elements", int64(n))
	u := &user{down: i%2 == 0, c: c}
	in := map[int]bool{}
	id := 0
	val := func(k int) int { id++; return k<<20 | id }
	if r.IntN(2) == 0 {
		o.Op("Init", n)
		for _, k := range shape(r, n, spread(r, n)) {
			u.s = append(u.s, val(k))
		}
		for _, x := range u.s {
			in[x] = true
		}
		heap.Init[int](u)
	} else {
		o.Op("Push", n)
		for _, k := range shape(r, n, spread(r, n)) {
			x := val(k)
			in[x] = true
			heap.Push[int](u, x)
		}
	}
	u.ordered("after filling")
	for step := 0; step < 3000; step++ {
		at := r.IntN(len(u.s))
		switch r.IntN(4) {
		case 0:
			x := val(r.IntN(n))
			in[x] = true
			heap.Push[int](u, x)
		case 1:
			x := u.s[at]
			if g := heap.Remove[int](u, at); g != x {
				c.Fail("result", "Remove(%d) of %d returned another element", at, len(u.s)+1)
			}
			delete(in, x)
		case 2:
			delete(in, u.s[at])
			u.s[at] = val(r.IntN(n))
			in[u.s[at]] = true
			heap.Fix[int](u, at)
		case 3:
			x := u.s[0]
			if g := heap.Pop[int](u); g != x {
				c.Fail("result", "Pop of %d returned another element than the first", len(u.s)+1)
			}
			delete(in, x)
		}
	}
	u.ordered("after changes")
	for _, x := range u.s {
		if !in[x] {
			c.Fail("content", "a foreign or repeated element")
		}
		delete(in, x)
	}
	if len(in) != 0 {
		c.Fail("content", "%d elements are lost", len(in))
	}
	last := -1
	for k := 0; len(u.s) > 0; k++ {
		x := heap.Pop[int](u) >> 20
		if last >= 0 && (u.down && x > last || !u.down && x < last) {
			c.Fail("order", "pop %d gives %d after %d", k, x, last)
		}
		last = x
	}
	// The ready-made heaps.
	mn, mx := &heap.MinHeap[int]{}, &heap.MaxHeap[int]{}
	w := shape(r, n, spread(r, n))
	for _, x := range w {
		heap.Push[int](mn, x)
		heap.Push[int](mx, x)
	}
	slices.Sort(w)
	for k := range w {
		if g := heap.Pop[int](mn); g != w[k] {
			c.Fail("order", "pop %d of %d of a MinHeap is %d, want %d", k, n, g, w[k])
		}
		if g := heap.Pop[int](mx); g != w[n-1-k] {
			c.Fail("order", "pop %d of %d of a MaxHeap is %d, want %d", k, n, g, w[n-1-k])
		}
	}
	if mn.Len() != 0 || mx.Len() != 0 {
		c.Fail("content", "not empty at the end")
	}
	o.Done("heap", true)
}

func queues(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 140000)
	c.Max("max.elements", int64(n))
	down := i%2 == 0
	q := pqueue.NewMinPriorityQueue[int]()
	if down {
		q = pqueue.NewMaxPriorityQueue[int]()
	}
	prio := map[int]int{}
	var order []int // the multiset, as a sorted slice in the end
	o.Op("Push", n, r.IntN(1<<30))
	for id, k := range shape(r, n, spread(r, n)) {
		q.Push(k, id)
		prio[id] = k
		order = append(order, k)
	}
	slices.Sort(order)
	pop := func(want int) {
		p, id := q.Pop()
		k, ok := prio[id]
		if !ok || k != p || p != want {
			c.Fail("order", "Pop from %d: priority %d, value %d (pushed with %d, %v), want priority %d", q.Len()+1, p, id, k, ok, want)
		}
		delete(prio, id)
	}
	end := func() int {
		if down {
			return order[len(order)-1]
		}
		return order[0]
	}
	for k := r.IntN(n); k > 0; k-- {
		pop(end())
		if down {
			order = order[:len(order)-1]
		} else {
			order = order[1:]
		}
	}
	if q.Len() != len(order) {
		c.Fail("len", "Len() = %d, want %d", q.Len(), len(order))
	}
	c.Tick()
	more := shape(r, n/2+1, spread(r, n))
	o.Op("Push", len(more))
	for id, k := range more {
		q.Push(k, n+id)
		prio[n+id] = k
	}
	order = append(slices.Clone(order), more...)
	slices.Sort(order)
	if down {
		slices.Reverse(order)
	}
	for _, want := range order {
		pop(want)
	}
	if q.Len() != 0 || len(prio) != 0 {
		c.Fail("len", "%d left of an emptied queue, %d values lost", q.Len(), len(prio))
	}
	o.Done("pqueue", true)
}

func ringNames(r *rand.Rand, n int) []string {
	w := make([]string, n)
	for k := range w {
		switch n % 3 {
		case 0:
			w[k] = fmt.Sprint("node-", k)
		case 1:
			w[k] = fmt.Sprintf("10.%d.%d.%d", k>>16, k>>8&255, k&255)
		case 2:
			w[k] = strings.Repeat("x", k%5) + fmt.Sprint(k)
		}
	}
	r.Shuffle(n, func(i, j int) { w[i], w[j] = w[j], w[i] })
	return w
}

// rings24: only members, and the same answers whatever the history.
func rings24(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n, rep := 200+r.IntN(3000), 1+r.IntN(12)
	if r.IntN(3) == 0 {
		n, rep = 5+r.IntN(30), 300+r.IntN(1500)
	}
	c.Max("max.points", int64(n*rep))
	o.Op("ring", n, rep)
	all := ringNames(r, n)
	b := hashring.New[string](rep)
	for k := 0; k < n; { // in portions, with some that go again
		m := min(n-k, 1+n/4+r.IntN(n))
		b.AddNodes(all[k : k+m]...)
		k += m
	}
	extra := []string{"gone-1", "gone-2", all[0] + "-0", "gone-4"}
	b.AddNodes(extra...)
	keep := n/3 + r.IntN(n/2)
	b.RemoveNodes(append(slices.Clone(all[keep:]), extra...)...)
	c.Tick()
	in := map[string]bool{}
	for _, x := range all[:keep] {
		in[x] = true
	}
	fresh := hashring.New[string](rep)
	fresh.AddNodes(all[:keep]...)
	for k := 0; k < 5000; k++ {
		key := fmt.Sprint("key", k)
		if k%3 == 0 {
			key = all[k%n]
		}
		g, f := b.GetNode(key), fresh.GetNode(key)
		if !in[g] {
			c.Fail("member", "GetNode(%q) = %q, which is not one of the %d members", key, g, keep)
		}
		if g != f {
			c.Fail("history", "GetNode(%q) = %q; a ring given the same %d members at once answers %q", key, g, keep, f)
		}
	}
	o.Done("hashring", true)
}

// rings25: keys move only from removed members or to added ones.
func rings25(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n, rep := 200+r.IntN(3000), 1+r.IntN(12)
	if r.IntN(3) == 0 {
		n, rep = 5+r.IntN(30), 300+r.IntN(1500)
	}
	c.Max("max.points", int64(n*rep))
	o.Op("ring", n, rep)
	all := ringNames(r, n+10)
	h := hashring.New[string](rep)
	h.AddNodes(all[:n]...)
	keys := make([]string, 4000)
	at := make([]string, len(keys))
	for k := range keys {
		keys[k] = fmt.Sprint(k, "-", r.IntN(1000))
		at[k] = h.GetNode(keys[k])
	}
	spare := all[n:]
	for round := 0; round < 4; round++ {
		ch := map[string]bool{}
		add := round%2 == 0
		if add {
			m := 1 + r.IntN(len(spare)/2)
			o.Op("AddNodes", m)
			h.AddNodes(spare[:m]...)
			for _, x := range spare[:m] {
				ch[x] = true
			}
			spare = spare[m:]
		} else {
			m := 1 + r.IntN(4)
			o.Op("RemoveNodes", m)
			from := r.IntN(n / 2)
			for _, x := range all[from : from+min(m, n/3)] {
				ch[x] = true
				h.RemoveNodes(x)
			}
		}
		for k, key := range keys {
			g := h.GetNode(key)
			if g != at[k] && (add && !ch[g] || !add && !ch[at[k]]) {
				c.Fail("moved", "after a change of %d among %d members %q moved from %q to %q", len(ch), n, key, at[k], g)
			}
			at[k] = g
		}
		c.Tick()
	}
	o.Done("hashring", true)
}

type flat struct {
	nodes []*tree.Node[int]
	l, r  []int
	par   []int
	depth []int
}

// grow makes a tree of n nodes, numbered so that parents come before children.
func grow(r *rand.Rand, n int) *flat { return growKind(r, n, r.IntN(5)) }

func growKind(r *rand.Rand, n, kind int) *flat {
	t := &flat{l: make([]int, n), r: make([]int, n), par: make([]int, n), depth: make([]int, n)}
	open := []int{}
	for k := 0; k < n; k++ {
		t.nodes = append(t.nodes, tree.NewNode(k))
		t.l[k], t.r[k], t.par[k] = -1, -1, -1
		if k > 0 {
			p := k - 1
			left := kind != 1
			switch kind {
			case 2: // as BuildTree
				p = (k - 1) / 2
				left = k%2 == 1
			case 3: // zigzag
				left = k%3 == 0
			case 4: // random
				j := r.IntN(len(open))
				p = open[j]
				left = t.l[p] < 0 && (t.r[p] >= 0 || r.IntN(2) == 0)
				if t.l[p] >= 0 || t.r[p] >= 0 {
					open[j] = open[len(open)-1]
					open = open[:len(open)-1]
				}
			}
			if left {
				t.nodes[p].SetLeft(t.nodes[k])
				t.l[p] = k
			} else {
				t.nodes[p].SetRight(t.nodes[k])
				t.r[p] = k
			}
			t.par[k] = p
			t.depth[k] = t.depth[p] + 1
		}
		open = append(open, k)
	}
	return t
}

func trees(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 20000)
	c.Max("max.elements", int64(n))
	if r.IntN(4) == 0 {
		w := make([]int, n)
		for k := range w {
			w[k] = k * 3
		}
		o.Op("BuildTree", n)
		got := tree.BuildTree(w).TraversalBFS()
		if len(got) != n {
			c.Fail("bfs", "BuildTree of %d values has %d nodes", n, len(got))
		}
		for k, x := range got {
			if x.Val != w[k] {
				c.Fail("bfs", "BuildTree of %d values: value %d of TraversalBFS is %d", n, k, x.Val)
			}
		}
	}
	var t *flat
	if r.IntN(6) == 0 { // a deep one
		n = 65000 + r.IntN(5000)
		c.Max("max.elements", int64(n))
		t = growKind(r, n, []int{0, 1, 3}[r.IntN(3)])
	} else {
		t = grow(r, n)
	}
	o.Op("grow", n, t.par[n/2], t.par[n-1])
	root := t.nodes[0]
	var pre []int
	for stack := []int{0}; len(stack) > 0; {
		k := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		pre = append(pre, k)
		if t.r[k] >= 0 {
			stack = append(stack, t.r[k])
		}
		if t.l[k] >= 0 {
			stack = append(stack, t.l[k])
		}
	}
	is := func(what string, got []*tree.Node[int], want []int) {
		if len(got) != len(want) {
			c.Fail("traversal", "%s of %d nodes returns %d", what, len(want), len(got))
		}
		for k := range want {
			if got[k] != t.nodes[want[k]] {
				c.Fail("traversal", "%s of %d nodes: position %d is wrong", what, len(want), k)
			}
		}
		c.Tick()
	}
	is("TraversalDFS", root.TraversalDFS(), pre)
	bfs := []int{0}
	for k := 0; k < len(bfs); k++ {
		if x := t.l[bfs[k]]; x >= 0 {
			bfs = append(bfs, x)
		}
		if x := t.r[bfs[k]]; x >= 0 {
			bfs = append(bfs, x)
		}
	}
	is("TraversalBFS", root.TraversalBFS(), bfs)
	if g, w := root.MaxDepth(), slices.Max(t.depth); g != w {
		c.Fail("depth", "MaxDepth() of %d nodes = %d, want %d", n, g, w)
	}
	for range 10 {
		k := r.IntN(n)
		if r.IntN(3) == 0 {
			k = n - 1
		}
		if g := t.nodes[k].Layer(); g != t.depth[k] {
			c.Fail("layer", "Layer() = %d, want %d", g, t.depth[k])
		}
	}
	for k := range t.nodes {
		x := t.nodes[k]
		if link := func(i int) *tree.Node[int] {
			if i < 0 {
				return nil
			}
			return t.nodes[i]
		}; x.Left != link(t.l[k]) || x.Right != link(t.r[k]) || x.Parent != link(t.par[k]) || x.Val != k {
			c.Fail("links", "the links of node %d of %d are wrong", k, n)
		}
	}
	lines := strings.Split(strings.TrimSuffix(root.DrawTree(), "\n"), "\n")
	if len(lines) != slices.Max(t.depth)+1 {
		c.Fail("draw", "DrawTree of %d nodes has %d lines, want %d", n, len(lines), slices.Max(t.depth)+1)
	}
	k := 0
	for d, line := range lines {
		for _, f := range strings.Fields(line) {
			if k >= n || t.depth[bfs[k]] != d || f != fmt.Sprint(bfs[k]) {
				c.Fail("draw", "DrawTree of %d nodes: line %d has %q", n, d, f)
			}
			k++
		}
	}
	if k != n {
		c.Fail("draw", "DrawTree of %d nodes shows %d", n, k)
	}
	o.Done("tree", true)
}

func relations(c *kit.C, i int, r *rand.Rand) {
	o := c.NewOps()
	n := size(r, 20000)
	c.Max("max.elements", int64(n))
	var t *flat
	if r.IntN(12) == 0 {
		n = 65000 + r.IntN(5000)
		c.Max("max.elements", int64(n))
		t = growKind(r, n, []int{0, 1, 3}[r.IntN(3)])
	} else {
		t = grow(r, n)
	}
	o.Op("grow", n, t.par[n/2], t.par[n-1])
	deepest := 0
	for k := range t.depth {
		if t.depth[k] > t.depth[deepest] {
			deepest = k
		}
	}
	for step := 0; step < 400; step++ {
		a, b := r.IntN(n), r.IntN(n)
		switch step % 4 {
		case 0:
			b = deepest
		case 1: // an ancestor
			for k := r.IntN(t.depth[b] + 1); k > 0; k-- {
				b, a = t.par[b], b
			}
			a, b = b, deepest
		}
		anc := false
		for k := b; k >= 0; k = t.par[k] {
			anc = anc || k == a
		}
		if g := t.nodes[a].IsAncestorRelation(t.nodes[b]); g != anc {
			c.Fail("ancestor", "IsAncestorRelation = %v for depths %d and %d of %d nodes", g, t.depth[a], t.depth[b], n)
		}
		if g := t.nodes[a].IsDescendantRelation(t.nodes[b]); g != (anc && a != b) {
			c.Fail("descendant", "IsDescendantRelation = %v for depths %d and %d of %d nodes", g, t.depth[a], t.depth[b], n)
		}
		if step%8 == 0 {
			c.Tick()
		}
	}
	for step := 0; step < 3000; step++ {
		k := r.IntN(n)
		x := t.nodes[k]
		if x.IsLeaf() != (t.l[k] < 0 && t.r[k] < 0) || x.IsRoot() != (k == 0) || x.HasLeft() != (t.l[k] >= 0) || x.HasRight() != (t.r[k] >= 0) || x.HasParent() != (k != 0) ||
			x.IsLeft() != (k > 0 && t.l[t.par[k]] == k) || x.IsRight() != (k > 0 && t.r[t.par[k]] == k) {
			c.Fail("relations", "node %d of %d misjudges its own links", k, n)
		}
		if k > 0 && t.par[k] > 0 && x.Grandparent() != t.nodes[t.par[t.par[k]]] {
			c.Fail("relations", "Grandparent() of node %d of %d is wrong", k, n)
		}
	}
	o.Done("tree", true)
}
