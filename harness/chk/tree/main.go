// Monitors for tree: C27 (links, build, traversals) and C28 (relations).
package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/zijiren233/gencontainer/tree"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C27": c27, "C28": c28}) }

type world[T any] struct {
	c                   *kit.C
	r                   *rand.Rand
	o                   *kit.Ops
	mk                  func(int) T
	n                   []*tree.Node[T]
	id                  map[*tree.Node[T]]int
	parent, left, right []int
}

func newWorld[T any](c *kit.C, r *rand.Rand, mk func(int) T, n int) *world[T] {
	w := &world[T]{c: c, r: r, o: c.NewOps(), mk: mk, id: map[*tree.Node[T]]int{}}
	for i := 0; i < n; i++ {
		w.add(tree.NewNode(mk(i)))
	}
	return w
}

func (w *world[T]) add(n *tree.Node[T]) int {
	i := len(w.n)
	w.n = append(w.n, n)
	w.id[n] = i
	w.parent = append(w.parent, -1)
	w.left = append(w.left, -1)
	w.right = append(w.right, -1)
	return i
}

func (w *world[T]) name(n *tree.Node[T]) int {
	if n == nil {
		return -1
	}
	i, ok := w.id[n]
	if !ok {
		return -2
	}
	return i
}

func (w *world[T]) links(what string) {
	for i, n := range w.n {
		if l, r, p := w.name(n.Left), w.name(n.Right), w.name(n.Parent); l != w.left[i] || r != w.right[i] || p != w.parent[i] {
			w.c.Fail("links", "after %s node %d has parent %d, left %d, right %d; want %d, %d, %d (-1: none)", what, i, p, l, r, w.parent[i], w.left[i], w.right[i])
		}
	}
}

func (w *world[T]) under(anc, i int) bool { // i lies in the subtree of anc
	for ; i >= 0; i = w.parent[i] {
		if i == anc {
			return true
		}
	}
	return false
}

func (w *world[T]) set(right bool, p, ch int) {
	var node *tree.Node[T]
	if ch >= 0 {
		node = w.n[ch]
	}
	slot := w.left
	var old *tree.Node[T]
	if right {
		slot = w.right
		w.o.Op("SetRight", p, ch)
		old = w.n[p].SetRight(node)
	} else {
		w.o.Op("SetLeft", p, ch)
		old = w.n[p].SetLeft(node)
	}
	was := slot[p]
	if was != ch || ch < 0 { // putting a child where it already is displaces nothing
		if got := w.name(old); got != was {
			w.c.Fail("result", "attaching %d to %d (right: %v) returned %d, the displaced child is %d", ch, p, right, got, was)
		}
	}
	if was >= 0 {
		w.parent[was] = -1
		slot[p] = -1
	}
	if ch >= 0 {
		if q := w.parent[ch]; q >= 0 {
			if w.left[q] == ch {
				w.left[q] = -1
			}
			if w.right[q] == ch {
				w.right[q] = -1
			}
		}
		slot[p] = ch
		w.parent[ch] = p
	}
	w.links("SetLeft/SetRight")
}

// traversals judges everything read from node i (-1: the nil tree).
func (w *world[T]) traversals(i int, layers bool) {
	var n *tree.Node[T]
	if i >= 0 {
		n = w.n[i]
	}
	var pre []int
	var rows [][]int
	var walk func(i, d int)
	walk = func(i, d int) {
		if i < 0 {
			return
		}
		pre = append(pre, i)
		if len(rows) == d {
			rows = append(rows, nil)
		}
		rows[d] = append(rows[d], i)
		walk(w.left[i], d+1)
		walk(w.right[i], d+1)
	}
	walk(i, 0)
	names := func(l []*tree.Node[T]) (s []int) {
		for _, n := range l {
			s = append(s, w.name(n))
		}
		return
	}
	if got := names(n.TraversalDFS()); fmt.Sprint(got) != fmt.Sprint(pre) {
		w.c.Fail("dfs", "TraversalDFS from %d: %v, want %v", i, got, pre)
	}
	var bfs []int
	for _, r := range rows {
		bfs = append(bfs, r...)
	}
	if got := names(n.TraversalBFS()); fmt.Sprint(got) != fmt.Sprint(bfs) {
		w.c.Fail("bfs", "TraversalBFS from %d: %v, want %v", i, got, bfs)
	}
	if layers {
		var want []string
		for _, r := range rows {
			var s []string
			for _, j := range r {
				s = append(s, fmt.Sprint(w.n[j].Val))
			}
			want = append(want, strings.Join(s, " "))
		}
		var got []string
		text := n.DrawTree()
		for _, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
			if l != "" {
				got = append(got, strings.Join(strings.Fields(l), " "))
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			w.c.Fail("draw", "DrawTree from %d: %q, want the lines %q", i, text, want)
		}
	}
	if got, want := n.MaxDepth(), max(len(rows)-1, 0); got != want {
		w.c.Fail("depth", "MaxDepth of %d = %d, want %d", i, got, want)
	}
	if i >= 0 {
		d := 0
		for j := w.parent[i]; j >= 0; j = w.parent[j] {
			d++
		}
		if got := n.Layer(); got != d {
			w.c.Fail("layer", "Layer of %d = %d, want %d", i, got, d)
		}
	}
	w.c.Tick()
}

func (w *world[T]) run27(steps int) {
	N := len(w.n)
	for s := 0; s < steps; s++ {
		p, ch := w.r.IntN(N), w.r.IntN(N+1)-1
		switch w.r.IntN(8) {
		case 0:
			ch = w.left[p]
		case 1:
			ch = w.right[p]
		case 2:
			if q := w.parent[p]; q >= 0 { // a relative
				ch = w.left[q]
			}
		}
		if ch >= 0 && w.under(ch, p) {
			continue // would make a cycle
		}
		w.set(w.r.IntN(2) == 0, p, ch)
		w.traversals(w.r.IntN(N), w.r.IntN(2) == 0)
		if w.r.IntN(4) == 0 {
			q := w.r.IntN(N)
			for w.parent[q] >= 0 {
				q = w.parent[q]
			}
			w.traversals(q, true)
		}
	}
	if w.r.IntN(4) == 0 {
		for i := range w.n {
			w.traversals(i, true)
		}
	}
	w.traversals(-1, true)
	w.links("reading")
	w.o.Done("nodes", w.o.N > 3)
}

// build judges BuildTree on n values.
func (w *world[T]) build(n int) {
	w.o.Op("BuildTree", n)
	vals := make([]T, n)
	for i := range vals {
		vals[i] = w.mk(i)
	}
	root := tree.BuildTree(vals)
	if n == 0 {
		if root != nil {
			w.c.Fail("build", "BuildTree of nothing is not nil")
		}
		w.traversals(-1, true)
		return
	}
	// adopt level by level: node i's children are 2i+1 and 2i+2
	q := []*tree.Node[T]{root}
	for i := 0; i < n; i++ {
		if i >= len(q) || q[i] == nil {
			w.c.Fail("build", "BuildTree of %d values has no node %d in level order", n, i)
		}
		if _, dup := w.id[q[i]]; dup {
			w.c.Fail("build", "BuildTree of %d values: node %d occurs twice", n, i)
		}
		w.add(q[i])
		if fmt.Sprint(q[i].Val) != fmt.Sprint(vals[i]) {
			w.c.Fail("build", "BuildTree of %d values: node %d in level order has value %v, want %v", n, i, q[i].Val, vals[i])
		}
		if 2*i+1 < n {
			q = append(q, q[i].Left)
		}
		if 2*i+2 < n {
			q = append(q, q[i].Right)
		}
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			w.parent[i] = (i - 1) / 2
		}
		if 2*i+1 < n {
			w.left[i] = 2*i + 1
		}
		if 2*i+2 < n {
			w.right[i] = 2*i + 2
		}
	}
	w.links("BuildTree")
	w.traversals(0, true)
	w.traversals(w.r.IntN(n), true)
	w.o.Done("built tree", n > 1)
}

// chain makes a deep, thin tree.
func (w *world[T]) chain() {
	for i := 1; i < len(w.n); i++ {
		w.set(w.r.IntN(2) == 0, i-1, i)
	}
	w.traversals(0, true)
	w.traversals(len(w.n)-1, true)
	w.traversals(w.r.IntN(len(w.n)), true)
	w.o.Done("chain", true)
}

// ---- relations ----

func (w *world[T]) run28() {
	// A random forest, built through the fields so that only the predicates
	// are judged here.
	for i := 1; i < len(w.n); i++ {
		if w.r.IntN(12) == 0 {
			continue
		}
		p := w.r.IntN(i)
		if w.r.IntN(2) == 0 {
			p = max(0, i-1-w.r.IntN(3))
		}
		right := w.r.IntN(2) == 0
		if right && w.right[p] < 0 {
			w.right[p], w.parent[i] = i, p
			w.n[p].Right, w.n[i].Parent = w.n[i], w.n[p]
			w.o.Op("right", p, i)
		} else if !right && w.left[p] < 0 {
			w.left[p], w.parent[i] = i, p
			w.n[p].Left, w.n[i].Parent = w.n[i], w.n[p]
			w.o.Op("left", p, i)
		}
	}
	w.relations()
	w.o.Done("forest", len(w.n) > 2)
}

func (w *world[T]) relations() {
	par := func(i int) int {
		if i < 0 {
			return -1
		}
		return w.parent[i]
	}
	sib := func(i int) int {
		p := par(i)
		if p < 0 {
			return -1
		}
		if w.left[p] == i {
			return w.right[p]
		}
		return w.left[p]
	}
	var pairs int64
	for i, x := range w.n {
		one := func(name string, got, want bool) {
			if got != want {
				w.c.Fail("predicate", "node %d (parent %d, left %d, right %d): %s = %v", i, w.parent[i], w.left[i], w.right[i], name, got)
			}
		}
		node := func(name string, got *tree.Node[T], want int) {
			if w.name(got) != want {
				w.c.Fail("relation", "node %d (parent %d): %s = %d, want %d", i, w.parent[i], name, w.name(got), want)
			}
		}
		p := w.parent[i]
		unc := -1
		if p >= 0 {
			unc = sib(p)
		}
		gp := par(p)
		one("IsRoot", x.IsRoot(), p < 0)
		one("IsLeaf", x.IsLeaf(), w.left[i] < 0 && w.right[i] < 0)
		one("IsLeft", x.IsLeft(), p >= 0 && w.left[p] == i)
		one("IsRight", x.IsRight(), p >= 0 && w.right[p] == i)
		one("HasLeft", x.HasLeft(), w.left[i] >= 0)
		one("HasRight", x.HasRight(), w.right[i] >= 0)
		one("HasChild", x.HasChild(), w.left[i] >= 0 || w.right[i] >= 0)
		one("HasBothChild", x.HasBothChild(), w.left[i] >= 0 && w.right[i] >= 0)
		one("HasParent", x.HasParent(), p >= 0)
		one("HasSibling", x.HasSibling(), sib(i) >= 0)
		one("HasUncle", x.HasUncle(), unc >= 0)
		one("HasGrandparent", x.HasGrandparent(), gp >= 0)
		node("Sibling", x.Sibling(), sib(i))
		node("Uncle", x.Uncle(), unc)
		node("Grandparent", x.Grandparent(), gp)
		one("IsLeftRelation of no node", x.IsLeftRelation(nil), false)
		one("IsRightRelation of no node", x.IsRightRelation(nil), false)
		one("IsChildRelation of no node", x.IsChildRelation(nil), false)
		one("IsAncestorRelation of no node", x.IsAncestorRelation(nil), false)
		one("IsDescendantRelation of no node", x.IsDescendantRelation(nil), false)
		for j, y := range w.n {
			pairs++
			rel := func(name string, got, want bool) {
				if got != want {
					w.c.Fail("relation", "node %d (parents %v) %s node %d (parents %v) = %v", i, w.up(i), name, j, w.up(j), got)
				}
			}
			rel("IsLeftRelation", x.IsLeftRelation(y), w.left[i] == j)
			rel("IsRightRelation", x.IsRightRelation(y), w.right[i] == j)
			rel("IsChildRelation", x.IsChildRelation(y), w.left[i] == j || w.right[i] == j)
			rel("IsSiblingRelation", x.IsSiblingRelation(y), sib(i) == j)
			rel("IsUncleRelation", x.IsUncleRelation(y), unc == j)
			rel("IsGrandparentRelation", x.IsGrandparentRelation(y), gp == j)
			rel("IsAncestorRelation", x.IsAncestorRelation(y), w.under(i, j))
			rel("IsDescendantRelation", x.IsDescendantRelation(y), i != j && w.under(i, j))
		}
	}
	w.links("reading")
	w.c.Count("node_pairs", pairs)
	w.c.Tick()
}

func (w *world[T]) up(i int) (s []int) {
	for i = w.parent[i]; i >= 0; i = w.parent[i] {
		s = append(s, i)
	}
	return
}

type runner interface {
	run27(int)
	build(int)
	chain()
	run28()
}

func typed(c *kit.C, r *rand.Rand, i, n int) runner {
	switch i % 4 {
	case 0:
		return newWorld(c, r, func(i int) int { return i - 3 }, n)
	case 1:
		return newWorld(c, r, func(i int) string { return fmt.Sprint("v", i) }, n)
	case 2:
		return newWorld(c, r, func(i int) bool { return false }, n) // identical values
	}
	return newWorld(c, r, func(i int) float32 { return float32(i%5) / 2 }, n)
}

func c27(c *kit.C) {
	c.Cases("ops", c.N(180000, 8), func(i int, r *rand.Rand) {
		typed(c, r, i, []int{1, 2, 3, 5, 8, 16, 32}[r.IntN(7)]).run27(3 + r.IntN(50))
	})
	c.Cases("large", c.N(160, 20), func(i int, r *rand.Rand) { typed(c, r, i, 100+r.IntN(300)).run27(100 + r.IntN(600)) })
	c.Cases("huge", c.N(24, 20), func(i int, r *rand.Rand) { typed(c, r, i, 800+r.IntN(1200)).run27(1000 + r.IntN(2000)) })
	c.Cases("build", c.N(1600, 10), func(i int, r *rand.Rand) {
		n := i / 4
		if i >= 1200 {
			n = r.IntN(3000)
		}
		typed(c, r, i, 0).build(n)
	})
	c.Cases("chain", c.N(64, 10), func(i int, r *rand.Rand) { typed(c, r, i, 1+r.IntN(600)).chain() })
}

func c28(c *kit.C) {
	c.Cases("forest", c.N(360000, 4), func(i int, r *rand.Rand) {
		typed(c, r, i, []int{1, 2, 3, 4, 5, 7, 9, 13, 20}[r.IntN(9)]).run28()
	})
	c.Cases("large", c.N(80, 20), func(i int, r *rand.Rand) { typed(c, r, i, 60+r.IntN(200)).run28() })
}
