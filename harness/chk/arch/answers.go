package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
	"golang.org/x/exp/constraints"
	"golang.org/x/exp/slices"
	"verif.local/h/kit"
)

// answers writes down what the containers answer to the same calls; the
// native and the 32-bit build must write the same.
func answers(c *kit.C, i int, r *rand.Rand) {
	var b strings.Builder
	say := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	i64 := func() int64 {
		x := int64(r.Uint64())
		return []int64{x, x >> 32, x >> 60, int64(int32(x)), math.MaxInt64 - x>>61, math.MinInt64 + x>>62&1}[r.IntN(6)]
	}
	switch i % 12 {
	case 0:
		ring(say, r, func() string { return fmt.Sprint("node", r.IntN(200)) })
	case 1:
		ring(say, r, func() int32 { return int32(r.IntN(400) - 200) })
	case 2:
		ring(say, r, i64)
	case 3:
		ring(say, r, func() uint32 { return uint32(i64()) })
	case 4:
		ring(say, r, func() float64 { return float64(i64()) / 8 })
	case 5:
		ring(say, r, func() int { return int(int32(i64())) })
	case 6:
		order(say, r, i64)
		order(say, r, func() uint64 { return uint64(i64()) })
		order(say, r, func() uint32 { return uint32(i64()) })
	case 7:
		order(say, r, func() float64 { return float64(i64()) * math.Ldexp(1, r.IntN(40)-20) })
		order(say, r, func() float32 { return float32(i64()) })
		order(say, r, func() int { return int(int32(i64())) })
	case 8:
		order(say, r, func() string { return fmt.Sprintf("%c%d", 'a'+r.IntN(3), 1+r.Int64N(300)*r.Int64N(1<<26)) })
		order(say, r, func() int8 { return int8(i64()) })
		order(say, r, func() uint { return uint(uint32(i64())) })
	case 9:
		lo, hi := pqueue.NewMinPriorityQueue[string](), pqueue.NewMaxPriorityQueue[string]()
		used := map[int]bool{}
		for j := 0; j < 80; j++ {
			if p := int(int32(i64())); r.IntN(3) > 0 && !used[p] {
				used[p] = true
				lo.Push(p, fmt.Sprint(p))
				hi.Push(p, fmt.Sprint(p))
			} else if lo.Len() > 0 {
				p, v := lo.Pop()
				q, w := hi.Pop()
				say("pop %d %s, %d %s, %d left", p, v, q, w, lo.Len())
			}
		}
	case 10:
		l := dllist.New[int64]()
		m := lhashmap.New[int64, int64]()
		for j := 0; j < 60; j++ {
			x := i64()
			l.PushBack(x)
			m.Store(x%8, x)
			m.Load(i64() % 8)
		}
		l.Sort(func(a, b int64) bool { return a < b })
		say("list %v", l.Slice())
		m.Range(func(k, v int64) bool { say("%d: %d", k, v); return true })
	case 11:
		n := 1 + r.IntN(20)
		vs := make([]int64, n)
		for j := range vs {
			vs[j] = i64()
		}
		t := tree.BuildTree(vs)
		for _, x := range t.TraversalDFS() {
			say("dfs %d layer %d depth %d", x.Val, x.Layer(), x.MaxDepth())
		}
		for _, x := range t.TraversalBFS() {
			say("bfs %d", x.Val)
		}
		s, u := set.New[int64](), set.New[int64]()
		for j := 0; j < 40; j++ {
			s.Push(i64())
			u.Push(i64())
		}
		for _, x := range []set.Set[int64]{s.Union(u), s.Intersection(u), s.Difference(u), s.SymmetricDifference(u)} {
			a := x.Slice()
			slices.Sort(a)
			say("set %v", a)
		}
	}
	if c.Only >= 0 {
		fmt.Print(b.String())
	}
	c.Count("answers", int64(strings.Count(b.String(), "\n")))
	h := kit.Hash(b.String())
	c.Digest(h)
	c.Seen(h)
}

func ring[N constraints.Ordered](say func(string, ...any), r *rand.Rand, gen func() N) {
	h := hashring.New[N]([]int{1, 3, 50}[r.IntN(3)])
	var all []N
	for j := 0; j < 6; j++ {
		if len(all) > 0 && r.IntN(3) == 0 {
			h.RemoveNodes(all[r.IntN(len(all))])
		} else {
			n := gen()
			all = append(all, n)
			h.AddNodes(n)
		}
		for k := 0; k < 30; k++ {
			x := gen()
			say("GetNode(%v) = %v", x, h.GetNode(x))
		}
	}
}

func order[T constraints.Ordered](say func(string, ...any), r *rand.Rand, gen func() T) {
	v := vec.New[T]()
	hp := &heap.MinHeap[T]{}
	for n := 1 + r.IntN(60); n > 0; n-- {
		x := gen()
		v.Push(x)
		heap.Push[T](hp, x)
	}
	say("max %v min %v sorted %v", v.Max(), v.Min(), v.IsSorted())
	x := gen()
	say("search %v: %d, %v", x, v.Search(x), v.Contains(x))
	o := v.Clone().Reverse()
	say("compare %d", v.Compare(*o))
	v.Sort()
	say("sorted %v", v.Slice())
	for k := 0; k < 10; k++ {
		x := gen()
		p, ok := v.BinarySearch(x)
		say("binary search %v: %d, %v", x, p, ok)
	}
	v.Compact()
	say("compacted %v", v.Slice())
	for hp.Len() > 0 {
		say("heap %v", heap.Pop[T](hp))
	}
}
