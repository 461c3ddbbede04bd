package main

import (
	"context"
	"errors"
	"math/rand/v2"
	"sort"
	"strconv"
	"time"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
)

// digest of a sequence.
func dig(xs ...int) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		h = (h ^ uint64(x)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

// digest of a bag.
func bag(xs []int) uint64 {
	xs = append([]int(nil), xs...)
	sort.Ints(xs)
	return dig(xs...)
}

func str(s string) int {
	h := uint64(len(s))
	for i := range len(s) {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return int(h)
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}

// few is usually less than n, sometimes much more.
func few(r *rand.Rand, n int) int {
	if r.IntN(12) == 0 {
		return r.IntN(30 * n)
	}
	return r.IntN(n)
}

func less(a, b int) bool  { return a < b }
func equal(a, b int) bool { return a == b }

// --- dllist ---

type list struct{ l *dllist.Dllist[int] }

func newList(r *rand.Rand) subject {
	s := &list{l: dllist.New[int]()}
	if r.IntN(2) == 0 {
		s.l = &dllist.Dllist[int]{}
	}
	for range few(r, 20) {
		s.l.PushBack(r.IntN(50))
	}
	return s
}

func (s *list) at(r *rand.Rand) *dllist.Element[int] {
	e := s.l.Front()
	for range r.IntN(s.l.Len()) {
		e = e.Next()
	}
	return e
}

func (s *list) mutate(r *rand.Rand) uint64 {
	k := r.IntN(12)
	if s.l.Len() == 0 {
		k = r.IntN(3)
	}
	switch k {
	case 0, 1:
		s.l.PushBack(r.IntN(50))
	case 2:
		s.l.PushFront(r.IntN(50))
	case 3, 4:
		return dig(s.l.Remove(s.at(r)))
	case 5:
		s.l.MoveToFront(s.at(r))
	case 6:
		s.l.MoveAfter(s.at(r), s.at(r))
	case 7:
		s.l.Swap(s.at(r), s.at(r))
	case 8:
		s.l.Sort(less)
	case 9:
		if s.l.Len() < 60 {
			s.l.PushBackList(s.l)
		}
	case 10:
		s.l.InsertBefore(r.IntN(50), s.at(r))
	case 11:
		if r.IntN(4) == 0 {
			s.l.Clear()
		}
	}
	return dig(s.l.Len())
}

func (s *list) read(r *rand.Rand) uint64 {
	switch r.IntN(7) {
	case 0:
		i := r.IntN(s.l.Len()+2) - 1
		if e := s.l.Get(i); e != nil {
			return dig(i, e.Value)
		}
		return dig(i)
	case 1:
		return dig(s.l.Len())
	case 2:
		return dig(s.l.Slice()...)
	case 3:
		var x []int
		s.l.Range(func(e *dllist.Element[int]) bool { x = append(x, e.Value); return true })
		return dig(x...)
	case 4:
		var x []int
		for e := s.l.Back(); e != nil; e = e.Prev() {
			x = append(x, e.Value)
		}
		return dig(x...)
	case 5:
		var x []int
		if e := s.l.Front(); e != nil {
			e.Range(func(e *dllist.Element[int]) bool { x = append(x, e.Value); return len(x) < 7 })
		}
		return dig(x...)
	}
	other := dllist.New[int]()
	other.PushFrontList(s.l)
	other.PushBackList(s.l)
	return dig(other.Slice()...)
}

// --- vec ---

type vecS struct {
	v       *vec.Vec[int]
	compare bool // comparison functions are in place
}

func newVec(r *rand.Rand) subject {
	s := &vecS{v: &vec.Vec[int]{}}
	switch r.IntN(4) {
	case 0, 1:
		s.v = vec.New(vec.WithCmpLess(less), vec.WithCmpEqual(equal))
		s.compare = true
	case 2: // the built-in comparison, once used
		s.v.CmpLess(1, 2)
		s.v.CmpEqual(1, 2)
		s.compare = true
	}
	for range few(r, 30) {
		s.v.Push(r.IntN(50))
	}
	return s
}

func (s *vecS) mutate(r *rand.Rand) uint64 {
	v, n := s.v, s.v.Len()
	switch r.IntN(13) {
	case 0:
		v.Push(r.IntN(50))
	case 1:
		v.Push(r.IntN(50), r.IntN(50), r.IntN(50))
	case 2:
		x, ok := v.Pop()
		return dig(x, bit(ok))
	case 3:
		v.Insert(r.IntN(n+1), r.IntN(50), r.IntN(50))
	case 4:
		if n > 0 {
			x, ok := v.Remove(r.IntN(n))
			return dig(x, bit(ok))
		}
	case 5:
		i := r.IntN(n + 1)
		return dig(v.Cut(i, i+r.IntN(min(n-i, 4)+1))...)
	case 6:
		v.Reverse()
	case 7:
		v.SortFunc(less, equal)
	case 8:
		v.Clip()
	case 9:
		v.Grow(r.IntN(20))
	case 10:
		if n > 0 {
			v.Swap(r.IntN(n), r.IntN(n))
		}
	case 11:
		if r.IntN(4) == 0 {
			v.Clear()
		}
	case 12:
		if n > 40 {
			return dig(v.SplitOff(n - 20).Slice()...)
		}
		i := r.IntN(n + 1)
		v.Replace(i, i, r.IntN(50))
	}
	return dig(v.Slice()...)
}

func (s *vecS) read(r *rand.Rand) uint64 {
	v, n := s.v, s.v.Len()
	k := r.IntN(16)
	if !s.compare {
		k = r.IntN(8)
	}
	switch k {
	case 0:
		x, ok := v.Get(r.IntN(n + 1))
		return dig(x, bit(ok))
	case 1:
		return dig(v.Len(), bit(v.IsEmpty()))
	case 2:
		a, ok := v.First()
		b, ok2 := v.Last()
		return dig(a, b, bit(ok), bit(ok2))
	case 3:
		var x []int
		v.Range(func(i, e int) bool { x = append(x, i, e); return true })
		return dig(x...)
	case 4:
		return dig(v.CloneToSlice()...)
	case 5:
		return dig(v.Slice()...) ^ dig(v.SliceCut(n/3, n/2)...)
	case 6:
		w := v.Clone()
		w.Push(1).Reverse()
		return dig(w.Slice()...)
	case 7:
		if n == 0 {
			return 0
		}
		return dig(v.MaxFunc(less, equal), v.MinFunc(less, equal), bit(v.IsSortedFunc(less, equal)),
			v.SearchFunc(func(x int) bool { return x%3 == 0 }))
	case 8:
		return dig(v.Search(r.IntN(50)))
	case 9:
		return dig(v.SearchAll(r.IntN(50))...)
	case 10:
		return dig(bit(v.Contains(r.IntN(50))))
	case 11:
		return dig(bit(v.IsSorted()))
	case 12:
		if n == 0 {
			return 0
		}
		return dig(v.Max(), v.Min())
	case 13:
		return dig(v.Compare(*v), bit(v.EqualVec(*v)), bit(v.EqualSlice(v.Slice())))
	case 14:
		if n == 0 {
			return 0
		}
		i, j := r.IntN(n), r.IntN(n)
		return dig(bit(v.Less(i, j)), bit(v.Equal(i, j)))
	}
	if !v.IsSortedFunc(less, equal) {
		return 1
	}
	i, ok := v.BinarySearch(r.IntN(50))
	return dig(i, bit(ok))
}

// --- set ---

type setS struct{ a, b set.Set[int] }

func newSet(r *rand.Rand) subject {
	s := &setS{set.New[int](), set.New[int]()}
	for i := range few(r, 30) {
		s.a.Insert(i/2 + r.IntN(40))
		s.b.Insert(i/2 + r.IntN(40))
	}
	return s
}

func (s *setS) mutate(r *rand.Rand) uint64 {
	a := s.a
	if r.IntN(2) == 0 {
		a = s.b
	}
	switch r.IntN(6) {
	case 0, 1:
		return dig(bit(a.Insert(r.IntN(40))))
	case 2:
		return dig(bit(a.Remove(r.IntN(40))))
	case 3:
		a.Push(r.IntN(40), r.IntN(40))
	case 4:
		return dig(bit(a.ContainAndRemove(r.IntN(40))))
	case 5:
		if r.IntN(4) == 0 {
			a.Clear()
		}
	}
	return dig(a.Len())
}

func (s *setS) read(r *rand.Rand) uint64 {
	a, b := s.a, s.b
	if r.IntN(2) == 0 {
		a, b = b, a
	}
	switch r.IntN(9) {
	case 0:
		return dig(bit(a.Contain(r.IntN(40))), a.Len(), bit(a.IsEmpty()))
	case 1:
		return bag(a.Slice())
	case 2:
		var x []int
		a.Range(func(v int) bool { x = append(x, v); return true })
		return bag(x)
	case 3:
		return bag(a.Union(b).Slice())
	case 4:
		return bag(a.Intersection(b).Slice())
	case 5:
		return bag(a.Difference(b).Slice())
	case 6:
		return bag(a.SymmetricDifference(b).Slice())
	case 7:
		return dig(bit(a.Equal(b)), bit(a.IsSubSet(b)), bit(a.IsSupperSet(b)))
	}
	c := a.Clone()
	c.Insert(99)
	return bag(c.Slice())
}

// --- genmap ---

type genS struct{ m genmap.GenMap[int, int] }

func newGen(r *rand.Rand) subject {
	s := &genS{genmap.New[int, int]()}
	for i := range few(r, 30) {
		s.m.Store(i/2+r.IntN(40), r.IntN(100))
	}
	return s
}

func (s *genS) mutate(r *rand.Rand) uint64 {
	k, v := r.IntN(40), r.IntN(100)
	switch r.IntN(8) {
	case 0, 1:
		s.m.Store(k, v)
	case 2:
		s.m.Delete(k)
	case 3:
		x, ok := s.m.LoadOrStore(k, v)
		return dig(x, bit(ok))
	case 4:
		x, ok := s.m.LoadAndDelete(k)
		return dig(x, bit(ok))
	case 5:
		x, ok := s.m.LoadOrStoreFunc(k, func() int { return v })
		return dig(x, bit(ok))
	case 6:
		s.m.DeleteFunc(func(a, b int) bool { return (a+b)%7 == 0 })
	case 7:
		if r.IntN(4) == 0 {
			s.m.Clear()
		}
	}
	return dig(s.m.Len())
}

func (s *genS) read(r *rand.Rand) uint64 {
	switch r.IntN(7) {
	case 0:
		x, ok := s.m.Load(r.IntN(40))
		return dig(x, bit(ok))
	case 1:
		return dig(s.m.Len())
	case 2:
		return bag(s.m.Keys())
	case 3:
		return bag(s.m.Values())
	case 4:
		var x []int
		s.m.Range(func(k, v int) bool { x = append(x, k*1000+v); return true })
		return bag(x)
	case 5:
		return dig(bit(s.m.EqualFunc(s.m, equal)))
	}
	c := genmap.New[int, int]()
	s.m.CopyTo(c)
	d := s.m.Clone()
	d.CopyFrom(s.m)
	d.Store(99, 1)
	return bag(c.Keys()) ^ bag(d.Keys())*3
}

// --- lhashmap ---

type lhashS struct{ m *lhashmap.Lhashmap[int, int] }

func newLhash(r *rand.Rand) subject {
	s := &lhashS{lhashmap.New[int, int]()}
	if r.IntN(2) == 0 {
		s.m = lhashmap.New(lhashmap.WithCap[int, int](10))
	}
	for i := range few(r, 20) {
		s.m.Store(i/2+r.IntN(30), r.IntN(100))
	}
	return s
}

func (s *lhashS) mutate(r *rand.Rand) uint64 {
	k := r.IntN(30)
	switch r.IntN(6) {
	case 0, 1:
		s.m.Store(k, r.IntN(100))
	case 2:
		s.m.Remove(k)
	case 3, 4:
		v, ok := s.m.Load(k)
		return dig(v, bit(ok))
	case 5:
		if r.IntN(4) == 0 {
			s.m.Clear()
		}
	}
	return dig(s.m.Len())
}

func (s *lhashS) read(r *rand.Rand) uint64 {
	if r.IntN(3) == 0 {
		return dig(s.m.Len())
	}
	var x []int
	s.m.Range(func(k, v int) bool { x = append(x, k, v); return true })
	return dig(x...)
}

// --- heap and pqueue ---

type heapS struct {
	min heap.MinHeap[int]
	max heap.MaxHeap[int]
}

func newHeap(r *rand.Rand) subject {
	s := &heapS{}
	if r.IntN(10) == 0 {
		for range r.IntN(500) {
			s.mutate(r)
		}
	}
	return s
}

func (s *heapS) mutate(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		return heapOp[int](r, &s.min, func(i, x int) { s.min[i] = x })
	}
	return heapOp[int](r, &s.max, func(i, x int) { s.max[i] = x })
}

func heapOp[T any](r *rand.Rand, h heap.Interface[int], put func(i, x int)) uint64 {
	n := h.Len()
	k := r.IntN(6)
	if n == 0 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		heap.Push(h, r.IntN(100))
	case 3:
		return dig(heap.Pop(h))
	case 4:
		return dig(heap.Remove(h, r.IntN(n)))
	case 5:
		i := r.IntN(n)
		put(i, r.IntN(100))
		heap.Fix(h, i)
	}
	return dig(h.Len())
}

func (s *heapS) read(r *rand.Rand) uint64 {
	if s.min.Len() > 0 && s.max.Len() > 0 {
		return dig(s.min[0], s.max[0], s.min.Len(), s.max.Len(), bit(s.min.Less(0, s.min.Len()-1)), bit(s.max.Less(0, s.max.Len()-1)))
	}
	return dig(s.min.Len(), s.max.Len())
}

type pqS struct{ a, b *pqueue.PQueue[int] }

func newPQ(r *rand.Rand) subject {
	s := &pqS{pqueue.NewMinPriorityQueue[int](), pqueue.NewMaxPriorityQueue[int]()}
	if r.IntN(10) == 0 {
		for range r.IntN(500) {
			s.mutate(r)
		}
	}
	return s
}

func (s *pqS) mutate(r *rand.Rand) uint64 {
	q := s.a
	if r.IntN(2) == 0 {
		q = s.b
	}
	if q.Len() == 0 || r.IntN(3) > 0 {
		p := r.IntN(1000)
		q.Push(p, -p)
		return dig(q.Len())
	}
	p, v := q.Pop()
	return dig(p, v)
}

func (s *pqS) read(r *rand.Rand) uint64 { return dig(s.a.Len(), s.b.Len()) }

// --- hashring ---

type hrS struct{ h *hashring.HashRing[string] }

func newHashRing(r *rand.Rand) subject {
	s := &hrS{hashring.New[string](1 + r.IntN(20))}
	for i := range few(r, 6) {
		s.h.AddNodes("n" + strconv.Itoa(i/2+r.IntN(12)))
	}
	return s
}

func (s *hrS) mutate(r *rand.Rand) uint64 {
	name := func() string { return "n" + strconv.Itoa(r.IntN(12)) }
	switch r.IntN(5) {
	case 0, 1:
		s.h.AddNodes(name())
	case 2:
		s.h.AddNodes(name(), name(), name())
	case 3:
		s.h.RemoveNodes(name(), name())
	case 4:
		if r.IntN(3) == 0 {
			s.h.ResetNodes(name(), name())
		}
	}
	return 1
}

func (s *hrS) read(r *rand.Rand) uint64 {
	if r.IntN(5) == 0 {
		return dig(str(s.h.GetNode("n" + strconv.Itoa(r.IntN(12)))))
	}
	return dig(str(s.h.GetNode("key-" + strconv.Itoa(r.IntN(1000)))))
}

type hriS struct{ h *hashring.HashRing[int] }

func newHashRingInt(r *rand.Rand) subject {
	s := &hriS{hashring.New[int](1 + r.IntN(8))}
	for i := range few(r, 6) {
		s.h.AddNodes(i/2 + r.IntN(12))
	}
	return s
}

func (s *hriS) mutate(r *rand.Rand) uint64 {
	switch r.IntN(4) {
	case 0, 1:
		s.h.AddNodes(r.IntN(12), r.IntN(12))
	case 2:
		s.h.RemoveNodes(r.IntN(12))
	case 3:
		if r.IntN(3) == 0 {
			s.h.ResetNodes(r.IntN(12), r.IntN(12))
		}
	}
	return 1
}

func (s *hriS) read(r *rand.Rand) uint64 { return dig(s.h.GetNode(r.IntN(1000))) }

// --- ring ---

type ringS struct{ e []*ring.Ring[int] }

func newRing(r *rand.Rand) subject {
	s := &ringS{}
	for range 1 + r.IntN(4) {
		n := 1 + few(r, 12)
		x := ring.New[int](n)
		for range n {
			x.Value = len(s.e)
			s.e = append(s.e, x)
			x = x.Next()
		}
	}
	return s
}

func (s *ringS) any(r *rand.Rand) *ring.Ring[int] { return s.e[r.IntN(len(s.e))] }

func (s *ringS) mutate(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		return dig(s.any(r).Link(s.any(r)).Value)
	}
	if x := s.any(r).Unlink(r.IntN(9)); x != nil {
		return dig(x.Len())
	}
	return 0
}

func (s *ringS) read(r *rand.Rand) uint64 {
	e := s.any(r)
	switch r.IntN(4) {
	case 0:
		return dig(e.Next().Value, e.Prev().Value)
	case 1:
		return dig(e.Move(r.IntN(31) - 15).Value)
	case 2:
		return dig(e.Len())
	}
	var x []int
	e.Do(func(v int) { x = append(x, v) })
	return dig(x...)
}

// --- tree ---

type treeS struct{ n []*tree.Node[int] }

func newTree(r *rand.Rand) subject {
	s := &treeS{}
	x := make([]int, 1+few(r, 25))
	for i := range x {
		x[i] = i
	}
	s.n = tree.BuildTree(x).TraversalBFS()
	for range r.IntN(5) {
		s.n = append(s.n, tree.NewNode(len(s.n)))
	}
	return s
}

func (s *treeS) any(r *rand.Rand) *tree.Node[int] { return s.n[r.IntN(len(s.n))] }

func (s *treeS) mutate(r *rand.Rand) uint64 {
	a, b := s.any(r), s.any(r)
	for p := a; p != nil; p = p.Parent {
		if p == b {
			return 0 // would close a cycle
		}
	}
	var old *tree.Node[int]
	if r.IntN(2) == 0 {
		old = a.SetLeft(b)
	} else {
		old = a.SetRight(b)
	}
	if old != nil {
		return dig(old.Val)
	}
	return 1
}

func val(n *tree.Node[int]) int {
	if n == nil {
		return -1
	}
	return n.Val
}

func (s *treeS) read(r *rand.Rand) uint64 {
	a, b := s.any(r), s.any(r)
	seq := func(ns []*tree.Node[int]) uint64 {
		var x []int
		for _, n := range ns {
			x = append(x, n.Val)
		}
		return dig(x...)
	}
	switch r.IntN(7) {
	case 0:
		return seq(a.TraversalDFS())
	case 1:
		return seq(a.TraversalBFS())
	case 2:
		return dig(str(a.DrawTree()))
	case 3:
		return dig(a.Layer(), a.MaxDepth())
	case 4:
		return dig(val(a.Sibling()), val(a.Uncle()), val(a.Grandparent()))
	case 5:
		return dig(bit(a.IsAncestorRelation(b)), bit(a.IsDescendantRelation(b)), bit(a.IsSiblingRelation(b)), bit(a.IsUncleRelation(b)),
			bit(a.IsGrandparentRelation(b)), bit(a.IsChildRelation(b)), bit(a.IsLeftRelation(b)), bit(a.IsRightRelation(b)))
	}
	return dig(bit(a.IsLeaf()), bit(a.IsRoot()), bit(a.IsLeft()), bit(a.IsRight()), bit(a.HasLeft()), bit(a.HasRight()), bit(a.HasChild()),
		bit(a.HasBothChild()), bit(a.HasParent()), bit(a.HasSibling()), bit(a.HasUncle()), bit(a.HasGrandparent()))
}

// --- the concurrent containers, each used by one goroutine ---

type rwS struct{ m rwmap.RWMap[int, int] }

func newRW(r *rand.Rand) subject { return &rwS{} }

func (s *rwS) mutate(r *rand.Rand) uint64 {
	k, v := r.IntN(12), r.IntN(100)
	switch r.IntN(8) {
	case 0, 1:
		s.m.Store(k, v)
	case 2:
		s.m.Delete(k)
	case 3:
		x, ok := s.m.LoadOrStore(k, v)
		return dig(x, bit(ok))
	case 4:
		x, ok := s.m.LoadAndDelete(k)
		return dig(x, bit(ok))
	case 5:
		x, ok := s.m.Swap(k, v)
		return dig(x, bit(ok))
	case 6:
		x, _ := s.m.Load(k)
		return dig(bit(s.m.CompareAndSwap(k, x, v)))
	case 7:
		if r.IntN(4) == 0 {
			s.m.Clear()
		}
	}
	return dig(int(s.m.Len()))
}

func (s *rwS) read(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		x, ok := s.m.Load(r.IntN(12))
		return dig(x, bit(ok))
	}
	var x []int
	s.m.Range(func(k, v int) bool { x = append(x, k*1000+v); return true })
	return bag(x)
}

type scS struct {
	c *synccache.SyncCache[int, int]
}

func newSC(r *rand.Rand) subject {
	return &scS{synccache.NewSyncCache[int, int](time.Hour)}
}

func (s *scS) mutate(r *rand.Rand) uint64 {
	k, v := r.IntN(12), r.IntN(100)
	switch r.IntN(5) {
	case 0, 1:
		s.c.Store(k, v, time.Hour)
	case 2:
		s.c.Delete(k)
	case 3:
		e, ok := s.c.LoadOrStore(k, v, time.Hour)
		return dig(e.Value(), bit(ok))
	case 4:
		e, ok := s.c.LoadAndDelete(k)
		if ok {
			return dig(e.Value())
		}
	}
	return 1
}

func (s *scS) read(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		e, ok := s.c.Load(r.IntN(12))
		if ok {
			return dig(e.Value())
		}
		return 0
	}
	var x []int
	s.c.Range(func(k int, e *synccache.Entry[int]) bool { x = append(x, k*1000+e.Value()); return true })
	return bag(x)
}

type refreshS struct {
	get, refresh func() (int, error)
	clear        func() error
}

var errNo = errors.New("no")

func newRefresh(r *rand.Rand) subject {
	n := r.IntN(100)
	age := time.Hour
	if r.IntN(2) == 0 {
		age = 0
	}
	gen := func() (int, error) {
		n += 3
		if n%5 == 0 {
			return 0, errNo
		}
		return n, nil
	}
	ctx := context.Background()
	switch r.IntN(3) {
	case 0:
		c := refreshcache0.NewRefreshCache(func(context.Context) (int, error) { return gen() }, age)
		return &refreshS{func() (int, error) { return c.Get(ctx) }, func() (int, error) { return c.Refresh(ctx) }, func() error { return c.Clear(ctx) }}
	case 1:
		c := refreshcache1.NewRefreshCache(func(_ context.Context, a int) (int, error) { return gen() }, age)
		return &refreshS{func() (int, error) { return c.Get(ctx, 1) }, func() (int, error) { return c.Refresh(ctx, 1) }, func() error { return c.Clear(ctx, 1) }}
	}
	c := refreshcache.NewRefreshCache(func(_ context.Context, a ...int) (int, error) { return gen() }, age)
	return &refreshS{func() (int, error) { return c.Get(ctx, 1) }, func() (int, error) { return c.Refresh(ctx, 1) }, func() error { return c.Clear(ctx, 1) }}
}

func (s *refreshS) mutate(r *rand.Rand) uint64 {
	if r.IntN(3) == 0 {
		return dig(bit(s.clear() == nil))
	}
	x, err := s.refresh()
	return dig(x, bit(err == nil))
}

func (s *refreshS) read(r *rand.Rand) uint64 {
	x, err := s.get()
	return dig(x, bit(err == nil))
}
