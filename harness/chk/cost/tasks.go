package main

import (
	"context"
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/genmap"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"github.com/zijiren233/gencontainer/vec"
)

type user struct {
	e *env
	s []int
}

func (u *user) Len() int           { return len(u.s) }
func (u *user) Less(i, j int) bool { u.e.calls++; return u.s[i] < u.s[j] }
func (u *user) Swap(i, j int)      { u.e.calls++; u.s[i], u.s[j] = u.s[j], u.s[i] }
func (u *user) Push(x int)         { u.s = append(u.s, x) }
func (u *user) Pop() int {
	x := u.s[len(u.s)-1]
	u.s = u.s[:len(u.s)-1]
	return x
}

func newVec(e *env) *vec.Vec[int] {
	v := vec.New[int](vec.WithCmpLess(e.less), vec.WithCmpEqual(e.same))
	v.Push(e.vals()...)
	return v
}

func newList(e *env) (*dllist.Dllist[int], []*dllist.Element[int]) {
	l := dllist.New[int]()
	var h []*dllist.Element[int]
	for _, x := range e.vals() {
		h = append(h, l.PushBack(x))
	}
	return l, h
}

func newSet(e *env) set.Set[int] { return set.New[int]().Push(e.vals()...) }

func newMap(e *env) *rwmap.RWMap[int, int] {
	m := &rwmap.RWMap[int, int]{}
	for k := 0; k < e.n; k++ {
		m.Store(k, k)
	}
	return m
}

// newTree makes one of several shapes, with the nodes in breadth-first or chain order.
// balanced: collecting the subtrees' nodes recursively is linear (but for the depth)
// in balanced trees only, and as good a way to traverse them.
func balanced(e *env) []*tree.Node[int] {
	e.shape = 0
	return newTree(e)
}

func newTree(e *env) []*tree.Node[int] {
	s := []*tree.Node[int]{tree.NewNode(0)}
	for k := 1; k < e.n; k++ {
		x := tree.NewNode(k)
		switch e.shape {
		case 1, 3:
			s[k-1].SetLeft(x)
		case 2:
			s[k-1].SetRight(x)
		case 5:
			if k%2 == 0 {
				s[k-1].SetLeft(x)
			} else {
				s[k-1].SetRight(x)
			}
		case 4: // a spine with a leaf on every node
			if k%2 == 1 {
				s[max(0, k-2)].SetLeft(x)
			} else {
				s[max(0, k-2)].SetRight(x)
			}
		default:
			if k%2 == 1 {
				s[(k-1)/2].SetLeft(x)
			} else {
				s[(k-1)/2].SetRight(x)
			}
		}
		s = append(s, x)
	}
	return s
}

// single: ops operations, cost per operation.
func single(e *env, ops int, f func()) (func(), int) {
	return func() {
		for range ops {
			f()
		}
	}, ops
}

// whole: operations on everything, cost per element.
func whole(e *env, f func()) (func(), int) { return f, e.n }

var sink int

var tasks = []task{
	{"RWMap: operations on single keys", func(e *env) (func(), int) {
		m := newMap(e)
		if e.mix&64 != 0 {
			m.Range(func(int, int) bool { return true })
		}
		fresh := e.n
		return single(e, 4*e.n, func() {
			k := e.r.IntN(e.n + e.n/4)
			switch e.op(11) {
			case 0:
				m.Load(k)
			case 1:
				m.Store(k, k)
			case 2:
				m.Delete(k)
			case 3:
				m.LoadAndDelete(k)
			case 4:
				m.LoadOrStore(k, k)
			case 5:
				m.Swap(k, k)
			case 6:
				m.CompareAndSwap(k, k, k)
			case 7:
				m.CompareAndDelete(k, k)
			case 8:
				m.Len()
			case 9: // a key never seen before, and its end
				fresh++
				m.Store(fresh, 1)
				m.Delete(fresh)
			case 10:
				m.Load(-k)
			}
		})
	}},
	{"RWMap: filling", func(e *env) (func(), int) {
		m := &rwmap.RWMap[int, int]{}
		return whole(e, func() {
			for k := 0; k < e.n; k++ {
				if e.mix&1 != 0 {
					m.Store(k, k)
				} else {
					m.LoadOrStore(k, k)
				}
				if e.mix&2 != 0 {
					m.Load(k / 2)
				}
				if e.mix&4 != 0 {
					m.Load(-1)
				}
				m.Len()
			}
		})
	}},
	{"RWMap: new keys among missing ones", func(e *env) (func(), int) {
		m := newMap(e)
		k := e.n
		return single(e, 3*e.n, func() {
			if e.r.IntN(16) == 0 {
				k++
				m.Store(k, k)
			}
			if e.mix&1 == 0 {
				m.Delete(-1)
			} else {
				m.CompareAndSwap(-1, 0, 1)
			}
		})
	}},
	{"RWMap: Range, SlowLen, Clear", func(e *env) (func(), int) {
		m := newMap(e)
		return whole(e, func() {
			m.Range(func(k, v int) bool { sink += k; return true })
			m.SlowLen()
			m.Range(func(k, v int) bool { sink += k; return true })
			m.Clear()
			m.SlowLen()
		})
	}},
	{"SyncCache: operations on single keys", func(e *env) (func(), int) {
		var conf []synccache.SyncCacheConfig[int, int]
		if e.mix&1 != 0 {
			conf = append(conf, synccache.WithDeletedCallback[int, int](func(int) { e.calls++ }))
		}
		sc := synccache.NewSyncCache[int, int](time.Hour, conf...)
		sc.Close() // no trimming in the background, which would be counted
		for k := 0; k < e.n; k++ {
			sc.Store(k, k, time.Hour)
		}
		return single(e, 3*e.n, func() {
			k := e.r.IntN(e.n + e.n/4)
			d := time.Hour
			if k%5 == 0 {
				d = -time.Second
			}
			switch e.op(8) {
			case 0, 1:
				sc.Load(k)
			case 2:
				sc.Store(k, k, d)
			case 3:
				sc.Delete(k)
			case 4:
				sc.LoadOrStore(k, k, d)
			case 5:
				sc.LoadAndDelete(k)
			case 6:
				sc.CompareValueAndDelete(k, k)
			case 7:
				if x, ok := sc.Load(k); ok {
					x.AddExpiration(time.Second)
					x.SetExpiration(time.Now().Add(time.Hour))
					sc.CompareAndDelete(k, x)
				}
			}
		})
	}},
	{"SyncCache: Range, Clear", func(e *env) (func(), int) {
		sc := synccache.NewSyncCache[int, int](time.Hour)
		sc.Close()
		for k := 0; k < e.n; k++ {
			sc.Store(k, k, time.Duration(1-2*(k%3/2))*time.Hour)
		}
		return whole(e, func() {
			sc.Range(func(k int, x *synccache.Entry[int]) bool { sink += k; return true })
			sc.Range(func(k int, x *synccache.Entry[int]) bool { sink += k; return true })
			sc.Clear()
		})
	}},
	{"RefreshCache: Get and Refresh", func(e *env) (func(), int) {
		rc := refreshcache0.NewRefreshCache[int](func(ctx context.Context) (int, error) { e.calls++; return 1, nil }, time.Hour)
		for range e.n {
			rc.Refresh(context.Background())
		}
		return single(e, e.n, func() {
			switch e.op(4) {
			case 0, 1:
				rc.Get(context.Background())
			case 2:
				rc.Refresh(context.Background())
			case 3:
				rc.Clear(context.Background())
			}
		})
	}},
	{"Lhashmap: operations on single keys", func(e *env) (func(), int) {
		m := lhashmap.New[int, int]()
		for k := 0; k < e.n; k++ {
			m.Store(k, k)
		}
		return single(e, 3*e.n, func() {
			k := e.r.IntN(e.n + e.n/4)
			switch e.op(4) {
			case 0:
				m.Load(k)
			case 1:
				m.Store(k, k)
			case 2:
				m.Remove(k)
			case 3:
				m.Len()
			}
		})
	}},
	{"Lhashmap: filling, Range, Clear", func(e *env) (func(), int) {
		m := lhashmap.New[int, int]()
		return whole(e, func() {
			for k := 0; k < e.n; k++ {
				m.Store(k, k)
			}
			m.Range(func(k, v int) bool { sink += v; return true })
			m.Clear()
			m.Len()
		})
	}},
	{"Dllist: operations on single elements", func(e *env) (func(), int) {
		l, h := newList(e)
		return single(e, 3*e.n, func() {
			a, b := h[e.r.IntN(e.n)], h[e.r.IntN(e.n)]
			switch e.op(14) {
			case 0:
				h[e.r.IntN(e.n)] = l.PushBack(1)
			case 1:
				h[e.r.IntN(e.n)] = l.PushFront(1)
			case 2:
				if x := l.InsertAfter(2, a); x != nil {
					h[e.r.IntN(e.n)] = x
				}
			case 3:
				if x := l.InsertBefore(2, a); x != nil {
					h[e.r.IntN(e.n)] = x
				}
			case 4:
				l.Remove(a)
			case 5:
				l.MoveToFront(a)
			case 6:
				l.MoveToBack(a)
			case 7:
				l.MoveAfter(a, b)
			case 8:
				l.MoveBefore(a, b)
			case 9:
				l.Swap(a, b)
			case 10:
				l.Len()
				l.Front()
				l.Back()
			case 11:
				a.Next()
				a.Prev()
			case 12:
				a.Remove()
			case 13:
				l.Get(0)
				l.Get(-1)
				l.Get(e.n * 100)
			}
		})
	}},
	{"Dllist: Sort", func(e *env) (func(), int) {
		l, _ := newList(e)
		return whole(e, func() { l.Sort(e.less) })
	}},
	{"Dllist: Slice, Range, walking, Clear", func(e *env) (func(), int) {
		l, _ := newList(e)
		return whole(e, func() {
			sink += len(l.Slice())
			l.Range(func(x *dllist.Element[int]) bool { sink += x.Value; return true })
			for x := l.Front(); x != nil; x = x.Next() {
				sink += x.Value
			}
			for x := l.Back(); x != nil; x = x.Prev() {
				sink += x.Value
			}
			l.Clear()
		})
	}},
	{"Dllist: inserting whole lists", func(e *env) (func(), int) {
		l, h := newList(e)
		o, _ := newList(e)
		if e.mix&1 != 0 {
			o = l
		}
		return whole(e, func() {
			l.PushBackList(o)
			l.PushFrontList(o)
			l.PushBackListTo(o, h[e.n/2])
			l.PushFrontListTo(o, h[e.n/3])
		})
	}},
	{"Dllist: filling and emptying", func(e *env) (func(), int) {
		l := dllist.New[int]()
		return whole(e, func() {
			for k := range e.n {
				if k%2 == 0 {
					l.PushBack(k)
				} else {
					l.PushFront(k)
				}
			}
			for l.Len() > 0 {
				l.Remove(l.Back())
				if l.Len() > 0 {
					l.Remove(l.Front())
				}
			}
		})
	}},
	{"Vec: operations on single elements", func(e *env) (func(), int) {
		v := newVec(e)
		return single(e, 3*e.n, func() {
			if v.Len() < e.n/2 {
				v.Push(1)
				return
			}
			k, j := e.r.IntN(v.Len()), e.r.IntN(v.Len())
			switch e.op(9) {
			case 0, 1:
				v.Push(k)
			case 2:
				v.Pop()
			case 3:
				v.Get(k)
			case 4:
				v.Set(k, j)
			case 5:
				v.Swap(k, j)
			case 6:
				v.First()
				v.Last()
				v.Len()
				v.IsEmpty()
			case 7:
				v.Slice()
				v.SliceCut(min(k, j), max(k, j))
			case 8:
				v.Less(k, j)
				v.Equal(k, j)
			}
		})
	}},
	{"Vec: filling and emptying", func(e *env) (func(), int) {
		v := vec.New[int]()
		return whole(e, func() {
			for k := range e.n {
				v.Push(k)
			}
			for !v.IsEmpty() {
				v.Pop()
			}
		})
	}},
	{"Vec: pushing several at a time", func(e *env) (func(), int) {
		v := vec.New[int]()
		return whole(e, func() {
			for v.Len() < e.n {
				v.Push(1, 2, 3)
				v.Push()
			}
		})
	}},
	{"Vec: Sort", func(e *env) (func(), int) {
		v := newVec(e)
		return whole(e, func() { v.Sort() })
	}},
	{"Vec: SortStable", func(e *env) (func(), int) {
		v := newVec(e)
		return whole(e, func() { v.SortStable() })
	}},
	{"Vec: BinarySearch", func(e *env) (func(), int) {
		v := newVec(e)
		v.Sort()
		return single(e, 4000, func() { v.BinarySearch(e.r.IntN(2*e.n) - 5) })
	}},
	{"Vec: operations on everything", func(e *env) (func(), int) {
		v := newVec(e)
		return whole(e, func() {
			v.IsSorted()
			v.Max()
			v.Min()
			v.Search(-1)
			v.Contains(-1)
			v.SearchAll(7)
			v.SearchAllFunc(func(int) bool { e.calls++; return true })
			v.Range(func(i, x int) bool { sink += x; return true })
			w := v.Clone()
			v.EqualVec(*w)
			v.Compare(*w)
			v.Reverse()
			v.CloneToSlice()
			v.Insert(v.Len()/2, 1, 2, 3)
			v.Cut(1, v.Len()/3)
			v.Replace(0, 4, 1, 2)
			v.Delete(0, 3)
			v.Remove(v.Len() / 2)
			v.SplitOff(v.Len() / 2)
			w.Compact()
			v.Clip()
			v.Grow(e.n)
			v.Clear()
		})
	}},
	{"Vec: Compact with equal elements", func(e *env) (func(), int) {
		v := newVec(e)
		v.Sort()
		return whole(e, func() { v.Compact() })
	}},
	{"heap: Init", func(e *env) (func(), int) {
		u := &user{e, e.vals()}
		return whole(e, func() { heap.Init[int](u) })
	}},
	{"heap: Push, Pop, Remove, Fix", func(e *env) (func(), int) {
		u := &user{e, e.vals()}
		heap.Init[int](u)
		return single(e, 3*e.n, func() {
			if u.Len() < e.n/2 {
				heap.Push[int](u, e.r.IntN(e.n))
				return
			}
			k := e.r.IntN(u.Len())
			switch e.op(5) {
			case 0, 1:
				heap.Push[int](u, e.r.IntN(e.n))
			case 2:
				heap.Pop[int](u)
			case 3:
				heap.Remove[int](u, k)
			case 4:
				u.s[k] = e.r.IntN(e.n)
				heap.Fix[int](u, k)
			}
		})
	}},
	{"MinHeap and MaxHeap: filling and emptying", func(e *env) (func(), int) {
		mn, mx := &heap.MinHeap[int]{}, &heap.MaxHeap[int]{}
		vals := e.vals()
		return whole(e, func() {
			for _, x := range vals {
				heap.Push[int](mn, x)
				heap.Push[int](mx, x)
			}
			for mn.Len() > 0 {
				heap.Pop[int](mn)
				heap.Pop[int](mx)
			}
		})
	}},
	{"PQueue: filling and emptying", func(e *env) (func(), int) {
		q := pqueue.NewMinPriorityQueue[int]()
		if e.mix&1 != 0 {
			q = pqueue.NewMaxPriorityQueue[int]()
		}
		vals := e.vals()
		return whole(e, func() {
			for _, x := range vals {
				q.Push(x, x)
				q.Len()
			}
			for q.Len() > 0 {
				q.Pop()
			}
		})
	}},
	{"PQueue: Push and Pop", func(e *env) (func(), int) {
		q := pqueue.NewMinPriorityQueue[int]()
		if e.mix&1 != 0 {
			q = pqueue.NewMaxPriorityQueue[int]()
		}
		for _, x := range e.vals() {
			q.Push(x, x)
		}
		return single(e, 2*e.n, func() {
			q.Push(e.r.IntN(e.n), 1)
			q.Pop()
		})
	}},
	{"Set: operations on single values", func(e *env) (func(), int) {
		s := newSet(e)
		return single(e, 3*e.n, func() {
			k := e.r.IntN(e.n + e.n/4)
			switch e.op(7) {
			case 0:
				s.Insert(k)
			case 1:
				s.Remove(k)
			case 2:
				s.Contain(k)
			case 3:
				s.ContainAndRemove(k)
			case 4:
				s.Push(k)
			case 5:
				s.Len()
				s.IsEmpty()
			case 6:
				s.Push(k, k+1)
			}
		})
	}},
	{"Set: operations on everything", func(e *env) (func(), int) {
		a, b := newSet(e), newSet(e)
		for k := range e.n / 2 {
			b.Insert(k * 3)
		}
		return whole(e, func() {
			a.Union(b)
			a.Intersection(b)
			a.Difference(b)
			a.SymmetricDifference(b)
			c := a.Clone()
			c.Equal(a)
			c.IsSubSet(a)
			c.IsSupperSet(a)
			c.CopyFrom(b)
			sink += len(c.Slice())
			c.Range(func(x int) bool { sink += x; return true })
			c.Clear()
		})
	}},
	{"GenMap: operations on single keys", func(e *env) (func(), int) {
		m := genmap.New[int, int]()
		for k := range e.n {
			m.Store(k, k)
		}
		return single(e, 3*e.n, func() {
			k := e.r.IntN(e.n + e.n/4)
			switch e.op(8) {
			case 0:
				m.Load(k)
			case 1:
				m.Store(k, k)
			case 2:
				m.Delete(k)
			case 3:
				m.LoadOrStore(k, k)
			case 4:
				m.LoadAndDelete(k)
			case 5:
				m.LoadAndStore(k, k)
			case 6:
				m.LoadOrStoreFunc(k, func() int { return k })
			case 7:
				m.Len()
				m.Map()
			}
		})
	}},
	{"GenMap: operations on everything", func(e *env) (func(), int) {
		m := genmap.New[int, int]()
		for k := range e.n {
			m.Store(k, k)
		}
		return whole(e, func() {
			d := m.Clone()
			sink += len(m.Keys()) + len(m.Values())
			d.EqualFunc(m, e.same)
			d.CopyFrom(m)
			d.CopyTo(m)
			d.Range(func(k, v int) bool { sink += k; return true })
			d.DeleteFunc(func(k, v int) bool { return k%2 == 0 })
			d.Clear()
		})
	}},
	{"HashRing: GetNode", func(e *env) (func(), int) {
		h := hashring.New[int](1 + int(e.mix%20))
		var names []int
		for k := range max(2, e.n/(1+int(e.mix%20))) {
			names = append(names, k)
		}
		h.AddNodes(names...)
		keys := make([]int, 2000)
		for k := range keys {
			keys[k] = e.r.IntN(1 << 30)
		}
		k := 0
		return single(e, len(keys), func() { sink += h.GetNode(keys[k]); k++ })
	}},
	{"HashRing: AddNodes, RemoveNodes", func(e *env) (func(), int) {
		h := hashring.New[string](4)
		var names []string
		for k := range e.n / 4 {
			names = append(names, fmt.Sprint("n", k))
		}
		return whole(e, func() {
			h.AddNodes(names...)
			h.AddNodes(names...)
			h.RemoveNodes(names[:len(names)/2]...)
			h.ResetNodes(names...)
		})
	}},
	{"Ring: Next, Prev, Link", func(e *env) (func(), int) {
		x := ring.New[int](e.n)
		return single(e, 3*e.n, func() {
			switch e.op(3) {
			case 0:
				x = x.Next()
			case 1:
				x = x.Prev()
			case 2:
				x.Link(ring.New[int](1))
			}
		})
	}},
	{"Ring: New, Len, Do, Move, Unlink", func(e *env) (func(), int) {
		return whole(e, func() {
			x := ring.New[int](e.n)
			x.Len()
			x.Do(func(v int) { sink += v })
			x.Move(e.n / 2)
			x.Move(-e.n / 2)
			x.Unlink(e.n / 2)
		})
	}},
	{"Tree: linking", func(e *env) (func(), int) {
		s := newTree(e)
		x, y := tree.NewNode(1), tree.NewNode(2)
		return single(e, 2*e.n, func() {
			p := s[e.r.IntN(e.n)]
			if e.mix&1 == 0 {
				if p.Left == nil {
					p.SetLeft(x)
				}
			} else if p.Right == nil {
				p.SetRight(y)
			}
			if p.Left == x {
				p.SetLeft(nil)
			} else if p.Right == y {
				p.SetRight(nil)
			}
			p.IsLeaf()
			p.HasBothChild()
			p.HasSibling()
			if p.Parent != nil && p.Parent.Parent != nil {
				p.Grandparent()
				p.Uncle()
			}
		})
	}},
	{"Tree: TraversalDFS", func(e *env) (func(), int) {
		s := balanced(e)
		return whole(e, func() { sink += len(s[0].TraversalDFS()) })
	}},
	{"Tree: TraversalBFS", func(e *env) (func(), int) {
		s := balanced(e)
		return whole(e, func() { sink += len(s[0].TraversalBFS()) })
	}},
	{"Tree: MaxDepth, Layer, relations", func(e *env) (func(), int) {
		s := newTree(e)
		return whole(e, func() {
			sink += s[0].MaxDepth() + s[e.n-1].Layer()
			s[0].IsAncestorRelation(s[e.n-1])
			s[e.n-1].IsAncestorRelation(s[0])
			s[0].IsDescendantRelation(s[e.n-1])
		})
	}},
	{"Tree: DrawTree", func(e *env) (func(), int) {
		s := balanced(e)
		return whole(e, func() { sink += len(s[0].DrawTree()) })
	}},
	{"Tree: BuildTree", func(e *env) (func(), int) {
		vals := e.vals()
		return whole(e, func() { tree.BuildTree(vals) })
	}},
}
