package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"time"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/hashring"
	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/pqueue"
	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/set"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/vec"
	"verif.local/h/kit"
)

// churner performs its i-th cycle; whatever i, it holds only a bounded number of
// elements afterwards. cost scales the number of cycles.
type churner struct {
	name string
	cost int
	mk   func(r *rand.Rand) func(i int)
}

func live() int64 {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc) + int64(ms.StackInuse)
}

// growth: after a warm-up, memory may not grow in proportion to the number of
// cycles. A rise is only a violation if ten times the cycles bring at least five
// times the rise, and again.
func growth(c *kit.C) {
	c.Cases("churn", c.N(24*len(churners), 4), func(i int, r *rand.Rand) {
		ch := churners[i%len(churners)]
		cycle := ch.mk(r)
		n := 0
		run := func(to int) int64 {
			for ; n < to; n++ {
				cycle(n)
				if n%1024 == 0 {
					c.Tick()
				}
			}
			return live()
		}
		base := 4000 / ch.cost
		h0 := run(base / 2)
		h1 := run(base)
		h2 := run(10 * base)
		c.Count("cycles."+ch.name, int64(n))
		c.Max("growth_bytes."+ch.name, h2-h1)
		c.Seen(kit.Hash(ch.name, i))
		c.Logf("%s: live bytes %d after %d cycles, %d after %d, %d after %d", ch.name, h0, base/2, h1, base, h2, 10*base)
		if h2-h1 > int64(4*9*base) { // more than 4 bytes per cycle
			h3 := run(100 * base)
			c.Logf("%d after %d", h3, 100*base)
			if h3-h2 > 5*(h2-h1) && h3-h2 > int64(4*90*base) {
				c.Fail("growth", "%s holds a bounded number of elements but its memory grows with every operation: live heap rose by %d bytes in %d cycles and by %d in the next %d", ch.name, h2-h1, 9*base, h3-h2, 90*base)
			}
		}
		if c.WantSample() {
			c.Sample(fmt.Sprintf("case %d %s: live heap rose by %d bytes from cycle %d to %d", i, ch.name, h2-h1, base, 10*base))
		}
		runtime.KeepAlive(cycle)
	})
	c.Cases("goroutines", c.N(8, 4), func(i int, r *rand.Rand) {
		s := synccache.NewSyncCache[int, int](time.Second)
		s.Store(1, 1, time.Hour)
		before := runtime.NumGoroutine()
		for j := 0; j < 1000; j++ {
			if r.IntN(3) == 0 {
				s.Close()
			}
			s.Start()
		}
		after := runtime.NumGoroutine()
		for t := 0; after > before+100 && t < 150; t++ { // some may be on their way out
			time.Sleep(100 * time.Millisecond)
			after = runtime.NumGoroutine()
		}
		s.Close()
		c.Seen(kit.Hash("g", i))
		if after > before+100 {
			c.Fail("goroutines", "1000 Start/Close calls on one cache left %d goroutines, %d before", after, before)
		}
	})
}

var churners = []churner{
	{"RWMap distinct keys", 1, func(r *rand.Rand) func(int) {
		m := new(rwmap.RWMap[int, [4]int])
		span := 1 + r.IntN(50)
		mode := r.IntN(4)
		return func(i int) {
			switch mode {
			case 0:
				m.Store(i, [4]int{i})
			case 1:
				m.LoadOrStore(i, [4]int{i})
			default:
				m.Swap(i, [4]int{i})
			}
			if i%7 == 0 {
				m.Load(i)
				m.Load(-i)
			}
			if mode == 3 && i%31 == 0 {
				m.Range(func(int, [4]int) bool { return true })
			}
			switch i % 3 {
			case 0:
				m.Delete(i - span)
			case 1:
				m.LoadAndDelete(i - span)
			default:
				m.CompareAndDelete(i-span, [4]int{i - span})
			}
		}
	}},
	{"RWMap few keys", 1, func(r *rand.Rand) func(int) {
		m := new(rwmap.RWMap[string, *int])
		n := 1 + r.IntN(20)
		return func(i int) {
			k := fmt.Sprint(r.IntN(n))
			switch r.IntN(6) {
			case 0:
				m.Delete(k)
			case 1:
				m.LoadOrStore(k, new(int))
			case 2:
				if i%50 == 0 {
					m.Clear()
				}
			case 3:
				m.Load(k)
			default:
				m.Store(k, new(int))
			}
		}
	}},
	{"SyncCache distinct keys", 1, func(r *rand.Rand) func(int) {
		var conf []synccache.SyncCacheConfig[int, string]
		if r.IntN(2) == 0 {
			conf = append(conf, synccache.WithDeletedCallback[int](func(string) {}))
		}
		s := synccache.NewSyncCache(time.Second, conf...)
		span := 1 + r.IntN(50)
		return func(i int) {
			if i%2 == 0 {
				s.Store(i, fmt.Sprint(i), time.Hour)
			} else {
				s.LoadOrStore(i, fmt.Sprint(i), time.Hour)
			}
			switch i % 4 {
			case 0:
				s.Delete(i - span)
			case 1:
				s.LoadAndDelete(i - span)
			case 2:
				s.CompareValueAndDelete(i-span, fmt.Sprint(i-span))
			default:
				if e, ok := s.Load(i - span); ok {
					s.CompareAndDelete(i-span, e)
				}
			}
		}
	}},
	{"SyncCache expired keys", 1, func(r *rand.Rand) func(int) {
		s := synccache.NewSyncCache[int, string](time.Second)
		return func(i int) {
			s.Store(i, "v", -time.Hour)
			if i%3 == 0 {
				s.Range(func(int, *synccache.Entry[string]) bool { return true })
			} else {
				s.Load(i)
			}
		}
	}},
	{"refreshcache", 1, func(r *rand.Rand) func(int) {
		c := refreshcache.NewRefreshCache(func(_ context.Context, a ...int) ([]byte, error) { return refreshed(a[0]) }, 0)
		return func(i int) {
			kit.Catch(func() { c.Get(context.Background(), i) })
			kit.Catch(func() { c.Refresh(context.Background(), i) })
			c.Clear(context.Background())
		}
	}},
	{"refreshcache0", 1, func(r *rand.Rand) func(int) {
		n := 0
		c := refreshcache0.NewRefreshCache(func(context.Context) ([]byte, error) { n++; return refreshed(n) }, 0)
		return func(i int) {
			kit.Catch(func() { c.Get(context.Background()) })
			kit.Catch(func() { c.Refresh(context.Background()) })
			c.SetClearFunc(func(context.Context) error { return nil })
			c.Clear(context.Background())
		}
	}},
	{"refreshcache1", 1, func(r *rand.Rand) func(int) {
		c := refreshcache1.NewRefreshCache(func(_ context.Context, a int) ([]byte, error) { return refreshed(a) }, 0, refreshcache1.WithErrAge[[]byte, int](1))
		return func(i int) {
			kit.Catch(func() { c.Get(context.Background(), i) })
			kit.Catch(func() { c.Refresh(context.Background(), i) })
			c.Clear(context.Background(), i)
		}
	}},
	{"Dllist", 1, func(r *rand.Rand) func(int) {
		l := dllist.New[int]()
		span := 1 + r.IntN(30)
		return func(i int) {
			l.PushBack(i)
			l.PushFront(i)
			for l.Len() > span {
				l.Remove(l.Front())
				if l.Len() > 0 {
					l.MoveToFront(l.Back())
				}
			}
			if i%200 == 0 {
				l.Clear()
			}
			if i%100 == 0 {
				l.Sort(func(a, b int) bool { return a < b })
			}
		}
	}},
	{"Lhashmap", 1, func(r *rand.Rand) func(int) {
		m := lhashmap.New[int, int]()
		span := 1 + r.IntN(30)
		return func(i int) {
			m.Store(i, i)
			m.Load(i - 1)
			m.Store(i-1, 5)
			m.Remove(i - span)
			m.Remove(i - span)
			if i > span && m.Len() > span+2 {
				m.Clear()
			}
		}
	}},
	{"Vec", 1, func(r *rand.Rand) func(int) {
		v := vec.New[int]()
		span := 1 + r.IntN(30)
		return func(i int) {
			v.Push(i, i)
			v.Insert(0, i)
			for v.Len() > span {
				switch i % 4 {
				case 0:
					v.Pop()
				case 1:
					v.Remove(0)
				case 2:
					v.Cut(0, 1)
				default:
					v.Delete(0, 1)
				}
			}
			if i%97 == 0 {
				v.Clear()
			}
			if i%101 == 0 && v.Len() > 0 {
				v.SplitOff(v.Len() / 2)
				v.Clone()
			}
		}
	}},
	{"PQueue", 1, func(r *rand.Rand) func(int) {
		q := pqueue.NewMinPriorityQueue[string]()
		if r.IntN(2) == 0 {
			q = pqueue.NewMaxPriorityQueue[string]()
		}
		span := 1 + r.IntN(30)
		return func(i int) {
			q.Push(r.IntN(100), "x")
			for q.Len() > span {
				q.Pop()
			}
		}
	}},
	{"MinHeap", 1, func(r *rand.Rand) func(int) {
		h := new(heap.MinHeap[int])
		span := 1 + r.IntN(30)
		return func(i int) {
			heap.Push(h, i)
			heap.Push(h, -i)
			for h.Len() > span {
				heap.Pop(h)
				if h.Len() > 0 {
					heap.Remove(h, h.Len()/2)
				}
			}
		}
	}},
	{"HashRing", 20, func(r *rand.Rand) func(int) {
		h := hashring.New[string](1 + r.IntN(8))
		span := 1 + r.IntN(5)
		return func(i int) {
			h.AddNodes(fmt.Sprint("n", i))
			h.GetNode("key")
			h.RemoveNodes(fmt.Sprint("n", i-span))
			if i%50 == 0 {
				h.ResetNodes("a", "b")
				h.RemoveNodes("a", "b")
			}
		}
	}},
	{"Set", 1, func(r *rand.Rand) func(int) {
		s := set.New[int]()
		return func(i int) {
			s.Push(i, i+1)
			s.Remove(i)
			s.Union(s)
			s.Difference(s)
		}
	}},
}

func refreshed(a int) ([]byte, error) {
	switch a % 5 {
	case 0:
		return nil, fmt.Errorf("failure %d", a)
	case 1:
		panic("refresh function")
	}
	return make([]byte, 64), nil
}
