// C05: data-race freedom and safe publication, decided by the Go race detector
// over concurrent mixes of every exported operation. The workload itself shares
// nothing but the containers: payloads are written plainly before they are
// stored and read plainly by whoever obtains them.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"verif.local/h/kit"
	"verif.local/h/vsched"
)

type load struct {
	id  int
	sum int
	arr []int
}

func newLoad(r interface{ IntN(int) int }) *load {
	p := &load{}
	p.id = r.IntN(1000) + 1
	p.arr = []int{p.id, p.id + 1}
	p.sum = p.id * 2
	return p
}

var torn atomic.Value // touched only when something is wrong and at the end
var reads int64

// G is the private state of one goroutine. Goroutines share nothing but the
// container, so that every ordering between them comes from the library.
type G struct {
	*rand.Rand
	reads int64
}

func (g *G) use(p *load) {
	if p == nil {
		return
	}
	g.reads++
	check(p)
}

func check(p *load) {
	if p.sum != p.id*2 || len(p.arr) != 2 || p.arr[0] != p.id {
		torn.Store(fmt.Sprintf("payload not fully visible: %+v", *p))
	}
}

// crowd runs n goroutines, each with its own random source, until all return.
func crowd(c *kit.C, r *rand.Rand, n, ops int, body func(g int, r *G)) {
	var wg sync.WaitGroup
	counts := make([]int64, n)
	start := make(chan struct{})
	var pan atomic.Value
	seed := r.Uint64()
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pan.Store(fmt.Sprint(p))
				}
			}()
			r := &G{Rand: rand.New(rand.NewPCG(seed, uint64(g)))}
			defer func() { counts[g] = r.reads }()
			<-start
			for j := 0; j < ops; j++ {
				body(g, r)
				if r.IntN(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, x := range counts {
		reads += x
	}
	c.Count("ops", int64(n*ops))
	if p := pan.Load(); p != nil {
		c.Fail("panic", "%v", p)
	}
	if t := torn.Load(); t != nil {
		c.Fail("publication", "%v", t)
	}
}

func rwMap(c *kit.C, i int, r *rand.Rand) {
	var m rwmap.RWMap[int, *load]
	nk := 1 + r.IntN(6)
	clear := r.IntN(2) == 0
	var flag rwmap.RWMap[string, int]
	crowd(c, r, 2+r.IntN(4), 20+r.IntN(60), func(g int, r *G) {
		k := r.IntN(nk)
		switch r.IntN(15) {
		case 0, 1:
			m.Store(k, newLoad(r))
		case 2:
			p, _ := m.Load(k)
			r.use(p)
		case 3:
			p, _ := m.LoadOrStore(k, newLoad(r))
			r.use(p)
		case 4:
			p, _ := m.LoadAndDelete(k)
			r.use(p)
		case 5:
			m.Delete(k)
		case 6:
			p, _ := m.Swap(k, newLoad(r))
			r.use(p)
		case 7:
			p, ok := m.Load(k)
			r.use(p)
			if ok {
				m.CompareAndSwap(k, p, newLoad(r))
			}
		case 8:
			p, ok := m.Load(k)
			if ok && m.CompareAndDelete(k, p) {
				r.use(p)
			}
		case 9:
			m.Range(func(k int, p *load) bool { r.use(p); return r.IntN(5) != 0 })
		case 10:
			m.Len()
		case 11:
			m.SlowLen()
		case 12:
			if clear {
				m.Clear()
			}
		case 13:
			m.Load(nk + 1)
		case 14:
			flag.CompareAndSwap("x", r.IntN(2), r.IntN(2))
			flag.LoadOrStore("x", r.IntN(2))
		}
	})
	c.Seen(kit.Hash("rw", i))
}

func syncCache(c *kit.C, i int, r *rand.Rand, advance bool, wall time.Duration) {
	var conf []synccache.SyncCacheConfig[int, *load]
	if r.IntN(2) == 0 {
		conf = append(conf, synccache.WithDeletedCallback[int, *load](func(p *load) { check(p) }))
	}
	s := synccache.NewSyncCache(time.Second, conf...)
	defer s.Close()
	nk := 1 + r.IntN(4)
	dur := func(r *G) time.Duration {
		if advance {
			return []time.Duration{0, 3 * time.Second, time.Hour, -time.Second}[r.IntN(4)]
		}
		return []time.Duration{0, 200 * time.Microsecond, time.Millisecond, time.Hour, -time.Second}[r.IntN(5)]
	}
	end := time.Now().Add(wall)
	for once := true; once || time.Now().Before(end); once = false {
		c.Tick()
		crowd(c, r, 2+r.IntN(4), 20+r.IntN(60), func(g int, r *G) {
			k := r.IntN(nk)
			if advance && g == 0 && r.IntN(3) == 0 {
				vsched.Advance(time.Duration(1+r.IntN(6)) * time.Second)
				return
			}
			switch r.IntN(13) {
			case 0, 1, 2:
				s.Store(k, newLoad(r), dur(r))
			case 3:
				if e, ok := s.Load(k); ok {
					r.use(e.Value())
				}
			case 4:
				e, _ := s.LoadOrStore(k, newLoad(r), dur(r))
				r.use(e.Value())
			case 5:
				if e, ok := s.LoadAndDelete(k); ok {
					r.use(e.Value())
				}
			case 6:
				s.Delete(k)
			case 7:
				if e, ok := s.Load(k); ok {
					s.CompareAndDelete(k, e)
					r.use(e.Value())
				}
			case 8:
				if e, ok := s.Load(k); ok {
					s.CompareValueAndDelete(k, e.Value())
				}
			case 9:
				s.Range(func(k int, e *synccache.Entry[*load]) bool { r.use(e.Value()); return r.IntN(5) != 0 })
			case 10:
				if e, ok := s.Load(k); ok {
					e.AddExpiration(time.Duration(r.IntN(2000)-1000) * time.Millisecond)
					e.IsExpired()
				}
			case 11:
				if e, ok := s.Load(k); ok {
					e.SetExpiration(time.Now().Add(dur(r)))
				}
			case 12:
				switch r.IntN(4) {
				case 0:
					s.Clear()
				case 1:
					s.Close()
				default:
					s.Start()
				}
			}
		})
	}
	c.Seen(kit.Hash("sc", i))
}

type global struct{}

func (global) IntN(n int) int { return rand.IntN(n) }

type lerr struct{ p *load }

func (e *lerr) Error() string { return "failed" }

// refresher is what the three packages have in common.
type refresher struct {
	get, refresh             func(ctx context.Context) (*load, error)
	clear                    func(ctx context.Context) error
	setRefresh, setClear     func(r *G)
	raw                      func() (*load, error)
	last, lastErr, ages, fns func()
}

func refresh(c *kit.C, i int, r *rand.Rand) {
	maxAge := []time.Duration{-1, 0, 50 * time.Microsecond, time.Hour}[r.IntN(4)]
	errAge := []time.Duration{0, 50 * time.Microsecond, time.Hour}[r.IntN(3)]
	body := func(old any) (*load, error) {
		if p, ok := old.(*load); ok && p != nil {
			check(p)
		}
		switch rand.IntN(8) { // the global source is not a shared location
		case 0, 1:
			return nil, &lerr{newLoad(global{})}
		case 2:
			panic("refresh")
		}
		return newLoad(global{}), nil
	}
	cl := func(old any) error {
		if p, ok := old.(*load); ok && p != nil {
			check(p)
		}
		return nil
	}
	var x refresher
	switch i % 3 {
	case 0:
		f := func(ctx context.Context, a ...int) (*load, error) { return body(ctx.Value(refreshcache.OldValKey)) }
		cf := func(ctx context.Context, a ...int) error { return cl(ctx.Value(refreshcache.OldValKey)) }
		rc := refreshcache.NewRefreshCache(f, maxAge, refreshcache.WithErrAge[*load, int](errAge))
		x = refresher{
			func(ctx context.Context) (*load, error) { return rc.Get(ctx, 1, 2) },
			func(ctx context.Context) (*load, error) { return rc.Refresh(ctx) },
			func(ctx context.Context) error { return rc.Clear(ctx, 3) },
			func(r *G) { rc.SetRefreshFunc(f) },
			func(r *G) {
				if r.IntN(2) == 0 {
					rc.SetClearFunc(nil)
				} else {
					rc.SetClearFunc(cf)
				}
			},
			rc.Raw,
			func() { rc.Last(); rc.LastTime() },
			func() { rc.LastErr(); rc.LastErrTime() },
			func() { rc.MaxAge(); rc.MaxErrAge() },
			func() { rc.GetRefreshFunc(); rc.GetClearFunc(); rc.Data() },
		}
	case 1:
		f := func(ctx context.Context) (*load, error) { return body(ctx.Value(refreshcache0.OldValKey)) }
		cf := func(ctx context.Context) error { return cl(ctx.Value(refreshcache0.OldValKey)) }
		rc := refreshcache0.NewRefreshCache(f, maxAge, refreshcache0.WithErrAge[*load](errAge))
		x = refresher{
			func(ctx context.Context) (*load, error) { return rc.Get(ctx) },
			func(ctx context.Context) (*load, error) { return rc.Refresh(ctx) },
			func(ctx context.Context) error { return rc.Clear(ctx) },
			func(r *G) { rc.SetRefreshFunc(f) },
			func(r *G) {
				if r.IntN(2) == 0 {
					rc.SetClearFunc(nil)
				} else {
					rc.SetClearFunc(cf)
				}
			},
			rc.Raw,
			func() { rc.Last(); rc.LastTime() },
			func() { rc.LastErr(); rc.LastErrTime() },
			func() { rc.MaxAge(); rc.MaxErrAge() },
			func() { rc.GetRefreshFunc(); rc.GetClearFunc(); rc.Data() },
		}
	case 2:
		f := func(ctx context.Context, a string) (*load, error) { return body(ctx.Value(refreshcache1.OldValKey)) }
		cf := func(ctx context.Context, a string) error { return cl(ctx.Value(refreshcache1.OldValKey)) }
		rc := refreshcache1.NewRefreshCache(f, maxAge, refreshcache1.WithErrAge[*load, string](errAge))
		x = refresher{
			func(ctx context.Context) (*load, error) { return rc.Get(ctx, "a") },
			func(ctx context.Context) (*load, error) { return rc.Refresh(ctx, "b") },
			func(ctx context.Context) error { return rc.Clear(ctx, "c") },
			func(r *G) { rc.SetRefreshFunc(f) },
			func(r *G) {
				if r.IntN(2) == 0 {
					rc.SetClearFunc(nil)
				} else {
					rc.SetClearFunc(cf)
				}
			},
			rc.Raw,
			func() { rc.Last(); rc.LastTime() },
			func() { rc.LastErr(); rc.LastErrTime() },
			func() { rc.MaxAge(); rc.MaxErrAge() },
			func() { rc.GetRefreshFunc(); rc.GetClearFunc(); rc.Data() },
		}
	}
	res := func(g *G) func(p *load, err error) {
		return func(p *load, err error) {
			g.use(p)
			if e, ok := err.(*lerr); ok {
				g.use(e.p)
			}
		}
	}
	ctx := context.Background()
	crowd(c, r, 2+r.IntN(4), 15+r.IntN(30), func(g int, r *G) {
		defer func() { recover() }() // panicking refresh functions
		switch r.IntN(14) {
		case 0, 1, 2, 3, 4:
			res(r)(x.get(ctx))
		case 5, 6:
			res(r)(x.refresh(ctx))
		case 7:
			x.clear(ctx)
		case 8:
			x.setRefresh(r)
		case 9:
			x.setClear(r)
		case 10:
			res(r)(x.raw())
		case 11:
			x.last()
		case 12:
			x.lastErr()
		case 13:
			x.ages()
			x.fns()
		}
	})
	c.Seen(kit.Hash("rf", i))
}

func main() {
	kit.Main(map[string]func(*kit.C){"C05": func(c *kit.C) {
		adv := c.Leg == "racenoise"
		if adv {
			vsched.EnableClock()
			vsched.SetNoise(2)
		}
		c.Cases("rwmap", c.N(1500, 10), func(i int, r *rand.Rand) { rwMap(c, i, r) })
		c.Cases("synccache", c.N(1100, 10), func(i int, r *rand.Rand) { syncCache(c, i, r, adv, 0) })
		c.Cases("refresh", c.N(1500, 10), func(i int, r *rand.Rand) { refresh(c, i, r) })
		if !adv && c.Shard == 0 {
			// Long enough for the real background pass to take part.
			c.Cases("trim", 1, func(i int, r *rand.Rand) { syncCache(c, i, r, false, 5500*time.Millisecond) })
		}
		c.Count("published_payloads_read", reads)
		if c.WantSample() {
			c.Sample(fmt.Sprintf("leg %s shard %d: %d payloads read through the containers", c.Leg, c.Shard, reads))
		}
	}})
}
