// Monitor for C31: what was removed from a container is released (weak pointers
// after a collection), and the memory a container holds does not grow with the
// number of operations (live heap and goroutines across long churn).
package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/zijiren233/gencontainer/dllist"
	"github.com/zijiren233/gencontainer/lhashmap"
	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
	"github.com/zijiren233/gencontainer/ring"
	"github.com/zijiren233/gencontainer/rwmap"
	"github.com/zijiren233/gencontainer/synccache"
	"github.com/zijiren233/gencontainer/tree"
	"verif.local/h/kit"
)

func main() {
	kit.Main(map[string]func(*kit.C){"C31": func(c *kit.C) {
		switch c.Leg {
		case "release":
			release(c)
		default:
			growth(c)
		}
	}})
}

// blob is a value whose release can be observed.
type blob struct {
	id  int
	pad [6]int
	p   *int
}

// watch keeps weak pointers only.
type watch struct {
	w    []weak.Pointer[blob]
	gone []bool // seen released
}

//go:noinline
func (w *watch) mk() *blob {
	b := &blob{id: len(w.w), p: new(int)}
	w.w = append(w.w, weak.Make(b))
	w.gone = append(w.gone, false)
	return b
}

func (w *watch) next() int { return len(w.w) }

// subject is one container with a model of what it holds.
type subject interface {
	step(r *rand.Rand) string // one operation, on the container and the model
	holds(f func(id int))     // the values the container (or the workload) still has
	name() string
}

func release(c *kit.C) {
	c.Cases("release", c.N(4000, 16), func(i int, r *rand.Rand) {
		w := &watch{}
		k := r.IntN(len(makers))
		s := makers[k](w, r)
		h := kit.Hash(i, s.name())
		freed := 0
		for round := 1 + r.IntN(6); round > 0; round-- {
			for n := 1 + r.IntN(40); n > 0; n-- {
				d := do(s, r)
				c.Logf("%s", d)
				c.Count("ops", 1)
			}
			freed += judge(c, w, s)
		}
		if freed > 0 {
			c.Seen(h)
			c.Count("released_values", int64(freed))
			c.Count("released."+s.name(), int64(freed))
			if c.WantSample() {
				c.Sample(fmt.Sprintf("case %d %s: %d values stored, %d seen released", i, s.name(), w.next(), freed))
			}
		}
		runtime.KeepAlive(s)
	})
	c.Cases("shared", c.N(400, 16), func(i int, r *rand.Rand) { shared(c, i, r) })
}

//go:noinline
func do(s subject, r *rand.Rand) string { return s.step(r) }

// judge collects garbage and compares what is still reachable with the model.
//
//go:noinline
func judge(c *kit.C, w *watch, s subject) (freed int) {
	held := map[int]bool{}
	s.holds(func(id int) { held[id] = true })
	var bad []int
	for try := 0; try < 3; try++ {
		runtime.GC()
		bad = bad[:0]
		for id := range w.w {
			if w.gone[id] {
				continue
			}
			alive := w.w[id].Value() != nil
			switch {
			case !alive && held[id]:
				c.Fail("model", "%s: value #%d should still be held", s.name(), id)
			case !alive:
				w.gone[id] = true
				freed++
			case !held[id]:
				bad = append(bad, id)
			}
		}
		if len(bad) == 0 {
			break
		}
	}
	if len(bad) > 0 {
		c.Fail("retained", "%s: values %v were removed or replaced, are not held by anybody, and are still reachable (%d values held)", s.name(), bad, len(held))
	}
	return freed
}

// shared: several goroutines use one RWMap or SyncCache; afterwards exactly what
// it contains is reachable.
func shared(c *kit.C, i int, r *rand.Rand) {
	const ng, nk = 4, 5
	var mu sync.Mutex
	w := &watch{}
	mk := func() *blob { mu.Lock(); defer mu.Unlock(); return w.mk() }
	var m rwmap.RWMap[int, *blob]
	sc := synccache.NewSyncCache[int, *blob](time.Second)
	defer sc.Close()
	onMap := r.IntN(2) == 0
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 60; j++ {
				k, x := rr.IntN(nk), rr.IntN(20)
				if onMap {
					mapOp(&m, mk, k, x)
				} else {
					cacheOp(sc, mk, k, x, time.Hour)
				}
			}
		}()
	}
	wg.Wait()
	s := funcSubject{map[bool]string{true: "RWMap (shared)", false: "SyncCache (shared)"}[onMap], func(f func(int)) {
		for k := 0; k < nk; k++ {
			if onMap {
				if b, ok := m.Load(k); ok {
					f(b.id)
				}
			} else if e, ok := sc.Load(k); ok {
				f(e.Value().id)
			}
		}
	}}
	freed := judge(c, w, s)
	c.Count("ops", ng*60)
	if freed > 0 {
		c.Seen(kit.Hash("shared", i))
		c.Count("released_values", int64(freed))
		c.Count("released."+s.n, int64(freed))
	}
	runtime.KeepAlive(&m)
	runtime.KeepAlive(sc)
}

type funcSubject struct {
	n string
	h func(func(int))
}

func (s funcSubject) step(*rand.Rand) string { return "" }
func (s funcSubject) holds(f func(int))      { s.h(f) }
func (s funcSubject) name() string           { return s.n }

func mapOp(m *rwmap.RWMap[int, *blob], mk func() *blob, k, x int) string {
	switch {
	case x < 5:
		m.Store(k, mk())
		return "Store"
	case x < 7:
		m.Swap(k, mk())
		return "Swap"
	case x < 10:
		m.LoadOrStore(k, mk())
		return "LoadOrStore"
	case x < 12:
		m.LoadAndDelete(k)
		return "LoadAndDelete"
	case x < 14:
		m.Delete(k)
		return "Delete"
	case x < 16:
		o, _ := m.Load(k)
		m.CompareAndSwap(k, o, mk())
		return "CompareAndSwap"
	case x < 17:
		o, _ := m.Load(k)
		m.CompareAndDelete(k, o)
		return "CompareAndDelete"
	case x < 18:
		m.Range(func(int, *blob) bool { return true })
		return "Range"
	case x < 19:
		m.Load(k)
		return "Load"
	}
	m.Clear()
	return "Clear"
}

func cacheOp(m *synccache.SyncCache[int, *blob], mk func() *blob, k, x int, d time.Duration) string {
	switch {
	case x < 6:
		m.Store(k, mk(), d)
		return "Store"
	case x < 10:
		m.LoadOrStore(k, mk(), d)
		return "LoadOrStore"
	case x < 12:
		m.LoadAndDelete(k)
		return "LoadAndDelete"
	case x < 14:
		m.Delete(k)
		return "Delete"
	case x < 16:
		if e, ok := m.Load(k); ok {
			m.CompareAndDelete(k, e)
		}
		return "CompareAndDelete"
	case x < 17:
		if e, ok := m.Load(k); ok {
			m.CompareValueAndDelete(k, e.Value())
		}
		return "CompareValueAndDelete"
	case x < 18:
		m.Range(func(int, *synccache.Entry[*blob]) bool { return true })
		return "Range"
	case x < 19:
		m.Load(k)
		return "Load"
	}
	m.Clear()
	return "Clear"
}

// ---- the containers ----

var makers = []func(w *watch, r *rand.Rand) subject{
	func(w *watch, r *rand.Rand) subject { return &mapS{w: w, nk: 1 + r.IntN(30)} },
	func(w *watch, r *rand.Rand) subject {
		s := &cacheS{w: w, nk: 1 + r.IntN(30)}
		var conf []synccache.SyncCacheConfig[int, *blob]
		if r.IntN(2) == 0 {
			conf = append(conf, synccache.WithDeletedCallback[int](func(*blob) {}))
		}
		s.m = synccache.NewSyncCache(time.Second, conf...)
		return s
	},
	func(w *watch, r *rand.Rand) subject { return newRefreshS(w, r) },
	func(w *watch, r *rand.Rand) subject { return newRefreshS(w, r) },
	func(w *watch, r *rand.Rand) subject {
		return &listS{w: w, l: dllist.New[*blob](), o: dllist.New[*blob]()}
	},
	func(w *watch, r *rand.Rand) subject {
		return &lhS{w: w, m: lhashmap.New[int, *blob](), nk: 1 + r.IntN(30)}
	},
	func(w *watch, r *rand.Rand) subject { return &ringS{w: w} },
	func(w *watch, r *rand.Rand) subject { return &treeS{w: w, root: tree.NewNode(w.mk())} },
}

type mapS struct {
	w  *watch
	m  rwmap.RWMap[int, *blob]
	nk int
}

func (s *mapS) name() string { return "RWMap" }
func (s *mapS) step(r *rand.Rand) string {
	return mapOp(&s.m, s.w.mk, r.IntN(s.nk), r.IntN(19+r.IntN(2)))
}
func (s *mapS) holds(f func(int)) {
	s.m.Range(func(_ int, b *blob) bool { f(b.id); return true })
}

type cacheS struct {
	w  *watch
	m  *synccache.SyncCache[int, *blob]
	nk int
}

func (s *cacheS) name() string { return "SyncCache" }
func (s *cacheS) step(r *rand.Rand) string {
	d := time.Hour
	if r.IntN(4) == 0 {
		d = -time.Hour // expired at once
	}
	return cacheOp(s.m, s.w.mk, r.IntN(s.nk), r.IntN(19+r.IntN(2)), d)
}
func (s *cacheS) holds(f func(int)) {
	for k := 0; k < s.nk; k++ { // a lookup removes what has expired
		if e, ok := s.m.Load(k); ok {
			f(e.Value().id)
		}
	}
}

// refreshS: only the latest successfully refreshed value is kept.
type refreshS struct {
	w    *watch
	get  func(ctx context.Context) (*blob, error)
	ref  func(ctx context.Context) (*blob, error)
	clr  func(ctx context.Context) error
	raw  func() (*blob, error)
	nm   string
	out  int
	last int
	r    *rand.Rand

	failed int
}

var errNo = errors.New("no")

func (s *refreshS) fn() (*blob, error) {
	switch s.r.IntN(6) {
	case 0:
		b := s.w.mk()
		s.failed = b.id // may be kept until the next success
		return b, errNo
	case 1:
		return nil, errNo
	}
	b := s.w.mk()
	s.last, s.failed = b.id, -1
	return b, nil
}

func newRefreshS(w *watch, r *rand.Rand) subject {
	s := &refreshS{w: w, last: -1, failed: -1, r: r}
	age := []time.Duration{0, -1, time.Hour}[r.IntN(3)]
	switch r.IntN(3) {
	case 0:
		c := refreshcache.NewRefreshCache(func(context.Context, ...int) (*blob, error) { return s.fn() }, age)
		s.nm = "refreshcache"
		s.get = func(x context.Context) (*blob, error) { return c.Get(x, 1) }
		s.ref = func(x context.Context) (*blob, error) { return c.Refresh(x, 1) }
		s.clr = func(x context.Context) error { return c.Clear(x, 1) }
		s.raw = c.Raw
	case 1:
		c := refreshcache0.NewRefreshCache(func(context.Context) (*blob, error) { return s.fn() }, age)
		s.nm = "refreshcache0"
		s.get, s.ref, s.clr, s.raw = c.Get, c.Refresh, c.Clear, c.Raw
	default:
		c := refreshcache1.NewRefreshCache(func(context.Context, int) (*blob, error) { return s.fn() }, age)
		s.nm = "refreshcache1"
		s.get = func(x context.Context) (*blob, error) { return c.Get(x, 1) }
		s.ref = func(x context.Context) (*blob, error) { return c.Refresh(x, 1) }
		s.clr = func(x context.Context) error { return c.Clear(x, 1) }
		s.raw = c.Raw
	}
	return s
}
func (s *refreshS) name() string { return s.nm }
func (s *refreshS) step(r *rand.Rand) string {
	x := context.Background()
	switch r.IntN(5) {
	case 0:
		s.get(x)
		return "Get"
	case 1:
		s.clr(x)
		return "Clear"
	case 2:
		s.raw()
		return "Raw"
	}
	s.ref(x)
	return "Refresh"
}
func (s *refreshS) holds(f func(int)) {
	// The latest value may be kept as the old value handed to the functions,
	// or dropped when it was invalidated: keep it alive to claim neither.
	keep = [2]*blob{}
	for i, id := range []int{s.last, s.failed} {
		if id >= 0 {
			f(id)
			keep[i] = s.w.w[id].Value()
			if keep[i] == nil {
				s.w.gone[id] = true
			}
		}
	}
}

var keep [2]*blob

// listS: two lists; removed elements may be kept as handles.
type listS struct {
	w    *watch
	l, o *dllist.Dllist[*blob]
	kept []*dllist.Element[*blob] // removed elements: only their own value is held
}

func (s *listS) name() string { return "Dllist" }
func (s *listS) step(r *rand.Rand) string {
	l, o := s.l, s.o
	if r.IntN(3) == 0 {
		l, o = o, l
	}
	at := func() *dllist.Element[*blob] {
		if l.Len() == 0 {
			return l.PushBack(s.w.mk())
		}
		return l.Get(r.IntN(l.Len()))
	}
	if l.Len() > 150 {
		l.Clear()
		return "Clear"
	}
	switch x := r.IntN(30); {
	case x < 4:
		l.PushBack(s.w.mk())
		return "PushBack"
	case x < 8:
		l.PushFront(s.w.mk())
		return "PushFront"
	case x < 10:
		l.InsertAfter(s.w.mk(), at())
		return "InsertAfter"
	case x < 12:
		l.InsertBefore(s.w.mk(), at())
		return "InsertBefore"
	case x < 19:
		e := at()
		l.Remove(e)
		if r.IntN(2) == 0 {
			s.kept = append(s.kept, e)
		}
		if len(s.kept) > 5 {
			s.kept = append([]*dllist.Element[*blob](nil), s.kept[3:]...)
		}
		return "Remove"
	case x < 21:
		l.MoveToFront(at())
		return "MoveToFront"
	case x < 22:
		l.MoveBefore(at(), at())
		return "MoveBefore"
	case x < 24:
		l.Swap(at(), at())
		return "Swap"
	case x < 25:
		l.PushBackList(o)
		o.Clear()
		return "PushBackList, Clear"
	case x < 26:
		l.Sort(func(a, b *blob) bool { return a.id < b.id })
		return "Sort"
	case x < 27:
		at().Value = s.w.mk()
		return "Value ="
	case x < 28:
		e := at()
		l.Clear()
		s.kept = append(s.kept, e)
		return "Clear"
	}
	l.MoveAfter(at(), at())
	return "MoveAfter"
}
func (s *listS) holds(f func(int)) {
	for _, l := range []*dllist.Dllist[*blob]{s.l, s.o} {
		for _, b := range l.Slice() {
			f(b.id)
		}
	}
	for _, e := range s.kept {
		f(e.Value.id)
	}
}

type lhS struct {
	w  *watch
	m  *lhashmap.Lhashmap[int, *blob]
	nk int
}

func (s *lhS) name() string { return "Lhashmap" }
func (s *lhS) step(r *rand.Rand) string {
	k := r.IntN(s.nk)
	switch x := r.IntN(20); {
	case x < 9:
		s.m.Store(k, s.w.mk())
		return "Store"
	case x < 12:
		s.m.Load(k)
		return "Load"
	case x < 19:
		s.m.Remove(k)
		return "Remove"
	}
	s.m.Clear()
	return "Clear"
}
func (s *lhS) holds(f func(int)) {
	s.m.Range(func(_ int, b *blob) bool { f(b.id); return true })
}

type ringS struct {
	w *watch
	r *ring.Ring[*blob]
}

func (s *ringS) name() string { return "Ring" }
func (s *ringS) fresh(n int) *ring.Ring[*blob] {
	x := ring.New[*blob](n)
	for j := 0; j < n; j++ {
		x.Value = s.w.mk()
		x = x.Next()
	}
	return x
}
func (s *ringS) step(r *rand.Rand) string {
	if s.r == nil || s.r.Len() > 150 {
		s.r = s.fresh(1 + r.IntN(5))
		return "New"
	}
	switch r.IntN(6) {
	case 0, 1:
		s.r.Unlink(1 + r.IntN(s.r.Len()))
		return "Unlink"
	case 2:
		s.r = s.r.Move(r.IntN(9) - 4)
		return "Move"
	case 3: // link to an element of the same ring: cuts out what lies between
		s.r.Link(s.r.Move(1 + r.IntN(s.r.Len())))
		return "Link within"
	}
	s.r.Link(s.fresh(1 + r.IntN(5)))
	return "Link"
}
func (s *ringS) holds(f func(int)) {
	if s.r != nil {
		s.r.Do(func(b *blob) { f(b.id) })
	}
}

// treeS: what is displaced from the tree, and not held otherwise, is released.
type treeS struct {
	w    *watch
	root *tree.Node[*blob]
}

func (s *treeS) name() string { return "Tree" }
func (s *treeS) step(r *rand.Rand) string {
	n := s.root
	for d := r.IntN(6); d > 0; d-- {
		next := n.Left
		if r.IntN(2) == 0 {
			next = n.Right
		}
		if next == nil {
			break
		}
		n = next
	}
	var x *tree.Node[*blob]
	if r.IntN(3) > 0 {
		x = tree.NewNode(s.w.mk())
		if r.IntN(2) == 0 {
			x.SetLeft(tree.NewNode(s.w.mk()))
		}
	}
	if r.IntN(2) == 0 {
		n.SetLeft(x)
		return "SetLeft"
	}
	n.SetRight(x)
	return "SetRight"
}
func (s *treeS) holds(f func(int)) {
	var walk func(n *tree.Node[*blob])
	walk = func(n *tree.Node[*blob]) {
		if n != nil {
			f(n.Val.id)
			walk(n.Left)
			walk(n.Right)
		}
	}
	walk(s.root)
}
