// Monitors for heap (C22) and pqueue (C23).
//
// C22 drives the heap functions over instrumented containers that check every
// index they are given and compare the result with a multiset; C23 drives the
// queues against a multiset of (priority, value).
package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/zijiren233/gencontainer/heap"
	"github.com/zijiren233/gencontainer/pqueue"
	"golang.org/x/exp/constraints"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C22": c22, "C23": c23}) }

// probe is a user container: elements have a key and an identity, the order is
// by key only (a strict weak order with ties), and every call is checked.
type elem struct{ key, id int }

type probe struct {
	c    *kit.C
	d    []*elem
	less func(a, b int) bool
	n    int64
}

func (p *probe) Len() int { return len(p.d) }
func (p *probe) idx(what string, i int) {
	if i < 0 || i >= len(p.d) {
		p.c.Fail("index", "%s called with index %d of a container of length %d", what, i, len(p.d))
	}
}
func (p *probe) Less(i, j int) bool {
	p.n++
	p.idx("Less", i)
	p.idx("Less", j)
	return p.less(p.d[i].key, p.d[j].key)
}
func (p *probe) Swap(i, j int) {
	p.n++
	p.idx("Swap", i)
	p.idx("Swap", j)
	p.d[i], p.d[j] = p.d[j], p.d[i]
}
func (p *probe) Push(x *elem) { p.d = append(p.d, x) }
func (p *probe) Pop() *elem {
	p.idx("Pop", len(p.d)-1)
	x := p.d[len(p.d)-1]
	p.d = p.d[:len(p.d)-1]
	return x
}

func (p *probe) check(what string, want map[*elem]bool) {
	if len(p.d) != len(want) {
		p.c.Fail("conservation", "after %s the container has %d elements, want %d", what, len(p.d), len(want))
	}
	seen := map[*elem]bool{}
	for i, e := range p.d {
		if !want[e] || seen[e] {
			p.c.Fail("conservation", "after %s element %+v is foreign or duplicated", what, *e)
		}
		seen[e] = true
		if i > 0 {
			if par := p.d[(i-1)/2]; p.less(e.key, par.key) {
				p.c.Fail("order", "after %s element %d (key %d) is ordered before its parent (key %d): %s", what, i, e.key, par.key, p)
			}
		}
	}
	p.c.Tick()
}

func (p *probe) String() string {
	var b strings.Builder
	for _, e := range p.d {
		fmt.Fprintf(&b, "%d ", e.key)
	}
	return b.String()
}

func (p *probe) least(what string, x *elem) {
	for _, e := range p.d {
		if p.less(e.key, x.key) {
			p.c.Fail("minimum", "%s returned key %d while key %d is present", what, x.key, e.key)
		}
	}
}

func heapCase(c *kit.C, r *rand.Rand, steps, maxLen int) {
	o := c.NewOps()
	p := &probe{c: c}
	mode := r.IntN(5)
	keys := []int{1, 2, 5, 50, 1 << 20}[r.IntN(5)]
	p.less = []func(a, b int) bool{
		func(a, b int) bool { return a < b },
		func(a, b int) bool { return a > b },
		func(a, b int) bool { return a/3 < b/3 },
		func(a, b int) bool { return a%2 < b%2 },
		func(a, b int) bool { return false },
	}[mode]
	want := map[*elem]bool{}
	ids := 0
	mk := func() *elem { ids++; return &elem{r.IntN(keys) - keys/3, ids} }
	o.Op("order", mode, keys)
	heapified := false
	for i := r.IntN(maxLen); i > 0; i-- {
		e := mk()
		p.d = append(p.d, e)
		want[e] = true
		o.Op("elem", e.key)
	}
	shape := r.IntN(4)
	if shape == 0 {
		sort.Slice(p.d, func(i, j int) bool { return p.d[i].key < p.d[j].key })
	} else if shape == 1 {
		sort.Slice(p.d, func(i, j int) bool { return p.d[i].key > p.d[j].key })
	}
	for s := 0; s < steps; s++ {
		k := r.IntN(12)
		if !heapified {
			k = 11
		}
		switch {
		case k < 4 && len(p.d) < maxLen:
			e := mk()
			o.Op("Push", e.key)
			want[e] = true
			heap.Push[*elem](p, e)
			p.check("Push", want)
		case k < 7:
			if len(p.d) == 0 {
				continue
			}
			o.Op("Pop")
			x := heap.Pop[*elem](p)
			if !want[x] {
				c.Fail("conservation", "Pop returned an element that is not present: %+v", *x)
			}
			delete(want, x)
			p.least("Pop", x)
			p.check("Pop", want)
		case k < 9:
			if len(p.d) == 0 {
				continue
			}
			i := r.IntN(len(p.d))
			switch r.IntN(4) {
			case 0:
				i = 0
			case 1:
				i = len(p.d) - 1
			}
			o.Op("Remove", i)
			e := p.d[i]
			if x := heap.Remove[*elem](p, i); x != e {
				c.Fail("remove", "Remove(%d) returned %+v, want %+v", i, *x, *e)
			}
			delete(want, e)
			p.check("Remove", want)
		case k < 11:
			if len(p.d) == 0 {
				continue
			}
			i := r.IntN(len(p.d))
			e := p.d[i]
			e.key = mk().key
			o.Op("Fix", i, e.key)
			heap.Fix[*elem](p, i)
			p.check("Fix", want)
		default:
			if heapified && r.IntN(3) > 0 {
				continue
			}
			o.Op("Init")
			if heapified {
				for _, e := range p.d { // arbitrary content again
					if r.IntN(2) == 0 {
						e.key = mk().key
					}
				}
			}
			heap.Init[*elem](p)
			heapified = true
			p.check("Init", want)
		}
	}
	c.Max("most_elements", int64(len(p.d)))
	if heapified && r.IntN(2) == 0 { // drain
		o.Op("drain")
		for last := (*elem)(nil); len(p.d) > 0; {
			x := heap.Pop[*elem](p)
			if !want[x] {
				c.Fail("conservation", "draining: Pop returned an element that is not present: %+v", *x)
			}
			delete(want, x)
			if last != nil && p.less(x.key, last.key) {
				c.Fail("minimum", "draining: Pop returned key %d after key %d", x.key, last.key)
			}
			last = x
		}
		p.check("draining", want)
	}
	c.Count("container_calls", p.n)
	o.Done("container", o.N > 3)
}

// ordered drives MinHeap or MaxHeap of T to empty and checks the order.
func ordered[T constraints.Ordered](c *kit.C, r *rand.Rand, name string, maxHeap bool, vals []T, cmp func(a, b T) int) {
	o := c.NewOps()
	o.Op(name, len(vals))
	var mn heap.MinHeap[T]
	var mx heap.MaxHeap[T]
	h := heap.Interface[T](&mn)
	if maxHeap {
		h = &mx
	}
	cnt := map[T]int{}
	n := 0
	pushed := 0
	if r.IntN(2) == 0 {
		k := r.IntN(len(vals) + 1)
		for ; pushed < k; pushed++ {
			h.Push(vals[pushed])
			cnt[vals[pushed]]++
			n++
		}
		heap.Init(h)
	}
	content := func() []T {
		if maxHeap {
			return mx
		}
		return mn
	}
	for pushed < len(vals) || h.Len() > 0 {
		if pushed < len(vals) && (h.Len() == 0 || r.IntN(3) > 0) {
			heap.Push(h, vals[pushed])
			cnt[vals[pushed]]++
			o.Op("Push", pushed)
			pushed++
			n++
		} else if r.IntN(6) == 0 {
			i := r.IntN(h.Len())
			e := content()[i]
			o.Op("Remove", i)
			if x := heap.Remove(h, i); x != e {
				c.Fail("remove", "%s: Remove(%d) = %v, want %v", name, i, x, e)
			}
			cnt[e]--
			n--
		} else {
			o.Op("Pop")
			x := heap.Pop(h)
			if cnt[x] == 0 {
				c.Fail("conservation", "%s: Pop returned %v, which is not present", name, x)
			}
			cnt[x]--
			n--
			for _, e := range content() {
				d := cmp(e, x)
				if !maxHeap && d < 0 || maxHeap && d > 0 {
					c.Fail("minimum", "%s (max: %v): Pop returned %v while %v is present", name, maxHeap, x, e)
				}
			}
		}
		if h.Len() != n {
			c.Fail("conservation", "%s: Len() = %d, want %d", name, h.Len(), n)
		}
		left := map[T]int{}
		for _, e := range content() {
			left[e]++
		}
		for k, v := range cnt {
			if left[k] != v {
				c.Fail("conservation", "%s: %v is present %d times, want %d", name, k, left[k], v)
			}
		}
		c.Tick()
	}
	o.Done(name, len(vals) > 3)
}

// orderedBig fills a large MinHeap or MaxHeap, drains part of it, refills and
// drains it, and compares everything popped with the sorted content.
func orderedBig[T constraints.Ordered](c *kit.C, r *rand.Rand, name string, maxHeap bool, n int, f func() T) {
	o := c.NewOps()
	o.Op(name, n)
	var mn heap.MinHeap[T]
	var mx heap.MaxHeap[T]
	h := heap.Interface[T](&mn)
	if maxHeap {
		h = &mx
	}
	var have []T
	for round := 0; round < 3; round++ {
		k := n / (1 + r.IntN(3))
		bulk := len(have) == 0 && r.IntN(2) == 0
		o.Op("fill", k)
		for i := 0; i < k; i++ {
			x := f()
			have = append(have, x)
			if bulk {
				h.Push(x)
			} else {
				heap.Push(h, x)
			}
		}
		if bulk {
			heap.Init(h)
		}
		sort.Slice(have, func(i, j int) bool { return have[i] < have[j] != maxHeap && have[i] != have[j] })
		k = len(have)
		if round < 2 {
			k = r.IntN(k + 1)
		}
		o.Op("drain", k)
		for i := 0; i < k; i++ {
			if h.Len() != len(have)-i {
				c.Fail("conservation", "%s: Len() = %d, want %d", name, h.Len(), len(have)-i)
			}
			if x := heap.Pop(h); x != have[i] {
				c.Fail("minimum", "%s (max: %v), %d elements: Pop returned %v, want %v", name, maxHeap, len(have)-i, x, have[i])
			}
		}
		have = append([]T(nil), have[k:]...)
		c.Tick()
	}
	if h.Len() != 0 {
		c.Fail("conservation", "%s: Len() = %d after everything was popped", name, h.Len())
	}
	c.Max("most_elements", int64(n))
	o.Done("large "+name, true)
}

func gen[T any](r *rand.Rand, n int, pool []T) (s []T) {
	for i := 0; i < n; i++ {
		s = append(s, pool[r.IntN(len(pool))])
	}
	return
}

func natcmp[T constraints.Ordered](a, b T) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

type myStr string

func c22(c *kit.C) {
	c.Cases("container", c.N(180000, 10), func(i int, r *rand.Rand) {
		heapCase(c, r, 4+r.IntN(60), []int{2, 4, 8, 20, 60}[r.IntN(5)])
	})
	c.Cases("large", c.N(960, 10), func(i int, r *rand.Rand) {
		heapCase(c, r, 50+r.IntN(300), 200+r.IntN(1500))
	})
	c.Cases("huge", c.N(48, 15), func(i int, r *rand.Rand) {
		heapCase(c, r, 40+r.IntN(60), 2000+r.IntN(16000))
	})
	c.Cases("ordered-large", c.N(160, 25), func(i int, r *rand.Rand) {
		n := 100 + r.IntN(3000)
		if i%8 == 0 {
			n = 3000 + r.IntN(30000)
		}
		mx := i%2 == 0
		switch r.IntN(3) {
		case 0:
			orderedBig(c, r, "int", mx, n, func() int { return int(r.Uint64()) })
		case 1:
			m := 1 + r.IntN(1000)
			orderedBig(c, r, "int32", mx, n, func() int32 { return int32(r.IntN(m) - m/2) })
		case 2:
			orderedBig(c, r, "string", mx, n, func() string { return fmt.Sprint(r.IntN(10 * n)) })
		}
	})
	c.Cases("ordered", c.N(72000, 10), func(i int, r *rand.Rand) {
		n := r.IntN(40)
		mx := r.IntN(2) == 0
		switch i % 6 {
		case 0:
			ordered(c, r, "int", mx, gen(r, n, []int{0, 1, -1, math.MinInt, math.MaxInt, 5, 6, 7, 8, 9, 100, -100}), natcmp[int])
		case 1:
			ordered(c, r, "uint8", mx, gen(r, n, []uint8{0, 1, 127, 128, 200, 255}), natcmp[uint8])
		case 2:
			ordered(c, r, "float64", mx, gen(r, n, []float64{0, 1, -1, math.Inf(1), math.Inf(-1), 5e-324, -5e-324, math.MaxFloat64, 0.1}), natcmp[float64])
		case 3:
			ordered(c, r, "string", mx, gen(r, n, []string{"", "a", "b", "aa", "10", "9", "é", "\x00", "a\x00"}), natcmp[string])
		case 4:
			ordered(c, r, "int64", mx, gen(r, n, []int64{math.MinInt64, math.MaxInt64, 0, 1 << 40, -1 << 40, 1<<32 + 1, 1}), natcmp[int64])
		case 5:
			ordered(c, r, "named string", mx, gen(r, n, []myStr{"x", "y", "z", "xx"}), natcmp[myStr])
		}
	})
}

// ---- priority queues ----

func pqCase[T comparable](c *kit.C, r *rand.Rand, name string, val func(int) T, steps, pool int, bias int) {
	o := c.NewOps()
	isMax := r.IntN(2) == 0
	q := pqueue.NewMinPriorityQueue[T]()
	if isMax {
		q = pqueue.NewMaxPriorityQueue[T]()
	}
	prios := make([]int, pool)
	for i := range prios {
		switch r.IntN(6) {
		case 0:
			prios[i] = []int{math.MinInt, math.MaxInt, 0, -1, 1}[r.IntN(5)]
		case 1:
			prios[i] = int(r.Uint64())
		default:
			prios[i] = r.IntN(20) - 10
		}
	}
	type pv struct {
		p int
		v T
	}
	in := map[pv]int{}
	byPrio := map[int]int{}
	n, id := 0, 0
	o.Op(name, pool)
	best := func() (b int) {
		first := true
		for p, k := range byPrio {
			if k > 0 && (first || (isMax && p > b) || (!isMax && p < b)) {
				b, first = p, false
			}
		}
		return
	}
	pop := func() {
		o.Op("Pop")
		want := best()
		p, v := q.Pop()
		if p != want {
			c.Fail("priority", "%s queue (max: %v) popped priority %d while %d is present", name, isMax, p, want)
		}
		if in[pv{p, v}] == 0 {
			c.Fail("conservation", "%s queue popped (%d, %v), which is not present", name, p, v)
		}
		in[pv{p, v}]--
		if byPrio[p]--; byPrio[p] == 0 {
			delete(byPrio, p)
		}
		n--
	}
	for s := 0; s < steps; s++ {
		if n == 0 || r.IntN(10) < bias {
			p := prios[r.IntN(pool)]
			id++
			v := val(id)
			o.Op("Push", p, id)
			q.Push(p, v)
			in[pv{p, v}]++
			byPrio[p]++
			n++
		} else {
			pop()
		}
		if q.Len() != n {
			c.Fail("conservation", "%s queue: Len() = %d, want %d", name, q.Len(), n)
		}
		if r.IntN(60) == 0 && bias < 10 {
			bias = 1 + r.IntN(9)
		}
		if s > steps/2 && bias >= 10 { // filled; drain, mostly
			bias = r.IntN(4)
		}
		c.Tick()
	}
	c.Max("most_elements", int64(n))
	for n > 0 {
		pop()
		if q.Len() != n {
			c.Fail("conservation", "%s queue: Len() = %d, want %d", name, q.Len(), n)
		}
	}
	o.Done(name+" queue", o.N > 3)
}

type rec struct {
	a string
	b [3]int
}

func c23(c *kit.C) {
	one := func(i int, r *rand.Rand, size int) {
		steps, pool, bias := 4+r.IntN(80), 1+r.IntN(12), 2+r.IntN(7)
		switch size {
		case 1:
			steps, pool, bias = 500+r.IntN(4000), 1+r.IntN(400), 5+r.IntN(4)
		case 2: // fill, then drain
			steps, pool, bias = 2000+r.IntN(40000), 1+r.IntN(100), 10
		}
		switch i % 5 {
		case 0:
			pqCase(c, r, "int", func(i int) int { return i }, steps, pool, bias)
		case 1:
			pqCase(c, r, "string", func(i int) string { return fmt.Sprint(i) }, steps, pool, bias)
		case 2:
			pqCase(c, r, "struct", func(i int) rec { return rec{fmt.Sprint(i), [3]int{i, -i, 0}} }, steps, pool, bias)
		case 3:
			pqCase(c, r, "pointer", func(i int) *int { return &i }, steps, pool, bias)
		case 4:
			pqCase(c, r, "any", func(i int) any { return []any{nil, i, fmt.Sprint(i)}[i%3] }, steps, pool, bias)
		}
	}
	c.Cases("ops", c.N(640000, 6), func(i int, r *rand.Rand) { one(i, r, 0) })
	c.Cases("large", c.N(160, 30), func(i int, r *rand.Rand) { one(i, r, 1) })
	c.Cases("huge", c.N(80, 20), func(i int, r *rand.Rand) { one(i, r, 2) })
}
