// Monitors for what every container promises its user beyond its own contract:
// concurrent reads and separate containers (C32), user functions that read or
// panic (C33), arguments and results that are not shared (C34).
package main

import (
	"math/rand/v2"
	"runtime"
	"sync"

	"verif.local/h/kit"
)

func main() {
	kit.Main(map[string]func(*kit.C){"C32": c32, "C33": c33, "C34": c34})
}

// A subject is a container under random use. Everything is reported as a digest
// that does not depend on map iteration order.
type subject interface {
	mutate(r *rand.Rand) uint64
	read(r *rand.Rand) uint64
}

var kinds = []struct {
	name   string
	mk     func(r *rand.Rand) subject
	shared bool // has read-only operations that may run concurrently
}{
	{"dllist", newList, true},
	{"vec", newVec, true},
	{"set", newSet, true},
	{"genmap", newGen, true},
	{"lhashmap", newLhash, true},
	{"heap", newHeap, true},
	{"pqueue", newPQ, true},
	{"hashring", newHashRing, true},
	{"hashring-int", newHashRingInt, true},
	{"ring", newRing, true},
	{"tree", newTree, true},
	{"rwmap", newRW, false},
	{"synccache", newSC, false},
	{"refresh", newRefresh, false},
}

func rng(a, b uint64) *rand.Rand { return rand.New(rand.NewPCG(a, b)) }

type outcome struct {
	sum  []uint64
	fail any
}

// crowd runs n goroutines that share nothing of the harness's own; what they
// computed is handed over when all have ended.
func crowd(n int, body func(g int, o *outcome)) []outcome {
	out := make([]*outcome, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range n {
		o := &outcome{}
		out[g] = o
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					o.fail = p
				}
			}()
			<-start
			body(g, o)
		}()
	}
	close(start)
	wg.Wait()
	res := make([]outcome, n)
	for g := range n {
		res[g] = *out[g]
	}
	return res
}

func c32(c *kit.C) {
	for k, kind := range kinds {
		if !kind.shared {
			continue
		}
		c.Cases("readers-"+kind.name, c.N(200, 30), func(i int, r *rand.Rand) {
			s := kind.mk(r)
			rounds := 1 + r.IntN(4)
			n := 2 + r.IntN(4)
			reads := 1 + r.IntN(25)
			key := uint64(k)
			for j := range rounds {
				for range r.IntN(12) {
					key = key*31 + s.mutate(r)
				}
				seed := r.Uint64()
				same := r.IntN(3) == 0 // everybody asks the same questions
				at := func(g, q int) *rand.Rand {
					if same {
						g = 0
					}
					return rng(seed, uint64(g*1000+q))
				}
				res := crowd(n, func(g int, o *outcome) {
					for q := range reads {
						o.sum = append(o.sum, s.read(at(g, q)))
						if q%8 == 7 {
							runtime.Gosched()
						}
					}
				})
				// Alone, the same reads must give the same answers.
				for g := range n {
					if res[g].fail != nil {
						c.Fail("panic", "%s: a read that ran next to other reads panicked: %v", kind.name, res[g].fail)
					}
					for q, x := range res[g].sum {
						if y := s.read(at(g, q)); x != y {
							c.Fail("reads", "%s: round %d, read %d of goroutine %d gave another answer next to other reads than alone", kind.name, j, q, g)
						}
						key = key*31 + x
					}
				}
				c.Count("reads."+kind.name, int64(n*reads))
			}
			c.Seen(key)
		})
	}
	for k, kind := range kinds {
		c.Cases("apart-"+kind.name, c.N(160, 30), func(i int, r *rand.Rand) {
			n := 2 + r.IntN(4)
			steps := 5 + r.IntN(60)
			seed := r.Uint64()
			life := func(g int, o *outcome) {
				r := rng(seed, uint64(g))
				s := kind.mk(r)
				for j := range steps {
					o.sum = append(o.sum, s.mutate(r), s.read(r))
					if j%16 == 15 {
						runtime.Gosched()
					}
				}
			}
			res := crowd(n, life)
			key := uint64(1000 + k)
			for g := range n {
				if res[g].fail != nil {
					c.Fail("panic", "%s: a container used by one goroutine panicked while others used their own: %v", kind.name, res[g].fail)
				}
				var alone outcome
				life(g, &alone)
				for q := range alone.sum {
					if alone.sum[q] != res[g].sum[q] {
						c.Fail("apart", "%s: step %d of goroutine %d on its own container went differently while other goroutines used theirs", kind.name, q/2, g)
					}
					key = key*31 + alone.sum[q]
				}
			}
			c.Count("steps."+kind.name, int64(n*steps))
			c.Seen(key)
		})
	}
}
