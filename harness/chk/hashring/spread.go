package main

import (
	"math/rand/v2"
	"strconv"

	"github.com/zijiren233/gencontainer/hashring"
	"golang.org/x/exp/constraints"
	"verif.local/h/kit"
)

// C35: with many replicas the keys spread over all members. The bounds are far
// from what is observed (0.27 and 2.9 times the fair share over 90000 rings).
const (
	leastShare = 0.1
	mostShare  = 4.0
)

func c35(c *kit.C) {
	text := []func(i int, r *rand.Rand) string{
		func(i int, r *rand.Rand) string { return "node" + strconv.Itoa(i) },
		func(i int, r *rand.Rand) string { return "10.0.0." + strconv.Itoa(i) + ":8080" },
		func(i int, r *rand.Rand) string { return strconv.FormatUint(r.Uint64(), 16) },
		func(i int, r *rand.Rand) string { return strconv.Itoa(i) },
		func(i int, r *rand.Rand) string { return "user:" + strconv.Itoa(i) },
	}
	c.Cases("text", c.N(600, 12), func(i int, r *rand.Rand) {
		spread(c, r, i, text[r.IntN(len(text))], text[r.IntN(len(text))])
	})
	c.Cases("int", c.N(300, 12), func(i int, r *rand.Rand) {
		spread(c, r, i, func(i int, r *rand.Rand) int { return i * 7 }, func(i int, r *rand.Rand) int { return int(r.Uint32()) })
	})
	c.Cases("float", c.N(200, 12), func(i int, r *rand.Rand) {
		spread(c, r, i, func(i int, r *rand.Rand) float64 { return float64(i) / 4 }, func(i int, r *rand.Rand) float64 { return r.Float64() })
	})
}

func spread[T constraints.Ordered](c *kit.C, r *rand.Rand, i int, node, key func(i int, r *rand.Rand) T) {
	reps := 100 + r.IntN(200)
	h := hashring.New[T](reps)
	pool := make([]T, 0, 24)
	off := r.IntN(100)
	for j := range 24 {
		pool = append(pool, node(off+j, r))
	}
	members := map[T]bool{}
	var used []T
	for step := range 1 + r.IntN(4) {
		// Any history of changes that ends with 2-16 members.
		n := 2 + r.IntN(15)
		perm := r.Perm(len(pool))[:n]
		want := map[T]bool{}
		for _, j := range perm {
			want[pool[j]] = true
		}
		var add, drop []T
		for _, x := range pool {
			if want[x] && !members[x] {
				add = append(add, x)
			}
			if !want[x] && members[x] {
				drop = append(drop, x)
			}
		}
		switch r.IntN(3) {
		case 0:
			h.RemoveNodes(drop...)
			h.AddNodes(add...)
		case 1:
			for _, x := range add {
				h.AddNodes(x)
			}
			h.RemoveNodes(drop...)
		case 2:
			used = used[:0]
			for x := range want {
				used = append(used, x)
			}
			h.ResetNodes(used...)
		}
		members = want
		const keys = 3000
		got := map[T]int{}
		from := 100000 + r.IntN(100000)
		for k := range keys {
			got[h.GetNode(key(from+k, r))]++
		}
		fair := float64(keys) / float64(len(members))
		for x := range members {
			share := float64(got[x]) / fair
			if share < leastShare || share > mostShare {
				c.Fail("spread", "step %d: of %d keys member %v owns %d, that is %.2f times its fair share (%d members, %d replicas)", step, keys, x, got[x], share, len(members), reps)
			}
			c.Max("most_share_percent", int64(100*share))
			c.Max("most_inverse_share_percent", int64(100/share))
		}
		c.Count("keys", keys)
		c.Count("rings", 1)
	}
	c.Seen(mix(uint64(i)<<20 ^ uint64(reps)<<8 ^ uint64(off)))
}
