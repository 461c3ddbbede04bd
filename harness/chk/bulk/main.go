// Monitors for containers with very many elements: every part of the library once
// more, with thousands to a hundred thousand elements, against a reference model.
package main

import (
	"math/rand/v2"

	"verif.local/h/kit"
)

func main() {
	one := func(n int, f func(c *kit.C, i int, r *rand.Rand)) func(c *kit.C) {
		return func(c *kit.C) {
			c.Cases("bulk", c.N(n, 6), func(i int, r *rand.Rand) { f(c, i, r) })
		}
	}
	kit.Main(map[string]func(*kit.C){
		"C01": one(192, mapOps), "C02": one(160, mapClear), "C03": one(96, mapLen), "C04": one(128, mapRange),
		"C07": one(96, cacheOps), "C08": one(96, cacheCallbacks),
		"C14": one(160, listEdits), "C15": one(160, listBulk), "C16": one(160, lhash),
		"C17": one(400, vecEdits), "C18": one(240, vecOrder), "C19": one(800, vecCopies),
		"C20": one(320, sets), "C21": one(160, genmaps),
		"C22": one(480, heaps), "C23": one(480, queues),
		"C24": one(240, rings24), "C25": one(160, rings25),
		"C26": one(480, circles), "C27": one(480, trees), "C28": one(320, relations),
	})
}

// size picks a number of elements, often next to a power of two.
func size(r *rand.Rand, most int) int {
	for {
		n := 0
		switch r.IntN(3) {
		case 0:
			n = 1<<(11+r.IntN(7)) + r.IntN(5) - 2
		case 1:
			n = []int{5000, 10000, 20000, 50000, 100000}[r.IntN(5)] + r.IntN(5) - 2
		case 2:
			n = 2000 + r.IntN(130000)
		}
		if n <= most {
			return n
		}
	}
}

// shape gives n values in one of several arrangements, with about that many distinct ones.
func shape(r *rand.Rand, n, distinct int) []int {
	v := make([]int, n)
	kind := r.IntN(6)
	for i := range v {
		switch kind {
		case 0:
			v[i] = r.IntN(distinct)
		case 1:
			v[i] = i * distinct / n
		case 2:
			v[i] = (n - 1 - i) * distinct / n
		case 3:
			v[i] = min(i, n-1-i) * 2 * distinct / n
		case 4:
			v[i] = i % distinct
		case 5:
			v[i] = i * distinct / n
			if r.IntN(200) == 0 {
				v[i] = r.IntN(distinct)
			}
		}
	}
	return v
}

func spread(r *rand.Rand, n int) int {
	return []int{1, 2, 7, 100, n/3 + 1, n, 4 * n, 4 * n}[r.IntN(8)]
}
