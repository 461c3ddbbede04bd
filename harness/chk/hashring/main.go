// Monitors for hashring: C24 (lookups) and C25 (movement on membership change).
//
// Names are drawn from pools that contain pairs whose ring points, or whose key
// hash and some ring point, coincide or neighbour each other (CRC-32 of
// "name-replica": forged for strings, found by the birthday method at start for
// numbers), next to ordinary names. Only the choice of inputs depends on that
// hash; the oracle does not.
package main

import (
	"fmt"
	"hash/crc32"
	"math/rand/v2"
	"sort"

	"github.com/zijiren233/gencontainer/hashring"
	"golang.org/x/exp/constraints"
	"verif.local/h/kit"
)

func main() { kit.Main(map[string]func(*kit.C){"C24": c24, "C25": c25, "C35": c35}) }

// clash is two names a, b with the same hash at replicas i and j.
type clash[T any] struct {
	a, b T
	i, j int
}

const clashReps = 4

// birthday looks for clashes among n names.
func birthday[T comparable](n int, name func(int) T) (out []clash[T]) {
	type at struct{ n, i int32 }
	seen := make(map[uint32]at, n*clashReps)
	for x := 0; x < n; x++ {
		s := fmt.Sprint(name(x))
		for i := 0; i < clashReps; i++ {
			h := crc32.ChecksumIEEE(append([]byte(s), '-', byte('0'+i)))
			if p, ok := seen[h]; ok {
				if int(p.n) != x {
					out = append(out, clash[T]{name(int(p.n)), name(x), int(p.i), i})
				}
			} else {
				seen[h] = at{int32(x), int32(i)}
			}
		}
	}
	return
}

var crcBack [256]byte

func init() {
	for i := range crcBack {
		crcBack[crc32.IEEETable[i]>>24] = byte(i)
	}
}

// forge makes a string s, starting with prefix, whose point number i is at hash target.
func forge(prefix string, i int, target uint32) string {
	suffix := fmt.Sprintf("-%d", i)
	x := ^target
	for k := len(suffix) - 1; k >= 0; k-- {
		idx := crcBack[x>>24]
		x = (x^crc32.IEEETable[idx])<<8 | uint32(idx^suffix[k])
	}
	for k := 0; k < 4; k++ {
		idx := crcBack[x>>24]
		x = (x^crc32.IEEETable[idx])<<8 | uint32(idx)
	}
	x ^= ^crc32.ChecksumIEEE([]byte(prefix))
	s := prefix + string([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
	if crc32.ChecksumIEEE([]byte(s+suffix)) != target {
		panic("forge is wrong")
	}
	return s
}

type names[T constraints.Ordered] struct {
	name  string
	mk    func(int) T
	pairs []clash[T]
	forge func(prefix, i int, target uint32) T // nil: only the pairs
}

// group draws names related by the place of their points: at the same hash, at
// neighbouring ones, or at the ends of the hash range.
func (n *names[T]) group(r *rand.Rand, reps int) (out []T, what string) {
	if n.forge == nil {
		if len(n.pairs) == 0 {
			return
		}
		p := n.pairs[r.IntN(len(n.pairs))]
		return []T{p.a, p.b}, "pair"
	}
	idx := func() int {
		if reps > 1 && r.IntN(2) == 0 {
			return r.IntN(reps)
		}
		return 0
	}
	var target uint32
	switch r.IntN(4) {
	case 0:
		what = "end"
		target = []uint32{0, 1, 1<<32 - 2, 1<<32 - 1}[r.IntN(4)]
	case 1:
		what = "near"
		target = r.Uint32()
		for k := r.IntN(3); k >= 0; k-- {
			out = append(out, n.forge(r.IntN(50), idx(), target+uint32(r.IntN(3))-1))
		}
	default:
		what = "pair"
		x := r.IntN(40)
		target = crc32.ChecksumIEEE([]byte(fmt.Sprintf("%v-%d", n.mk(x), idx())))
		out = append(out, n.mk(x))
	}
	for k := r.IntN(3); k >= 0; k-- {
		out = append(out, n.forge(r.IntN(50), idx(), target))
	}
	return
}

type world[T constraints.Ordered] struct {
	c       *kit.C
	r       *rand.Rand
	o       *kit.Ops
	n       *names[T]
	reps    int
	pool    []T // names in play (members and keys)
	hits    int // colliding names in play
	big     int // large: so many more names
	present map[T]bool
	ring    *hashring.HashRing[T]
}

func newWorld[T constraints.Ordered](c *kit.C, r *rand.Rand, n *names[T]) *world[T] {
	w := &world[T]{c: c, r: r, o: c.NewOps(), n: n, present: map[T]bool{}}
	w.reps = []int{1, 1, 2, 3, 4, 10, 50, 0}[r.IntN(8)]
	if w.reps == 0 && r.IntN(2) == 0 {
		w.reps = 4
	}
	w.o.Op("replicas", w.reps)
	have := map[T]bool{}
	put := func(x T) {
		if !have[x] {
			have[x] = true
			w.pool = append(w.pool, x)
			w.o.Op("name", int(kit.Hash(x)>>40))
		}
	}
	for k := 0; k < 1+r.IntN(8); k++ {
		if r.IntN(2) == 0 {
			g, what := n.group(r, w.reps)
			if what != "" {
				c.Count("related_names."+what, 1)
			}
			for _, x := range g {
				put(x)
			}
			w.hits += len(g) / 2
		} else {
			put(n.mk(r.IntN(40)))
		}
	}
	if len(w.pool) == 0 {
		put(n.mk(0))
	}
	r.Shuffle(len(w.pool), func(i, j int) { w.pool[i], w.pool[j] = w.pool[j], w.pool[i] })
	w.ring = hashring.New[T](w.reps)
	return w
}

// large: many plain members, many replicas.
func (w *world[T]) large() {
	w.big = 20 + w.r.IntN(300)
	w.reps = []int{1, 3, 20, 100, 300}[w.r.IntN(5)]
	w.o.Op("large", w.big, w.reps)
	have := map[T]bool{}
	for _, x := range w.pool {
		have[x] = true
	}
	for i := 0; i < w.big; i++ {
		x := w.n.mk(w.r.IntN(3 * w.big))
		if !have[x] {
			have[x] = true
			w.pool = append(w.pool, x)
		}
	}
	w.ring = hashring.New[T](w.reps)
	w.c.Max("most_names", int64(len(w.pool)))
}

func (w *world[T]) members() (s []T) {
	for x := range w.present {
		s = append(s, x)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return
}

// keys to look up: every name in play, and others.
func (w *world[T]) keys() []T {
	k := append([]T(nil), w.pool...)
	for i := 0; i < 25+w.big; i++ {
		k = append(k, w.n.mk(1000+i))
	}
	var zero T
	return append(k, zero)
}

func (w *world[T]) some() (s []T) {
	n := w.r.IntN(4)
	if w.big > 0 && w.r.IntN(2) == 0 {
		n = w.r.IntN(w.big)
	}
	for i := n; i >= 0; i-- {
		s = append(s, w.pool[w.r.IntN(len(w.pool))])
	}
	if w.r.IntN(10) == 0 {
		s = nil
	}
	if w.r.IntN(8) == 0 && len(s) > 0 {
		s = append(s, s[0])
	}
	return
}

func (w *world[T]) lookup(r *hashring.HashRing[T], keys []T, what string) []T {
	out := make([]T, len(keys))
	for i, k := range keys {
		x := r.GetNode(k)
		out[i] = x
		if w.reps <= 0 || len(w.present) == 0 {
			var zero T
			if x != zero {
				w.c.Fail("lookup", "after %s: GetNode(%v) = %v on a ring without points", what, k, x)
			}
			continue
		}
		if !w.present[x] {
			w.c.Fail("lookup", "after %s: GetNode(%v) = %v, which is not among the members %v (replicas %d)", what, k, x, w.members(), w.reps)
		}
		if w.present[k] && x != k {
			w.c.Fail("lookup", "after %s: GetNode(%v) = %v, but the key is a member itself (%v, replicas %d)", what, k, x, w.members(), w.reps)
		}
	}
	w.c.Count("lookups", int64(len(keys)))
	return out
}

func (w *world[T]) add(r *hashring.HashRing[T], s []T) {
	w.o.Op("AddNodes", len(s), int(kit.Hash(s)>>40))
	if got := r.AddNodes(s...); got != r {
		w.c.Fail("result", "AddNodes does not return the ring")
	}
	for _, x := range s {
		w.present[x] = true
	}
}

func (w *world[T]) remove(r *hashring.HashRing[T], s []T) {
	w.o.Op("RemoveNodes", len(s), int(kit.Hash(s)>>40))
	r.RemoveNodes(s...)
	for _, x := range s {
		delete(w.present, x)
	}
}

func (w *world[T]) reset(r *hashring.HashRing[T], s []T) {
	w.o.Op("ResetNodes", len(s), int(kit.Hash(s)>>40))
	r.ResetNodes(s...)
	clear(w.present)
	for _, x := range s {
		w.present[x] = true
	}
}

func (w *world[T]) change(r *hashring.HashRing[T]) string {
	switch w.r.IntN(8) {
	case 0, 1, 2, 3:
		w.add(r, w.some())
		return "AddNodes"
	case 4, 5, 6:
		w.remove(r, w.some())
		return "RemoveNodes"
	}
	w.reset(r, w.some())
	return "ResetNodes"
}

// run24: the answers are members, and depend on the membership alone.
func (w *world[T]) run24(steps int) {
	keys := w.keys()
	w.lookup(w.ring, keys, "New")
	for s := 0; s < steps; s++ {
		what := w.change(w.ring)
		a := w.lookup(w.ring, keys, what)
		if w.r.IntN(3) == 0 {
			b := w.lookup(w.ring, keys, what)
			w.agree(keys, a, b, "two lookups on the same ring")
		}
		if w.r.IntN(2) == 0 {
			// another ring, led to the same members by another history
			goal := w.members()
			other := hashring.New[T](w.reps)
			switch w.r.IntN(4) {
			case 0:
				w.shuffle(goal)
				other.AddNodes(goal...)
			case 1:
				w.shuffle(goal)
				for _, x := range goal {
					other.AddNodes(x)
				}
			case 2:
				other.AddNodes(w.pool...)
				var drop []T
				for _, x := range w.pool {
					if !w.present[x] {
						drop = append(drop, x)
					}
				}
				w.shuffle(drop)
				other.RemoveNodes(drop...)
			case 3:
				other.AddNodes(w.some()...)
				w.shuffle(goal)
				other.ResetNodes(append(goal, goal...)...)
			}
			w.o.Op("other history")
			w.agree(keys, a, w.lookup(other, keys, "another history"), "two rings with different histories")
			if w.r.IntN(2) == 0 {
				w.ring = other
			}
		}
		w.c.Tick()
	}
	w.done()
}

func (w *world[T]) done() {
	w.c.Count("colliding_pairs_in_play", int64(w.hits))
	w.o.Done(w.n.name+" ring", w.o.N > 3 && w.reps > 0)
}

func (w *world[T]) shuffle(s []T) { w.r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] }) }

func (w *world[T]) agree(keys, a, b []T, what string) {
	for i := range keys {
		if a[i] != b[i] {
			w.c.Fail("agreement", "%s with the members %v (replicas %d) disagree on key %v: %v and %v", what, w.members(), w.reps, keys[i], a[i], b[i])
		}
	}
}

// run25: which keys move.
func (w *world[T]) run25(steps int) {
	keys := w.keys()
	owners := func() []T {
		out := make([]T, len(keys))
		for i, k := range keys {
			out[i] = w.ring.GetNode(k)
		}
		w.c.Count("lookups", int64(len(keys)))
		return out
	}
	w.add(w.ring, w.some())
	before := owners()
	for s := 0; s < steps; s++ {
		set := w.some()
		in := map[T]bool{}
		was := map[T]bool{}
		for _, x := range set {
			in[x] = true
			was[x] = w.present[x]
		}
		empty := len(w.present) == 0
		adding := w.r.IntN(2) == 0
		moved := 0
		if adding {
			w.add(w.ring, set)
		} else {
			w.remove(w.ring, set)
		}
		after := owners()
		for i, k := range keys {
			if before[i] == after[i] {
				continue
			}
			moved++
			switch {
			case adding && (!in[after[i]] || was[after[i]]) && !empty:
				w.c.Fail("movement", "adding %v moved key %v from %v to %v (members now %v, replicas %d)", set, k, before[i], after[i], w.members(), w.reps)
			case adding && !in[after[i]]:
				w.c.Fail("movement", "adding %v to an empty ring gave key %v to %v", set, k, after[i])
			case !adding && (!in[before[i]] || !was[before[i]]):
				w.c.Fail("movement", "removing %v moved key %v from %v to %v (members now %v, replicas %d)", set, k, before[i], after[i], w.members(), w.reps)
			}
		}
		w.c.Count("moved_keys", int64(moved))
		if !adding && w.r.IntN(2) == 0 {
			var back []T
			for x := range in {
				if was[x] {
					back = append(back, x)
				}
			}
			if w.r.IntN(2) == 0 {
				w.add(w.ring, back)
			} else {
				for _, x := range back {
					w.add(w.ring, []T{x})
				}
			}
			after = owners()
			for i, k := range keys {
				if before[i] != after[i] {
					w.c.Fail("movement", "removing %v and adding %v again moved key %v from %v to %v (members %v, replicas %d)", set, back, k, before[i], after[i], w.members(), w.reps)
				}
			}
		}
		before = after
		w.c.Tick()
	}
	w.done()
}

type runner interface {
	run24(int)
	run25(int)
	large()
}

type tag string

func all(c *kit.C) func(r *rand.Rand, i int) runner {
	n := 80000
	if c.Thorough() {
		n = 300000
	}
	str := &names[string]{name: "string", mk: func(i int) string { return fmt.Sprint("node", i) }}
	str.forge = func(p, i int, t uint32) string { return forge(fmt.Sprint("node", p), i, t) }
	tg := &names[tag]{name: "named string", mk: func(i int) tag { return tag(fmt.Sprintf("%x", i)) }}
	tg.forge = func(p, i int, t uint32) tag { return tag(forge(fmt.Sprintf("%x", p), i, t)) }
	in := &names[int]{name: "int", mk: func(i int) int { return i - 20 }}
	in.pairs = birthday(n, func(i int) int { return int(mix(uint64(i))) })
	fl := &names[float64]{name: "float64", mk: func(i int) float64 { return float64(i) / 8 }}
	fl.pairs = birthday(n, func(i int) float64 { return float64(mix(uint64(i))>>12) / 1e7 })
	u8 := &names[uint8]{name: "uint8", mk: func(i int) uint8 { return uint8(i) }}
	c.Count("clashes_found", int64(len(in.pairs)+len(fl.pairs)))
	return func(r *rand.Rand, i int) runner {
		switch i % 5 {
		case 0:
			return newWorld(c, r, str)
		case 1:
			return newWorld(c, r, in)
		case 2:
			return newWorld(c, r, fl)
		case 3:
			return newWorld(c, r, tg)
		}
		return newWorld(c, r, u8)
	}
}

func mix(x uint64) uint64 {
	x = (x + 1) * 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func c24(c *kit.C) {
	mk := all(c)
	c.Cases("ops", c.N(48000, 10), func(i int, r *rand.Rand) { mk(r, i).run24(2 + r.IntN(10)) })
	c.Cases("large", c.N(160, 25), func(i int, r *rand.Rand) { w := mk(r, i); w.large(); w.run24(2 + r.IntN(6)) })
}

func c25(c *kit.C) {
	mk := all(c)
	c.Cases("ops", c.N(48000, 10), func(i int, r *rand.Rand) { mk(r, i).run25(2 + r.IntN(10)) })
	c.Cases("large", c.N(160, 25), func(i int, r *rand.Rand) { w := mk(r, i); w.large(); w.run25(2 + r.IntN(6)) })
}
