// Monitor for the cost of operations (C36): every operation is performed on a small
// container and on ones up to 64 times as large, in the instrumented build, and what it
// costs per operation (or per element, for those that visit everything) is compared:
// library statements executed, calls of user functions, bytes allocated, and
// - very coarsely - processor time.
package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

func main() { kit.Main(map[string]func(*kit.C){"C36": c36}) }

// env is what a task gets: a size, a source of randomness whose choices are alike
// for both sizes, and the counter of user function calls.
type env struct {
	n     int
	r     *rand.Rand
	shape int
	mix   uint64
	calls int64
}

// vals gives n values in the arrangement of the case.
func (e *env) vals() []int {
	v := make([]int, e.n)
	for i := range v {
		switch e.shape {
		case 0:
			v[i] = e.r.IntN(4 * e.n)
		case 1:
			v[i] = i
		case 2:
			v[i] = e.n - i
		case 3:
			v[i] = 7
		case 4:
			v[i] = i % 5
		case 5:
			v[i] = min(i, e.n-i)
		case 6:
			v[i] = i
			if e.r.IntN(100) == 0 {
				v[i] = e.r.IntN(e.n)
			}
		}
	}
	return v
}

const shapes = 7

// op picks one of k operations with the weights of the case (some never occur).
func (e *env) op(k int) int {
	for {
		o := e.r.IntN(k)
		if w := e.mix >> (4 * (o % 16)) & 15; uint64(e.r.IntN(16)) <= w && (w > 3 || e.mix&1 == 0) {
			return o
		}
		if e.r.IntN(40) == 0 {
			return o
		}
	}
}

func (e *env) less(a, b int) bool { e.calls++; return a < b }
func (e *env) same(a, b int) bool { e.calls++; return a == b }

// task prepares a container of about e.n elements and returns what is to be
// measured, and in how many units its cost is to be expressed.
type task struct {
	name string
	prep func(e *env) (do func(), units int)
}

type cost struct{ steps, calls, bytes, nanos float64 }

func cpu() int64 {
	var ts syscall.Timespec
	syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3 /* this thread */, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

func measure(t task, n int, seed uint64, shape int, mix uint64) cost {
	e := &env{n: n, r: rand.New(rand.NewPCG(seed, 1)), shape: shape, mix: mix}
	do, units := t.prep(e)
	e.calls = 0
	runtime.GC()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	vsched.CountSteps()
	t0 := cpu()
	do()
	t1 := cpu()
	steps := vsched.StepsCounted()
	runtime.ReadMemStats(&b)
	u := float64(units)
	return cost{float64(steps) / u, float64(e.calls) / u, float64(b.TotalAlloc-a.TotalAlloc) / u, float64(t1-t0) / u}
}

// The container grows fourfold three times; what exceeds all bounds shows early.
var factors = []int{4, 16, 64}

func c36(c *kit.C) {
	c.Cases("scale", c.N(14*len(tasks), 8), func(i int, r *rand.Rand) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		t := tasks[i%len(tasks)]
		shape := i / len(tasks) % shapes
		seed, mix := r.Uint64(), r.Uint64()
		n := 700 + r.IntN(600)
		small := measure(t, n, seed, shape, mix)
		if shape != 0 {
			// Small containers can profit from their arrangement (a sort of nearly
			// sorted values); allow for what a random one costs.
			x := measure(t, n, seed, 0, mix)
			small = cost{max(small.steps, x.steps), max(small.calls, x.calls), max(small.bytes, x.bytes), max(small.nanos, x.nanos)}
		}
		var large cost
		for _, f := range factors {
			large = measure(t, n*f, seed, shape, mix)
			c.Tick()
			what := fmt.Sprintf("%s, arrangement %d: %%s per unit with %d elements %%.1f, with %d elements %%.1f", t.name, shape, n, n*f)
			if large.steps > 3*small.steps+10 {
				c.Fail("steps", what, "statements", small.steps, large.steps)
			}
			if large.calls > 3*small.calls+10 {
				c.Fail("calls", what, "calls of user functions", small.calls, large.calls)
			}
			if large.bytes > 5*small.bytes+300 {
				c.Fail("bytes", what, "bytes allocated", small.bytes, large.bytes)
			}
			if f < factors[len(factors)-1] {
				continue
			}
			for again := 0; large.nanos > 15*max(small.nanos, 200); again++ {
				if again == 6 {
					c.Fail("time", what, "nanoseconds of processor time (seven measurements)", small.nanos, large.nanos)
				}
				large = measure(t, n*f, seed, shape, mix)
				c.Tick()
			}
		}
		c.Count("measured", int64(1+len(factors)))
		// The largest ratios seen, summed over the processes of the leg.
		c.Max("max.step-ratio-percent", int64(100*large.steps/max(small.steps, 1)))
		c.Max("max.byte-ratio-percent", int64(100*large.bytes/max(small.bytes, 100)))
		c.Max("max.time-ratio-percent", int64(100*large.nanos/max(small.nanos, 200)))
		c.Seen(kit.Hash(t.name, shape, n, seed))
		if c.WantSample() {
			c.Sample(fmt.Sprintf("%s, arrangement %d: per unit %.1f statements, %.1f calls, %.0f bytes, %.0f ns with %d elements; %.1f, %.1f, %.0f, %.0f with %d", t.name, shape,
				small.steps, small.calls, small.bytes, small.nanos, n, large.steps, large.calls, large.bytes, large.nanos, n*factors[len(factors)-1]))
		}
	})
}
