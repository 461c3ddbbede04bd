// Package kit is the common frame of all monitors: seeded cases, progress
// watchdog, violation reports and coverage counters.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one observed refutation of the property.
type Violation struct {
	Sub    string   `json:"sub"`
	Case   int      `json:"case"`
	Kind   string   `json:"kind"`
	Detail string   `json:"detail"`
	Trace  []string `json:"trace,omitempty"`
}

// Report is written to -out as JSON.
type Report struct {
	Prop         string            `json:"prop"`
	Leg          string            `json:"leg"`
	Shard        int               `json:"shard"`
	Cases        int64             `json:"cases"`
	Nontrivial   int64             `json:"nontrivial"`
	Distinct     int64             `json:"distinct"`
	Counters     map[string]int64  `json:"counters"`
	Samples      []string          `json:"samples"`
	Inconclusive int64             `json:"inconclusive"`
	Violations   []Violation       `json:"violations"`
	Digests      map[string]uint64 `json:"digests,omitempty"`
	Done         bool              `json:"done"`
	WallS        float64           `json:"wall_s"`
}

// C is the context of a check run.
type C struct {
	Prop, Leg, Tier string
	Seed            uint64
	Shard, Shards   int
	Only            int // only this case (replay); -1: all
	OnlySub         string
	Trace           bool

	mu       sync.Mutex
	rep      Report
	distinct map[uint64]struct{}
	sub      string
	caseNo   int
	trace    []string
	failed   bool
	out      string
	start    time.Time
	budget   time.Duration
	scale    int
	progress atomic.Int64
}

type stopCase struct{}

// Thorough reports whether the thorough tier was requested.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N scales a quick case count for the tier.
func (c *C) N(quick int, factor int) int {
	quick = max(1, quick*c.scale/100)
	if c.Thorough() {
		return quick * factor
	}
	return quick
}

// Main dispatches to the function registered for the property.
func Main(props map[string]func(*C)) {
	c := &C{Only: -1, start: time.Now(), distinct: map[uint64]struct{}{}}
	flag.StringVar(&c.Prop, "prop", "", "property")
	flag.StringVar(&c.Leg, "leg", "", "leg")
	flag.StringVar(&c.Tier, "tier", "quick", "quick or thorough")
	flag.Uint64Var(&c.Seed, "seed", 1, "seed")
	flag.IntVar(&c.Shard, "shard", 0, "shard")
	flag.IntVar(&c.Shards, "shards", 1, "shards")
	flag.IntVar(&c.Only, "case", -1, "replay this case only, with a trace")
	flag.StringVar(&c.OnlySub, "sub", "", "replay: sub-workload")
	flag.StringVar(&c.out, "out", "", "report file")
	flag.DurationVar(&c.budget, "budget", 0, "stop starting new cases after this much time")
	flag.IntVar(&c.scale, "scale", 100, "case counts, in percent")
	flag.Parse()
	f := props[c.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		os.Exit(2)
	}
	c.rep = Report{Prop: c.Prop, Leg: c.Leg, Shard: c.Shard, Counters: map[string]int64{}, Samples: []string{}, Violations: []Violation{}}
	go c.watchdog()
	f(c)
	c.Finish()
}

// Finish writes the report and exits.
func (c *C) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Done = true
	c.write()
	if len(c.rep.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func (c *C) write() {
	c.rep.Distinct = int64(len(c.distinct))
	c.rep.WallS = time.Since(c.start).Seconds()
	b, _ := json.MarshalIndent(c.rep, "", " ")
	if c.out != "" {
		if err := os.WriteFile(c.out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		keys := make([]byte, 0, 8*len(c.distinct))
		for k := range c.distinct {
			keys = binary.LittleEndian.AppendUint64(keys, k)
		}
		os.WriteFile(c.out+".keys", keys, 0o644)
	}
	if c.out == "" || c.Only >= 0 {
		os.Stdout.Write(append(b, '\n'))
	}
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

// Cases runs f for this shard's share of n cases of the named sub-workload.
// Everything random in a case must come from r. A case fails through c.Fail or
// by panicking; the failing case is rerun with tracing to obtain a witness.
func (c *C) Cases(sub string, n int, f func(i int, r *rand.Rand)) {
	if c.failed || (c.OnlySub != "" && c.OnlySub != sub) {
		return
	}
	c.sub = sub
	if c.Only >= 0 {
		c.Trace = true
		c.one(sub, c.Only, f)
		return
	}
	for i := c.Shard; i < n; i += c.Shards {
		if c.budget > 0 && time.Since(c.start) > c.budget {
			c.Count("budget_stops", 1)
			return
		}
		if c.one(sub, i, f) {
			// Rerun with tracing for the witness (best effort: parallel
			// workloads may not fail the second time).
			c.mu.Lock()
			k := len(c.rep.Violations) - 1
			c.mu.Unlock()
			c.Trace = true
			c.one(sub, i, f)
			c.mu.Lock()
			if len(c.rep.Violations) > k+1 {
				c.rep.Violations[k].Trace = c.rep.Violations[k+1].Trace
				c.rep.Violations = c.rep.Violations[:k+1]
			}
			c.mu.Unlock()
			c.Trace = false
			c.failed = true
			c.Count("cases."+sub, 1)
			return
		}
		c.Count("cases."+sub, 1)
	}
}

func (c *C) one(sub string, i int, f func(i int, r *rand.Rand)) (failed bool) {
	c.caseNo = i
	c.trace = nil
	t0 := time.Now()
	defer func() { c.Max("most_case_ms", time.Since(t0).Milliseconds()) }()
	c.rep.Cases++
	c.progress.Add(1)
	r := rand.New(rand.NewPCG(mix(c.Seed, c.Prop, sub), uint64(i)))
	before := len(c.rep.Violations)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopCase); !ok {
				c.record("panic", fmt.Sprintf("%v\n%s", p, debug.Stack()))
			}
		}
		failed = len(c.rep.Violations) > before
	}()
	f(i, r)
	return
}

func (c *C) record(kind, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.rep.Violations) < 5 {
		tr := c.trace
		if len(tr) > 400 {
			tr = append([]string{fmt.Sprintf("... %d earlier steps", len(tr)-400)}, tr[len(tr)-400:]...)
		}
		if len(detail) > 8000 {
			detail = detail[:8000] + "..."
		}
		c.rep.Violations = append(c.rep.Violations, Violation{Sub: c.sub, Case: c.caseNo, Kind: kind, Detail: detail, Trace: tr})
	}
}

// Fail records a violation and abandons the case.
func (c *C) Fail(kind, format string, args ...any) {
	c.record(kind, fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// Guard runs f on a thread other than the case's own and reports whether it
// failed; the case must then call Stop.
func (c *C) Guard(f func()) (failed bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopCase); !ok {
				panic(p)
			}
			failed = true
		}
	}()
	f()
	return false
}

// Stop abandons a case whose violation is already recorded.
func (c *C) Stop() { panic(stopCase{}) }

// Failed reports whether a violation has been recorded.
func (c *C) Failed() bool { return c.failed }

// Logf records a step of the current case when tracing. It must only be called
// from the goroutine that runs the case or under a controlled schedule.
func (c *C) Logf(format string, args ...any) {
	if c.Trace {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// Digest records a hash of everything the library answered in this case, for
// the comparison of two builds.
func (c *C) Digest(h uint64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.rep.Digests == nil {
		c.rep.Digests = map[string]uint64{}
	}
	c.rep.Digests[fmt.Sprintf("%s/%d", c.sub, c.caseNo)] = h
}

// Tick tells the watchdog that the workload is making progress.
func (c *C) Tick() { c.progress.Add(1) }

// Count adds to a named coverage counter.
func (c *C) Count(name string, n int64) {
	c.mu.Lock()
	c.rep.Counters[name] += n
	c.mu.Unlock()
}

// Max keeps the maximum in a named counter.
func (c *C) Max(name string, n int64) {
	c.mu.Lock()
	if n > c.rep.Counters[name] {
		c.rep.Counters[name] = n
	}
	c.mu.Unlock()
}

// Inconclusive counts an execution about which nothing can be said.
func (c *C) Inconclusive(what string) {
	c.mu.Lock()
	c.rep.Inconclusive++
	c.rep.Counters["inconclusive."+what]++
	c.mu.Unlock()
}

// Seen registers an execution as non-trivial, with a key for counting distinct ones.
func (c *C) Seen(key uint64) {
	c.mu.Lock()
	c.rep.Nontrivial++
	if len(c.distinct) < 4_000_000 {
		c.distinct[key] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (c *C) Sample(s string) {
	c.mu.Lock()
	if len(c.rep.Samples) < 4 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.rep.Samples = append(c.rep.Samples, s)
	}
	c.mu.Unlock()
}

// WantSample reports whether another sample would be kept.
func (c *C) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.rep.Samples) < 4
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(int64(ru.Utime.Usec)+int64(ru.Stime.Usec))/1e6
}

// watchdog turns a call that never returns into a verdict. It judges consumed
// CPU time (a spinning call) or the states of all goroutines (a blocked one),
// never elapsed wall-clock time alone.
func (c *C) watchdog() {
	const cpuLimit = 60.0
	last, lastCPU, lastWall := int64(-1), 0.0, time.Now()
	var ms runtime.MemStats
	for n := 0; ; n++ {
		time.Sleep(time.Second)
		if n%5 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				c.hang("unbounded-memory", "a single case allocated more than 3 GB")
			}
		}
		p := c.progress.Load()
		if p != last {
			last, lastCPU, lastWall = p, cpuSeconds(), time.Now()
			continue
		}
		if cpuSeconds()-lastCPU > cpuLimit {
			c.hang("no-progress", fmt.Sprintf("a single step consumed more than %.0f s of CPU time", cpuLimit))
		}
		if time.Since(lastWall) > 45*time.Second && allBlocked() {
			time.Sleep(5 * time.Second)
			if c.progress.Load() == last && allBlocked() {
				c.hang("deadlock", "every goroutine of the workload is blocked")
			}
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func allBlocked() bool {
	for i, g := range strings.Split(allStacks(), "\n\n") {
		if i == 0 { // the caller
			continue
		}
		_, st, _ := strings.Cut(g, "[")
		if strings.HasPrefix(st, "running") || strings.HasPrefix(st, "runnable") || strings.HasPrefix(st, "syscall") || strings.HasPrefix(st, "sleep") || strings.HasPrefix(st, "GC ") || strings.HasPrefix(st, "waiting") {
			return false
		}
	}
	return true
}

func (c *C) hang(kind, detail string) {
	c.record(kind, detail+"\n"+allStacks())
	c.mu.Lock()
	c.write()
	os.Exit(1)
}

// Catch runs f and returns the recovered panic value, if any (nil otherwise);
// stopCase panics pass through.
func Catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopCase); ok {
				panic(s)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Hash hashes a printable description.
func Hash(parts ...any) uint64 { return mix(parts...) }

// SortedInts returns a sorted copy.
func SortedInts(a []int) []int {
	b := append([]int(nil), a...)
	sort.Ints(b)
	return b
}
