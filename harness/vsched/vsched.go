// Package vsched is a controlled scheduler for code whose sync, sync/atomic and
// time imports have been redirected to the shims in ../shim and into which
// scheduling points (calls to Yield) have been inserted. While a Run is in
// progress exactly one of its goroutines executes at a time and every switch is
// decided by a seeded strategy, so an execution is a deterministic function of
// (program, seed). Outside a Run the shims behave like the real packages, or,
// in noise mode, add random preemptions.
package vsched

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

var (
	active atomic.Bool
	noise  atomic.Int32
	cur    *sched
)

// SetNoise makes Yield preempt at random when no Run is active (level 0 = off).
func SetNoise(level int) { noise.Store(int32(level)) }

// Active reports whether a controlled run is in progress.
func Active() bool { return active.Load() }

// Yield is a scheduling point.
func Yield() {
	if active.Load() {
		cur.yield(true)
		return
	}
	if n := noise.Load(); n != 0 {
		r := rand.Uint32()
		switch {
		case r%512 == 0 && n > 1:
			time.Sleep(time.Duration(r>>16%50) * time.Microsecond)
		case r%16 == 0:
			runtime.Gosched()
		}
	}
}

// Point is a scheduling point inserted before a plain statement; runs may ignore
// these and switch only at synchronisation operations and clock reads.
func Point() {
	if active.Load() {
		if cur.stmts || cur.aborted {
			cur.yield(true)
		}
		return
	}
	if noise.Load() != 0 {
		Yield()
	}
	if counting {
		steps++
	}
}

// The number of statements of the library executed since CountSteps.
var (
	counting bool
	steps    int64
)

// CountSteps starts counting statements; only one goroutine may run the library.
func CountSteps() { counting, steps = true, 0 }

// StepsCounted stops counting.
func StepsCounted() int64 { counting = false; return steps }

type thread struct {
	id   int
	ch   chan struct{}
	done bool
	own  bool        // started by the library itself: a run does not wait for it
	wait func() bool // nil: runnable; otherwise runnable once it returns true
	why  string
	prio int
}

// Strategy selects how the next thread is chosen.
type Strategy struct {
	Kind   int     // 0 uniform random, 1 sticky random, 2 PCT
	P      float64 // sticky: probability of a switch
	Depth  int     // PCT: number of priority change points
	Length int     // PCT: estimated number of steps
	Stmts  bool    // also switch before plain statements
}

func (s Strategy) String() string {
	x := ""
	if s.Stmts {
		x = "+stmts"
	}
	switch s.Kind {
	case 0:
		return "uniform" + x
	case 1:
		return fmt.Sprintf("sticky(%.2f)%s", s.P, x)
	}
	return fmt.Sprintf("pct(d=%d,len=%d)%s", s.Depth, s.Length, x)
}

// PickStrategy derives a strategy from a random source; nops is the number of
// library calls the program makes (used to estimate its length).
func PickStrategy(r *rand.Rand, nops int) Strategy {
	st := Strategy{Stmts: r.IntN(3) == 0}
	per := 10
	if st.Stmts {
		per = 40
	}
	switch r.IntN(8) {
	case 0:
	case 1:
		st.Kind, st.P = 1, 0.4
	case 2:
		st.Kind, st.P = 1, 0.1
	case 3:
		st.Kind, st.P = 1, 0.03
	default:
		st.Kind, st.Depth, st.Length = 2, 1+r.IntN(4), max(16, nops*per)
	}
	return st
}

// Result describes one controlled run.
type Result struct {
	Steps     int
	Switches  int
	Hash      uint64 // of the sequence of switches: identifies the interleaving
	Deadlock  string // non-empty: no thread could run
	StepLimit bool
	Panics    []string // panics that escaped a thread
}

type sched struct {
	threads  []*thread
	cur      *thread
	rng      *rand.Rand
	strat    Strategy
	stmts    bool
	change   map[int]int
	maxSteps int
	lowPrio  int
	res      Result
	finished chan struct{}
	aborted  bool
	lending  bool
	over     bool       // finished is closed (only used once aborted)
	mu       sync.Mutex // only used once aborted
}

// Run executes fns as controlled threads until all have returned.
//
// Once the scheduler has lost control several times (see monitor) it runs
// nothing any more: every Run reports its step limit, i.e. is inconclusive.
func Run(seed uint64, strat Strategy, maxSteps int, fns ...func()) Result {
	if lost.Load() >= 3 {
		return Result{StepLimit: true}
	}
	s := &sched{rng: rand.New(rand.NewPCG(seed, 0x5eed)), strat: strat, stmts: strat.Stmts, maxSteps: maxSteps, finished: make(chan struct{})}
	s.res.Hash = 14695981039346656037
	for i := range fns {
		s.add()
		_ = i
	}
	if strat.Kind == 2 {
		perm := s.rng.Perm(len(fns))
		for i, t := range s.threads {
			t.prio = perm[i] + strat.Depth + 1
		}
		s.change = map[int]int{}
		for d := 0; d < strat.Depth; d++ {
			s.change[1+s.rng.IntN(strat.Length)] = d
		}
	}
	cur = s
	for i, fn := range fns {
		go s.body(s.threads[i], fn)
	}
	active.Store(true)
	monitorOnce.Do(func() { go monitor() })
	s.cur = s.pick(nil)
	s.cur.ch <- struct{}{}
	<-s.finished
	active.Store(false)
	return s.res
}

func (s *sched) add() *thread {
	t := &thread{id: len(s.threads), ch: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	return t
}

var controlled sync.Map // ids of the goroutines that are controlled threads

func goid() string {
	var buf [64]byte
	b := buf[len("goroutine "):runtime.Stack(buf[:], false)]
	i := bytes.IndexByte(b, ' ')
	return string(b[:max(i, 0)])
}

// Controlled reports whether the calling goroutine is a thread of the current
// Run (and not one of the library's background goroutines).
func Controlled() bool {
	if !active.Load() {
		return false
	}
	_, ok := controlled.Load(goid())
	return ok
}

func (s *sched) body(t *thread, fn func()) {
	id := goid()
	controlled.Store(id, true)
	defer controlled.Delete(id)
	<-t.ch
	defer func() {
		if r := recover(); r != nil {
			s.mu.Lock()
			s.res.Panics = append(s.res.Panics, fmt.Sprintf("thread %d: %v\n%s", t.id, r, debug.Stack()))
			s.mu.Unlock()
		}
		s.exit(t)
	}()
	fn()
}

func (s *sched) exit(t *thread) {
	if s.aborted {
		s.mu.Lock()
		defer s.mu.Unlock()
		t.done = true
		s.release()
		return
	}
	t.done = true
	n := s.pick(t)
	if n == nil {
		s.end()
		return
	}
	s.switchTo(n)
	n.ch <- struct{}{}
}

// release ends an aborted run once the harness's own threads are done; s.mu is held.
func (s *sched) release() {
	for _, x := range s.threads {
		if !x.done && !x.own {
			return
		}
	}
	if !s.over {
		s.over = true
		close(s.finished)
	}
}

// end is called by the token holder when nothing can run.
func (s *sched) end() {
	for _, t := range s.threads {
		if !t.done && !t.own {
			s.res.Deadlock += fmt.Sprintf("thread %d blocked in %s; ", t.id, t.why)
		}
	}
	close(s.finished)
}

func (s *sched) switchTo(n *thread) {
	s.cur = n
	s.res.Switches++
	s.res.Hash = (s.res.Hash ^ uint64(n.id+1)) * 1099511628211
	s.res.Hash = (s.res.Hash ^ uint64(s.res.Steps&0xffff)) * 1099511628211
}

// pick chooses the next thread among the runnable ones (nil if none).
func (s *sched) pick(self *thread) *thread {
	var cand []*thread
	selfOK := false
	for _, t := range s.threads {
		if t.done || (t.wait != nil && !t.wait()) {
			continue
		}
		if t == self {
			selfOK = true
		}
		cand = append(cand, t)
	}
	if len(cand) == 0 {
		return nil
	}
	if len(cand) == 1 {
		return cand[0]
	}
	switch s.strat.Kind {
	case 0:
		return cand[s.rng.IntN(len(cand))]
	case 1:
		if selfOK && s.rng.Float64() >= s.strat.P {
			return self
		}
		return cand[s.rng.IntN(len(cand))]
	}
	best := cand[0]
	for _, t := range cand[1:] {
		if t.prio > best.prio {
			best = t
		}
	}
	return best
}

// yield is executed by the token holder (or a goroutine it lent its token to).
func (s *sched) yield(runnable bool) {
	if s.aborted {
		if !runnable {
			runtime.Gosched()
		}
		return
	}
	me := s.cur
	s.res.Steps++
	if s.res.Steps > s.maxSteps {
		// Too long: give up control, let everything run freely to the end.
		s.res.StepLimit = true
		s.aborted = true
		for _, t := range s.threads {
			if t != me && !t.done {
				select {
				case t.ch <- struct{}{}:
				default:
				}
			}
		}
		return
	}
	if s.strat.Kind == 2 {
		if p, ok := s.change[s.res.Steps]; ok {
			me.prio = p
		} else if s.res.Steps%97 == 0 {
			// Fairness for retry loops: rotate priorities now and then.
			s.lowPrio--
			me.prio = s.lowPrio
		}
	}
	n := s.pick(me)
	if n == me {
		return
	}
	if n == nil {
		s.end()
		select {} // deadlocked: this goroutine is abandoned
	}
	s.switchTo(n)
	n.ch <- struct{}{}
	<-me.ch
}

// BlockUntil blocks the calling thread until cond holds. It must only be used
// while Active; cond is evaluated by whichever thread holds the token.
func BlockUntil(why string, cond func() bool) {
	s := cur
	for !cond() {
		if s.aborted {
			time.Sleep(10 * time.Microsecond)
			if !active.Load() {
				return
			}
			continue
		}
		me := s.cur
		me.wait, me.why = cond, why
		s.yield(false)
		me.wait, me.why = nil, ""
	}
}

// Go starts fn as a new controlled thread during a Run, or as a plain goroutine.
func Go(fn func()) {
	if !active.Load() || cur.aborted {
		goPlain(fn)
		return
	}
	s := cur
	t := s.add()
	t.own = true
	t.prio = s.rng.IntN(len(s.threads) + s.strat.Depth + 1)
	go s.body(t, fn)
	Yield()
}

func goPlain(fn func()) { go fn() }

// Steps returns the number of scheduling points passed so far in this run.
func Steps() int {
	if !active.Load() {
		return 0
	}
	return cur.res.Steps
}

// ThreadID returns the id of the running controlled thread (-1 outside a Run).
func ThreadID() int {
	if !active.Load() {
		return -1
	}
	return cur.cur.id
}

var (
	monitorOnce sync.Once
	lost        atomic.Int32 // how often the monitor had to abort a run
)

// monitor notices a controlled thread that blocks in an operation the scheduler
// does not see (a channel, say) and then releases all threads, so that whoever
// must unblock it can run. Such a run is reported like one over the step limit.
func monitor() {
	var last *sched
	lastSteps, same := 0, 0
	for {
		time.Sleep(250 * time.Millisecond)
		if !active.Load() {
			last = nil
			continue
		}
		s := cur
		if s != last || s.res.Steps != lastSteps || s.aborted {
			last, lastSteps, same = s, s.res.Steps, 0
			continue
		}
		if same++; same < 4 || tokenBusy() {
			continue
		}
		lost.Add(1)
		s.res.StepLimit = true
		s.aborted = true
		for _, t := range s.threads {
			if !t.done {
				select {
				case t.ch <- struct{}{}:
				default:
				}
			}
		}
		s.mu.Lock()
		s.release()
		s.mu.Unlock()
	}
}

// tokenBusy reports whether some goroutine of the run (or of the library) can
// make progress on its own.
func tokenBusy() bool {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	for i, g := range bytes.Split(buf[:n], []byte("\n\n")) {
		if i == 0 {
			continue
		}
		_, st, _ := bytes.Cut(g, []byte("["))
		for _, p := range []string{"running", "runnable", "syscall", "sleep"} {
			if bytes.HasPrefix(st, []byte(p)) && !bytes.Contains(g, []byte("kit.(*C).watchdog")) {
				return true
			}
		}
	}
	return false
}
