package vsched

import (
	"bytes"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Virtual clock. Enabled once at program start by harnesses that need it; from
// then on the time shim reads it and its tickers and timers fire from Advance.
var (
	vOn  atomic.Bool
	vNow atomic.Int64

	timersMu sync.Mutex
	timers   []*VTimer
)

// VTimer is a virtual ticker or timer.
type VTimer struct {
	C      chan time.Time
	next   int64
	period int64 // 0: one shot
	fn     func()
	live   bool
}

// EnableClock switches to virtual time starting at 2025-01-01.
func EnableClock() {
	vNow.Store(time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano())
	vOn.Store(true)
}

// ResetClock sets virtual time back to the start; only for harnesses without
// live timers.
func ResetClock() { EnableClock() }

// Align advances to the next multiple of d since the start of virtual time.
func Align(d time.Duration) {
	off := (vNow.Load() - time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano()) % int64(d)
	if off != 0 {
		Advance(d - time.Duration(off))
	}
}

// ClockOn reports whether the virtual clock is in use.
func ClockOn() bool { return vOn.Load() }

// NowNs is the virtual time in nanoseconds (it does not yield).
func NowNs() int64 { return vNow.Load() }

// AddTimer registers a virtual timer.
func AddTimer(d, period time.Duration, fn func()) *VTimer {
	t := &VTimer{C: make(chan time.Time, 1), next: vNow.Load() + int64(d), period: int64(period), fn: fn, live: true}
	timersMu.Lock()
	timers = append(timers, t)
	timersMu.Unlock()
	return t
}

// StopTimer deactivates t and reports whether it was active.
func StopTimer(t *VTimer) bool {
	timersMu.Lock()
	defer timersMu.Unlock()
	was := t.live
	t.live = false
	for i, x := range timers {
		if x == t {
			timers = append(timers[:i], timers[i+1:]...)
			break
		}
	}
	return was
}

// ResetTimer re-arms t.
func ResetTimer(t *VTimer, d, period time.Duration) bool {
	was := StopTimer(t)
	timersMu.Lock()
	t.next, t.period, t.live = vNow.Load()+int64(d), int64(period), true
	timers = append(timers, t)
	timersMu.Unlock()
	return was
}

// NumTimers returns the number of armed virtual timers.
func NumTimers() int {
	timersMu.Lock()
	defer timersMu.Unlock()
	return len(timers)
}

// nextDeadline returns the earliest deadline <= limit.
func nextDeadline(limit int64) (int64, bool) {
	timersMu.Lock()
	defer timersMu.Unlock()
	best, ok := int64(0), false
	for _, t := range timers {
		if t.next <= limit && (!ok || t.next < best) {
			best, ok = t.next, true
		}
	}
	return best, ok
}

// fireNext fires one timer that is due, so that two background goroutines of
// the library never run at the same time.
func fireNext(now int64) (chans []chan time.Time) {
	timersMu.Lock()
	defer timersMu.Unlock()
	for i, t := range timers {
		if t.next > now {
			continue
		}
		if t.fn != nil {
			goPlain(t.fn)
		} else {
			select {
			case t.C <- time.Unix(0, now):
			default:
			}
			chans = append(chans, t.C)
		}
		if t.period > 0 {
			for t.next <= now {
				t.next += t.period
			}
		} else {
			t.live = false
			timers = append(timers[:i], timers[i+1:]...)
		}
		return chans
	}
	return nil
}

// Advance moves virtual time forward by d, firing every timer on the way, and
// waits until the background goroutines of the library that were woken have
// come to rest again. In a controlled run those goroutines execute as part of
// the calling thread, i.e. interleaved with the other threads by the scheduler.
// It returns the number of timer firings.
func Advance(d time.Duration) int {
	if active.Load() {
		s := cur
		BlockUntil("Advance", func() bool { return !s.lending })
		s.lending = true
		defer func() { s.lending = false }()
	}
	settle(nil)
	target := vNow.Load() + int64(d)
	fired := 0
	for {
		dl, ok := nextDeadline(target)
		if !ok {
			break
		}
		if dl > vNow.Load() {
			vNow.Store(dl)
		}
		chans := fireNext(dl)
		fired++
		settle(chans)
	}
	if vNow.Load() < target {
		vNow.Store(target)
	}
	return fired
}

// settle waits until woken background goroutines are parked again.
func settle(chans []chan time.Time) {
	start := time.Now()
	for i := 0; ; i++ {
		pending := false
		for _, c := range chans {
			if len(c) > 0 {
				pending = true
			}
		}
		if !pending && !foreignBusy() {
			return
		}
		if pending && time.Since(start) > 200*time.Millisecond && !foreignBusy() {
			return // nobody listens to this timer (any more)
		}
		if i < 10 {
			runtime.Gosched()
		} else {
			time.Sleep(20 * time.Microsecond)
		}
	}
}

var stackBuf []byte

var (
	mkForeign1 = []byte("created by github.com/zijiren233/gencontainer/")
	mkForeign2 = []byte("created by verif.local/h/vsched.goPlain")
	mkYield    = []byte("verif.local/h/vsched.")
	mkBy       = []byte("created by ")
)

// foreignBusy reports whether a goroutine started by the library is not parked
// waiting for an event (a goroutine waiting for its turn in a scheduling point
// counts as busy).
func foreignBusy() bool {
	if stackBuf == nil {
		stackBuf = make([]byte, 1<<20)
	}
	n := runtime.Stack(stackBuf, true)
	for _, g := range bytes.Split(stackBuf[:n], []byte("\n\n")) {
		if !bytes.Contains(g, mkForeign1) && !bytes.Contains(g, mkForeign2) {
			continue
		}
		body, _, _ := bytes.Cut(g, mkBy)
		if bytes.Contains(body, mkYield) {
			return true
		}
		_, st, ok := bytes.Cut(g, []byte("["))
		if !ok {
			return true
		}
		parked := false
		for _, p := range []string{"chan receive", "select", "sleep", "sync.Cond.Wait", "finalizer wait"} {
			if bytes.HasPrefix(st, []byte(p)) {
				parked = true
			}
		}
		if !parked {
			return true
		}
	}
	return false
}
