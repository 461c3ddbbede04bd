// Monitors for the three refreshcache packages: C10 single flight, C11
// freshness and provenance, C12 errors and panics, C13 arguments and old value.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

type ctxKey struct{}

type outcome uint8

const (
	oOK outcome = iota
	oErr
	oPanic
)

// plan says what the next invocation of a refresh function does.
type plan struct {
	out    outcome
	val    int
	err    error
	spend  time.Duration // clock time the function takes
	yields int
}

type run struct {
	o            *op
	tag          int // which refresh function instance
	start, end   int64
	t0, t1       int64 // clock, ns
	p            plan
	old          any
	args         []int
	ctxVal       any
	ctxErr       error
	deadlineSame bool
}

type kind uint8

const (
	kGet kind = iota
	kRefresh
	kClear
	kTick
	kSetRefresh
	kSetClear
	kLast
	kRaw
	nKinds
)

var kindName = [nKinds]string{"Get", "Refresh", "Clear", "Tick", "SetRefreshFunc", "SetClearFunc", "Last", "Raw"}

type clearRun struct {
	tag    int
	at     int64
	old    any
	args   []int
	ctxVal any
	last   int64
}

type op struct {
	k         kind
	thread    int
	call, ret int64
	c0, c1    int64
	args      []int
	plan      plan // for its own run, if it has one
	d         time.Duration
	tag       int
	cerr      error // what the clear function returns
	cpanic    bool
	val       int
	err       error
	panicked  any
	last      int64
	runs      []*run
	clears    []clearRun
	done      bool
	cmode     int // kind of context, see exec
	cancel    context.CancelFunc
	ctxBad    string // what was wrong with the context a function got
}

func (p plan) String() string {
	switch p.out {
	case oOK:
		return fmt.Sprintf("ok #%d", p.val)
	case oErr:
		return fmt.Sprintf("%v with #%d", p.err, p.val)
	}
	return "panic"
}

func (o *op) String() string {
	s := fmt.Sprintf("[t%d %d-%d] %s", o.thread, o.call, o.ret, kindName[o.k])
	switch o.k {
	case kGet, kRefresh:
		s += fmt.Sprintf("(%v) = #%d,%v", o.args, o.val, o.err)
		if o.panicked != nil {
			s += fmt.Sprintf(" panicked %v", o.panicked)
		}
		for _, x := range o.runs {
			s += fmt.Sprintf(" {ran f%d %d-%d: %v}", x.tag, x.start, x.end, x.p)
		}
	case kClear:
		s += fmt.Sprintf("(%v) = %v", o.args, o.err)
		for _, x := range o.clears {
			s += fmt.Sprintf(" {ran c%d at %d}", x.tag, x.at)
		}
	case kTick:
		s += fmt.Sprintf("(%v)", o.d)
	case kSetRefresh, kSetClear:
		s += fmt.Sprintf("(%d)", o.tag)
	case kLast:
		s += fmt.Sprintf("() = %d", o.last)
	case kRaw:
		s += fmt.Sprintf("() = #%d,%v", o.val, o.err)
	}
	return s
}

func fmtHist(h []*op) string {
	var b strings.Builder
	for _, o := range h {
		b.WriteString(o.String() + "; ")
	}
	return b.String()
}

type env struct {
	c        *kit.C
	r        R
	maxAge   time.Duration
	errAge   time.Duration
	variant  int
	tick     atomic.Int64
	nextID   int
	inFlight atomic.Int32
	overlap  atomic.Bool
	threw    atomic.Bool
	mu       sync.Mutex
	real     bool
	cur      sync.Map // thread slot -> *op (controlled/sequential) ; ctx -> op otherwise
}

func (e *env) stamp() int64 { return e.tick.Add(1) }

func (e *env) now() int64 {
	if e.real {
		return time.Now().UnixNano()
	}
	return vsched.NowNs()
}

// viol reports a violation of the property under check; a violation of another
// one ends the case without a verdict.
func (e *env) viol(props string, kind, format string, a ...any) {
	// C06: any misbehaviour in a history in which a user function panicked.
	if strings.Contains(props, e.c.Prop) || e.c.Prop == "C06" && e.threw.Load() {
		e.c.Fail(kind, "%s maxAge=%v errAge=%v: %s", variantName(e.variant), e.maxAge, e.errAge, fmt.Sprintf(format, a...))
	}
	e.c.Inconclusive("other-property")
	panic(abandon{})
}

type abandon struct{}

type opKey struct{}

// fn makes a refresh function instance; it finds the calling operation through
// the context (which the library must derive from the caller's).
func (e *env) fn(tag int) fn {
	return func(ctx context.Context, old any, args []int) (int, error) {
		o, _ := ctx.Value(opKey{}).(*op)
		if e.inFlight.Add(1) > 1 {
			e.overlap.Store(true)
		}
		defer e.inFlight.Add(-1)
		x := &run{o: o, tag: tag, start: e.stamp(), t0: e.now(), old: old, args: slices.Clone(args), ctxVal: ctx.Value(ctxKey{}), ctxErr: ctx.Err()}
		if o == nil {
			panic("the refresh function got a context not derived from the caller's")
		}
		x.p = o.plan
		e.mu.Lock()
		o.runs = append(o.runs, x)
		o.probe("refresh", ctx)
		e.mu.Unlock()
		for i := 0; i < x.p.yields; i++ {
			if e.real {
				runtime.Gosched()
			} else {
				vsched.Yield()
			}
		}
		if x.p.spend > 0 && !e.real {
			vsched.Advance(x.p.spend)
		}
		x.t1 = e.now()
		x.end = e.stamp()
		switch x.p.out {
		case oOK:
			return x.p.val, nil
		case oErr:
			return x.p.val, x.p.err
		}
		e.threw.Store(true)
		panic(boom)
	}
}

var boom = errors.New("boom")

func (e *env) cfn(tag int) cfn {
	if tag == 0 {
		return nil
	}
	return func(ctx context.Context, old any, args []int) error {
		o, _ := ctx.Value(opKey{}).(*op)
		if o == nil {
			panic("the clear function got a context not derived from the caller's")
		}
		o.clears = append(o.clears, clearRun{tag: tag, at: e.stamp(), old: old, args: slices.Clone(args), ctxVal: ctx.Value(ctxKey{}), last: e.r.Last()})
		o.probe("clear", ctx)
		if !e.real {
			vsched.Yield()
		}
		if o.cpanic {
			e.threw.Store(true)
			panic(boom)
		}
		return o.cerr
	}
}

// farOff is a deadline no run reaches.
var farOff = time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)

// probe looks at the context a user function got: it must carry the deadline
// and the cancellation of the caller's.
func (o *op) probe(what string, ctx context.Context) {
	bad := func(f string, a ...any) { o.ctxBad = "the " + what + " function got " + fmt.Sprintf(f, a...) }
	switch o.cmode {
	case 1:
		if ctx.Err() != nil && len(o.runs)+len(o.clears) == 1 {
			bad("a context that had already ended (%v)", ctx.Err())
		}
		o.cancel()
		if ctx.Err() != context.Canceled {
			bad("a context that does not end when the caller's is cancelled (Err() = %v)", ctx.Err())
			break
		}
		select {
		case <-ctx.Done():
		default:
			bad("a context whose Done channel stays open when the caller's is cancelled")
		}
	case 2:
		if ctx.Err() != context.Canceled {
			bad("a context that does not tell that the caller's was cancelled (Err() = %v)", ctx.Err())
		}
	case 3:
		if d, ok := ctx.Deadline(); !ok || d.After(farOff) {
			bad("a context without the deadline of the caller's")
		}
	default:
		if ctx.Err() != nil {
			bad("a context that had already ended (%v)", ctx.Err())
		}
	}
}

func (e *env) exec(o *op, thread int) {
	o.thread = thread
	ctx := context.WithValue(context.WithValue(context.Background(), opKey{}, o), ctxKey{}, o)
	switch o.cmode = (o.plan.val + 3*len(o.args)) % 7; o.cmode {
	case 1, 2:
		ctx, o.cancel = context.WithCancel(ctx)
		if o.cmode == 2 {
			o.cancel()
		}
	case 3:
		ctx, o.cancel = context.WithDeadline(ctx, farOff)
	}
	if o.cancel != nil {
		defer o.cancel()
	}
	o.call, o.c0 = e.stamp(), e.now()
	switch o.k {
	case kGet:
		o.panicked = kit.Catch(func() { o.val, o.err = e.r.Get(ctx, o.args) })
	case kRefresh:
		o.panicked = kit.Catch(func() { o.val, o.err = e.r.Refresh(ctx, o.args) })
	case kClear:
		o.panicked = kit.Catch(func() { o.err = e.r.Clear(ctx, o.args) })
	case kTick:
		if !e.real {
			vsched.Advance(o.d)
		}
	case kSetRefresh:
		e.r.SetRefresh(e.fn(o.tag))
	case kSetClear:
		e.r.SetClear(e.cfn(o.tag))
	case kLast:
		o.last = e.r.Last()
	case kRaw:
		o.val, o.err = e.r.Raw()
	}
	o.ret, o.c1 = e.stamp(), e.now()
	o.done = true
}

var agesSeq = []time.Duration{-1, math.MinInt64, 0, 1, time.Microsecond, 10 * time.Millisecond, 10 * time.Millisecond, time.Second, time.Hour, 30 * 365 * 24 * time.Hour, 60 * 365 * 24 * time.Hour, math.MaxInt64}
var errAgesSeq = []time.Duration{0, 0, -time.Second, 1, 10 * time.Millisecond, 10 * time.Millisecond, time.Second, 80 * 365 * 24 * time.Hour, math.MaxInt64}
var ticksSeq = []time.Duration{1, 3 * time.Millisecond, 3 * time.Millisecond, 11 * time.Millisecond, 500 * time.Millisecond, 1500 * time.Millisecond, 2 * time.Hour, 40 * 365 * 24 * time.Hour}

func (e *env) genPlan(r *rand.Rand) plan {
	e.nextID++
	p := plan{val: e.nextID}
	switch x := r.IntN(20); {
	case x < 12:
	case x < 17:
		p.out, p.err = oErr, genErr(r, e.nextID)
		if r.IntN(2) == 0 {
			p.val = 0
		}
	default:
		p.out = oPanic
	}
	if e.c.Prop == "C06" && r.IntN(4) == 0 {
		p.out, p.err = oPanic, nil
	}
	return p
}

type ptrErr struct{ n int }

func (*ptrErr) Error() string { return "pointer failure" }

// genErr: mostly errors of their own, some that code likes to treat specially.
func genErr(r *rand.Rand, id int) error {
	switch r.IntN(16) {
	case 0:
		return context.Canceled
	case 1:
		return context.DeadlineExceeded
	case 2:
		return fmt.Errorf("failure %d: %w", id, context.Canceled)
	case 3:
		return fmt.Errorf("failure %d: %w", id, context.DeadlineExceeded)
	case 4:
		return io.EOF
	case 5:
		return &ptrErr{id}
	case 6:
		return (*ptrErr)(nil) // a nil pointer, yet a non-nil error
	case 7:
		return errors.Join(fmt.Errorf("failure %d", id), boom)
	case 8:
		return errors.New("")
	}
	return fmt.Errorf("failure %d", id)
}

func (e *env) genArgs(r *rand.Rand) []int {
	n := []int{0, 1, 1, 2, 5}[r.IntN(5)]
	a := make([]int, n)
	for i := range a {
		a[i] = r.IntN(1000) - 500
	}
	return a
}

// ---- sequential, exact model ----

type model struct {
	valid   bool
	last    int64
	val     int
	old     int
	hasErr  bool
	errAt   int64
	err     error
	rtag    int
	ctag    int
	runs    int
	cleared int
}

func sequential(c *kit.C, i int, r *rand.Rand) {
	vsched.ResetClock()
	e := &env{c: c, variant: r.IntN(nVariants)}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abandon); !ok {
				panic(p)
			}
		}
	}()
	e.maxAge, e.errAge = agesSeq[r.IntN(len(agesSeq))], errAgesSeq[r.IntN(len(errAgesSeq))]
	m := model{rtag: 1}
	e.r = newR(e.variant, e.fn(1), e.maxAge, e.errAge)
	c.Logf("%s maxAge=%v errAge=%v", variantName(e.variant), e.maxAge, e.errAge)
	nextTag := 1
	fresh := func(now int64) (f, edge bool) {
		if !m.valid || e.maxAge == 0 {
			return false, false
		}
		if e.maxAge < 0 {
			return true, false
		}
		return now-m.last < int64(e.maxAge), now-m.last == int64(e.maxAge)
	}
	errFresh := func(now int64) (f, edge bool) {
		if !m.hasErr || e.errAge <= 0 {
			return false, false
		}
		return now-m.errAt < int64(e.errAge), now-m.errAt == int64(e.errAge)
	}
	var hist []*op
	kinds := []kind{kGet, kGet, kGet, kGet, kRefresh, kClear, kTick, kTick, kTick, kSetRefresh, kSetClear}
	if r.IntN(3) == 0 {
		kinds = []kind{kGet, kGet, kTick, kRefresh}
	}
	nops := 5 + r.IntN(40)
	hits, errhits, nruns := 0, 0, 0
	for j := 0; j < nops; j++ {
		o := &op{k: kinds[r.IntN(len(kinds))], args: e.genArgs(r)}
		if o.k == kGet {
			_, e1 := fresh(e.now())
			_, e2 := errFresh(e.now())
			if e1 || e2 {
				vsched.Advance(1) // exactly at the edge either answer is right
			}
		}
		o.plan = e.genPlan(r)
		if r.IntN(4) == 0 {
			o.plan.spend = ticksSeq[r.IntN(6)]
		}
		if o.plan.out == oOK && r.IntN(12) == 0 {
			o.plan.val = 0
		}
		switch o.k {
		case kTick:
			o.d = ticksSeq[r.IntN(len(ticksSeq)-1)]
			if r.IntN(200) == 0 {
				o.d = ticksSeq[len(ticksSeq)-1]
			}
		case kSetRefresh:
			nextTag++
			o.tag = nextTag
		case kSetClear:
			if r.IntN(4) != 0 {
				nextTag++
				o.tag = nextTag
			}
		case kClear:
			if r.IntN(3) == 0 {
				o.cerr = fmt.Errorf("clear failure %d", j)
			}
			o.cpanic = r.IntN(8) == 0
		}
		before := e.now()
		oldBefore := m.old
		f, _ := fresh(before)
		ef, _ := errFresh(before)
		e.exec(o, 0)
		hist = append(hist, o)
		c.Logf("@%d %v", before, o)
		if o.ctxBad != "" {
			e.viol("C13", "context", "%v: %s", o, o.ctxBad)
		}
		ctxOK := func(v any) bool { return v == any(o) }
		switch o.k {
		case kSetRefresh:
			m.rtag = o.tag
		case kSetClear:
			m.ctag = o.tag
		case kClear:
			m.valid = false
			if m.ctag == 0 {
				if len(o.clears) != 0 {
					e.viol("C13", "clear-func", "%v ran a clear function, none is configured", o)
				}
				if o.err != nil || o.panicked != nil {
					e.viol("C13", "clear-result", "%v: no clear function is configured", o)
				}
				break
			}
			if len(o.clears) != 1 || o.clears[0].tag != m.ctag {
				e.viol("C13", "clear-func", "%v: the configured clear function %d must run exactly once", o, m.ctag)
			}
			x := o.clears[0]
			if !slices.Equal(x.args, e.r.Args(o.args)) || !ctxOK(x.ctxVal) {
				e.viol("C13", "clear-args", "%v: clear function got %v (context value passed on: %v)", o, x.args, ctxOK(x.ctxVal))
			}
			if x.old != any(oldBefore) {
				e.viol("C13", "clear-old-value", "%v: clear function saw old value %v, want #%d", o, x.old, oldBefore)
			}
			if x.last != 0 {
				e.viol("C13", "clear-before", "%v: value still valid (Last=%d) when the clear function ran", o, x.last)
			}
			if o.cpanic {
				if o.panicked == nil {
					e.viol("C13", "clear-result", "%v: panic of the clear function swallowed", o)
				}
			} else if o.panicked != nil || o.err != o.cerr {
				e.viol("C13", "clear-result", "%v: want error %v", o, o.cerr)
			}
		case kGet, kRefresh:
			if o.k == kGet && (f || ef) {
				if len(o.runs) != 0 {
					if f {
						e.viol("C10", "redundant-refresh", "%v at %d although a value refreshed at %d is fresh; %s", o, before, m.last, fmtHist(hist))
					}
					e.viol("C10 C12", "redundant-refresh", "%v at %d although the error of %d is still cached; %s", o, before, m.errAt, fmtHist(hist))
				}
				if o.panicked != nil {
					e.viol("C11 C12", "panic", "%v", o)
				}
				if f {
					hits++
					if o.err != nil || o.val != m.val {
						e.viol("C11", "wrong-value", "%v: want the cached #%d; %s", o, m.val, fmtHist(hist))
					}
				} else {
					errhits++
					if o.err != m.err || o.val != 0 {
						e.viol("C12", "wrong-error", "%v: want zero value and cached error %v; %s", o, m.err, fmtHist(hist))
					}
				}
				break
			}
			if len(o.runs) != 1 {
				if o.k == kGet && len(o.runs) == 0 && o.err == nil {
					e.viol("C11 C12", "stale-or-invalid-value", "%v served #%d without refreshing at %d; last success at %d (valid %v); %s", o, o.val, before, m.last, m.valid, fmtHist(hist))
				}
				if o.k == kGet && len(o.runs) == 0 {
					e.viol("C12", "stale-error", "%v served an error without refreshing at %d; last failure at %d (pending %v); %s", o, before, m.errAt, m.hasErr, fmtHist(hist))
				}
				e.viol("C10", "refresh-count", "%v ran %d refresh functions, want 1", o, len(o.runs))
			}
			x := o.runs[0]
			nruns++
			if x.tag != m.rtag {
				e.viol("C13", "refresh-func", "%v ran function %d, the one set last is %d", o, x.tag, m.rtag)
			}
			if !slices.Equal(x.args, e.r.Args(o.args)) || !ctxOK(x.ctxVal) {
				e.viol("C13", "refresh-args", "%v: refresh function got %v (context value passed on: %v)", o, x.args, ctxOK(x.ctxVal))
			}
			if x.old != any(oldBefore) {
				e.viol("C13", "refresh-old-value", "%v: refresh function saw old value %v, want #%d; %s", o, x.old, oldBefore, fmtHist(hist))
			}
			now := e.now()
			switch o.plan.out {
			case oOK:
				if o.panicked != nil || o.err != nil || o.val != o.plan.val {
					e.viol("C11", "own-result", "%v: the refresh produced #%d", o, o.plan.val)
				}
				m.valid, m.last, m.val, m.old, m.hasErr = true, now, o.plan.val, o.plan.val, false
			case oErr:
				if o.panicked != nil || o.err != o.plan.err || o.val != o.plan.val {
					e.viol("C12", "own-error", "%v: the refresh returned #%d, %v", o, o.plan.val, o.plan.err)
				}
				m.valid, m.hasErr, m.errAt, m.err = false, true, now, o.plan.err
			case oPanic:
				if o.panicked == nil && o.err == nil {
					e.viol("C12", "panic-as-success", "%v: the refresh function panicked", o)
				}
			}
		}
		wantLast := int64(0)
		if m.valid {
			wantLast = m.last
		}
		wantErr := int64(0)
		if m.hasErr {
			wantErr = m.errAt
		}
		if l := e.r.Last(); l != wantLast || !e.r.LastTime().Equal(time.Unix(0, l)) {
			e.viol("C11 C12", "last", "after %v: Last()=%d LastTime()=%v, latest valid success %d; %s", o, l, e.r.LastTime(), wantLast, fmtHist(hist))
		}
		if l := e.r.LastErr(); l != wantErr || !e.r.LastErrTime().Equal(time.Unix(0, l)) {
			e.viol("C12", "last-err", "after %v: LastErr()=%d LastErrTime()=%v, want %d; %s", o, l, e.r.LastErrTime(), wantErr, fmtHist(hist))
		}
		if e.r.MaxAge() != int64(e.maxAge) || e.r.MaxErrAge() != int64(e.errAge) {
			e.viol("C11 C12", "ages", "MaxAge()=%d MaxErrAge()=%d", e.r.MaxAge(), e.r.MaxErrAge())
		}
		f, ed1 := fresh(e.now())
		ef, ed2 := errFresh(e.now())
		if !ed1 && !ed2 {
			v, err := e.r.Raw()
			if f && (v != m.val || err != nil) {
				e.viol("C11", "raw", "after %v: Raw()=#%d,%v want #%d; %s", o, v, err, m.val, fmtHist(hist))
			}
			if !f && ef && (v != 0 || err != m.err) {
				e.viol("C12", "raw", "after %v: Raw()=#%d,%v want zero and %v; %s", o, v, err, m.err, fmtHist(hist))
			}
		}
	}
	c.Count("ops", int64(nops))
	c.Count("cache_hits", int64(hits))
	c.Count("cached_errors_served", int64(errhits))
	c.Count("refresh_runs", int64(nruns))
	if c.Prop != "C06" || e.threw.Load() {
		c.Seen(kit.Hash("s", e.variant, e.maxAge, e.errAge, fmtHist(hist)))
	}
	if c.WantSample() && len(hist) < 16 {
		c.Sample(fmt.Sprintf("case %d %s maxAge=%v errAge=%v: %s", i, variantName(e.variant), e.maxAge, e.errAge, fmtHist(hist)))
	}
}

// ---- concurrent ----

var agesCtl = []time.Duration{-1, -1, 0, 10 * time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Hour, math.MaxInt64}
var errAgesCtl = []time.Duration{0, 0, 10 * time.Millisecond, 100 * time.Millisecond, math.MaxInt64}
var agesPar = []time.Duration{-1, 0, 10 * time.Hour, math.MaxInt64}
var errAgesPar = []time.Duration{0, 10 * time.Hour}

var ctlMixes = [][]kind{
	{kGet, kGet, kGet, kRefresh, kClear, kTick},
	{kGet, kGet, kTick},
	{kGet, kRefresh},
	{kGet, kClear, kRefresh, kSetRefresh, kSetClear},
	{kGet, kGet, kClear, kLast},
	{kGet, kRefresh, kTick, kLast, kClear},
}

func (e *env) genOp(r *rand.Rand, mix []kind, tag *int) *op {
	o := &op{k: mix[r.IntN(len(mix))], args: e.genArgs(r), plan: e.genPlan(r)}
	o.plan.yields = r.IntN(4)
	if r.IntN(4) == 0 {
		o.plan.spend = []time.Duration{time.Millisecond, 12 * time.Millisecond, 110 * time.Millisecond}[r.IntN(3)]
	}
	switch o.k {
	case kTick:
		o.d = []time.Duration{3 * time.Millisecond, 9 * time.Millisecond, 15 * time.Millisecond, 120 * time.Millisecond}[r.IntN(4)]
	case kSetRefresh, kSetClear:
		*tag++
		o.tag = *tag
	case kClear:
		if r.IntN(3) == 0 {
			o.cerr = errors.New("clear failed")
		}
		o.cpanic = e.c.Prop == "C06" && r.IntN(2) == 0
	}
	return o
}

func concurrent(c *kit.C, i int, r *rand.Rand, real bool) {
	if !real {
		vsched.ResetClock()
	}
	e := &env{c: c, variant: r.IntN(nVariants), real: real}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abandon); !ok {
				panic(p)
			}
		}
	}()
	mix := ctlMixes[r.IntN(len(ctlMixes))]
	if real {
		e.maxAge, e.errAge = agesPar[r.IntN(len(agesPar))], errAgesPar[r.IntN(len(errAgesPar))]
		if e.variant/3%2 == 1 { // the adapter of RefreshData keeps its functions in plain fields
			mix = slices.DeleteFunc(slices.Clone(mix), func(k kind) bool { return k == kSetRefresh || k == kSetClear })
		}
	} else {
		e.maxAge, e.errAge = agesCtl[r.IntN(len(agesCtl))], errAgesCtl[r.IntN(len(errAgesCtl))]
	}
	e.r = newR(e.variant, e.fn(1), e.maxAge, e.errAge)
	tag := 1
	var h []*op
	// A clear function, and functions set, are operations too.
	h = append(h, &op{k: kSetRefresh, tag: 1, call: e.stamp(), ret: e.stamp(), thread: -1, done: true})
	h = append(h, &op{k: kSetClear, tag: 0, call: e.stamp(), ret: e.stamp(), thread: -1, done: true})
	if r.IntN(2) == 0 {
		tag++
		o := &op{k: kSetClear, tag: tag}
		e.exec(o, -1)
		h = append(h, o)
	}
	e.alone(func() {
		for j := r.IntN(6); j > 0; j-- {
			o := e.genOp(r, mix, &tag)
			h = append(h, o)
			e.exec(o, -1)
		}
	})
	nt := 2 + r.IntN(3)
	threads := make([][]*op, nt)
	fns := make([]func(), nt)
	total := 0
	for t := range threads {
		for j := 1 + r.IntN(5); j > 0; j-- {
			threads[t] = append(threads[t], e.genOp(r, mix, &tag))
		}
		total += len(threads[t])
		fns[t] = func() {
			for _, o := range threads[t] {
				e.exec(o, t)
			}
		}
		h = append(h, threads[t]...)
	}
	var res vsched.Result
	var strat vsched.Strategy
	if real {
		var wg sync.WaitGroup
		var pan atomic.Value
		for t := range fns {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						pan.Store(fmt.Sprint(p))
					}
				}()
				fns[t]()
			}()
		}
		wg.Wait()
		if p := pan.Load(); p != nil {
			c.Fail("panic", "%v", p)
		}
	} else {
		strat = vsched.PickStrategy(r, total)
		res = vsched.Run(r.Uint64(), strat, 40000, fns...)
		if len(res.Panics) > 0 {
			c.Fail("panic", "%s", res.Panics[0])
		}
		if res.Deadlock != "" {
			e.viol("C06 C10 C11 C12 C13", "deadlock", "%s; %s", res.Deadlock, fmtHist(h))
		}
		if res.StepLimit {
			c.Inconclusive("step-limit")
			return
		}
	}
	if c.Trace {
		s := slices.Clone(h)
		sort.SliceStable(s, func(a, b int) bool { return s[a].call < s[b].call })
		for _, o := range s {
			c.Logf("%v", o)
		}
	}
	// Final reads.
	e.alone(func() {
		for j := 0; j < 2; j++ {
			o := &op{k: []kind{kLast, kGet}[j], plan: e.genPlan(r)}
			h = append(h, o)
			e.exec(o, 99)
			c.Logf("%v", o)
		}
	})
	ov, nr := 0, 0
	for a, x := range h {
		nr += len(x.runs)
		for _, y := range h[a+1:] {
			if x.thread != y.thread && x.call < y.ret && y.call < x.ret {
				ov++
			}
		}
	}
	c.Count("ops", int64(len(h)))
	c.Count("steps", int64(res.Steps))
	c.Count("refresh_runs", int64(nr))
	if ov > 0 && (c.Prop != "C06" || e.threw.Load()) {
		c.Seen(kit.Hash(res.Hash, e.variant, fmtHist(h)))
	}
	if c.WantSample() && ov > 2 {
		c.Sample(fmt.Sprintf("case %d %s maxAge=%v errAge=%v %v: %s", i, variantName(e.variant), e.maxAge, e.errAge, strat, fmtHist(h)))
	}
	e.judge(h)
}

// alone runs f while no other thread does; for C06 under the scheduler, which
// notices a lock that is never released.
func (e *env) alone(f func()) {
	if e.c.Prop != "C06" || e.real {
		f()
		return
	}
	res := vsched.Run(1, vsched.Strategy{}, 1<<20, f)
	if res.StepLimit && res.Steps == 0 {
		f() // there is no scheduler any more
	}
	if len(res.Panics) > 0 {
		e.c.Fail("panic", "%s", res.Panics[0])
	}
	if res.Deadlock != "" {
		e.c.Fail("deadlock", "%s", res.Deadlock)
	}
}

// judge applies the trace rules to a recorded history.
func (e *env) judge(h []*op) {
	var runs []*run
	var clears, sets, csets []*op
	for _, o := range h {
		runs = append(runs, o.runs...)
		switch o.k {
		case kClear:
			clears = append(clears, o)
		case kSetRefresh:
			sets = append(sets, o)
		case kSetClear:
			csets = append(csets, o)
		}
	}
	sort.Slice(runs, func(a, b int) bool { return runs[a].start < runs[b].start })
	hist := func() string { return fmtHist(h) }
	// C10: single flight.
	if e.overlap.Load() {
		e.viol("C10", "two-refreshes-at-once", "%s", hist())
	}
	for j := 1; j < len(runs); j++ {
		if runs[j].start < runs[j-1].end {
			e.viol("C10", "two-refreshes-at-once", "%s", hist())
		}
	}
	current := func(set []*op, tag int, o *op, at int64) bool {
		for _, s := range set {
			if s.tag != tag || s.call > at {
				continue
			}
			over := false
			for _, s2 := range set {
				if s.ret < s2.call && s2.ret < o.call {
					over = true
				}
			}
			if !over {
				return true
			}
		}
		return false
	}
	lastOK := 0
	for j, x := range runs {
		o := x.o
		if len(o.runs) > 1 || o.k != kGet && o.k != kRefresh {
			e.viol("C10", "refresh-count", "%v ran %d refresh functions; %s", o, len(o.runs), hist())
		}
		if o.k == kGet {
			for p := j - 1; p >= 0; p-- {
				P := runs[p]
				if P.p.out == oPanic {
					continue
				}
				cleared := false
				for _, k := range clears {
					if k.call < x.start && k.ret > P.end {
						cleared = true
					}
				}
				if cleared {
					break
				}
				if P.p.out == oOK && (e.maxAge < 0 || e.maxAge > 0 && x.t0-P.t1 < int64(e.maxAge)) {
					e.viol("C10", "redundant-refresh", "%v refreshed although the run %d-%d had just produced a fresh value; %s", o, P.start, P.end, hist())
				}
				if P.p.out == oErr && e.errAge > 0 && x.t0-P.t1 < int64(e.errAge) {
					e.viol("C10 C12", "redundant-refresh", "%v refreshed although the error of the run %d-%d is still cached; %s", o, P.start, P.end, hist())
				}
				break
			}
		}
		// C13
		if x.old != any(lastOK) {
			e.viol("C13", "refresh-old-value", "%v: the refresh function saw old value %v, want #%d; %s", o, x.old, lastOK, hist())
		}
		if !slices.Equal(x.args, e.r.Args(o.args)) || x.ctxVal != any(o) {
			e.viol("C13", "refresh-args", "%v: the refresh function got %v; %s", o, x.args, hist())
		}
		if !current(sets, x.tag, o, x.start) {
			e.viol("C13", "refresh-func", "%v ran function %d, which is not the one set; %s", o, x.tag, hist())
		}
		if x.p.out == oOK {
			lastOK = x.p.val
		}
		// results of the caller itself
		switch x.p.out {
		case oOK:
			if o.panicked != nil || o.err != nil || o.val != x.p.val {
				e.viol("C11", "own-result", "%v; %s", o, hist())
			}
		case oErr:
			if o.panicked != nil || o.err != x.p.err || o.val != x.p.val {
				e.viol("C12", "own-error", "%v; %s", o, hist())
			}
		case oPanic:
			if o.panicked == nil && o.err == nil {
				e.viol("C12", "panic-as-success", "%v; %s", o, hist())
			}
		}
	}
	for _, o := range h {
		if o.ctxBad != "" {
			e.viol("C13", "context", "%v: %s; %s", o, o.ctxBad, hist())
		}
		switch o.k {
		case kRefresh:
			if len(o.runs) != 1 {
				e.viol("C10", "refresh-count", "%v ran %d refresh functions; %s", o, len(o.runs), hist())
			}
		case kGet:
			if len(o.runs) > 0 {
				continue
			}
			if o.panicked != nil {
				e.viol("C11 C12", "panic", "%v panicked without running a refresh; %s", o, hist())
			}
			if o.err == nil {
				var R *run
				for _, x := range runs {
					if x.p.out == oOK && x.p.val == o.val && x.end < o.ret {
						R = x
					}
				}
				if R == nil {
					e.viol("C11 C12", "unknown-value", "%v: no refresh produced that value; %s", o, hist())
				}
				if e.maxAge == 0 && R.o.ret < o.call { // one that was still under way is as fresh as its own
					e.viol("C11", "stale-value", "%v did not refresh although the maximum age is zero; %s", o, hist())
				}
				if e.maxAge > 0 && R.o.ret < o.call && o.c0-R.o.c1 > int64(e.maxAge) {
					e.viol("C11", "stale-value", "%v served a value refreshed at %d when the clock read %d; %s", o, R.o.c1, o.c0, hist())
				}
				for _, x := range runs {
					if x.start > R.end && x.o.ret < o.call && x.p.out != oPanic {
						if x.p.out == oOK {
							e.viol("C11", "old-value", "%v served an older value than the one of %d-%d; %s", o, x.start, x.end, hist())
						}
						e.viol("C11 C12", "value-after-failure", "%v served a value although the refresh %d-%d failed later; %s", o, x.start, x.end, hist())
					}
				}
				for _, k := range clears {
					if R.o.ret < k.call && k.ret < o.call {
						e.viol("C11", "value-after-clear", "%v served a value invalidated by the Clear %d-%d; %s", o, k.call, k.ret, hist())
					}
				}
				continue
			}
			var F *run
			for _, x := range runs {
				if x.p.out == oErr && x.p.err == o.err && x.end < o.ret {
					F = x
				}
			}
			if F == nil || o.val != 0 {
				e.viol("C12", "unknown-error", "%v: no refresh produced that result; %s", o, hist())
			}
			if e.errAge <= 0 {
				e.viol("C12", "stale-error", "%v served a cached error although no error age is set; %s", o, hist())
			}
			if F.o.ret < o.call && o.c0-F.o.c1 > int64(e.errAge) {
				e.viol("C12", "stale-error", "%v served an error of %d when the clock read %d; %s", o, F.o.c1, o.c0, hist())
			}
			for _, x := range runs {
				if x.start > F.end && x.o.ret < o.call && x.p.out == oOK {
					e.viol("C12", "error-after-success", "%v served an error although the refresh %d-%d succeeded later; %s", o, x.start, x.end, hist())
				}
			}
		case kClear:
			for _, x := range o.clears {
				if !current(csets, x.tag, o, x.at) {
					e.viol("C13", "clear-func", "%v ran clear function %d; %s", o, x.tag, hist())
				}
				if !slices.Equal(x.args, e.r.Args(o.args)) || x.ctxVal != any(o) {
					e.viol("C13", "clear-args", "%v: the clear function got %v; %s", o, x.args, hist())
				}
				// The old value: the latest success at some moment of the call.
				ok := false
				latest := any(0)
				for _, y := range runs {
					if y.p.out != oOK || y.end >= x.at {
						continue
					}
					if y.o.ret < o.call {
						latest = y.p.val
					} else if any(y.p.val) == x.old {
						ok = true
					}
				}
				if !ok && x.old != latest {
					e.viol("C13", "clear-old-value", "%v: the clear function saw old value %v, latest was %v; %s", o, x.old, latest, hist())
				}
				quiet := true
				for _, y := range h {
					if (y.k == kGet || y.k == kRefresh) && y.call < o.ret && o.call < y.ret {
						quiet = false
					}
				}
				if quiet && x.last != 0 {
					e.viol("C13", "clear-before", "%v: the value was still valid when the clear function ran; %s", o, hist())
				}
				if o.cpanic && o.panicked == nil {
					e.viol("C13", "clear-result", "%v: panic of the clear function swallowed; %s", o, hist())
				}
				if !o.cpanic && (o.panicked != nil || o.err != o.cerr) {
					e.viol("C13", "clear-result", "%v: want %v; %s", o, o.cerr, hist())
				}
			}
			if len(o.clears) > 1 {
				e.viol("C13", "clear-func", "%v ran %d clear functions; %s", o, len(o.clears), hist())
			}
			if len(o.clears) == 0 && (o.err != nil || !current(csets, 0, o, o.ret)) {
				e.viol("C13", "clear-func", "%v ran no clear function; %s", o, hist())
			}
		case kLast:
			if o.last != 0 {
				ok := false
				for _, x := range runs {
					if x.p.out == oOK && x.end < o.ret && x.t1 <= o.last && o.last <= x.o.c1 {
						ok = true
					}
				}
				if !ok {
					e.viol("C11", "last", "%v is not the time of a success; %s", o, hist())
				}
			}
			for _, x := range runs {
				if x.p.out != oOK || x.o.ret >= o.call || o.last >= x.t1 {
					continue
				}
				inval := false
				for _, k := range clears {
					if k.ret > x.end && k.call < o.ret {
						inval = true
					}
				}
				for _, y := range runs {
					if y.p.out == oErr && y.end > x.end && y.start < o.ret {
						inval = true
					}
				}
				if !inval {
					e.viol("C11", "last", "%v does not report the success %d-%d; %s", o, x.start, x.end, hist())
				}
			}
		}
	}
}

func main() {
	all := func(c *kit.C) {
		if c.Leg == "par" {
			c.Cases("par", c.N(20000, 20), func(i int, r *rand.Rand) { concurrent(c, i, r, true) })
			return
		}
		vsched.EnableClock()
		c.Cases("seq", c.N(40000, 20), func(i int, r *rand.Rand) { sequential(c, i, r) })
		c.Cases("ctl", c.N(200000, 10), func(i int, r *rand.Rand) { concurrent(c, i, r, false) })
	}
	panics := func(c *kit.C) {
		vsched.EnableClock()
		c.Cases("refresh-seq", c.N(24000, 20), func(i int, r *rand.Rand) {
			failed := false
			res := vsched.Run(1, vsched.Strategy{}, 1<<20, func() { failed = c.Guard(func() { sequential(c, i, r) }) })
			if failed {
				c.Stop()
			}
			if len(res.Panics) > 0 {
				c.Fail("panic", "%s", res.Panics[0])
			}
			if res.Deadlock != "" {
				c.Fail("deadlock", "after a panic of a refresh or clear function: %s", res.Deadlock)
			}
		})
		c.Cases("refresh-ctl", c.N(90000, 16), func(i int, r *rand.Rand) { concurrent(c, i, r, false) })
	}
	kit.Main(map[string]func(*kit.C){"C06": panics, "C30": slow, "C10": all, "C11": all, "C12": all, "C13": all})
}
