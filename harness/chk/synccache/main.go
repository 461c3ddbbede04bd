// Monitors for synccache: C07 (live entries only, none lost), C08 (deleted
// callback exactly once), C09 (background trimming). All run on an instrumented
// build: virtual clock, controlled scheduler.
package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

const NK = 3

type kind uint8

const (
	oStore kind = iota
	oLoad
	oLOS
	oLAD
	oDelete
	oCAD
	oCVAD
	oRange
	oClear
	oTick
	oAddExp
	oSetExp
	oStart
	oClose
	oOther   // C30: calls on another cache
	oRemoved // in an oracle only: the removal done by a call whose callback panicked
	nKinds
)

var kindName = [nKinds]string{"Store", "Load", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndDelete", "CompareValueAndDelete", "Range", "Clear", "Tick", "AddExpiration", "SetExpiration", "Start", "Close", "(another cache)", "removal by"}

const slack = 2 // ms around an expiry in which either answer is accepted

type visit struct {
	key, id int
	at      int64
	nowMs   int64
}

type cbEvent struct {
	id     int
	at     int64
	nowMs  int64
	thread int
}

type op struct {
	k          kind
	key        int
	id         int // value id stored / compared / entry concerned
	d          time.Duration
	rid        int // id of the returned entry
	ok         bool
	call, ret  int64 // logical time
	c0, c1     int64 // clock (ms) at call and return
	thread     int
	visits     []visit
	stop       int
	cbs        []cbEvent // callbacks run by this call
	setTo      int64     // SetExpiration: absolute ms
	skipped    bool
	notZero    bool
	visitStamp int64

	// C06: what the user functions run by this call do
	calls  int  // user functions run so far (callbacks and visits)
	nestAt int  // at this one, perform the nested operations
	nested []op // recorded like any other operation
	panics int  // at this one, panic
	threw  bool
	slowAt int // C30: at this one, wait for all other threads to finish
}

func (o op) String() string {
	s := fmt.Sprintf("[t%d %d-%d @%d..%d] %s(k%d", o.thread, o.call, o.ret, o.c0, o.c1, kindName[o.k], o.key)
	switch o.k {
	case oStore:
		s += fmt.Sprintf(",#%d,%v)", o.id, o.d)
	case oLOS:
		s += fmt.Sprintf(",#%d,%v) = #%d,%v", o.id, o.d, o.rid, o.ok)
	case oLoad, oLAD:
		s += fmt.Sprintf(") = #%d,%v", o.rid, o.ok)
	case oCAD, oCVAD:
		s += fmt.Sprintf(",#%d) = %v", o.id, o.ok)
	case oTick:
		s = fmt.Sprintf("[t%d %d-%d @%d..%d] Tick(%v)", o.thread, o.call, o.ret, o.c0, o.c1, o.d)
	case oAddExp:
		s = fmt.Sprintf("[t%d %d-%d @%d..%d] #%d.AddExpiration(%v)", o.thread, o.call, o.ret, o.c0, o.c1, o.id, o.d)
	case oSetExp:
		s = fmt.Sprintf("[t%d %d-%d @%d..%d] #%d.SetExpiration(@%d)", o.thread, o.call, o.ret, o.c0, o.c1, o.id, o.setTo)
	case oRange:
		s += fmt.Sprintf(") visits=%v stop=%d", o.visits, o.stop)
	default:
		s += ")"
	}
	if o.threw {
		s += " PANICKED"
	}
	if o.slowAt > 0 {
		s += fmt.Sprintf(" (slow in user function %d)", o.slowAt)
	}
	if o.nestAt > 0 {
		s += fmt.Sprintf(" (calls back in user function %d)", o.nestAt)
	}
	if len(o.cbs) > 0 {
		s += " callbacks:"
		for _, e := range o.cbs {
			s += fmt.Sprintf(" #%d@%d", e.id, e.at)
		}
	}
	return s
}

type handle struct {
	e   ent
	id  int
	key int
}

type env struct {
	c       *kit.C
	s       S
	base    int64 // ms
	tick    int64 // logical clock
	nextID  int
	handles []handle
	curOp   map[int]*op // per thread
	stray   []cbEvent   // callbacks outside any operation
	hasCB   bool
	badEnt  string
	nestR   *rand.Rand
	slow    func() bool // C30: the slow user functions may return
	inSlow  int         // C30: user functions that are waiting
}

func (e *env) now() int64 { return vsched.NowNs()/1e6 - e.base }

func (e *env) stamp() int64 { e.tick++; return e.tick }

func (e *env) callback(v int) {
	ev := cbEvent{id: v, at: e.stamp(), nowMs: e.now(), thread: vsched.ThreadID()}
	if o := e.curOp[ev.thread]; o != nil {
		o.cbs = append(o.cbs, ev)
		e.user(o)
	} else {
		e.stray = append(e.stray, ev)
	}
}

func (e *env) got(x ent, k int) int {
	if x == nil {
		return 0
	}
	id := x.ID()
	for _, h := range e.handles {
		if h.id == id {
			if !h.e.Same(x) {
				e.badEnt = fmt.Sprintf("two different entries carry value #%d", id)
			}
			return id
		}
	}
	e.handles = append(e.handles, handle{x, id, k})
	return id
}

type userPanic struct{}

// user does what user functions do during o: nothing, or call back, or panic.
func (e *env) user(o *op) {
	o.calls++
	if o.calls == o.slowAt {
		e.inSlow++
		vsched.BlockUntil("the user function", e.slow)
		e.inSlow--
	}
	if o.calls == o.nestAt {
		e.c.Count("reentrant_functions", 1)
		for j := range o.nested {
			e.exec(e.nestR, &o.nested[j], o.thread)
		}
	}
	if o.calls == o.panics {
		e.c.Count("panicking_functions", 1)
		panic(userPanic{})
	}
}

func (e *env) exec(r *rand.Rand, o *op, thread int) {
	o.thread = thread
	slot := vsched.ThreadID()
	prev := e.curOp[slot]
	defer func() { e.curOp[slot] = prev }()
	e.curOp[slot] = o
	if o.panics > 0 {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(userPanic); !ok {
					panic(p)
				}
				o.threw = true
				o.ret, o.c1 = e.stamp(), e.now()
			}
		}()
	}
	switch o.k {
	case oCAD, oAddExp, oSetExp:
		// Use a handle obtained so far, preferring recent ones.
		if len(e.handles) == 0 {
			o.skipped = true
			return
		}
		n := len(e.handles)
		h := e.handles[n-1-r.IntN(min(n, 4))]
		o.id, o.key = h.id, h.key
		o.call, o.c0 = e.stamp(), e.now()
		switch o.k {
		case oCAD:
			o.ok = e.s.CAD(h.key, h.e)
		case oAddExp:
			h.e.Add(o.d)
		case oSetExp:
			o.setTo = e.now() + o.d.Milliseconds()
			h.e.Set(time.UnixMilli(e.base + o.setTo))
		}
		o.ret, o.c1 = e.stamp(), e.now()
		return
	}
	o.call, o.c0 = e.stamp(), e.now()
	switch o.k {
	case oStore:
		e.s.Store(o.key, o.id, o.d)
	case oLoad:
		var x ent
		x, o.ok = e.s.Load(o.key)
		o.notZero = x != nil && !o.ok
		if o.ok {
			o.rid = e.got(x, o.key)
		}
	case oLOS:
		var x ent
		x, o.ok = e.s.LoadOrStore(o.key, o.id, o.d)
		o.rid = e.got(x, o.key)
	case oLAD:
		var x ent
		x, o.ok = e.s.LoadAndDelete(o.key)
		o.notZero = x != nil && !o.ok
		if o.ok {
			o.rid = e.got(x, o.key)
		}
	case oDelete:
		e.s.Delete(o.key)
	case oCVAD:
		o.ok = e.s.CVAD(o.key, o.id)
	case oRange:
		n := 0
		e.s.Range(func(k int, x ent) bool {
			n++
			o.visits = append(o.visits, visit{k, e.got(x, k), e.stamp(), e.now()})
			e.user(o)
			return o.stop == 0 || n < o.stop
		})
	case oClear:
		e.s.Clear()
	case oTick:
		vsched.Advance(o.d)
	case oStart:
		e.s.Start()
	case oClose:
		e.s.Close()
	case oOther:
		otherCache(o.key)
	}
	o.ret, o.c1 = e.stamp(), e.now()
}

var durs = []time.Duration{0, -time.Second, 5 * time.Millisecond, 40 * time.Millisecond, 40 * time.Millisecond, 300 * time.Millisecond, time.Second, 3 * time.Second, 6 * time.Second, 20 * time.Second, 1000 * time.Hour, 1<<63 - 1}

func (e *env) gen(r *rand.Rand, mix []kind, nk int) op {
	o := op{k: mix[r.IntN(len(mix))], key: r.IntN(nk)}
	switch o.k {
	case oStore, oLOS:
		e.nextID++
		o.id, o.d = e.nextID, durs[r.IntN(len(durs))]
		if r.IntN(4) == 0 {
			o.d = time.Duration(1+r.IntN(60)) * time.Millisecond
		}
	case oCVAD:
		o.id = 1
		if e.nextID > 0 {
			o.id = max(1, e.nextID-r.IntN(6))
		}
	case oTick:
		o.d = []time.Duration{time.Millisecond, 7 * time.Millisecond, 20 * time.Millisecond, 45 * time.Millisecond, 310 * time.Millisecond, time.Second, 2100 * time.Millisecond, 5 * time.Second, 5100 * time.Millisecond, 11 * time.Second}[r.IntN(10)]
		if r.IntN(3) == 0 {
			o.d = time.Duration(1+r.IntN(70)) * time.Millisecond
		}
	case oAddExp:
		o.d = []time.Duration{30 * time.Millisecond, 2 * time.Second, 30 * time.Second, -30 * time.Millisecond, -3 * time.Second}[r.IntN(5)]
	case oSetExp:
		o.d = []time.Duration{40 * time.Millisecond, 4 * time.Second, 30 * time.Second, -time.Second, -time.Hour}[r.IntN(5)]
	case oRange:
		if r.IntN(5) == 0 {
			o.stop = 1
		}
	}
	return o
}

var mixes = [][]kind{
	{oStore, oLoad, oLOS, oLAD, oDelete, oCAD, oCVAD, oRange, oClear, oTick, oAddExp, oSetExp},
	{oStore, oLoad, oLOS, oTick, oTick},
	{oStore, oStore, oLoad, oTick, oRange},
	{oLOS, oLOS, oTick, oLoad, oLAD},
	{oStore, oLAD, oCAD, oCVAD, oDelete, oLoad},
	{oStore, oLoad, oAddExp, oSetExp, oTick},
	{oStore, oClear, oRange, oLOS, oTick},
	{oStore, oCVAD, oLoad, oLOS, oTick},
}

// ---- oracle for C07 ----

type st struct {
	cur    int // id of the entry in the map, 0 none
	lo, hi int64
	fuzzy  bool // may have been removed as expired before it was extended
}

// perKey checks one key's history: linearizable on a map whose entries have the
// expiry the recorded operations imply.
func (e *env) perKey(h []op, key int) (bool, bool, int, string) {
	var sub []op
	ext := map[int][]op{}
	where := map[int]int{} // id -> key
	for _, o := range h {
		if o.k == oStore || o.k == oLOS {
			where[o.id] = o.key
		}
		if o.k == oAddExp || o.k == oSetExp {
			ext[o.id] = append(ext[o.id], o)
		}
	}
	for _, o := range h {
		if o.threw {
			for _, x := range o.cbs {
				if where[x.id] == key {
					sub = append(sub, op{k: oRemoved, key: key, id: x.id, call: o.call, ret: x.at, c0: o.c0, c1: x.nowMs, thread: o.thread})
				}
			}
			if o.k != oRange {
				continue
			}
		}
		switch o.k {
		case oTick, oStart, oClose:
		case oAddExp, oSetExp:
			if o.key == key {
				sub = append(sub, o)
			}
		case oClear:
			sub = append(sub, o)
		case oRange:
			vis := false
			for _, v := range o.visits {
				if v.key == key {
					vis = true
					sub = append(sub, op{k: oLoad, key: key, rid: v.id, ok: true, call: o.call, ret: v.at, c0: o.c0, c1: v.nowMs, thread: o.thread})
				}
			}
			if !vis && !o.threw && (o.stop == 0 || len(o.visits) < o.stop) {
				sub = append(sub, op{k: oLoad, key: key, call: o.call, ret: o.ret, c0: o.c0, c1: o.c1, thread: o.thread})
			}
		default:
			if o.key == key {
				sub = append(sub, o)
			}
		}
	}
	kops := make([]kit.Op, len(sub))
	for i, o := range sub {
		kops[i] = kit.Op{Call: o.call, Ret: o.ret}
	}
	// disturbed: an extension of entry id overlaps o, so its expiry is not
	// known during o.
	disturbed := func(o *op, id int) bool {
		for _, x := range ext[id] {
			if x.call < o.ret && o.call < x.ret {
				return true
			}
		}
		return false
	}
	step := func(s st, i int) []st {
		o := &sub[i]
		mayLive := func() bool { return s.cur != 0 && (disturbed(o, s.cur) || s.hi+slack >= o.c0) }
		mayGone := func() bool {
			return s.cur == 0 || s.fuzzy || disturbed(o, s.cur) || s.lo-slack < o.c1
		}
		fresh := func(id int) st { return st{cur: id, lo: o.c0 + o.d.Milliseconds(), hi: o.c1 + o.d.Milliseconds()} }
		one := func(x st) []st { return []st{x} }
		switch o.k {
		case oStore:
			return one(fresh(o.id))
		case oLoad:
			if o.ok && o.rid == s.cur && mayLive() || !o.ok && mayGone() {
				return one(s)
			}
		case oLOS:
			if o.ok && o.rid == s.cur && mayLive() {
				return one(s)
			}
			if !o.ok && o.rid == o.id && mayGone() {
				return one(fresh(o.id))
			}
		case oLAD:
			if o.ok && o.rid == s.cur && mayLive() || !o.ok && mayGone() {
				return one(st{})
			}
		case oDelete, oClear:
			return one(st{})
		case oRemoved:
			if o.id == s.cur {
				return one(st{})
			}
		case oCAD:
			if o.ok && o.id == s.cur {
				return one(st{})
			}
			if !o.ok && (o.id != s.cur || mayGone()) {
				return one(s)
			}
		case oCVAD:
			if o.ok && o.id == s.cur && mayLive() {
				return one(st{})
			}
			if !o.ok && (o.id != s.cur || mayGone()) {
				return one(s)
			}
		case oAddExp, oSetExp:
			if o.id != s.cur {
				return one(s)
			}
			if s.lo-slack < o.c1 {
				s.fuzzy = true
			}
			if o.k == oAddExp {
				s.lo += o.d.Milliseconds()
				s.hi += o.d.Milliseconds()
			} else {
				s.lo, s.hi = o.setTo, o.setTo
			}
			return one(s)
		}
		return nil
	}
	ok, concl, n, best := kit.Lin(st{}, kops, step, 300000)
	why := ""
	if !ok && concl {
		var b strings.Builder
		fmt.Fprintf(&b, "key k%d: ", key)
		for _, o := range sub {
			b.WriteString(o.String() + "; ")
		}
		b.WriteString("longest explainable prefix: ")
		for _, i := range best {
			b.WriteString(sub[i].String() + "; ")
		}
		why = b.String()
	}
	return ok, concl, n, why
}

func (e *env) oracleLive(h []op) {
	if e.badEnt != "" {
		e.c.Fail("entry-identity", "%s", e.badEnt)
	}
	for _, o := range h {
		if o.notZero {
			e.c.Fail("miss-with-entry", "%v returned an entry with loaded=false", o)
		}
		seen := map[int]bool{}
		for _, v := range o.visits {
			if seen[v.key] {
				e.c.Fail("range-twice", "%v", o)
			}
			seen[v.key] = true
		}
		if o.stop > 0 && len(o.visits) > o.stop {
			e.c.Fail("range-not-stopped", "%v", o)
		}
	}
	for k := 0; k < NK; k++ {
		ok, concl, n, why := e.perKey(h, k)
		e.c.Count("lin_states", int64(n))
		if !concl {
			e.c.Inconclusive("lin")
		} else if !ok {
			e.c.Fail("not-explainable", "%s", why)
		}
	}
}

// ---- oracle for C08 ----

// oracleCallbacks decides whether removals, overwrites and callbacks match up.
// Every callback is a removal of that entry; every other call only constrains
// what is stored. The history must end with all entries removed by Clear.
func (e *env) oracleCallbacks(h []op) {
	c := e.c
	if len(e.stray) > 0 {
		c.Fail("stray-callback", "callback %v outside any call or pass", e.stray)
	}
	counts := map[int]int{}
	stored := map[int]int{} // id -> key
	life := map[int]bool{}  // id -> immortal
	extended := map[int]bool{}
	for _, o := range h {
		for _, ev := range o.cbs {
			counts[ev.id]++
		}
		if o.k == oStore || o.k == oLOS && !o.ok && !o.threw {
			stored[o.id] = o.key
			life[o.id] = o.d > time.Hour
		}
		if o.k == oAddExp || o.k == oSetExp {
			extended[o.id] = true
		}
	}
	for id, n := range counts {
		if n > 1 {
			c.Fail("callback-twice", "entry #%d: callback ran %d times: %s", id, n, fmtHist(h))
		}
		if _, ok := stored[id]; !ok {
			c.Fail("callback-unknown", "callback for #%d which was never stored: %s", id, fmtHist(h))
		}
	}
	has := func(o *op, id int) bool {
		for _, ev := range o.cbs {
			if ev.id == id {
				return true
			}
		}
		return false
	}
	for i := range h {
		o := &h[i]
		if o.threw {
			continue
		}
		switch o.k {
		case oLAD:
			if o.ok && !has(o, o.rid) {
				c.Fail("callback-missing", "%v removed #%d without running the callback", *o, o.rid)
			}
		case oCAD, oCVAD:
			if o.ok && !has(o, o.id) {
				c.Fail("callback-missing", "%v removed #%d without running the callback", *o, o.id)
			}
		case oStore, oAddExp, oSetExp:
			if len(o.cbs) > 0 {
				c.Fail("callback-unexpected", "%v ran a callback", *o)
			}
		}
	}
	type ev struct {
		what      int // 0 store, 1 store if none, 2 removal, 3 observed, 4 observed absent
		id        int
		call, ret int64
		text      string
	}
	for k := 0; k < NK; k++ {
		var evs []ev
		for i := range h {
			o := &h[i]
			last := o.call
			for _, x := range o.cbs {
				if stored[x.id] == k {
					evs = append(evs, ev{2, x.id, o.call, x.at, fmt.Sprintf("callback #%d in %v", x.id, *o)})
				}
				last = x.at
			}
			if o.k != oRange && (o.threw || o.k != oClear && o.key != k) {
				continue
			}
			switch o.k {
			case oStore:
				evs = append(evs, ev{0, o.id, o.call, o.ret, o.String()})
			case oLOS:
				if !o.ok {
					evs = append(evs, ev{1, o.id, last, o.ret, o.String()})
				} else {
					evs = append(evs, ev{3, o.rid, o.call, o.ret, o.String()})
				}
			case oLoad:
				if o.ok {
					evs = append(evs, ev{3, o.rid, o.call, o.ret, o.String()})
				} else {
					evs = append(evs, ev{4, 0, o.call, o.ret, o.String()})
				}
			case oLAD, oDelete:
				if len(o.cbs) == 0 {
					evs = append(evs, ev{4, 1, o.call, o.ret, o.String()})
				}
			case oClear:
				if o.thread == final {
					evs = append(evs, ev{4, 1, o.ret, o.ret + 1, "end: all removed"})
				}
			case oRange:
				for _, v := range o.visits {
					if v.key == k {
						evs = append(evs, ev{3, v.id, o.call, v.at, o.String()})
					}
				}
			}
		}
		kops := make([]kit.Op, len(evs))
		for i, x := range evs {
			kops[i] = kit.Op{Call: x.call, Ret: x.ret}
		}
		ok, concl, n, best := kit.Lin(0, kops, func(cur int, i int) []int {
			x := &evs[i]
			switch x.what {
			case 0:
				return []int{x.id}
			case 1:
				if cur == 0 {
					return []int{x.id}
				}
			case 2:
				if cur == x.id {
					return []int{0}
				}
			case 3:
				if cur == x.id {
					return []int{cur}
				}
			case 4:
				// A miss says the entry is gone unless it may just be expired.
				if cur == 0 || x.id == 0 && (!life[cur] || extended[cur]) {
					return []int{cur}
				}
			}
			return nil
		}, 300000)
		c.Count("lin_states", int64(n))
		if !concl {
			c.Inconclusive("lin")
		} else if !ok {
			var b strings.Builder
			for _, x := range evs {
				fmt.Fprintf(&b, "%s; ", x.text)
			}
			b.WriteString("longest explainable prefix: ")
			for _, i := range best {
				b.WriteString(evs[i].text + "; ")
			}
			c.Fail("callbacks-do-not-match-removals", "key k%d: %s", k, b.String())
		}
	}
}

const final = 99

func fmtHist(h []op) string {
	var b strings.Builder
	for _, o := range h {
		b.WriteString(o.String() + "; ")
	}
	return b.String()
}

func overlaps(h []op) int {
	n := 0
	for i := range h {
		for j := i + 1; j < len(h); j++ {
			if h[i].thread != h[j].thread && h[i].call < h[j].ret && h[j].call < h[i].ret {
				n++
			}
		}
	}
	return n
}

// run executes one random program. nt = 1 gives a sequential history.
func run(c *kit.C, i int, r *rand.Rand, nt int, withCB bool, oracle func(e *env, h []op)) {
	e := &env{c: c, base: vsched.NowNs() / 1e6, curOp: map[int]*op{}, hasCB: withCB}
	variant := r.IntN(nVariants)
	var cb func(int)
	if withCB {
		cb = e.callback
	}
	e.s = newCache(variant, r.IntN(3) == 0, cb)
	defer e.s.Close()
	vsched.Align(5 * time.Second)
	vsched.Advance(time.Duration(r.IntN(5000)) * time.Millisecond) // random phase of the trimming ticker
	e.base = vsched.NowNs() / 1e6
	nk := 1 + r.IntN(NK)
	if nt > 1 && r.IntN(2) == 0 {
		nk = 1
	}
	mix := mixes[r.IntN(len(mixes))]
	var pre []op
	for j := r.IntN(8); j > 0; j-- {
		pre = append(pre, e.gen(r, mix, nk))
	}
	if nt == 1 {
		for j := 8 + r.IntN(45); j > 0; j-- {
			pre = append(pre, e.gen(r, mix, nk))
		}
	}
	if len(pre) > 50 {
		pre = pre[:50]
	}
	var h []op
	for j := range pre {
		e.exec(r, &pre[j], -1)
		c.Logf("%v", pre[j])
		if !pre[j].skipped {
			h = append(h, pre[j])
		}
	}
	var res vsched.Result
	var strat vsched.Strategy
	if nt > 1 {
		threads := make([][]op, nt)
		fns := make([]func(), nt)
		seeds := make([]*rand.Rand, nt)
		total := 0
		for t := range threads {
			for j := 1 + r.IntN(4); j > 0; j-- {
				threads[t] = append(threads[t], e.gen(r, mix, nk))
			}
			total += len(threads[t])
			seeds[t] = rand.New(rand.NewPCG(r.Uint64(), 1))
			ops := threads[t]
			fns[t] = func() {
				for j := range ops {
					e.exec(seeds[t], &ops[j], t)
				}
			}
		}
		strat = vsched.PickStrategy(r, total*2)
		res = vsched.Run(r.Uint64(), strat, 40000, fns...)
		for t := range threads {
			for _, o := range threads[t] {
				if !o.skipped {
					h = append(h, o)
					c.Logf("%v", o)
				}
			}
		}
		c.Count("steps", int64(res.Steps))
		if len(res.Panics) > 0 {
			c.Fail("panic", "%s", res.Panics[0])
		}
		if res.Deadlock != "" {
			c.Fail("deadlock", "%s", res.Deadlock)
		}
		if res.StepLimit {
			c.Inconclusive("step-limit")
			return
		}
	}
	// Read everything back.
	for k := 0; k < NK; k++ {
		o := op{k: oLoad, key: k}
		e.exec(r, &o, 98)
		c.Logf("%v", o)
		h = append(h, o)
	}
	if withCB {
		o := op{k: oClear}
		e.exec(r, &o, final)
		c.Logf("%v", o)
		h = append(h, o)
	}
	c.Count("ops", int64(len(h)))
	ncb, nexp := 0, 0
	for _, o := range h {
		ncb += len(o.cbs)
		if o.k == oTick {
			nexp++
		}
	}
	c.Count("callbacks", int64(ncb))
	c.Count("clock_advances", int64(nexp))
	ov := overlaps(h)
	if nt == 1 || ov > 0 {
		c.Seen(kit.Hash(res.Hash, fmtHist(h)))
	}
	if c.WantSample() && (ov > 2 || nt == 1 && len(h) < 24) {
		c.Sample(fmt.Sprintf("case %d SyncCache[%s] %v: %s", i, variantName[variant], strat, fmtHist(h)))
	}
	oracle(e, h)
}

func main() {
	vsched.EnableClock()
	// The background goroutine is started here, outside any controlled run.
	newCache(0, false, nil).Close()
	live := func(e *env, h []op) { e.oracleLive(h) }
	cbs := func(e *env, h []op) { e.oracleCallbacks(h) }
	kit.Main(map[string]func(*kit.C){
		"C07": func(c *kit.C) {
			c.Cases("seq", c.N(24000, 12), func(i int, r *rand.Rand) { run(c, i, r, 1, i%3 == 0, live) })
			c.Cases("big", c.N(400, 20), func(i int, r *rand.Rand) { big(c, i, r, "C07") })
			lookalikes(c, "alike", c.N(2000, 10))
			c.Cases("equal", c.N(24000, 20), func(i int, r *rand.Rand) { equalValues(c, i, r) })
			c.Cases("ctl", c.N(144000, 8), func(i int, r *rand.Rand) { run(c, i, r, 2+r.IntN(2), i%3 == 0, live) })
		},
		"C08": func(c *kit.C) {
			c.Cases("seq", c.N(24000, 12), func(i int, r *rand.Rand) { run(c, i, r, 1, true, cbs) })
			c.Cases("big", c.N(400, 20), func(i int, r *rand.Rand) { big(c, i, r, "C08") })
			c.Cases("ctl", c.N(144000, 8), func(i int, r *rand.Rand) { run(c, i, r, 2+r.IntN(2), true, cbs) })
		},
		"C06": callbacks,
		"C30": slow,
		"C09": trimming,
	})
}
