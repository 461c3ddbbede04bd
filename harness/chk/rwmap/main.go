// Monitors for rwmap: C01 linearizability, C02 atomic Clear, C03 Len, C04 Range.
package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"verif.local/h/kit"
	"verif.local/h/vsched"
)

const NK = 6 // keys

type kind uint8

const (
	oLoad kind = iota
	oStore
	oSwap
	oLoadOrStore
	oLoadAndDelete
	oDelete
	oCAS
	oCAD
	oClear
	oRange
	oMissSpin // a burst of loads of an absent key: drives promotion
	oLen      // Len and SlowLen, results not judged
	nKinds
)

var kindName = [nKinds]string{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Clear", "Range", "MissSpin", "Len"}

type op struct {
	k         kind
	key       int
	a, b      int // argument value ids
	rv        int
	ok        bool
	call, ret int64
	thread    int
	// Range only
	visits []visit
	stop   int  // stop after this many visits (0: never)
	nested []op // operations performed by the callback (recorded separately)
	nestAt int
	panics int  // panic at this visit (0: never)
	threw  bool // it did
}

type visit struct {
	key, val int
	at       int64
}

func (o op) String() string {
	s := fmt.Sprintf("[t%d %d-%d] %s(", o.thread, o.call, o.ret, kindName[o.k])
	switch o.k {
	case oClear, oLen:
		s += ")"
	case oRange:
		s += fmt.Sprintf(") visits=%v stop=%d", o.visits, o.stop)
		if o.nestAt > 0 {
			s += fmt.Sprintf(" nested@%d=%d", o.nestAt, len(o.nested))
		}
		if o.threw {
			s += " callback panicked"
		}
	case oLoad, oLoadAndDelete:
		s += fmt.Sprintf("k%d) = %d,%v", o.key, o.rv, o.ok)
	case oDelete, oMissSpin:
		s += fmt.Sprintf("k%d)", o.key)
	case oStore:
		s += fmt.Sprintf("k%d,%d)", o.key, o.a)
	case oCAS:
		s += fmt.Sprintf("k%d,%d->%d) = %v", o.key, o.a, o.b, o.ok)
	case oCAD:
		s += fmt.Sprintf("k%d,%d) = %v", o.key, o.a, o.ok)
	default:
		s += fmt.Sprintf("k%d,%d) = %d,%v", o.key, o.a, o.rv, o.ok)
	}
	return s
}

type state [NK]int32 // value id + 1, 0 = absent

// step applies the operation to the model; it returns false if the recorded
// result is not what a plain map would have produced.
func step(s state, o *op) (state, bool) {
	cur := s[o.key]
	switch o.k {
	case oLoad:
		return s, o.ok == (cur != 0) && (cur == 0 && o.rv == 0 || cur != 0 && o.rv == int(cur-1))
	case oStore:
		s[o.key] = int32(o.a) + 1
		return s, true
	case oSwap:
		good := o.ok == (cur != 0) && (cur == 0 && o.rv == 0 || cur != 0 && o.rv == int(cur-1))
		s[o.key] = int32(o.a) + 1
		return s, good
	case oLoadOrStore:
		if cur != 0 {
			return s, o.ok && o.rv == int(cur-1)
		}
		s[o.key] = int32(o.a) + 1
		return s, !o.ok && o.rv == o.a
	case oLoadAndDelete:
		good := o.ok == (cur != 0) && (cur == 0 && o.rv == 0 || cur != 0 && o.rv == int(cur-1))
		s[o.key] = 0
		return s, good
	case oDelete:
		s[o.key] = 0
		return s, true
	case oCAS:
		if cur != 0 && int(cur-1) == o.a {
			s[o.key] = int32(o.b) + 1
			return s, o.ok
		}
		return s, !o.ok
	case oCAD:
		if cur != 0 && int(cur-1) == o.a {
			s[o.key] = 0
			return s, o.ok
		}
		return s, !o.ok
	case oClear:
		return state{}, true
	}
	return s, true
}

type env struct {
	c      *kit.C
	m      M
	clock  atomic.Int64
	nextID int
	ids    [NK][]int // ids ever used per key (for compare arguments)
	vals   int       // 0: unique values, else number of distinct ids
}

func (e *env) newID(r *rand.Rand, key int) int {
	e.nextID++
	id := e.m.Norm(e.nextID)
	if e.vals > 0 {
		id = e.m.Norm(r.IntN(e.vals) + 1)
	}
	e.ids[key] = append(e.ids[key], id)
	return id
}

func (e *env) oldID(r *rand.Rand, key int) int {
	if n := len(e.ids[key]); n > 0 && r.IntN(8) != 0 {
		lo := 0
		if n > 3 && r.IntN(3) != 0 {
			lo = n - 3
		}
		return e.ids[key][lo+r.IntN(n-lo)]
	}
	return e.m.Norm(0)
}

// exec performs the operation and records its interval and result.
func (e *env) exec(o *op) {
	o.call = e.clock.Add(1)
	switch o.k {
	case oLoad:
		o.rv, o.ok = e.m.Load(o.key)
	case oStore:
		e.m.Store(o.key, o.a)
	case oSwap:
		o.rv, o.ok = e.m.Swap(o.key, o.a)
	case oLoadOrStore:
		o.rv, o.ok = e.m.LoadOrStore(o.key, o.a)
	case oLoadAndDelete:
		o.rv, o.ok = e.m.LoadAndDelete(o.key)
	case oDelete:
		e.m.Delete(o.key)
	case oCAS:
		o.ok = e.m.CAS(o.key, o.a, o.b)
	case oCAD:
		o.ok = e.m.CAD(o.key, o.a)
	case oClear:
		e.m.Clear()
	case oLen:
		e.m.Len()
		e.m.SlowLen()
	case oMissSpin:
		for i := 0; i < o.a; i++ {
			e.m.Load(NK + 1)
		}
	case oRange:
		n := 0
		run := func() {
			e.m.Range(func(k, v int) bool {
				o.visits = append(o.visits, visit{k, v, e.clock.Add(1)})
				n++
				if n == o.nestAt {
					for i := range o.nested {
						e.exec(&o.nested[i])
					}
				}
				if n == o.panics {
					panic(callbackPanic{n})
				}
				return o.stop == 0 || n < o.stop
			})
		}
		if o.panics > 0 {
			o.threw = e.catch(run)
		} else {
			run()
		}
	}
	o.ret = e.clock.Add(1)
}

type callbackPanic struct{ n int }

// catch runs f as a caller would that recovers from a panicking callback.
func (e *env) catch(f func()) (threw bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(callbackPanic); !ok {
				panic(p)
			}
			threw = true
		}
	}()
	f()
	return false
}

// mixes of operation kinds
var mixes = [][]kind{
	{oLoad, oStore, oSwap, oLoadOrStore, oLoadAndDelete, oDelete, oCAS, oCAD},
	{oStore, oLoadAndDelete, oLoadOrStore, oLoad},
	{oCAS, oCAS, oCAD, oStore, oLoadAndDelete},
	{oLoadOrStore, oLoadAndDelete, oLoadOrStore, oDelete},
	{oStore, oDelete, oLoad, oMissSpin},
	{oSwap, oCAD, oLoadOrStore, oMissSpin},
	{oLoad, oStore, oDelete},
}

func (e *env) gen(r *rand.Rand, mix []kind, nkeys int) op {
	o := op{k: mix[r.IntN(len(mix))], key: r.IntN(nkeys)}
	switch o.k {
	case oStore, oSwap, oLoadOrStore:
		o.a = e.newID(r, o.key)
	case oCAS:
		o.a = e.oldID(r, o.key)
		o.b = e.newID(r, o.key)
	case oCAD:
		o.a = e.oldID(r, o.key)
	case oMissSpin:
		o.a = 1 + r.IntN(8)
	}
	return o
}

// sequential runs n random operations and checks each against the model.
func (e *env) sequential(r *rand.Rand, s state, n int, mix []kind, what string) state {
	for i := 0; i < n; i++ {
		o := e.gen(r, mix, NK)
		e.exec(&o)
		e.c.Logf("%s %v", what, o)
		var good bool
		if o.k == oRange {
			good = rangeMatches(s, &o)
		} else if o.k != oMissSpin {
			s, good = step(s, &o)
		} else {
			good = true
		}
		if !good {
			e.c.Fail("sequential-result", "%s: %v, plain map %v", what, o, s)
		}
	}
	return s
}

func rangeMatches(s state, o *op) bool {
	seen := state{}
	for _, v := range o.visits {
		if v.key < 0 || v.key >= NK || seen[v.key] != 0 {
			return false
		}
		seen[v.key] = int32(v.val) + 1
	}
	return seen == s
}

var seqMix = []kind{oLoad, oStore, oSwap, oLoadOrStore, oLoadAndDelete, oDelete, oCAS, oCAD, oRange, oMissSpin, oStore, oLoad}

// quiesce reads everything back in several ways. The first read of all keys is
// returned as operations (part of the concurrent history); afterwards the state
// is known exactly and further operations are checked sequentially.
func (e *env) quiesce() []op {
	var ops []op
	for k := 0; k < NK; k++ {
		o := op{k: oLoad, key: k, thread: 99}
		e.exec(&o)
		ops = append(ops, o)
	}
	return ops
}

func stateOf(loads []op) state {
	var s state
	for _, o := range loads {
		if o.ok {
			s[o.key] = int32(o.rv) + 1
		}
	}
	return s
}

func (e *env) checkLen(s state, what string) {
	n := int64(0)
	for _, v := range s {
		if v != 0 {
			n++
		}
	}
	var seen int64
	e.m.Range(func(int, int) bool { seen++; return true })
	if l, sl := e.m.Len(), e.m.SlowLen(); l != n || sl != n || seen != n {
		e.c.Fail("len", "%s: Len()=%d SlowLen()=%d Range visits %d, but %d keys are present: %v", what, l, sl, seen, n, s)
	}
}

type program struct {
	variant int
	threads [][]op
	nkeys   int
	mixName string
}

// history flattens executed operations, including nested ones.
func history(threads [][]op) []op {
	var h []op
	for t := range threads {
		for i := range threads[t] {
			o := &threads[t][i]
			h = flatten(h, o, t)
		}
	}
	return h
}

func flatten(h []op, o *op, t int) []op {
	o.thread = t
	h = append(h, *o)
	if o.k == oRange {
		for j := range o.nested {
			if o.nested[j].ret != 0 {
				h = flatten(h, &o.nested[j], t)
			}
		}
	}
	return h
}

func fmtHist(h []op) string {
	var b strings.Builder
	for _, o := range h {
		b.WriteString(o.String() + "; ")
	}
	return b.String()
}

// overlaps counts pairs of operations of different threads that overlap in time.
func overlaps(h []op) int {
	n := 0
	for i := range h {
		for j := i + 1; j < len(h); j++ {
			if h[i].thread != h[j].thread && h[i].call < h[j].ret && h[j].call < h[i].ret {
				n++
			}
		}
	}
	return n
}

func linWhole(c *kit.C, init state, h []op) {
	kops := make([]kit.Op, 0, len(h))
	idx := []int{}
	for i, o := range h {
		if o.k == oMissSpin || o.k == oLen || o.k == oRange {
			continue
		}
		kops = append(kops, kit.Op{Call: o.call, Ret: o.ret})
		idx = append(idx, i)
	}
	ok, concl, n, best := kit.Lin(init, kops, func(s state, i int) []state {
		ns, good := step(s, &h[idx[i]])
		if !good {
			return nil
		}
		return []state{ns}
	}, 500000)
	c.Count("lin_states", int64(n))
	if !concl {
		c.Inconclusive("lin")
		return
	}
	if !ok {
		var pre []string
		for _, b := range best {
			pre = append(pre, h[idx[b]].String())
		}
		c.Fail("not-linearizable", "initial state (value id+1 per key, 0 absent) %v; history: %s; longest linearizable prefix: %v", init, fmtHist(h), pre)
	}
}

// linPerKey checks every key separately, with each Range decomposed into one
// read per key: a visited key was read between the start of the Range and the
// visit, an omitted one was absent at some instant during the call.
func linPerKey(c *kit.C, init state, h []op) {
	for k := 0; k < NK; k++ {
		var sub []op
		for _, o := range h {
			switch o.k {
			case oMissSpin, oLen:
			case oClear:
				sub = append(sub, o)
			case oRange:
				vis := false
				for _, v := range o.visits {
					if v.key == k {
						vis = true
						sub = append(sub, op{k: oLoad, key: k, rv: v.val, ok: true, call: o.call, ret: v.at, thread: o.thread})
					}
				}
				if !vis && !o.threw && (o.stop == 0 || len(o.visits) < o.stop) {
					sub = append(sub, op{k: oLoad, key: k, ok: false, call: o.call, ret: o.ret, thread: o.thread})
				}
			default:
				if o.key == k {
					sub = append(sub, o)
				}
			}
		}
		kops := make([]kit.Op, len(sub))
		for i, o := range sub {
			kops[i] = kit.Op{Call: o.call, Ret: o.ret}
		}
		ok, concl, n, _ := kit.Lin(init[k], kops, func(v int32, i int) []int32 {
			var s state
			s[k] = v
			o := sub[i]
			ns, good := step(s, &o)
			if !good {
				return nil
			}
			return []int32{ns[k]}
		}, 300000)
		c.Count("lin_states", int64(n))
		if !concl {
			c.Inconclusive("lin")
			continue
		}
		if !ok {
			c.Fail("range-inconsistent", "key k%d, initially %d (value id+1): %s; full history %s", k, init[k], fmtHist(sub), fmtHist(h))
		}
	}
}

func checkVisits(c *kit.C, h []op) {
	for _, o := range h {
		if o.k != oRange {
			continue
		}
		seen := map[int]bool{}
		for _, v := range o.visits {
			if seen[v.key] {
				c.Fail("range-twice", "key k%d visited twice: %v", v.key, o)
			}
			seen[v.key] = true
			if v.key < 0 || v.key >= NK {
				c.Fail("range-unknown-key", "%v", o)
			}
		}
		if o.stop > 0 && len(o.visits) > o.stop {
			c.Fail("range-not-stopped", "callback returned false at visit %d: %v", o.stop, o)
		}
	}
}

// spec describes what a property wants in its programs and which oracle runs.
type spec struct {
	clear, rng bool
	oracle     func(e *env, init state, h []op)
	lenCheck   bool
	nested     bool
	panics     bool // Range callbacks may panic, nest deeper and read Len; all runs under the scheduler
}

func (e *env) build(r *rand.Rand, sp spec, maxOps int) program {
	p := program{nkeys: 1 + r.IntN(3)}
	mix := mixes[r.IntN(len(mixes))]
	if sp.clear {
		mix = append(append([]kind{}, mix...), oClear)
		if r.IntN(2) == 0 {
			mix = append(mix, oClear)
		}
	}
	if sp.rng {
		mix = append(append([]kind{}, mix...), oRange, oRange)
		p.nkeys = 2 + r.IntN(NK-2)
	}
	nt := 2 + r.IntN(3)
	left := maxOps
	for t := 0; t < nt; t++ {
		n := 1 + r.IntN(5)
		if n > left {
			n = left
		}
		left -= n
		var ops []op
		for i := 0; i < n; i++ {
			o := e.gen(r, mix, p.nkeys)
			if o.k == oRange {
				if r.IntN(4) == 0 {
					o.stop = 1 + r.IntN(3)
				}
				if sp.panics && r.IntN(2) == 0 {
					o.panics = 1 + r.IntN(3)
				}
				if sp.nested && r.IntN(2) == 0 {
					o.nestAt = 1 + r.IntN(3)
					for j := 1 + r.IntN(3); j > 0; j-- {
						n := e.gen(r, mixes[0], p.nkeys)
						if sp.clear && r.IntN(5) == 0 {
							n = op{k: oClear}
						}
						if sp.panics && r.IntN(3) == 0 {
							n = e.deep(r, sp, p.nkeys, 2)
						}
						o.nested = append(o.nested, n)
					}
				}
			}
			ops = append(ops, o)
		}
		p.threads = append(p.threads, ops)
	}
	return p
}

// deep is a Range (or Len) inside a Range, itself with nested operations.
func (e *env) deep(r *rand.Rand, sp spec, nkeys, depth int) op {
	if r.IntN(3) == 0 {
		return op{k: oLen}
	}
	o := op{k: oRange}
	if r.IntN(3) == 0 {
		o.stop = 1 + r.IntN(3)
	}
	if r.IntN(3) == 0 {
		o.panics = 1 + r.IntN(2)
	}
	if depth > 0 && r.IntN(2) == 0 {
		o.nestAt = 1 + r.IntN(2)
		for j := 1 + r.IntN(2); j > 0; j-- {
			switch {
			case r.IntN(3) == 0:
				o.nested = append(o.nested, e.deep(r, sp, nkeys, depth-1))
			case sp.clear && r.IntN(4) == 0:
				o.nested = append(o.nested, op{k: oClear})
			default:
				o.nested = append(o.nested, e.gen(r, mixes[0], nkeys))
			}
		}
	}
	return o
}

func newEnv(c *kit.C, r *rand.Rand) (*env, int) {
	variant := 0
	if r.IntN(3) != 0 {
		variant = r.IntN(nVariants)
	}
	e := &env{c: c, m: newMap(variant)}
	if r.IntN(3) == 0 {
		e.vals = 1 + r.IntN(3)
	}
	return e, variant
}

// prelude brings the map into an arbitrary internal state.
func (e *env) prelude(r *rand.Rand) state {
	var s state
	if r.IntN(6) == 0 {
		return s
	}
	mix := seqMix
	if r.IntN(2) == 0 {
		mix = append(append([]kind{}, seqMix...), oClear)
	}
	return e.sequential(r, s, r.IntN(30), mix, "prelude")
}

func (e *env) postlude(r *rand.Rand, s state, sp spec) {
	if sp.lenCheck {
		e.checkLen(s, "at quiescence")
	}
	// More sequential life on the same map: promotions, re-creation of the
	// dirty map, etc. must not change what was acknowledged.
	s = e.sequential(r, s, 4+r.IntN(16), seqMix, "postlude")
	if sp.lenCheck {
		e.checkLen(s, "after the postlude")
	}
}

func controlled(c *kit.C, sub string, n int, sp spec) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		e, variant := newEnv(c, r)
		c.Logf("variant RWMap[%s]", variantName[variant])
		init := e.prelude(r)
		p := e.build(r, sp, 14)
		total := 0
		fns := make([]func(), len(p.threads))
		for t := range p.threads {
			ops := p.threads[t]
			total += len(ops)
			fns[t] = func() {
				for j := range ops {
					e.exec(&ops[j])
				}
			}
		}
		st := vsched.PickStrategy(r, total)
		res := vsched.Run(r.Uint64(), st, 20000, fns...)
		h := history(p.threads)
		for _, o := range h {
			c.Logf("%v", o)
		}
		c.Count("steps", int64(res.Steps))
		c.Count("ops", int64(len(h)))
		ov := overlaps(h)
		c.Count("overlapping_pairs", int64(ov))
		user := false
		for _, o := range h {
			if o.threw {
				c.Count("panicking_callbacks", 1)
				user = true
			}
			if sp.panics && len(o.nested) > 0 && len(o.visits) >= o.nestAt {
				c.Count("reentrant_callbacks", 1)
				user = true
			}
		}
		if ov > 0 && !sp.panics || user {
			c.Seen(kit.Hash(res.Hash, fmtHist(h)))
		}
		if ov > 2 && c.WantSample() {
			c.Sample(fmt.Sprintf("case %d RWMap[%s] %v init=%v: %s", i, variantName[variant], st, init, fmtHist(h)))
		}
		verdict(c, res)
		if res.StepLimit {
			return
		}
		after := func() {
			fin := e.quiesce()
			sp.oracle(e, init, append(h, fin...))
			e.postlude(r, stateOf(fin), sp)
		}
		if !sp.panics {
			after()
			return
		}
		failed := false
		res = vsched.Run(r.Uint64(), st, 40000, func() { failed = c.Guard(after) })
		if failed {
			c.Stop()
		}
		verdict(c, res)
	})
}

func verdict(c *kit.C, res vsched.Result) {
	if len(res.Panics) > 0 {
		c.Fail("panic", "%s", res.Panics[0])
	}
	if res.Deadlock != "" {
		c.Fail("deadlock", "%s", res.Deadlock)
	}
	if res.StepLimit {
		c.Inconclusive("step-limit")
	}
}

// parallel runs the same programs on real goroutines.
func parallel(c *kit.C, sub string, n int, sp spec) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		e, variant := newEnv(c, r)
		init := e.prelude(r)
		p := e.build(r, sp, 14)
		var wg sync.WaitGroup
		var ready atomic.Int32
		var pan atomic.Value
		for t := range p.threads {
			ops := p.threads[t]
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						pan.Store(fmt.Sprint(x))
					}
				}()
				ready.Add(1)
				for int(ready.Load()) < len(p.threads) {
					runtime.Gosched()
				}
				for j := range ops {
					e.exec(&ops[j])
				}
			}()
		}
		wg.Wait()
		if x := pan.Load(); x != nil {
			c.Fail("panic", "%v", x)
		}
		h := history(p.threads)
		c.Count("ops", int64(len(h)))
		ov := overlaps(h)
		c.Count("overlapping_pairs", int64(ov))
		if ov > 0 {
			c.Seen(kit.Hash(fmtHist(h)))
		}
		if ov > 3 && c.WantSample() {
			c.Sample(fmt.Sprintf("case %d RWMap[%s] parallel init=%v: %s", i, variantName[variant], init, fmtHist(h)))
		}
		fin := e.quiesce()
		sp.oracle(e, init, append(h, fin...))
		e.postlude(r, stateOf(fin), sp)
	})
}

// long sequential runs on larger maps, every result and Len checked.
func sequentialLong(c *kit.C, sub string, n int, checkLen bool) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		variant := i % nVariants
		m := newMap(variant)
		nk := []int{1, 3, 8, 40, 120}[r.IntN(5)]
		model := map[int]int{}
		ops := 200 + r.IntN(400)
		id := 0
		used := []int{m.Norm(0)}
		if nk > 100 { // start well filled, in one of the internal shapes
			nk = capKeys(variant, []int{120, 700, 4000}[r.IntN(3)])
			for k := 0; k < nk; k++ {
				if r.IntN(5) > 0 {
					id++
					v := m.Norm(id)
					m.Store(k, v)
					model[k] = v
				}
			}
			for x := r.IntN(2 * nk); x > 0; x-- {
				m.Load(nk + 1)
			}
			if r.IntN(2) == 0 {
				for k := range model {
					if r.IntN(3) == 0 {
						m.Delete(k)
						delete(model, k)
					}
				}
			}
			c.Max("most_keys", int64(len(model)))
		}
		for j := 0; j < ops; j++ {
			k := r.IntN(nk)
			cur, has := model[k]
			nid := func() int {
				id++
				x := m.Norm(id)
				if r.IntN(4) == 0 {
					x = used[r.IntN(len(used))]
				}
				used = append(used, x)
				return x
			}
			bad := func(what string, got ...any) {
				c.Fail("sequential-result", "RWMap[%s] step %d: %s = %v; plain map has %v,%v", variantName[variant], j, what, got, cur, has)
			}
			pick := r.IntN(100)
			switch {
			case pick < 18:
				v, ok := m.Load(k)
				if ok != has || (has && v != cur) || (!has && v != 0) {
					bad(fmt.Sprintf("Load(%d)", k), v, ok)
				}
			case pick < 34:
				v := nid()
				m.Store(k, v)
				model[k] = v
			case pick < 44:
				v := nid()
				p, ok := m.Swap(k, v)
				if ok != has || (has && p != cur) || (!has && p != 0) {
					bad(fmt.Sprintf("Swap(%d,%d)", k, v), p, ok)
				}
				model[k] = v
			case pick < 54:
				v := nid()
				a, ok := m.LoadOrStore(k, v)
				want := cur
				if !has {
					want = v
					model[k] = v
				}
				if ok != has || a != want {
					bad(fmt.Sprintf("LoadOrStore(%d,%d)", k, v), a, ok)
				}
			case pick < 64:
				v, ok := m.LoadAndDelete(k)
				if ok != has || (has && v != cur) || (!has && v != 0) {
					bad(fmt.Sprintf("LoadAndDelete(%d)", k), v, ok)
				}
				delete(model, k)
			case pick < 70:
				m.Delete(k)
				delete(model, k)
			case pick < 79:
				o, v := used[r.IntN(len(used))], nid()
				if has && r.IntN(2) == 0 {
					o = cur
				}
				ok := m.CAS(k, o, v)
				if ok != (has && cur == o) {
					bad(fmt.Sprintf("CompareAndSwap(%d,%d,%d)", k, o, v), ok)
				}
				if ok {
					model[k] = v
				}
			case pick < 88:
				o := used[r.IntN(len(used))]
				if has && r.IntN(2) == 0 {
					o = cur
				}
				ok := m.CAD(k, o)
				if ok != (has && cur == o) {
					bad(fmt.Sprintf("CompareAndDelete(%d,%d)", k, o), ok)
				}
				if ok {
					delete(model, k)
				}
			case pick < 94:
				for x := r.IntN(nk + 2); x > 0; x-- {
					m.Load(nk + 1)
				}
			case pick < 98:
				got := map[int]int{}
				m.Range(func(k, v int) bool {
					if _, dup := got[k]; dup {
						c.Fail("range-twice", "key %d visited twice", k)
					}
					got[k] = v
					return true
				})
				if len(got) != len(model) {
					bad("Range", got)
				}
				for k, v := range model {
					if g, ok := got[k]; !ok || g != v {
						bad("Range", got)
					}
				}
			default:
				if r.IntN(2) == 0 {
					m.Clear()
					clear(model)
				}
			}
			if checkLen && (r.IntN(3) == 0 || j == ops-1) {
				if l := m.Len(); l != int64(len(model)) {
					c.Fail("len", "RWMap[%s] step %d: Len()=%d, %d keys present", variantName[variant], j, l, len(model))
				}
				if r.IntN(10) == 0 {
					if l := m.SlowLen(); l != int64(len(model)) {
						c.Fail("len", "RWMap[%s] step %d: SlowLen()=%d, %d keys present", variantName[variant], j, l, len(model))
					}
				}
			}
			c.Tick()
		}
		c.Count("ops", int64(ops))
		c.Seen(kit.Hash("seq", i))
	})
}

// stressLen: long parallel runs (Clear included), Len checked at quiescence.
func stressLen(c *kit.C, sub string, n int) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		m := newMap([]int{0, 2, 4, 8}[i%4])
		nk := 1 + r.IntN(20)
		if r.IntN(4) == 0 {
			nk = 200 + r.IntN(2000)
		}
		withClear := r.IntN(3) != 0
		seed := r.Uint64()
		for round := 0; round < 20; round++ {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, uint64(round*100+g)))
					for j := 0; j < 150; j++ {
						k, v := r.IntN(nk), 1+r.IntN(3)
						switch r.IntN(9) {
						case 0:
							m.Store(k, v)
						case 1:
							m.LoadAndDelete(k)
						case 2:
							m.LoadOrStore(k, v)
						case 3:
							m.CAD(k, m.Norm(v))
						case 4:
							m.CAS(k, m.Norm(v), m.Norm(v+1))
						case 5:
							m.Delete(k)
						case 6:
							m.Swap(k, v)
						case 7:
							m.Load(nk + 3)
						case 8:
							if withClear && r.IntN(4) == 0 {
								m.Clear()
							}
						}
					}
				}()
			}
			wg.Wait()
			c.Tick()
			n := int64(0)
			for k := 0; k < nk; k++ {
				if _, ok := m.Load(k); ok {
					n++
				}
			}
			if l, s := m.Len(), m.SlowLen(); l != n || s != n {
				c.Fail("len", "after %d rounds of 6x150 parallel operations on %d keys (Clear: %v): Len()=%d SlowLen()=%d, %d keys load", round+1, nk, withClear, l, s, n)
			}
			c.Count("quiescent_points", 1)
		}
		c.Count("ops", 20*6*150)
		c.Seen(kit.Hash("stress", i))
	})
}

// rangeBig: Range against concurrent mutation of other keys on larger maps.
func rangeBig(c *kit.C, sub string, n int) {
	c.Cases(sub, n, func(i int, r *rand.Rand) {
		m := newMap([]int{0, 2, 3}[i%3])
		nStable, nVol := 1+r.IntN(60), 1+r.IntN(30)
		if r.IntN(5) == 0 {
			nStable = 100 + r.IntN(3000)
		}
		if r.IntN(5) == 0 {
			nVol = 100 + r.IntN(3000)
		}
		for k := 0; k < nStable; k++ {
			m.Store(k, k+1)
		}
		seed := r.Uint64()
		var stop atomic.Bool
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, uint64(g)))
				for !stop.Load() {
					k := nStable + r.IntN(nVol)
					switch r.IntN(5) {
					case 0, 1:
						m.Store(k, k+1)
					case 2:
						m.Delete(k)
					case 3:
						m.LoadOrStore(k, k+1)
					case 4:
						m.Load(nStable + nVol + r.IntN(3))
					}
				}
			}()
		}
		visits := 0
		var bad string
		for round := 0; round < 60 && bad == ""; round++ {
			seen := map[int]bool{}
			stopAt := 0
			if round%5 == 4 {
				stopAt = 1 + int(seed>>8%uint64(nStable))*(round+1)/60
			}
			m.Range(func(k, v int) bool {
				visits++
				if stopAt > 0 && len(seen) >= stopAt {
					bad = fmt.Sprintf("visit after the callback returned false at visit %d", stopAt)
				}
				if seen[k] {
					bad = fmt.Sprintf("key %d visited twice", k)
				}
				seen[k] = true
				if v != m.Norm(k+1) {
					bad = fmt.Sprintf("key %d visited with value %d", k, v)
				}
				if round%4 == 1 {
					m.Load(k)
					m.LoadOrStore(nStable, m.Norm(nStable+1))
				}
				return len(seen) != stopAt
			})
			if stopAt > 0 && len(seen) < min(stopAt, nStable) {
				bad = fmt.Sprintf("%d visits, the callback asked for %d of at least %d keys", len(seen), stopAt, nStable)
			}
			for k := 0; k < nStable && stopAt == 0; k++ {
				if !seen[k] {
					bad = fmt.Sprintf("key %d, present all the time, was not visited", k)
				}
			}
			runtime.Gosched()
		}
		stop.Store(true)
		wg.Wait()
		c.Tick()
		if bad != "" {
			c.Fail("range", "%s (%d stable keys, %d volatile)", bad, nStable, nVol)
		}
		c.Count("range_visits", int64(visits))
		c.Seen(kit.Hash("rb", i))
	})
}

func main() {
	whole := func(e *env, init state, h []op) { linWhole(e.c, init, h) }
	kit.Main(map[string]func(*kit.C){
		"C01": func(c *kit.C) {
			sp := spec{oracle: whole}
			switch c.Leg {
			case "ctl":
				controlled(c, "ctl", c.N(240000, 10), sp)
			default:
				sequentialLong(c, "seq", c.N(1500, 10), false)
				lookalikes(c, "alike", c.N(2000, 10))
				parallel(c, "par", c.N(30000, 20), sp)
			}
		},
		"C02": func(c *kit.C) {
			sp := spec{oracle: whole, clear: true}
			switch c.Leg {
			case "ctl":
				controlled(c, "ctl", c.N(240000, 10), sp)
			default:
				sequentialLong(c, "seq", c.N(1500, 10), false)
				parallel(c, "par", c.N(30000, 20), sp)
			}
		},
		"C03": func(c *kit.C) {
			sp := spec{oracle: func(*env, state, []op) {}, clear: true, lenCheck: true, rng: false}
			switch c.Leg {
			case "ctl":
				controlled(c, "ctl-clear", c.N(160000, 10), sp)
				sp.clear = false
				controlled(c, "ctl", c.N(120000, 10), sp)
				lenPanics(c, "panics", c.N(2000, 10))
			default:
				sequentialLong(c, "seq", c.N(3000, 10), true)
				stressLen(c, "stress", c.N(400, 20))
			}
		},
		"C06": func(c *kit.C) {
			sp := spec{rng: true, nested: true, panics: true, lenCheck: true, clear: true, oracle: func(e *env, init state, h []op) {
				checkVisits(e.c, h)
				linPerKey(e.c, init, h)
			}}
			controlled(c, "ctl-rwmap", c.N(200000, 15), sp)
			lenPanics(c, "panics", c.N(3000, 10))
		},
		"C30": func(c *kit.C) { slow(c, "slow", c.N(150000, 16)) },
		"C04": func(c *kit.C) {
			sp := spec{rng: true, nested: true, oracle: func(e *env, init state, h []op) {
				checkVisits(e.c, h)
				linPerKey(e.c, init, h)
			}}
			switch c.Leg {
			case "ctl":
				controlled(c, "ctl", c.N(160000, 10), sp)
				sp.clear = true
				controlled(c, "ctl-clear", c.N(80000, 10), sp)
			default:
				rangeBig(c, "big", c.N(160, 20))
				parallel(c, "par", c.N(20000, 20), sp)
			}
		},
	})
}
