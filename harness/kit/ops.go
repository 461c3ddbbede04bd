package kit

import (
	"fmt"
	"strings"
)

// Ops records the operations of a sequential case: a hash to tell cases apart,
// the steps when tracing, and how often each operation ran.
type Ops struct {
	c    *C
	h    uint64
	N    int
	seen map[string]int64
	text []string
}

// NewOps starts a record.
func (c *C) NewOps() *Ops {
	return &Ops{c: c, h: 14695981039346656037, seen: map[string]int64{}}
}

// Op records one operation and its (integer) arguments.
func (o *Ops) Op(name string, args ...int) {
	o.N++
	o.seen[name]++
	for i := 0; i < len(name); i++ {
		o.h = (o.h ^ uint64(name[i])) * 1099511628211
	}
	for _, a := range args {
		o.h = (o.h ^ uint64(a)) * 1099511628211
		o.h ^= o.h >> 29
	}
	if o.c.Trace {
		o.c.Logf("%d: %s%v", o.N, name, args)
	}
	if len(o.text) < 25 && o.c.WantSample() {
		o.text = append(o.text, fmt.Sprintf("%s%v", name, args))
	}
}

// Done counts the case as observed; nontrivial is the check's own criterion.
func (o *Ops) Done(what string, nontrivial bool) {
	for k, n := range o.seen {
		o.c.Count("op."+k, n)
	}
	if !nontrivial {
		return
	}
	o.c.Seen(o.h)
	if len(o.text) > 0 && o.c.WantSample() {
		o.c.Sample(what + ": " + strings.Join(o.text, " ") + fmt.Sprintf(" ... (%d operations)", o.N))
	}
}
