package main

import (
	"context"
	"fmt"
	"time"

	"github.com/zijiren233/gencontainer/refreshcache"
	"github.com/zijiren233/gencontainer/refreshcache0"
	"github.com/zijiren233/gencontainer/refreshcache1"
)

// fn is a refresh function seen through value ids (0 is the zero value).
type fn func(ctx context.Context, old any, args []int) (int, error)

// cfn is a clear function.
type cfn func(ctx context.Context, old any, args []int) error

// R is one cache of any of the three packages.
type R interface {
	Get(ctx context.Context, args []int) (int, error)
	Refresh(ctx context.Context, args []int) (int, error)
	Clear(ctx context.Context, args []int) error
	SetRefresh(f fn)
	SetClear(f cfn) // nil allowed
	Last() int64
	LastTime() time.Time
	LastErr() int64
	LastErrTime() time.Time
	MaxAge() int64
	MaxErrAge() int64
	Raw() (int, error)
	Args(args []int) []int // the arguments a function must see
}

type data[T any] interface {
	Last() int64
	LastTime() time.Time
	LastErr() int64
	LastErrTime() time.Time
	MaxAge() int64
	MaxErrAge() int64
	Raw() (T, error)
}

type conv[T any] struct {
	f func(int) T
	i func(T) int
}

func (v conv[T]) old(ctx context.Context, key any) any {
	switch x := ctx.Value(key).(type) {
	case T:
		return v.i(x)
	case nil:
		var z T
		if any(z) == nil {
			return v.i(z)
		}
		return "no old value in the context"
	default:
		return fmt.Sprintf("old value of type %T", x)
	}
}

type base[T any] struct {
	data[T]
	v conv[T]
}

func (b base[T]) Raw() (int, error) { x, err := b.data.Raw(); return b.v.i(x), err }

// --- refreshcache (variadic arguments) ---

type va[T any] struct {
	base[T]
	c  *refreshcache.RefreshCache[T, int]
	d  *refreshcache.RefreshData[T, int] // used directly when c is nil
	rf refreshcache.RefreshFunc[T, int]
	cf refreshcache.ClearFunc[T, int]
}

func (a *va[T]) wrap(f fn) refreshcache.RefreshFunc[T, int] {
	return func(ctx context.Context, args ...int) (T, error) {
		x, err := f(ctx, a.v.old(ctx, refreshcache.OldValKey), args)
		return a.v.f(x), err
	}
}
func (a *va[T]) SetRefresh(f fn) {
	if a.c != nil {
		a.c.SetRefreshFunc(a.wrap(f))
	} else {
		a.rf = a.wrap(f)
	}
}
func (a *va[T]) SetClear(f cfn) {
	var g refreshcache.ClearFunc[T, int]
	if f != nil {
		g = func(ctx context.Context, args ...int) error {
			return f(ctx, a.v.old(ctx, refreshcache.OldValKey), args)
		}
	}
	if a.c != nil {
		a.c.SetClearFunc(g)
	} else {
		a.cf = g
	}
}
func (a *va[T]) Get(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Get(ctx, args...)
	} else {
		x, err = a.d.Get(ctx, a.rf, args...)
	}
	return a.v.i(x), err
}
func (a *va[T]) Refresh(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Refresh(ctx, args...)
	} else {
		x, err = a.d.Refresh(ctx, a.rf, args...)
	}
	return a.v.i(x), err
}
func (a *va[T]) Clear(ctx context.Context, args []int) error {
	if a.c != nil {
		return a.c.Clear(ctx, args...)
	}
	return a.d.Clear(ctx, a.cf, args...)
}
func (a *va[T]) Args(args []int) []int { return args }

func newVA[T any](cacheForm bool, f fn, v conv[T], maxAge, errAge time.Duration) R {
	a := &va[T]{base: base[T]{v: v}}
	var opts []refreshcache.RefreshDataOption[T, int]
	if errAge != 0 {
		opts = append(opts, refreshcache.WithErrAge[T, int](errAge))
	}
	if cacheForm {
		a.c = refreshcache.NewRefreshCache(a.wrap(f), maxAge, opts...)
		a.data = a.c.Data()
	} else {
		a.d = refreshcache.NewRefreshData(maxAge, opts...)
		a.data = a.d
		a.rf = a.wrap(f)
	}
	return a
}

// --- refreshcache1 (one argument) ---

type one[T any] struct {
	base[T]
	c  *refreshcache1.RefreshCache[T, int]
	d  *refreshcache1.RefreshData[T, int]
	rf refreshcache1.RefreshFunc[T, int]
	cf refreshcache1.ClearFunc[T, int]
}

func first(args []int) int {
	if len(args) == 0 {
		return -7
	}
	return args[0]
}

func (a *one[T]) wrap(f fn) refreshcache1.RefreshFunc[T, int] {
	return func(ctx context.Context, arg int) (T, error) {
		x, err := f(ctx, a.v.old(ctx, refreshcache1.OldValKey), []int{arg})
		return a.v.f(x), err
	}
}
func (a *one[T]) SetRefresh(f fn) {
	if a.c != nil {
		a.c.SetRefreshFunc(a.wrap(f))
	} else {
		a.rf = a.wrap(f)
	}
}
func (a *one[T]) SetClear(f cfn) {
	var g refreshcache1.ClearFunc[T, int]
	if f != nil {
		g = func(ctx context.Context, arg int) error {
			return f(ctx, a.v.old(ctx, refreshcache1.OldValKey), []int{arg})
		}
	}
	if a.c != nil {
		a.c.SetClearFunc(g)
	} else {
		a.cf = g
	}
}
func (a *one[T]) Get(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Get(ctx, first(args))
	} else {
		x, err = a.d.Get(ctx, a.rf, first(args))
	}
	return a.v.i(x), err
}
func (a *one[T]) Refresh(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Refresh(ctx, first(args))
	} else {
		x, err = a.d.Refresh(ctx, a.rf, first(args))
	}
	return a.v.i(x), err
}
func (a *one[T]) Clear(ctx context.Context, args []int) error {
	if a.c != nil {
		return a.c.Clear(ctx, first(args))
	}
	return a.d.Clear(ctx, a.cf, first(args))
}
func (a *one[T]) Args(args []int) []int { return []int{first(args)} }

func newOne[T any](cacheForm bool, f fn, v conv[T], maxAge, errAge time.Duration) R {
	a := &one[T]{base: base[T]{v: v}}
	var opts []refreshcache1.RefreshDataOption[T, int]
	if errAge != 0 {
		opts = append(opts, refreshcache1.WithErrAge[T, int](errAge))
	}
	if cacheForm {
		a.c = refreshcache1.NewRefreshCache(a.wrap(f), maxAge, opts...)
		a.data = a.c.Data()
	} else {
		a.d = refreshcache1.NewRefreshData(maxAge, opts...)
		a.data = a.d
		a.rf = a.wrap(f)
	}
	return a
}

// --- refreshcache0 (no arguments) ---

type zero[T any] struct {
	base[T]
	c  *refreshcache0.RefreshCache[T]
	d  *refreshcache0.RefreshData[T]
	rf refreshcache0.RefreshFunc[T]
	cf refreshcache0.ClearFunc[T]
}

func (a *zero[T]) wrap(f fn) refreshcache0.RefreshFunc[T] {
	return func(ctx context.Context) (T, error) {
		x, err := f(ctx, a.v.old(ctx, refreshcache0.OldValKey), nil)
		return a.v.f(x), err
	}
}
func (a *zero[T]) SetRefresh(f fn) {
	if a.c != nil {
		a.c.SetRefreshFunc(a.wrap(f))
	} else {
		a.rf = a.wrap(f)
	}
}
func (a *zero[T]) SetClear(f cfn) {
	var g refreshcache0.ClearFunc[T]
	if f != nil {
		g = func(ctx context.Context) error {
			return f(ctx, a.v.old(ctx, refreshcache0.OldValKey), nil)
		}
	}
	if a.c != nil {
		a.c.SetClearFunc(g)
	} else {
		a.cf = g
	}
}
func (a *zero[T]) Get(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Get(ctx)
	} else {
		x, err = a.d.Get(ctx, a.rf)
	}
	return a.v.i(x), err
}
func (a *zero[T]) Refresh(ctx context.Context, args []int) (int, error) {
	var x T
	var err error
	if a.c != nil {
		x, err = a.c.Refresh(ctx)
	} else {
		x, err = a.d.Refresh(ctx, a.rf)
	}
	return a.v.i(x), err
}
func (a *zero[T]) Clear(ctx context.Context, args []int) error {
	if a.c != nil {
		return a.c.Clear(ctx)
	}
	return a.d.Clear(ctx, a.cf)
}
func (a *zero[T]) Args(args []int) []int { return nil }

func newZero[T any](cacheForm bool, f fn, v conv[T], maxAge, errAge time.Duration) R {
	a := &zero[T]{base: base[T]{v: v}}
	var opts []refreshcache0.RefreshDataOption[T]
	if errAge != 0 {
		opts = append(opts, refreshcache0.WithErrAge[T](errAge))
	}
	if cacheForm {
		a.c = refreshcache0.NewRefreshCache(a.wrap(f), maxAge, opts...)
		a.data = a.c.Data()
	} else {
		a.d = refreshcache0.NewRefreshData(maxAge, opts...)
		a.data = a.d
		a.rf = a.wrap(f)
	}
	return a
}

type payload struct {
	a, b int
	s    string
}

var (
	cInt = conv[int]{func(i int) int { return i }, func(i int) int { return i }}
	cPay = conv[payload]{func(i int) payload {
		if i == 0 {
			return payload{}
		}
		return payload{i, -i, fmt.Sprint(i)}
	}, func(p payload) int {
		if p == (payload{}) {
			return 0
		}
		if p.a != -p.b || p.s != fmt.Sprint(p.a) {
			return -999
		}
		return p.a
	}}
	cPtr = conv[*payload]{func(i int) *payload {
		if i == 0 {
			return nil
		}
		return &payload{a: i}
	}, func(p *payload) int {
		if p == nil {
			return 0
		}
		return p.a
	}}
	cErr = conv[error]{func(i int) error {
		if i == 0 {
			return nil
		}
		return idErr(i)
	}, func(e error) int {
		if e == nil {
			return 0
		}
		return int(e.(idErr))
	}}
)

type idErr int

func (e idErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

const nVariants = 3 * 2 * 4

func variantName(n int) string {
	return []string{"refreshcache", "refreshcache0", "refreshcache1"}[n%3] + []string{".RefreshCache", ".RefreshData"}[n/3%2] + []string{"[int]", "[struct]", "[*struct]", "[error]"}[n/6%4]
}

func newR(n int, f fn, maxAge, errAge time.Duration) R {
	cf := n/3%2 == 0
	switch n / 6 % 4 {
	case 0:
		return newR2(n%3, cf, f, cInt, maxAge, errAge)
	case 1:
		return newR2(n%3, cf, f, cPay, maxAge, errAge)
	case 2:
		return newR2(n%3, cf, f, cPtr, maxAge, errAge)
	}
	return newR2(n%3, cf, f, cErr, maxAge, errAge)
}

func newR2[T any](pkg int, cf bool, f fn, v conv[T], maxAge, errAge time.Duration) R {
	switch pkg {
	case 0:
		return newVA(cf, f, v, maxAge, errAge)
	case 1:
		return newZero(cf, f, v, maxAge, errAge)
	}
	return newOne(cf, f, v, maxAge, errAge)
}
