// Package vtime mirrors package time; when the virtual clock is on, Now and all
// timers follow it.
package vtime

import (
	"time"

	"verif.local/h/vsched"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	Local = time.Local
	UTC   = time.UTC
)

func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func LoadLocationFromTZData(n string, d []byte) (*Location, error) {
	return time.LoadLocationFromTZData(n, d)
}
func Date(y int, m Month, d, h, mi, s, ns int, loc *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, loc)
}
func Unix(s, ns int64) Time   { return time.Unix(s, ns) }
func UnixMicro(us int64) Time { return time.UnixMicro(us) }
func UnixMilli(ms int64) Time { return time.UnixMilli(ms) }

func Now() Time {
	vsched.Yield()
	if vsched.ClockOn() {
		return time.Unix(0, vsched.NowNs())
	}
	return time.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	vsched.Yield()
	if !vsched.ClockOn() {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		return
	}
	if vsched.Controlled() {
		// Time passes for everybody: nothing else may be there to advance it.
		vsched.Advance(d)
		return
	}
	<-vsched.AddTimer(d, 0, nil).C
}

func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Ticker struct {
	C <-chan Time
	r *time.Ticker
	v *vsched.VTimer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if vsched.ClockOn() {
		v := vsched.AddTimer(d, d, nil)
		return &Ticker{C: v.C, v: v}
	}
	r := time.NewTicker(d)
	return &Ticker{C: r.C, r: r}
}

func (t *Ticker) Stop() {
	if t.r != nil {
		t.r.Stop()
	} else {
		vsched.StopTimer(t.v)
	}
}

func (t *Ticker) Reset(d Duration) {
	if t.r != nil {
		t.r.Reset(d)
	} else {
		vsched.ResetTimer(t.v, d, d)
	}
}

type Timer struct {
	C <-chan Time
	r *time.Timer
	v *vsched.VTimer
}

func NewTimer(d Duration) *Timer {
	if vsched.ClockOn() {
		v := vsched.AddTimer(d, 0, nil)
		return &Timer{C: v.C, v: v}
	}
	r := time.NewTimer(d)
	return &Timer{C: r.C, r: r}
}

func AfterFunc(d Duration, f func()) *Timer {
	if vsched.ClockOn() {
		return &Timer{v: vsched.AddTimer(d, 0, f)}
	}
	return &Timer{r: time.AfterFunc(d, f)}
}

func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	return vsched.StopTimer(t.v)
}

func (t *Timer) Reset(d Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	return vsched.ResetTimer(t.v, d, 0)
}
