// Package time stands in for the standard package in instrumented code: same types, simulated clock.
package time

import (
	std "time"

	"verif.local/sim/rt"
)

// Base is the date at which simulated time starts.
var Base = std.Date(2024, 1, 1, 0, 0, 0, 0, std.UTC)

func Now() std.Time {
	if rt.W == nil {
		return Base
	}
	return Base.Add(std.Duration(rt.W.Now()))
}

func Since(t std.Time) std.Duration { return Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(Now()) }

func Sleep(d std.Duration) {
	if rt.Dying() {
		return
	}
	rt.W.Sleep(int64(d))
}

// Timer as in the standard package, with a simulated channel.
type Timer struct {
	C *rt.Chan[std.Time]
	e rt.Event
	f func()
}

func (t *Timer) fire() {
	if t.f != nil {
		w := rt.W
		w.Spawn(w.Local(), "timer", t.f)
		return
	}
	if t.C.Len() == 0 {
		t.C.Push(Now())
	}
}

func (t *Timer) Stop() bool { return rt.W.Cancel(t.e) }
func (t *Timer) Reset(d std.Duration) bool {
	b := rt.W.Cancel(t.e)
	t.e = rt.W.At(rt.W.Now()+int64(d), t.fire)
	return b
}

func NewTimer(d std.Duration) *Timer {
	t := &Timer{C: rt.MakeChan[std.Time](1)}
	t.e = rt.W.At(rt.W.Now()+int64(d), t.fire)
	return t
}

func AfterFunc(d std.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.e = rt.W.At(rt.W.Now()+int64(d), t.fire)
	return t
}

func After(d std.Duration) *rt.Chan[std.Time] { return NewTimer(d).C }

// Ticker as in the standard package.
type Ticker struct {
	C *rt.Chan[std.Time]
	e rt.Event
	d std.Duration
}

func NewTicker(d std.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: rt.MakeChan[std.Time](1), d: d}
	t.e = rt.W.At(rt.W.Now()+int64(d), t.fire)
	return t
}

func (t *Ticker) fire() {
	if t.C.Len() == 0 {
		t.C.Push(Now())
	}
	t.e = rt.W.At(rt.W.Now()+int64(t.d), t.fire)
}
func (t *Ticker) Stop() { rt.W.Cancel(t.e) }
func (t *Ticker) Reset(d std.Duration) {
	rt.W.Cancel(t.e)
	t.d = d
	t.e = rt.W.At(rt.W.Now()+int64(d), t.fire)
}
func Tick(d std.Duration) *rt.Chan[std.Time] { return NewTicker(d).C }
