// Package time replaces the standard package for instrumented code: virtual clock and timers.
package time

import (
	"simrt/simrt"
	"time"
)

var base = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

func Now() Time {
	if simrt.Active() {
		simrt.Pre()
	}
	return base.Add(time.Duration(simrt.NowNS()))
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// NS converts an instant to virtual nanoseconds.
func NS(t time.Time) int64 { return int64(t.Sub(base)) }

type Timer struct {
	C  <-chan Time
	c  chan Time
	ev *simrt.Event
	f  func()
	vc simrt.VC
}

func (t *Timer) arm(d Duration) {
	if d < 0 {
		d = 0
	}
	t.vc = simrt.ReleaseVC()
	t.ev = simrt.S.AtLib(simrt.NowNS()+int64(d), t.fire)
}

func (t *Timer) fire() {
	t.ev = nil
	simrt.S.Count("timer-fired")
	if t.f != nil {
		simrt.S.SpawnTimer(t.f, t.vc)
		return
	}
	simrt.DeliverVC(t.c, base.Add(time.Duration(simrt.NowNS())), t.vc)
}

func NewTimer(d Duration) *Timer {
	simrt.Pre()
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	simrt.Pre()
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop: with go 1.16 semantics in the module under test a stale value may stay in the channel.
func (t *Timer) Stop() bool {
	if simrt.Killing() {
		return false
	}
	simrt.Pre()
	if t.ev == nil {
		return false
	}
	ok := simrt.S.Cancel(t.ev)
	t.ev = nil
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	simrt.Pre()
	ok := t.ev != nil && simrt.S.Cancel(t.ev)
	t.arm(d)
	return ok
}

type Ticker struct {
	C  <-chan Time
	c  chan Time
	ev *simrt.Event
	d  Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	simrt.Pre()
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	vc := simrt.ReleaseVC()
	t.ev = simrt.S.AtLib(simrt.NowNS()+int64(t.d), func() { t.fire(vc) })
}

func (t *Ticker) fire(vc simrt.VC) {
	simrt.DeliverVC(t.c, base.Add(time.Duration(simrt.NowNS())), vc)
	t.ev = simrt.S.AtLib(simrt.NowNS()+int64(t.d), func() { t.fire(vc) })
}

func (t *Ticker) Stop() {
	if simrt.Killing() {
		return
	}
	simrt.Pre()
	if t.ev != nil {
		simrt.S.Cancel(t.ev)
		t.ev = nil
	}
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func Sleep(d Duration) {
	simrt.Pre()
	simrt.S.Sleep(int64(d), true)
}
