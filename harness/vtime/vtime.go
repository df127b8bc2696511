// Package vtime is the clock given to the packages under test: it stands still
// until the driver advances it.
package vtime

import (
	"sort"
	"sync"
	"time"
)

type timer struct {
	at  time.Time
	seq int
	f   func()
}

var (
	mu     sync.Mutex
	now    = time.Date(2026, 3, 4, 5, 6, 7, 890123456, time.UTC)
	timers []*timer
	seq    int
	fired  int
)

// Reset starts a new history: pending timers are forgotten.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	timers, fired = nil, 0
	now = time.Date(2026, 3, 4, 5, 6, 7, 890123456, time.UTC)
}

// Advance moves the clock and runs the timers that come due, in order.
// It gives up (false) when timers keep coming due without time passing.
func Advance(d time.Duration) bool {
	mu.Lock()
	end := now.Add(d)
	for n := 0; ; n++ {
		sort.SliceStable(timers, func(i, j int) bool { return timers[i].at.Before(timers[j].at) })
		if len(timers) == 0 || timers[0].at.After(end) {
			break
		}
		if n > 10000 {
			mu.Unlock()
			return false
		}
		t := timers[0]
		timers = timers[1:]
		if t.at.After(now) {
			now = t.at
		}
		mu.Unlock()
		t.f()
		mu.Lock()
	}
	now = end
	mu.Unlock()
	return true
}

func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	return now
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func add(d time.Duration, f func()) *timer {
	mu.Lock()
	defer mu.Unlock()
	seq++
	t := &timer{at: now.Add(d), seq: seq, f: f}
	timers = append(timers, t)
	return t
}

func (t *timer) stop() bool {
	mu.Lock()
	defer mu.Unlock()
	for i, x := range timers {
		if x == t {
			timers = append(timers[:i:i], timers[i+1:]...)
			return true
		}
	}
	return false
}

// Timer and Ticker stand in for those of package time.
type Timer struct {
	C <-chan time.Time
	f func()
	t *timer
}

func (t *Timer) Stop() bool { return t.t.stop() }
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.t.stop()
	t.t = add(d, t.f)
	return ok
}

func AfterFunc(d time.Duration, f func()) *Timer {
	return &Timer{f: f, t: add(d, f)}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	f := func() {
		select {
		case c <- Now():
		default:
		}
	}
	return &Timer{C: c, f: f, t: add(d, f)}
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Sleep(d time.Duration)                  { <-After(d) }

type Ticker struct {
	C <-chan time.Time
	t *timer
	m sync.Mutex
	x bool
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	k := &Ticker{C: c}
	var f func()
	f = func() {
		select {
		case c <- Now():
		default:
		}
		k.m.Lock()
		defer k.m.Unlock()
		if !k.x {
			k.t = add(d, f)
		}
	}
	k.t = add(d, f)
	return k
}

func (k *Ticker) Stop() {
	k.m.Lock()
	defer k.m.Unlock()
	k.x = true
	k.t.stop()
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
