// Package vtime stands in for time in the code under test: Sleep records the
// requested delay instead of waiting.
package vtime

import (
	"sync"
	std "time"

	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Slept lists the delays requested so far.
var Slept []std.Duration

// OnSleep, when set, runs at each Sleep.
var OnSleep func(std.Duration)

// Sleep records d.
func Sleep(d std.Duration) {
	Slept = append(Slept, d)
	if OnSleep != nil {
		OnSleep(d)
	}
	vnd.Yield()
}

// The virtual clock: timers fire, earliest first, when nothing else can run.
var (
	mu      sync.Mutex
	elapsed std.Duration
	timers  []*Timer
	running bool
)

// Timer is a timer of the virtual clock.
type Timer struct {
	C  <-chan std.Time
	c  chan std.Time
	f  func()
	d  std.Duration
	at std.Duration
	on bool
}

func (t *Timer) start(d std.Duration) {
	mu.Lock()
	defer mu.Unlock()
	if d < 0 {
		d = 0
	}
	t.d, t.at, t.on = d, elapsed+d, true
	timers = append(timers, t)
	if !running {
		running = true
		go clock()
	}
}

func clock() {
	for {
		vnd.Idle()
		mu.Lock()
		k := -1
		for i, t := range timers {
			if k < 0 || t.at < timers[k].at {
				k = i
			}
		}
		if k < 0 {
			running = false
			mu.Unlock()
			return
		}
		t := timers[k]
		timers = append(timers[:k:k], timers[k+1:]...)
		if t.at > elapsed {
			elapsed = t.at
		}
		t.on = false
		Slept = append(Slept, t.d)
		mu.Unlock()
		if OnSleep != nil {
			OnSleep(t.d)
		}
		if t.f != nil {
			go t.f()
			continue
		}
		select {
		case t.c <- Now():
		default:
		}
	}
}

func newTimer(f func()) *Timer {
	c := make(chan std.Time, 1)
	return &Timer{C: c, c: c, f: f}
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d std.Duration) *Timer {
	t := newTimer(nil)
	t.start(d)
	return t
}

// After stands in for time.After.
func After(d std.Duration) <-chan std.Time { return NewTimer(d).C }

// AfterFunc stands in for time.AfterFunc.
func AfterFunc(d std.Duration, f func()) *Timer {
	t := newTimer(f)
	t.start(d)
	return t
}

// Stop stands in for Timer.Stop.
func (t *Timer) Stop() bool {
	mu.Lock()
	defer mu.Unlock()
	was := t.on
	t.on = false
	for i, o := range timers {
		if o == t {
			timers = append(timers[:i:i], timers[i+1:]...)
			break
		}
	}
	select {
	case <-t.c:
	default:
	}
	return was
}

// Reset stands in for Timer.Reset.
func (t *Timer) Reset(d std.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Now is the virtual time.
func Now() std.Time {
	mu.Lock()
	defer mu.Unlock()
	return std.Unix(1700000000, 0).Add(elapsed)
}

// Since and Until are relative to the virtual time.
func Since(t std.Time) std.Duration { return Now().Sub(t) }
func Until(t std.Time) std.Duration { return t.Sub(Now()) }
