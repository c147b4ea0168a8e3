// Package simtime has the clock functions of time on the simulated clock.
package simtime

import (
	"time"

	"vsim/simrt"
)

func Now() time.Time                  { simrt.Y(); return simrt.Now() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if simrt.Main() {
		simrt.Settle()
		if d > 10*time.Millisecond {
			d = 10 * time.Millisecond
		}
		time.Sleep(d)
		return
	}
	simrt.Sleep(d)
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Timer struct {
	C       <-chan time.Time
	c       chan time.Time
	f       func()
	gen     int
	stopped bool
	fired   bool
	g       *simrt.Gor
}

func newTimer(d time.Duration, f func()) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, f: f}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	gen := t.begin()
	t.run(gen, simrt.GoDaemon(func() {
		simrt.Sleep(d)
		if !t.fire(gen) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- simrt.Now():
		default:
		}
	}))
}

// run notes the goroutine that waits for the timer, unless all is over already.
//
//go:norace
func (t *Timer) run(gen int, g *simrt.Gor) {
	if t.gen != gen || t.stopped || t.fired {
		return
	}
	t.g = g
}

//go:norace
func (t *Timer) begin() int { t.gen++; t.stopped, t.fired = false, false; return t.gen }

//go:norace
func (t *Timer) fire(gen int) bool {
	if t.stopped || t.gen != gen {
		return false
	}
	t.fired = true
	return true
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

func NewTimer(d time.Duration) *Timer            { return newTimer(d, nil) }
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f) }

//go:norace
func (t *Timer) Stop() bool {
	was := !t.fired && !t.stopped
	t.stopped = true
	if was {
		simrt.Forget(t.g)
		t.g = nil
	}
	return was
}

type Ticker struct {
	C       <-chan time.Time
	stopped bool
	g       *simrt.Gor
}

//go:norace
func (t *Ticker) Stop() {
	t.stopped = true
	simrt.Forget(t.g)
	t.g = nil
}

//go:norace
func (t *Ticker) run(g *simrt.Gor) { t.g = g }

//go:norace
func (t *Ticker) isStopped() bool { return t.stopped }

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	t.run(simrt.GoDaemon(func() {
		for !t.isStopped() {
			simrt.Sleep(d)
			select {
			case c <- simrt.Now():
			default:
			}
		}
	}))
	return t
}

func (t *Ticker) Reset(time.Duration) {}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
