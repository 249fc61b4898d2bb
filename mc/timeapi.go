package mc

import "time"

// Ticker replaces time.Ticker, Timer replaces time.Timer (Go 1.23 semantics:
// no stale tick is received after Stop or Reset).
type Ticker struct {
	C *Chan[time.Time]
	t *timer
}

type Timer struct {
	C *Chan[time.Time]
	t *timer
	f func()
}

func tickChan() *Chan[time.Time] {
	c := MakeChan[time.Time](1)
	c.q.silent = true
	return c
}

//go:noinline
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	s := S
	c := tickChan()
	t := &timer{at: s.now + d, period: d}
	t.fire = func() { c.PutTick(Now()) }
	s.addTimer(t)
	return &Ticker{C: c, t: t}
}

//go:noinline
func (t *Ticker) Stop() {
	if t.t == nil {
		return
	}
	t.t.dead = true
	t.C.Drop()
}

//go:noinline
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.dead = true
	t.C.Drop()
	s := S
	n := &timer{at: s.now + d, period: d, fire: t.t.fire}
	s.addTimer(n)
	t.t = n
}

// Tick replaces time.Tick.
func Tick(d time.Duration) *Chan[time.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

//go:noinline
func NewTimer(d time.Duration) *Timer {
	s := S
	tm := &Timer{C: tickChan()}
	c := tm.C
	tm.t = &timer{at: s.now + max(d, 0), fire: func() { c.PutTick(Now()) }}
	s.addTimer(tm.t)
	return tm
}

// After replaces time.After.
func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }

//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	s := S
	tm := &Timer{f: f}
	tm.t = &timer{at: s.now + max(d, 0), fire: func() { s.spawn("AfterFunc", f) }}
	s.addTimer(tm.t)
	return tm
}

//go:noinline
func (t *Timer) Stop() bool {
	was := !t.t.dead
	if t.C != nil && t.C.q.n > 0 {
		was = true
		t.C.Drop()
	}
	t.t.dead = true
	return was
}

//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	s := S
	n := &timer{at: s.now + max(d, 0), fire: t.t.fire}
	s.addTimer(n)
	t.t = n
	return was
}

// Since and Until replace the functions of package time.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
