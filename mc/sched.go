// Package mc is a stateless model checker for Go programs whose
// synchronisation has been redirected to it (see /verif/instr): every
// goroutine, channel operation, select, mutex, atomic, timer and network call
// of the program under test runs under a cooperative scheduler that owns all
// nondeterminism, so that one execution is fully described by a sequence of
// small integers (the choices) and the set of all executions within a bound can
// be enumerated.
//
// This package is compiled WITHOUT race instrumentation even in -race builds
// (see check.sh); in a -race build the real happens-before edges are announced
// to the race detector by hand while the scheduler's own hand-offs stay
// invisible to it, so the detector judges each explored schedule precisely.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Choice kinds.
const (
	KSwitch = 'S' // which goroutine runs next
	KCase   = 'C' // which ready select case
	KMap    = 'M' // map iteration order
	KEnv    = 'E' // environment answer / harness choice
)

// Point is one recorded choice.
type Point struct {
	Kind   byte
	N      int
	Chosen int
	Cost   int // cost of taking any non-default alternative here
}

const (
	gRunnable = iota
	gBlocked
	gIdle // waiting for quiescence
	gDone
)

// G is a goroutine under the scheduler's control.
type G struct {
	id      int
	name    string
	wake    chan struct{}
	state   int
	why     string
	started bool
	streak  int
	tok     *byte // race token: released when leaving, acquired by the controller
}

// Cfg bounds one exploration.
type Cfg struct {
	Bound      int           // max total deviation cost per execution
	FreeCost   int           // cost of choosing a non-default goroutine when the running one blocked
	CaseCost   int           // cost of a non-default ready select case
	SkipCases  int           // this many select choices take the default before others are explored
	MapOrder   bool          // explore map iteration orders
	MapCost    int           // cost of a non-default map order
	Clock      bool          // explore timers firing while goroutines are runnable (cost 1)
	NoPreempt  bool          // no preemptive switches at all
	Stmts      bool          // every statement of the library under test is a scheduling point, not only its synchronisation
	Horizon    time.Duration // virtual time after which a blocked main is a hang
	MaxSteps   int
	Base       time.Time
	TraceSteps bool
}

type timer struct {
	at     time.Duration
	seq    int
	period time.Duration
	fire   func()
	dead   bool
}

// Sched is the state of one execution.
type Sched struct {
	cfg      *Cfg
	caseN    int
	CaseLast bool // an execution's selects take the last ready case, not the first, and leave no choice
	gs       []*G
	live     []*G
	cur      *G
	main     *G
	now      time.Duration
	timers   []*timer
	tseq     int
	prefix   []int
	trace    []Point
	diverged bool
	steps    int
	switches int
	aborting bool
	ended    bool
	done     chan struct{}
	exit     chan *G
	fails    []string
	log      []string
	Env      *Env
	optbuf   []*G
	wrapped  []wrapT
}

// S is the running execution (nil outside one).
var S *Sched

type abortT struct{}

type reset struct {
	pkg, idx int
	f        func()
}

var (
	resets    []reset
	resetPkgs []string
)

// RegisterReset registers a function restoring package-level state of the
// program under test to its initial value; they run before every execution, in
// package initialisation order and, within a package, in variable order.
func RegisterReset(pkg string, idx int, f func()) {
	n := -1
	for i, p := range resetPkgs {
		if p == pkg {
			n = i
		}
	}
	if n < 0 {
		n = len(resetPkgs)
		resetPkgs = append(resetPkgs, pkg)
	}
	resets = append(resets, reset{n, idx, f})
	sort.SliceStable(resets, func(i, j int) bool {
		if resets[i].pkg != resets[j].pkg {
			return resets[i].pkg < resets[j].pkg
		}
		return resets[i].idx < resets[j].idx
	})
}

// ---------------------------------------------------------------- choices

func (s *Sched) choose(kind byte, n, cost int) int {
	if n <= 1 {
		return 0
	}
	i := len(s.trace)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= n || c < 0 {
			s.diverged = true
			c = 0
		}
	}
	s.trace = push(s.trace, Point{kind, n, c, cost})
	return c
}

// Choose lets the harness branch: 0 <= result < n; alternatives cost nothing.
func Choose(n int) int { return S.choose(KEnv, n, 0) }

// ChooseDev branches with the non-default answers counting as a deviation.
func ChooseDev(n int) int { return S.choose(KEnv, n, 1) }

// ---------------------------------------------------------------- goroutines

// Go starts f under the scheduler.
func Go(f func()) { GoNamed("", f) }

// GoNamed is Go with a name for reports.
func GoNamed(name string, f func()) {
	s := S
	if s == nil {
		panic("mc: goroutine started outside an execution")
	}
	s.spawn(name, f)
	s.Point("go")
}

func (s *Sched) spawn(name string, f func()) *G {
	g := &G{id: len(s.gs), name: name, wake: make(chan struct{}, 1), tok: new(byte)}
	s.gs = push(s.gs, g)
	s.live = push(s.live, g)
	go s.run(g, f)
	return g
}

func (s *Sched) run(g *G, f func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	if s.aborting {
		g.state = gDone
		s.exit <- g
		return
	}
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				if !s.aborting {
					s.fail(fmt.Sprintf("panic in goroutine %s: %v\n%s", g.label(), r, trimStack(debug.Stack())))
				}
			}
			// else: runtime.Goexit by abort, or by the program itself
		}
		g.state = gDone
		raceRelease(g.tok)
		if s.aborting {
			s.exit <- g
			return
		}
		for i, x := range s.live {
			if x == g {
				s.live = without(s.live, i)
				break
			}
		}
		if !RaceBuild {
			s.gs[g.id] = nil
		}
		if g == s.main || len(s.fails) > 0 {
			s.finish()
			return
		}
		s.leave(g)
	}()
	f()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (g *G) label() string {
	if g.name != "" {
		return fmt.Sprintf("g%d(%s)", g.id, g.name)
	}
	return fmt.Sprintf("g%d", g.id)
}

// finish ends the execution: control goes back to the controller.
func (s *Sched) finish() {
	if s.ended {
		return
	}
	s.ended = true
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

func (s *Sched) fail(msg string) { s.fails = append(s.fails, msg) }

// Fail records a violation and ends the execution.
func Fail(format string, a ...any) {
	s := S
	s.fail(fmt.Sprintf(format, a...))
	s.die()
}

// Failf records a violation without ending the execution.
func Failf(format string, a ...any) { S.fail(fmt.Sprintf(format, a...)) }

// Failed reports whether a violation was recorded.
func Failed() bool { return len(S.fails) > 0 }

// die: called by the current goroutine after a failure; never returns.
func (s *Sched) die() {
	s.finish()
	g := s.cur
	raceDisable()
	<-g.wake
	raceEnable()
	runtime.Goexit()
}

// Logf appends to the observation log of this execution.
func Logf(format string, a ...any) {
	S.log = append(S.log, fmt.Sprintf(format, a...))
}

// ---------------------------------------------------------------- scheduling

// enter is called at the start of every operation; it exits the goroutine if the execution is over.
func (s *Sched) checkAbort() {
	if s.aborting {
		runtime.Goexit()
	}
}

// others returns the runnable goroutines, cyclically from the one after g.
func (s *Sched) runnable(g *G, includeSelf bool) []*G {
	out := s.optbuf[:0]
	if includeSelf {
		out = append(out, g)
	}
	n := len(s.live)
	st := 0
	for i, x := range s.live {
		if x.id > g.id {
			st = i
			break
		}
		if i == n-1 {
			st = 0
		}
	}
	for k := 0; k < n; k++ {
		x := s.live[(st+k)%n]
		if x != g && x.state == gRunnable {
			out = append(out, x)
		}
	}
	s.optbuf = out
	return out
}

const streakLimit = 30000

// Point is a scheduling point of the running goroutine, before a visible operation.
func (s *Sched) Point(op string) {
	s.checkAbort()
	g := s.cur
	s.steps++
	if s.steps&4095 == 0 {
		executions.Add(1)
	}
	if s.steps > s.cfg.MaxSteps {
		s.fail(fmt.Sprintf("no end after %d steps (livelock); %s", s.steps, s.describe()))
		s.die()
	}
	g.streak++
	if g.streak > streakLimit {
		// a spinning goroutine must not starve the others
		g.streak = 0
		s.yield(g)
		return
	}
	if s.cfg.NoPreempt {
		return
	}
	for {
		opts := s.runnable(g, true)
		n := len(opts)
		clock := s.cfg.Clock && s.hasTimer()
		if clock {
			n++
		}
		if n == 1 {
			return
		}
		c := s.choose(KSwitch, n, 1)
		if c == 0 {
			return
		}
		if clock && c == n-1 {
			s.advance()
			continue
		}
		s.transfer(g, opts[c])
		return
	}
}

var stmts bool

// Stmt stands before every statement of the library under test.
func Stmt() {
	if stmts {
		stmtPoint()
	}
}

//go:noinline
func stmtPoint() { S.Point("stmt") }

// yield gives up the processor voluntarily (no preemption cost).
func (s *Sched) yield(g *G) {
	opts := s.runnable(g, false)
	if len(opts) == 0 {
		return
	}
	c := s.choose(KSwitch, len(opts), s.cfg.FreeCost)
	s.transfer(g, opts[c])
}

// transfer hands the processor to h and waits to get it back.
func (s *Sched) transfer(g, h *G) {
	s.handoff(g, h)
	s.await(g)
}

func (s *Sched) handoff(g, h *G) {
	s.switches++
	s.cur = h
	h.streak = 0
	raceDisable()
	h.wake <- struct{}{}
	raceEnable()
}

func (s *Sched) await(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
	if s.aborting {
		raceRelease(g.tok)
		runtime.Goexit()
	}
}

// pickNext selects who runs when g cannot continue. nil means the execution ended here.
func (s *Sched) pickNext(g *G) *G {
	for {
		opts := s.runnable(g, g.state == gRunnable)
		n := len(opts)
		if n == 0 {
			// quiescent: wake an idle waiter first
			var idle *G
			for _, x := range s.live {
				if x.state == gIdle {
					idle = x
					break
				}
			}
			if idle != nil {
				idle.state = gRunnable
				return idle
			}
			if s.hasTimer() {
				if s.now > s.cfg.Horizon {
					s.fail(fmt.Sprintf("hang: virtual time passed %v and the scenario has not finished; %s", s.cfg.Horizon, s.describe()))
					return nil
				}
				s.advance()
				continue
			}
			s.fail("deadlock: no goroutine can run and no timer is pending; " + s.describe())
			return nil
		}
		if s.cfg.Clock && s.hasTimer() && s.choose(KSwitch, 2, 1) == 1 {
			s.advance()
			continue
		}
		c := s.choose(KSwitch, n, s.cfg.FreeCost)
		return opts[c]
	}
}

// block parks g (its state is already not runnable) until someone makes it runnable and schedules it.
func (s *Sched) block(g *G, why string) {
	g.why = why
	s.steps++
	h := s.pickNext(g)
	if h == nil {
		s.die()
	}
	if h == g {
		return
	}
	s.handoff(g, h)
	s.await(g)
}

// leave: g is done; hand over to somebody else.
func (s *Sched) leave(g *G) {
	h := s.pickNext(g)
	if h == nil {
		s.finish()
		return
	}
	s.handoff(g, h)
}

func (s *Sched) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
	}
}

func (s *Sched) describe() string {
	var b strings.Builder
	b.WriteString("goroutines:")
	for _, g := range s.live {
		st := "runnable"
		if g.state == gBlocked {
			st = "blocked in " + g.why
		} else if g.state == gIdle {
			st = "waiting for quiescence"
		}
		fmt.Fprintf(&b, " %s:%s;", g.label(), st)
	}
	return b.String()
}

// Gosched yields the processor.
func Gosched() {
	s := S
	s.checkAbort()
	s.steps++
	if s.steps > s.cfg.MaxSteps {
		s.fail(fmt.Sprintf("no end after %d steps (livelock); %s", s.steps, s.describe()))
		s.die()
	}
	s.yield(s.cur)
}

// WaitIdle blocks until no other goroutine can run without time passing.
func WaitIdle() {
	s := S
	s.checkAbort()
	g := s.cur
	g.state = gIdle
	s.block(g, "WaitIdle")
}

// BlockForever blocks for good (select{}).
func BlockForever() {
	s := S
	s.Point("block")
	g := s.cur
	g.state = gBlocked
	s.block(g, "select{}")
	panic("mc: unreachable")
}

// ---------------------------------------------------------------- timers

// push and without replace append: the runtime shows growing and copying of
// slices to the race detector, and these are the scheduler's own.
func push[T any](s []T, v T) []T {
	if len(s) == cap(s) {
		t := make([]T, len(s), 2*len(s)+16)
		for i := range s {
			t[i] = s[i]
		}
		s = t
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

func without[T any](s []T, i int) []T {
	t := make([]T, 0, len(s)+8)
	for j := range s {
		if j != i {
			t = t[:len(t)+1]
			t[len(t)-1] = s[j]
		}
	}
	return t
}

func (s *Sched) hasTimer() bool {
	for len(s.timers) > 0 && s.timers[0].dead {
		s.timers = s.timers[1:]
	}
	return len(s.timers) > 0
}

func (s *Sched) addTimer(t *timer) {
	s.tseq++
	t.seq = s.tseq
	i := sort.Search(len(s.timers), func(i int) bool {
		x := s.timers[i]
		return x.at > t.at
	})
	s.timers = push(s.timers, nil)
	for j := len(s.timers) - 1; j > i; j-- { // not copy: the runtime shows it to the race detector
		s.timers[j] = s.timers[j-1]
	}
	s.timers[i] = t
}

func (s *Sched) advance() {
	if !s.hasTimer() {
		return
	}
	at := s.timers[0].at
	if at > s.now {
		s.now = at
	}
	s.steps++
	if s.steps > s.cfg.MaxSteps {
		s.fail(fmt.Sprintf("no end after %d steps (livelock); %s", s.steps, s.describe()))
		// let the caller find nothing more to do: stop the clock
		for _, t := range s.timers {
			t.dead = true
		}
		s.timers = nil
		return
	}
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := s.timers[0]
		s.timers = s.timers[1:]
		if t.dead {
			continue
		}
		if t.period > 0 {
			t.at += t.period
			if t.at <= s.now { // never fall behind more than one tick
				t.at = s.now + t.period
			}
			s.addTimer(t)
		} else {
			t.dead = true
		}
		t.fire()
	}
}

// VNow is the virtual time since the start of the execution.
func VNow() time.Duration { return S.now }

// Now is the virtual wall clock.
func Now() time.Time {
	if S == nil {
		return DefaultBase
	}
	return S.cfg.Base.Add(S.now)
}

// DefaultBase is the virtual wall clock at the start of an execution.
var DefaultBase = time.Date(2011, 9, 9, 23, 36, 0, 0, time.UTC)

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	s := S
	s.Point("sleep")
	g := s.cur
	if d <= 0 {
		s.yield(g)
		return
	}
	g.state = gBlocked
	s.addTimer(&timer{at: s.now + d, fire: func() { s.ready(g) }})
	s.block(g, "Sleep")
}

// ---------------------------------------------------------------- one execution

// Outcome is what one execution produced.
type Outcome struct {
	Trace    []Point
	Fails    []string
	Log      []string
	Steps    int
	Switches int
	Gs       int
	Diverged bool
	VTime    time.Duration
}

// RunOnce executes body under the given choice prefix.
func RunOnce(cfg *Cfg, prefix []int, body func()) *Outcome {
	executions.Add(1)
	c := *cfg
	if c.Base.IsZero() {
		c.Base = DefaultBase
	}
	if c.Horizon == 0 {
		c.Horizon = 10 * time.Minute
	}
	if c.MaxSteps == 0 {
		c.MaxSteps = 2000000
	}
	s := &Sched{cfg: &c, prefix: prefix, done: make(chan struct{}, 1), exit: make(chan *G)}
	s.Env = newEnv()
	S = s
	StartAs(nil)
	stmts = c.Stmts
	races := raceErrors()
	s.main = s.spawn("main", body)
	s.cur = s.main
	raceDisable()
	s.main.wake <- struct{}{}
	<-s.done
	raceEnable()
	// stop everything else
	s.aborting = true
	for _, g := range s.gs {
		if g == nil {
			continue
		}
		if g.state == gDone {
			raceAcquire(g.tok)
			continue
		}
		raceDisable()
		g.wake <- struct{}{}
		raceEnable()
		<-s.exit
		raceAcquire(g.tok)
	}
	if n := raceErrors() - races; n > 0 {
		s.fails = append(s.fails, fmt.Sprintf("data race: the race detector reported %d race(s) in this schedule (details on the worker's stderr)", n))
	}
	S, stmts = nil, false
	return &Outcome{Trace: s.trace, Fails: s.fails, Log: s.log, Steps: s.steps, Switches: s.switches, Gs: len(s.gs), Diverged: s.diverged, VTime: s.now}
}

// Live is the number of goroutines of the execution that have not ended.
func Live() int { return len(S.live) }

// OwnBytes is how much memory the scheduler itself holds because of what has
// been executed so far (choices made, goroutines started).
func OwnBytes() int {
	s := S
	return cap(s.trace)*int(unsafe.Sizeof(Point{})) + cap(s.gs)*8 + cap(s.live)*8
}

// Busy lets time pass while the calling goroutine computes and nothing else
// gets to run: the timers due meanwhile fire.
func Busy(d time.Duration) {
	s := S
	end := s.now + d
	for s.hasTimer() && s.timers[0].at <= end {
		s.advance()
	}
	if s.now < end {
		s.now = end
	}
}
