package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

type valErr struct{ s string }

func (e valErr) Error() string { return e.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

// nilErr is an error even where it points nowhere.
type nilErr struct{ s string }

func (e *nilErr) Error() string {
	if e == nil {
		return "nil pointer"
	}
	return e.s
}

type sliceErr []string

func (e sliceErr) Error() string { return strings.Join(e, ",") }

type wrapE struct{ in error }

func (e *wrapE) Error() string { return "wrapped: " + e.in.Error() }
func (e *wrapE) Unwrap() error { return e.in }

// richErr has every method that anything might look for on an error.
type richErr struct{ in error }

func (e *richErr) Error() string        { return "rich" }
func (e *richErr) Unwrap() error        { return e.in }
func (e *richErr) Cause() error         { return e.in }
func (e *richErr) Is(t error) bool      { return true }
func (e *richErr) Timeout() bool        { return true }
func (e *richErr) Temporary() bool      { return true }
func (e *richErr) String() string       { return "not the text" }
func (e *richErr) StackTrace() []string { return []string{"x"} }
func (e *richErr) ErrorStack() string   { return "x" }
func (e *richErr) Callers() []uintptr   { return []uintptr{1} }

// errShapes are fresh errors of every kind a caller can report.
func errShapes() []error {
	return []error{
		errors.New("plain"),
		valErr{"value %d"},
		&ptrErr{""},
		sliceErr{"un", "comparable"},
		health.Mute(errors.New("muted")),
		&health.UnmutedError{Err: errors.New("user made")},
		&wrapE{health.Mute(errors.New("inner"))},
		fmt.Errorf("fmt: %w", &health.UnmutedError{Err: errors.New("deep")}),
		health.Mute(health.Mute(errors.New("twice"))),
		health.Mute(&health.UnmutedError{Err: errors.New("muted unmuted"), Emitted: true}),
		&health.UnmutedError{Err: health.Mute(errors.New("x")), Emitted: true},
		health.Mute(sliceErr{"a", "b"}),
		(*nilErr)(nil),
		sliceErr(nil),
		errors.Join(errors.New("joined")),
		errors.Join(health.Mute(errors.New("joined")), &health.UnmutedError{Err: errors.New("2")}),
		&richErr{errors.New("in")},
		&richErr{health.Mute(errors.New("in"))},
		io.EOF,
		context.DeadlineExceeded,
	}
}

// sameErr compares identity without tripping over uncomparable errors.
func sameErr(a, b error) bool {
	as, ok1 := a.(sliceErr)
	bs, ok2 := b.(sliceErr)
	if ok1 || ok2 {
		return ok1 && ok2 && len(as) == len(bs) && (len(as) == 0 || &as[0] == &bs[0])
	}
	return a == b
}

const thisPkg = "main"

// reportAt reports err; its own frame must be the first one of the trace.
//
//go:noinline
func reportAt(t target, kv bool, name string, err error) error {
	var r error
	if kv {
		r = t.EventErrKv(name, err, map[string]string{"k": "v"})
	} else {
		r = t.EventErr(name, err)
	}
	runtime.KeepAlive(&r)
	return r
}

type c03entry struct {
	ret    error
	orig   error // nil: passed through
	msg    string
	frames string
	muted  bool
}

func framesOf(u *health.UnmutedError) string {
	if u.Stack == nil {
		return "<none>"
	}
	return string(u.Stack.Stack())
}

func c03histories() {
	w := newWorld(mc.Choose(3), "j")
	shapes := errShapes()
	var known []*c03entry
	for i, n := 0, depth(4, 5); i < n; i++ {
		c := mc.Choose(len(shapes) + len(known) + 4)
		tgt, kv := i%2, (i/2+c)%2 == 1
		if c >= len(shapes)+len(known) {
			// wrap or mute an error that was reported before: a new error
			if len(known) == 0 {
				return
			}
			last := known[len(known)-1].ret
			shapes = append([]error{}, shapes...)
			switch c - len(shapes) - len(known) {
			case 0:
				shapes[0] = health.Mute(last)
			case 1:
				shapes[0] = fmt.Errorf("again: %w", last)
			case 2:
				shapes[0] = &wrapE{last}
			case 3:
				shapes[0] = errors.Join(last, errors.New("other"))
			}
			continue
		}
		t, jn, _ := w.at(tgt)
		n0 := len(w.all)
		var e *c03entry
		var in error
		first := true
		if c < len(shapes) {
			in = shapes[c]
			e = &c03entry{msg: in.Error()}
			switch x := in.(type) {
			case *health.MutedError:
				e.muted = true
			case *health.UnmutedError:
				first = !x.Emitted
				e.frames = framesOf(x)
			default:
				e.orig = in
			}
			for _, k := range known {
				if sameErr(k.ret, in) {
					e = k
					first = false
					e.orig = k.orig
				}
			}
		} else {
			e = known[c-len(shapes)]
			in = e.ret
			first = false
		}
		wasKnown := e.ret != nil
		ret := reportAt(t, kv, "name", in)
		if ret == nil {
			mc.Fail("reporting %T returned nil", in)
		}
		if ret.Error() != e.msg {
			mc.Fail("reporting %T(%q) returned message %q", in, e.msg, ret.Error())
		}
		got := w.all[n0:]
		if len(got) != len(w.sinks) {
			mc.Fail("%d sink calls for %d sinks", len(got), len(w.sinks))
		}
		for _, g := range got {
			if g.Err != ret {
				mc.Fail("sink %d got another error value (%T) than the caller (%T)", g.Sink, g.Err, ret)
			}
			if _, ok := g.Err.(*health.UnmutedError); ok && g.Flag == first {
				mc.Fail("report of %T(%q): sink %d saw emitted=%v (first report: %v)", in, e.msg, g.Sink, g.Flag, first)
			}
			if g.Job != jn || g.Event != "name" {
				mc.Fail("error event went to %q/%q", g.Job, g.Event)
			}
		}
		switch r := ret.(type) {
		case *health.MutedError:
			if !e.muted {
				mc.Fail("reporting an unmuted %T(%q) returned a muted error", in, e.msg)
			}
			if error(r) != in {
				mc.Fail("muted error was replaced")
			}
		case *health.UnmutedError:
			if e.muted {
				mc.Fail("muted error became unmuted")
			}
			if !r.Emitted {
				mc.Fail("error not marked emitted after its report")
			}
			if wasKnown || e.orig == nil {
				if error(r) != in && error(r) != e.ret {
					mc.Fail("reporting %T(%q) again returned a different value", in, e.msg)
				}
				if f := framesOf(r); f != e.frames {
					mc.Fail("trace changed on a later report:\n%s\nwas:\n%s", f, e.frames)
				}
			} else {
				if !sameErr(r.Err, e.orig) {
					mc.Fail("original error not remembered: %T %v, want %T", r.Err, r.Err, e.orig)
				}
				if r.Stack == nil {
					mc.Fail("no stack trace")
				}
				fr := r.Stack.Frames()
				if len(fr) < 2 || fr[0].Package != thisPkg || fr[0].Name != "reportAt" || fr[1].Name != "c03histories" {
					mc.Fail("trace does not start at the caller of EventErr:\n%s", r.Stack.Stack())
				}
				e.frames = framesOf(r)
			}
		default:
			mc.Fail("reporting %T returned %T, neither muted nor unmuted", in, ret)
		}
		if !wasKnown {
			e.ret = ret
			known = append(known, e)
		}
		mc.Logf("%T %q first=%v", in, e.msg, first)
	}
	// nothing already returned was affected
	for _, k := range known {
		if k.ret.Error() != k.msg {
			mc.Fail("message of an earlier error changed to %q", k.ret.Error())
		}
		if u, ok := k.ret.(*health.UnmutedError); ok {
			if f := framesOf(u); f != k.frames {
				mc.Fail("trace of an earlier error changed to\n%s", f)
			}
		}
	}
}

type callerT struct{ t target }

//go:noinline
func (c callerT) viaMethod(err error) error {
	r := c.t.EventErr("e", err)
	runtime.KeepAlive(&r)
	return r
}

//go:noinline
func viaConcreteStream(s *health.Stream, err error) error {
	r := s.EventErrKv("e", err, nil)
	runtime.KeepAlive(&r)
	return r
}

//go:noinline
func viaConcreteJob(j *health.Job, err error) error {
	r := j.EventErr("e", err)
	runtime.KeepAlive(&r)
	return r
}

//go:noinline
func viaRecursion(n int, t target, err error) error {
	var r error
	if n == 0 {
		r = t.EventErrKv("e", err, nil)
	} else {
		r = viaRecursion(n-1, t, err)
	}
	runtime.KeepAlive(&r)
	return r
}

//go:noinline
func viaDefer(t target, err error) (r error) {
	defer deferred(t, err, &r)
	return nil
}

//go:noinline
func deferred(t target, err error, r *error) {
	*r = t.EventErr("e", err)
	runtime.KeepAlive(r)
}

func c03callers() {
	w := newWorld(mc.Choose(2), "j")
	t, _, _ := w.at(mc.Choose(2))
	err := errors.New("x")
	var r error
	var want []string
	switch mc.Choose(7) {
	case 0:
		r = reportAt(t, mc.Choose(2) == 1, "e", err)
		want = []string{"reportAt", "c03callers"}
	case 1:
		f := func() error {
			r := t.EventErr("e", err)
			runtime.KeepAlive(&r)
			return r
		}
		r = f()
		want = []string{"c03callers.func1"}
	case 2:
		r = callerT{t}.viaMethod(err)
		want = []string{"callerT.viaMethod", "c03callers"}
	case 3:
		r = viaConcreteStream(w.st, err)
		want = []string{"viaConcreteStream", "c03callers"}
	case 4:
		r = viaConcreteJob(w.jobs[0], err)
		want = []string{"viaConcreteJob", "c03callers"}
	case 5:
		n := []int{1, 10, 49, 60, 300}[mc.Choose(5)]
		r = viaRecursion(n, t, err)
		for i := 0; i < min(n+1, 50); i++ {
			want = append(want, "viaRecursion")
		}
	case 6:
		r = viaDefer(t, err)
		want = []string{"deferred", "viaDefer", "c03callers"}
	}
	u, ok := r.(*health.UnmutedError)
	if !ok {
		mc.Fail("EventErr returned %T", r)
	}
	fr := u.Stack.Frames()
	for i, n := range want {
		if i >= len(fr) || fr[i].Package != thisPkg || fr[i].Name != n {
			mc.Fail("frame %d should be %s:\n%s", i, n, u.Stack.Stack())
		}
	}
}

func c03concurrent() {
	w := &world{st: health.NewStream(), mu: new(mc.Mutex)}
	w.addSink()
	w.addSink()
	shared := health.Mute(errors.New("shared"))
	body := func(g int) func() {
		j := w.addJob(fmt.Sprint("j", g))
		return func() {
			e := fmt.Errorf("e%d", g)
			r1 := reportAt(j, g == 0, "first", e)
			u, ok := r1.(*health.UnmutedError)
			if !ok || u.Err != e || !u.Emitted {
				mc.Fail("first report of goroutine %d returned %T %v", g, r1, r1)
			}
			if fr := u.Stack.Frames(); fr[0].Name != "reportAt" {
				mc.Fail("first frame is %s", fr[0].Name)
			}
			if r2 := reportAt(j, g == 1, "second", r1); r2 != r1 {
				mc.Fail("re-report returned another value")
			}
			if r3 := reportAt(j, false, "muted", shared); r3 != error(shared) {
				mc.Fail("muted error replaced")
			}
		}
	}
	par(body(0), body(1))
	for _, r := range w.all {
		switch r.Event {
		case "first", "second":
			u, ok := r.Err.(*health.UnmutedError)
			if !ok || u.Err.Error() != "e"+r.Job[1:] {
				mc.Fail("job %s got error %v", r.Job, r.Err)
			}
			if r.Flag != (r.Event == "second") {
				mc.Fail("%s report seen with emitted=%v", r.Event, r.Flag)
			}
		case "muted":
			if r.Err != error(shared) {
				mc.Fail("muted error replaced")
			}
		}
	}
	if len(w.all) != 12 {
		mc.Fail("%d deliveries, want 12", len(w.all))
	}
}

// ------------------------------------------------------------- C04

type strg struct{ s string }

func (s strg) String() string { return "Stringer:" + s.s }

type pstruct struct {
	A int
	b string
}

// panicCase is a panic and the text Run must return for it.
type panicCase struct {
	do   func()
	want func() string
}

func panicCases() []panicCase {
	lit := func(v any) panicCase { return panicCase{func() { panic(v) }, func() string { return fmt.Sprint(v) }} }
	p := &pstruct{1, "x"}
	return []panicCase{
		lit("oops"), lit(""), lit("%s %d"), lit(errors.New("an error")), lit(valErr{"val"}), lit(sliceErr{"a", "b"}), lit(42), lit(3.5), lit(true),
		lit(pstruct{7, "y"}), lit(p), lit(strg{"q"}), lit([]int{1, 2}), lit(health.Mute(errors.New("muted panic"))), lit(&health.UnmutedError{Err: errors.New("unmuted panic"), Emitted: true}),
		{func() { var m map[string]int; m["a"] = 1 }, func() string { return "assignment to entry in nil map" }},
		{func() { var a []int; i := 3; _ = a[i] }, func() string { return "runtime error: index out of range [3] with length 0" }},
		{func() { var p *pstruct; _ = p.A }, func() string { return "runtime error: invalid memory address or nil pointer dereference" }},
		{func() { var x any = "s"; _ = x.(int) }, func() string { return "interface conversion: interface {} is string, not int" }},
		{func() { z := 0; _ = 1 / z }, func() string { return "runtime error: integer divide by zero" }},
		{func() { panic(nil) }, func() string { return fmt.Sprint(new(runtime.PanicNilError)) }},
		{func() { deepPanic(60) }, func() string { return "deep" }},
		// what the standard library and others give a meaning of their own
		lit(http.ErrAbortHandler), lit(fmt.Errorf("in: %w", http.ErrAbortHandler)), lit(io.EOF), lit(context.Canceled), lit(context.DeadlineExceeded), lit(http.ErrServerClosed), lit(os.ErrClosed), lit(health.Panic), lit(bufio.ErrFinalToken),
		lit((*nilErr)(nil)), lit((*pstruct)(nil)), lit([]byte("bytes")), lit('r'), lit(map[string]int{"a": 1}), lit(int64(0)), lit(false), lit([]error(nil)), lit(strings.Repeat("long ", 20000)), lit("a\nb\x00\xff"),
	}
}

//go:noinline
func panicWith(v any) { panic(v) }

//go:noinline
func deepPanic(n int) {
	if n == 0 {
		panic("deep")
	}
	deepPanic(n - 1)
	runtime.KeepAlive(n)
}

// outcome i of a function run as a job: 0 nil, then errors, then panics.
type outcome struct {
	err   error
	panic *panicCase
}

func outcomes() []outcome {
	o := []outcome{{}, {err: errors.New("fails")}, {err: sliceErr{"x"}}, {err: health.Mute(errors.New("m"))}, {err: &health.UnmutedError{Err: errors.New("u")}}, {err: valErr{""}}}
	for _, p := range panicCases() {
		pc := p
		o = append(o, outcome{panic: &pc})
	}
	// errors that are nil pointers or slices: not nil as errors
	o = append(o, outcome{err: (*nilErr)(nil)}, outcome{err: sliceErr(nil)})
	// errors that were reported before: through a stream, by hand, joined, wrapped
	rep := health.NewStream().EventErr("earlier", errors.New("reported"))
	for _, e := range []error{http.ErrAbortHandler, io.EOF, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, fmt.Errorf("in: %w", context.Canceled)} {
		o = append(o, outcome{err: e})
	}
	return append(o, outcome{err: rep}, outcome{err: &health.UnmutedError{Err: errors.New("u2"), Emitted: true}}, outcome{err: &wrapE{rep}}, outcome{err: errors.Join(rep, health.Mute(rep))})
}

// returning is fresh errors to report on a job and return from its function.
func returning() []error {
	return []error{errors.New("a"), sliceErr{"b"}, health.Mute(errors.New("c")), &health.UnmutedError{Err: errors.New("d")}, &wrapE{errors.New("e")}}
}

func c04reported() {
	w := newWorld(1+mc.Choose(2), "other")
	errs := returning()
	e := errs[mc.Choose(len(errs))]
	on, kv, recv := mc.Choose(3), mc.Choose(2) == 1, mc.Choose(3)
	again := mc.Choose(2) == 1 // returned by two functions, one within the other
	mc.Sleep(3)
	var ret error
	f := func() error {
		mc.Sleep(11)
		switch on {
		case 0:
			ret = reportAt(w.jobs[0], kv, "e", e)
		case 1:
			ret = reportAt(w.st, kv, "e", e)
		case 2:
			ret = reportAt(w.jobs[0], kv, "e", reportAt(w.st, !kv, "e", e))
		}
		return ret
	}
	names := []string{"run", "general", "other"}
	do := func(recv int, f func() error) error {
		switch recv {
		case 0:
			return runAs(func(f func() error) error { return w.st.Run("run", f) }, f)
		case 1:
			return runAs(w.st.Job.Run, f)
		}
		return runAs(w.jobs[0].Run, f)
	}
	want := 1
	g := f
	if again {
		want = 2
		g = func() error { return do((recv+1)%3, f) }
	}
	got := do(recv, g)
	if !sameErr(got, ret) {
		mc.Fail("Run returned %T %v instead of the reported error %T %v", got, got, ret, ret)
	}
	for i, l := range w.perSink(0) {
		n := 0
		for _, r := range l {
			if r.K != kComplete {
				if r.K != kErr || r.Event != "e" {
					mc.Fail("sink %d got %v", i, r)
				}
				continue
			}
			who := names[recv]
			if again && n == 0 {
				who = names[(recv+1)%3]
			}
			if n++; r.Status != health.Error || r.Job != who {
				mc.Fail("sink %d: completion %d is %v, want an error of %q: the function returned an error it had reported", i, n, r, who)
			}
		}
		if n != want {
			mc.Fail("sink %d got %d completions, want %d", i, n, want)
		}
	}
}

// wantRun is what the sinks must get for one finished Run, after what the
// function itself emitted.
func wantRun(job string, kvs map[string]string, o outcome, nanos int64) []rec {
	c := rec{K: kComplete, Job: job, Nanos: nanos, Kvs: kvs}
	switch {
	case o.panic != nil:
		c.Status = health.Panic
		return []rec{{K: kErr, Job: job, Event: "panic", Err: errors.New(o.panic.want()), Kvs: kvs}, c}
	case o.err != nil:
		c.Status = health.Error
	default:
		c.Status = health.Success
	}
	return []rec{c}
}

// checkRun compares deliveries (of one sink) with expectations; "panic" error
// events must carry a stack in addition to the expected key-values.
func checkRun(got, want []rec) {
	if len(got) != len(want) {
		mc.Fail("%d deliveries, want %d:\n%v\nwant\n%v", len(got), len(want), got, want)
	}
	for i := range got {
		g, w := got[i], want[i]
		if w.K == kErr && w.Event == "panic" {
			st, ok := g.Kvs["stack"]
			if !ok || !strings.Contains(st, "goroutine ") {
				mc.Fail("panic event without stack: %v", g)
			}
			if !strings.Contains(st, "main.panicCases") && !strings.Contains(st, "main.deepPanic") && !strings.Contains(st, "main.panicWith") {
				mc.Fail("the stack of a panic event does not show where it panicked: %q", st)
			}
			g.Kvs = copyKvs(g.Kvs)
			delete(g.Kvs, "stack")
			u, ok := g.Err.(*health.UnmutedError)
			if !ok || u.Stack == nil {
				mc.Fail("panic error event carries %T without trace", g.Err)
			}
			if g.Flag {
				mc.Fail("panic error was marked as already emitted")
			}
		}
		if g.String() != w.String() {
			mc.Fail("delivery %d: got  %v\nwant %v", i, g, w)
		}
	}
}

func checkRet(got error, o outcome) {
	switch {
	case o.panic != nil:
		if got == nil || got.Error() != o.panic.want() {
			mc.Fail("Run returned %v after a panic with %q", got, o.panic.want())
		}
	case !sameErr(got, o.err):
		mc.Fail("Run returned %v, want %v unchanged", got, o.err)
	}
}

func (w *world) perSink(n0 int) [][]rec {
	out := make([][]rec, len(w.sinks))
	for _, r := range w.all[n0:] {
		out[r.Sink] = append(out[r.Sink], r)
	}
	return out
}

func runAs(recv func(func() error) error, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "mc.abortT" {
				panic(r)
			}
			mc.Fail("Run let a panic through: %v", r)
		}
	}()
	return recv(f)
}

func c04outcomes() {
	outs := outcomes()
	jn, rn := "job j", "run\n%"
	if mc.Choose(2) == 1 {
		jn, rn = "", ""
	}
	w := newWorld(mc.Choose(3), jn)
	w.st.KeyValue("s", "1")
	w.jobs[0].KeyValue("j", "2")
	recv := mc.Choose(3)
	o := outs[mc.Choose(len(outs))]
	inner := mc.Choose(3 + 4) // 0 none, 1 event before, 2 error event, 3.. nested run
	calls, innerCalls := 0, 0
	var want []rec
	name, kvs := jn, map[string]string{"s": "1", "j": "2"}
	switch recv {
	case 1:
		name, kvs = rn, map[string]string{"s": "1"}
	case 2:
		name, kvs = "general", map[string]string{"s": "1"}
	}
	mc.Sleep(5)
	began := mc.VNow()
	f := func() error {
		calls++
		if calls > 1 {
			mc.Fail("the function was called %d times", calls)
		}
		mc.Sleep(1000)
		switch {
		case inner == 1:
			w.jobs[0].Event("inside")
			want = append(want, rec{K: kEvent, Job: jn, Event: "inside", Kvs: map[string]string{"s": "1", "j": "2"}})
		case inner == 2:
			w.st.EventErr("inside", errors.New("ie"))
			want = append(want, rec{K: kErr, Job: "general", Event: "inside", Err: errors.New("ie"), Kvs: map[string]string{"s": "1"}})
		case inner >= 3:
			io := []outcome{{}, {err: errors.New("inner err")}, {panic: &panicCase{func() { panicWith("inner panic") }, func() string { return "inner panic" }}}, {panic: &panicCase{func() { panicWith(valErr{"ip"}) }, func() string { return "ip" }}}}[inner-3]
			t0 := mc.VNow()
			r := runAs(func(g func() error) error { return w.st.Run("nested", g) }, func() error {
				innerCalls++
				mc.Sleep(7)
				if io.panic != nil {
					io.panic.do()
				}
				return io.err
			})
			checkRet(r, io)
			want = append(want, wantRun("nested", map[string]string{"s": "1"}, io, int64(mc.VNow()-t0))...)
		}
		mc.Sleep(100)
		if o.panic != nil {
			o.panic.do()
			mc.Fail("panic case did not panic")
		}
		return o.err
	}
	var r error
	switch recv {
	case 0:
		r = runAs(w.jobs[0].Run, f)
		began = 0
	case 1:
		r = runAs(func(g func() error) error { return w.st.Run(name, g) }, f)
	case 2:
		r = runAs(w.st.Job.Run, f)
		began = 0
	}
	if calls != 1 {
		mc.Fail("the function was called %d times", calls)
	}
	if inner >= 3 && innerCalls != 1 {
		mc.Fail("the nested function was called %d times", innerCalls)
	}
	checkRet(r, o)
	want = append(want, wantRun(name, kvs, o, int64(mc.VNow()-began))...)
	for _, got := range w.perSink(0) {
		checkRun(got, want)
	}
	mc.Logf("ret=%v", r)
}

func c04sequences() {
	outs := outcomes()
	outs = []outcome{outs[0], outs[1], outs[6], outs[9], outs[21]}
	w := newWorld(1, "j0", "j1")
	var want []rec
	for i := 0; i < depth(3, 4); i++ {
		c := mc.Choose(len(outs) * 3)
		o := outs[c/3]
		f := func() error {
			mc.Sleep(time.Duration(10 + i))
			if o.panic != nil {
				o.panic.do()
			}
			return o.err
		}
		var r error
		began := time.Duration(0)
		name := "general"
		switch c % 3 {
		case 0:
			began = mc.VNow()
			name = fmt.Sprint("run", i)
			r = runAs(func(g func() error) error { return w.st.Run(name, g) }, f)
		case 1:
			name = "j0"
			r = runAs(w.jobs[0].Run, f)
		case 2:
			name = "j1"
			r = runAs(w.jobs[1].Run, f)
		}
		checkRet(r, o)
		want = append(want, wantRun(name, nil, o, int64(mc.VNow()-began))...)
		checkRun(w.sinks[0].got, want)
	}
}

func c04concurrent() {
	outs := outcomes()
	outs = []outcome{outs[0], outs[1], outs[6], outs[9]}
	w := &world{st: health.NewStream(), mu: new(mc.Mutex)}
	w.addSink()
	w.st.KeyValue("s", "1")
	wants := make([][]rec, 2)
	fs := make([]func(), 2)
	for g := 0; g < 2; g++ {
		o := outs[mc.Choose(len(outs))]
		name := fmt.Sprint("run", g)
		fs[g] = func() {
			calls := 0
			r := runAs(func(f func() error) error { return w.st.Run(name, f) }, func() error {
				calls++
				w.st.NewJob(name).Event("inside")
				if o.panic != nil {
					o.panic.do()
				}
				return o.err
			})
			if calls != 1 {
				mc.Fail("function called %d times", calls)
			}
			checkRet(r, o)
		}
		wants[g] = append([]rec{{K: kEvent, Job: name, Event: "inside", Kvs: map[string]string{"s": "1"}}}, wantRun(name, map[string]string{"s": "1"}, o, 0)...)
	}
	par(fs...)
	for g := range wants {
		var got []rec
		for _, r := range w.sinks[0].got {
			if r.Job == fmt.Sprint("run", g) {
				got = append(got, r)
			}
		}
		checkRun(got, wants[g])
	}
	if len(w.sinks[0].got) != len(wants[0])+len(wants[1]) {
		mc.Fail("unexpected deliveries: %v", w.sinks[0].got)
	}
}
