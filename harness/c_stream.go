package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/stack"
	"verif/mc"
)

// target is what a stream and a job have in common.
type target interface {
	health.EventReceiver
	Complete(health.CompletionStatus)
	CompleteKv(health.CompletionStatus, map[string]string)
}

const nForms = 10 // emission calls: 5 kinds, each with and without key-values

var formNames = []string{"Event", "EventErr", "Timing", "Gauge", "Complete", "EventKv", "EventErrKv", "TimingKv", "GaugeKv", "CompleteKv"}

// vals are the arguments of one emission call.
type vals struct {
	name   string
	n      int64
	f      float64
	status health.CompletionStatus
	err    error
	kvs    map[string]string
}

// callForm makes emission call form on t and says what every sink must get.
//
//go:noinline
func callForm(t target, job string, created time.Duration, form int, v vals) (rec, error) {
	w := rec{Job: job, Event: v.name}
	var ret error
	switch form {
	case 0:
		t.Event(v.name)
	case 1:
		ret = t.EventErr(v.name, v.err)
	case 2:
		t.Timing(v.name, v.n)
	case 3:
		t.Gauge(v.name, v.f)
	case 4:
		t.Complete(v.status)
	case 5:
		t.EventKv(v.name, v.kvs)
	case 6:
		ret = t.EventErrKv(v.name, v.err, v.kvs)
	case 7:
		t.TimingKv(v.name, v.n, v.kvs)
	case 8:
		t.GaugeKv(v.name, v.f, v.kvs)
	case 9:
		t.CompleteKv(v.status, v.kvs)
	}
	w.K = kind(form % 5)
	switch w.K {
	case kErr:
		w.Err = v.err
	case kTiming:
		w.Nanos = v.n
	case kGauge:
		w.Value = v.f
	case kComplete:
		w.Event = ""
		w.Status = v.status
		w.Nanos = int64(mc.VNow() - created)
	}
	if form >= 5 {
		w.Kvs = copyKvs(v.kvs)
	}
	return w, ret
}

// world is a stream with recording sinks and jobs.
type world struct {
	st      *health.Stream
	created time.Duration
	jobs    []*health.Job
	names   []string
	starts  []time.Duration
	sinks   []*recSink
	all     []rec
	mu      *mc.Mutex
}

func newWorld(sinks int, jobs ...string) *world {
	w := &world{st: health.NewStream(), created: mc.VNow()}
	for i := 0; i < sinks; i++ {
		w.addSink()
	}
	for _, j := range jobs {
		w.addJob(j)
	}
	return w
}

func (w *world) addSink() {
	s := &recSink{id: len(w.sinks), all: &w.all, mu: w.mu}
	w.sinks = append(w.sinks, s)
	if got := w.st.AddSink(s); got != w.st {
		mc.Fail("AddSink did not return the stream")
	}
}

func (w *world) addJob(name string) *health.Job {
	j := w.st.NewJob(name)
	w.jobs = append(w.jobs, j)
	w.names = append(w.names, name)
	w.starts = append(w.starts, mc.VNow())
	return j
}

// at gives target i: 0 the stream, i>0 job i-1.
func (w *world) at(i int) (target, string, time.Duration) {
	if i == 0 {
		return w.st, "general", w.created
	}
	return w.jobs[i-1], w.names[i-1], w.starts[i-1]
}

// expectNew checks that the sinks got exactly one more call each, in order.
func (w *world) expectNew(n0 int, want rec, ret error, what string) {
	got := w.all[n0:]
	if len(got) != len(w.sinks) {
		mc.Fail("%s: %d sink calls made by the time the call returned, want one for each of %d sinks: %v", what, len(got), len(w.sinks), got)
	}
	for i, g := range got {
		if g.Sink != i {
			mc.Fail("%s: sink %d was called at position %d", what, g.Sink, i)
		}
		if g.String() != want.String() {
			mc.Fail("%s: sink %d got  %v\nwant %v", what, i, g, want)
		}
		if want.K == kErr && g.Err != ret {
			mc.Fail("%s: sink %d got a different error value than the caller (%T vs %T)", what, i, g.Err, ret)
		}
	}
}

var posNames = []string{"e0", "%s\n\"", "", "e0"}
var posInts = []int64{7, -1 << 63, 1<<63 - 1, 0, 3}
var posFloats = []float64{0.1, -3, 1e300, 0, 12345.678}
var posDur = []time.Duration{1, 1500 * time.Millisecond, 25 * time.Hour, 3}

func posVals(i int) vals {
	return vals{name: posNames[i%4], n: posInts[i%5], f: posFloats[i%5], status: statuses[(i+1)%5],
		err: fmt.Errorf("error %d %%s", i), kvs: map[string]string{"k": fmt.Sprint(i), "k" + fmt.Sprint(i): "%d"}}
}

// sinkValue is a sink that cannot be compared.
type sinkValue struct {
	*recSink
	m map[string]int
}

// jobNames: jobs are told apart by identity, not by name.
func jobNames() {
	names := []string{"j", "general", "", "J", "j ", "panic"}
	w := newWorld(1)
	mc.Sleep(3 * time.Millisecond)
	when := mc.Choose(3) // key-values set between the creations, after both, or never
	kv := [3]map[string]string{{}, {}, {}}
	set := func(who int) {
		if who == 0 {
			w.st.KeyValue("s", "stream")
			kv[0]["s"] = "stream"
			return
		}
		w.jobs[who-1].KeyValue("k", fmt.Sprint("job", who))
		kv[who]["k"] = fmt.Sprint("job", who)
	}
	who := 0
	if when != 2 {
		who = mc.Choose(3)
	}
	w.addJob(names[mc.Choose(len(names))])
	if when == 0 {
		if who == 2 {
			who = 0
		}
		set(who)
	}
	mc.Sleep(5 * time.Second)
	w.addJob(names[mc.Choose(len(names))])
	if when == 1 {
		set(who)
	}
	if w.jobs[0] == w.jobs[1] {
		mc.Fail("two NewJob calls returned the same job")
	}
	mc.Sleep(7)
	for i := 0; i < depth(3, 4); i++ {
		tgt := mc.Choose(3)
		form := []int{4, 5, 9}[mc.Choose(3)]
		t, jn, created := w.at(tgt)
		n0 := len(w.all)
		v := posVals(i)
		want, ret := callForm(t, jn, created, form, v)
		if want.Kvs == nil {
			want.Kvs = map[string]string{}
		}
		for _, m := range []map[string]string{kv[0], kv[tgt]} {
			for k, y := range m {
				if _, ok := v.kvs[k]; form >= 5 && ok {
					continue
				}
				want.Kvs[k] = y
			}
		}
		w.expectNew(n0, want, ret, fmt.Sprintf("%s on %q (target %d)", formNames[form], jn, tgt))
		mc.Sleep(11)
	}
}

func init() {
	add(&Scn{Prop: "C01", Name: "sequences", Doc: "all sequences of emission calls (10 forms x stream/two jobs), sink additions, job creations and clock advances, with 0..2 initial sinks; after every call the log of all sinks is compared with the expected delivery",
		Cfg: seqCfg, Shards: 2, DeepShards: 8, Body: func() {
			w := newWorld(mc.Choose(3), "jobA", "")
			for i, n := 0, depth(3, 4); i < n; i++ {
				c := mc.Choose(33)
				n0 := len(w.all)
				switch {
				case c < 30:
					t, job, created := w.at(c % 3)
					v := posVals(i)
					want, ret := callForm(t, job, created, c/3, v)
					mc.Logf("%s on %q", formNames[c/3], job)
					w.expectNew(n0, want, ret, formNames[c/3]+" on "+job)
				case c == 30:
					w.addSink()
				case c == 31:
					w.jobs[0], w.names[0], w.starts[0] = w.st.NewJob("again"), "again", mc.VNow()
				case c == 32:
					mc.Sleep(posDur[i])
				}
				if c >= 30 && len(w.all) != n0 {
					mc.Fail("something was emitted without an emission")
				}
			}
		}})
	for _, prop := range []string{"C01", "C02"} {
		add(&Scn{Prop: prop, Name: "job_names", Doc: "two jobs with every pair of names out of equal, empty, \"general\", differing in case or spaces, created at different times around key-value settings, then emissions on both and on the stream in every order: own name, own start time, own key-values",
			Cfg: seqCfg, Body: jobNames})
	}
	add(&Scn{Prop: "C01", Name: "values", Doc: "every emission form x every awkward event name x boundary values and statuses x awkward job name",
		Cfg: seqCfg, Body: func() {
			form := mc.Choose(nForms)
			name := awkward[mc.Choose(len(awkward))]
			job := awkward[mc.Choose(len(awkward))]
			var v vals
			v.name = name
			v.err = errors.New(name)
			v.status = health.CompletionStatus(0)
			switch form % 5 {
			case 2:
				v.n = int64s[mc.Choose(len(int64s))]
			case 3:
				fs := append([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}, floats...)
				v.f = fs[mc.Choose(len(fs))]
			case 4:
				v.status = health.CompletionStatus(mc.Choose(7) - 1)
			}
			if form >= 5 {
				v.kvs = map[string]string{name: job, "x": name}
			}
			w := newWorld(2, job)
			mc.Sleep(time.Duration(12345))
			t, jn, created := w.at(1)
			want, ret := callForm(t, jn, created, form, v)
			w.expectNew(0, want, ret, formNames[form])
		}})
	add(&Scn{Prop: "C01", Name: "bytes", Doc: "every byte value (among them those that make no valid UTF-8), alone, within letters and repeated, in the name of the job, the event, a key and a value and in the error's text, in every emission form",
		Cfg: burst, Body: func() {
			for c := 0; c < 256; c++ {
				b := string([]byte{byte(c)})
				for _, x := range []string{b, "a" + b + "z", strings.Repeat(b, 3), "\xed\xa0" + b} {
					w := newWorld(2, x)
					for form := 0; form < nForms; form++ {
						t, jn, created := w.at(1)
						n0 := len(w.all)
						v := vals{name: x, n: int64(c), f: float64(c), status: statuses[c%5], err: errors.New(x)}
						if form >= 5 {
							v.kvs = map[string]string{x: b, "k": x}
						}
						want, ret := callForm(t, jn, created, form, v)
						w.expectNew(n0, want, ret, formNames[form])
						for _, r := range w.all[n0:] {
							if r.Job != x || r.Event != want.Event || want.Kvs != nil && (r.Kvs[x] != b && x != "k" || r.Kvs["k"] != x) {
								mc.Fail("%s of %q: delivered job %q, event %q, key-values %q", formNames[form], x, r.Job, r.Event, r.Kvs)
							}
							if r.Err != nil && r.Err.Error() != x {
								mc.Fail("%s: error text %q, want %q", formNames[form], r.Err.Error(), x)
							}
						}
					}
				}
			}
		}})
	add(&Scn{Prop: "C01", Name: "slow_sinks", Doc: "three sinks of which any may take 0, 1 ms or 70 s over what it is given, sinks that add another sink while they are given something, every emission form on the stream and on a job and jobs that are run (success, error, panic): a completion carries the time from the creation to the call at every sink, and only the sinks added before a call are served by it",
		Cfg: seqCfg, Body: func() {
			var all []rec
			st := health.NewStream()
			var added *recSink
			who := mc.Choose(4) - 1
			for i := 0; i < 3; i++ {
				d := []time.Duration{0, time.Millisecond, 70 * time.Second}[mc.Choose(3)]
				s := &recSink{id: i, all: &all}
				s.hook = func(rec) {
					if d > 0 {
						mc.Sleep(d)
					}
					if i == who && added == nil {
						added = &recSink{id: 3, all: &all}
						st.AddSink(added)
					}
				}
				st.AddSink(s)
			}
			j := st.NewJob("j")
			mc.Sleep(5 * time.Millisecond)
			n := 3
			check := func(want []rec, what string) {
				var got []rec
				for k := 0; k < len(want); k++ {
					for i := 0; i < n; i++ {
						r := want[k]
						r.Sink = i
						got = append(got, r)
					}
					if k == 0 && added != nil {
						n = 4
					}
				}
				if len(all) != len(got) {
					mc.Fail("%s: %d deliveries, want %d: %v", what, len(all), len(got), all)
				}
				for i, w := range got {
					g := all[i]
					if w.Event == "panic" {
						g.Kvs, g.Err = nil, w.Err
					}
					if g.Sink != w.Sink || g.String() != w.String() {
						mc.Fail("%s: delivery %d is to sink %d: %v, want to sink %d: %v", what, i, g.Sink, g, w.Sink, w)
					}
				}
				all = all[:0]
			}
			rot := mc.Choose(nForms + 3)
			for k := 0; k < 2; k++ {
				created, t, name := time.Duration(0), target(st), "general"
				if k == 1 {
					t, name = j, "j"
				}
				if rot >= nForms {
					o := []outcome{{}, {err: errBoom}, {panic: &panicCase{func() { panicWith("p") }, func() string { return "p" }}}}[rot-nForms]
					created = mc.VNow()
					var took, began int64
					runAs(func(g func() error) error { return st.Run("run", g) }, func() error {
						mc.Sleep(3 * time.Second)
						took = int64(mc.VNow() - created)
						if o.panic != nil {
							o.panic.do()
						}
						return o.err
					})
					began = took
					if o.panic != nil && len(all) > 0 {
						// the panic is reported first, and that takes its time
						took = all[len(all)-1].Nanos
						if took < began || len(all) < 1 {
							mc.Fail("a panicking run took %d at the last sink, want at least %d", took, began)
						}
					}
					want := wantRun("run", nil, o, took)
					check(want, "Run")
					continue
				}
				v := posVals(k)
				at := mc.VNow()
				want, _ := callForm(t, name, created, rot, v)
				if want.K == kComplete {
					want.Nanos = int64(at - created)
				}
				check([]rec{want}, formNames[rot])
			}
		}})
	add(&Scn{Prop: "C01", Name: "same_sink", Doc: "every list of up to 4 sinks out of two recording sinks and two writer sinks on one buffer, so that a sink stands in it twice or more, or beside an equal one: every place in the list is served by every emission",
		Cfg: seqCfg, Body: func() {
			st := health.NewStream()
			j := st.NewJob("j")
			mc.Sleep(5 * time.Millisecond)
			var all []rec
			var buf bytes.Buffer
			writers := []health.Sink{&health.WriterSink{Writer: &buf}, &health.WriterSink{Writer: &buf}}
			recs := []*recSink{{id: 0, all: &all}, {id: 1, all: &all}}
			rot := mc.Choose(nForms)
			n := 1 + mc.Choose(4)
			var ids []int
			lines := 0
			for i := 0; i < n; i++ {
				c := mc.Choose(4)
				switch c {
				case 0:
					st.AddSink(recs[0])
				case 1:
					st.AddSink(sinkValue{recs[1], nil})
				default:
					st.AddSink(writers[c-2])
					lines++
				}
				if c < 2 {
					ids = append(ids, c)
				}
				for k := 0; k < 2; k++ {
					all = all[:0]
					buf.Reset()
					form := (rot + 3*i + 5*k) % nForms
					var t target = st
					name, created := "general", time.Duration(0)
					if k == 1 {
						t, name = j, "j"
					}
					want, _ := callForm(t, name, created, form, posVals(i))
					if len(all) != len(ids) {
						mc.Fail("%s with sinks %v: %d deliveries %v", formNames[form], ids, len(all), all)
					}
					for p, r := range all {
						if r.Sink != ids[p] || r.String() != want.String() {
							mc.Fail("%s with sinks %v: delivery %d is to sink %d: %v, want %v", formNames[form], ids, p, r.Sink, r, want)
						}
					}
					if got := strings.Count(buf.String(), "]: job:"); got != lines {
						mc.Fail("%s: %d lines from %d writer sinks: %q", formNames[form], got, lines, buf.String())
					}
				}
			}
		}})
	add(&Scn{Prop: "C01", Name: "errors", Doc: "the error handed to sinks for 10 kinds of error values, reported through stream and job",
		Cfg: seqCfg, Body: func() {
			form := []int{1, 6}[mc.Choose(2)]
			w := newWorld(2, "j")
			v := vals{name: "ev", kvs: map[string]string{"a": "b"}}
			v.err = errShapes()[mc.Choose(len(errShapes()))]
			t, jn, created := w.at(mc.Choose(2))
			want, ret := callForm(t, jn, created, form, v)
			w.expectNew(0, want, ret, formNames[form])
		}})
	add(&Scn{Prop: "C01", Name: "long", Doc: "one long run: 70 sinks and 300 jobs growing while 30000 emissions of all forms rotate over the targets",
		Cfg: seqCfg, Body: func() {
			w := newWorld(0)
			total := depth(12000, 60000)
			for i := 0; i < total; i++ {
				if i%(total/70) == 0 {
					w.addSink()
				}
				if i%(total/300) == 0 {
					w.addJob(fmt.Sprint("job", i))
				}
				if i%97 == 0 {
					mc.Sleep(time.Duration(i))
				}
				ti := (i * 7919) % (len(w.jobs) + 1)
				t, jn, created := w.at(ti)
				form := (i * 31 / 3) % nForms
				v := posVals(i)
				w.all = w.all[:0]
				for _, s := range w.sinks {
					s.got = s.got[:0]
				}
				want, ret := callForm(t, jn, created, form, v)
				w.expectNew(0, want, ret, fmt.Sprintf("emission %d: %s", i, formNames[form]))
			}
		}})
	concBody := func(gs, per int) func() {
		return func() {
			w := &world{st: health.NewStream(), created: mc.VNow(), mu: new(mc.Mutex)}
			w.addSink()
			w.addSink()
			w.st.KeyValue("s", "stream")
			shift := mc.Choose(5) // which forms are used
			wants := make([][]rec, gs)
			fs := make([]func(), gs)
			for g := 0; g < gs; g++ {
				name := fmt.Sprint("job", g)
				if g == 1 {
					name = "general"
				}
				var t target = w.st
				var created time.Duration
				if g != 1 {
					created = mc.VNow()
					t = w.addJob(name).KeyValue("j", name)
				}
				fs[g] = func() {
					for k := 0; k < per; k++ {
						form := (shift + k*2 + g*3) % nForms
						v := posVals(k)
						v.name = fmt.Sprint("g", g, "k", k)
						v.err = errors.New(v.name)
						v.kvs = map[string]string{"c": v.name}
						want, _ := callForm(t, name, created, form, v)
						if want.Kvs == nil {
							want.Kvs = map[string]string{}
						}
						want.Kvs["s"] = "stream"
						if g != 1 {
							want.Kvs["j"] = name
						}
						wants[g] = append(wants[g], want)
					}
				}
			}
			par(fs...)
			for _, s := range w.sinks {
				idx := make([]int, gs)
				for _, r := range s.got {
					ok := false
					for g := range wants {
						if idx[g] < len(wants[g]) && wants[g][idx[g]].String() == r.String() {
							idx[g]++
							ok = true
							break
						}
					}
					if !ok {
						mc.Fail("sink %d got %v, which is no goroutine's next emission\nall: %v\nwanted: %v", s.id, r, s.got, wants)
					}
				}
				for g := range wants {
					if idx[g] != len(wants[g]) {
						mc.Fail("sink %d missed emissions of goroutine %d: got %v", s.id, g, s.got)
					}
				}
			}
			// each emission is finished before the goroutine goes on: per goroutine the
			// overall log alternates sink 0, sink 1
			for g := range wants {
				last := -1
				name := fmt.Sprint("job", g)
				if g == 1 {
					name = "general"
				}
				for _, r := range w.all {
					if r.Job != name {
						continue
					}
					if r.Sink != (last+1)%2 {
						mc.Fail("goroutine %d: sink %d called out of turn", g, r.Sink)
					}
					last = r.Sink
				}
			}
			var l []string
			for _, r := range w.all {
				l = append(l, fmt.Sprint(r.Sink, r.Job, r.Event))
			}
			mc.Logf("%v", l)
		}
	}
	add(&Scn{Prop: "C01", Name: "concurrent2", Doc: "two goroutines (one job, one on the stream), 3 emissions each in 5 combinations of forms, all interleavings at the sinks within the preemption bound; every sink must see each goroutine's emissions completely, in order and unaltered",
		Cfg: conc(3), Deep: concP(5), Shards: 2, DeepShards: 8, Body: concBody(2, 3)})
	add(&Scn{Prop: "C01", Name: "concurrent3", Doc: "three goroutines, 2 emissions each", Cfg: conc(2), Deep: concP(4), Shards: 2, DeepShards: 8, Body: concBody(3, 2)})

	add(&Scn{Prop: "C01", Name: "reentrant", Doc: "a sink that, when it is given an emission of any of 10 forms, makes one or two emissions of any form itself (on the stream, the same job, another job or a new one), standing before, between or after two recording sinks; the outer delivery goes on and the inner ones are complete when their calls return",
		Cfg: seqCfg, Shards: 4, Body: func() {
			w := newWorld(0, "job0", "job1")
			pos := mc.Choose(3)
			outer, inner := mc.Choose(nForms), mc.Choose(nForms)
			ot, it, n := mc.Choose(3), mc.Choose(4), 1+mc.Choose(2)
			val := func(name string) vals {
				v := posVals(1)
				v.name, v.err, v.kvs = name, errors.New(name), map[string]string{"c": name}
				return v
			}
			var wants []rec
			done := false
			for i := 0; i < 3; i++ {
				w.addSink()
				if i == pos {
					w.sinks[i].hook = func(r rec) {
						if done {
							return
						}
						done = true
						for k := 0; k < n; k++ {
							var t target
							name, created := "", time.Duration(0)
							if it == 3 {
								created = mc.VNow()
								name = "fresh"
								t = w.st.NewJob(name)
							} else {
								t, name, created = w.at(it)
							}
							n0 := len(w.all)
							want, ret := callForm(t, name, created, inner, val(fmt.Sprint("inner", k)))
							wants = append(wants, want)
							w.expectNew(n0, want, ret, "emission made by a sink")
						}
					}
				}
			}
			t, name, created := w.at(ot)
			want, _ := callForm(t, name, created, outer, val("outer"))
			mc.Sleep(time.Second)
			var l []string
			for _, s := range w.sinks {
				l = nil
				for _, r := range s.got {
					l = append(l, r.String())
				}
				exp := []string{}
				for _, r := range wants {
					exp = append(exp, r.String())
				}
				if s.id <= pos {
					exp = append([]string{want.String()}, exp...)
				} else {
					exp = append(exp, want.String())
				}
				if fmt.Sprint(l) != fmt.Sprint(exp) {
					mc.Fail("sink %d of 3 (sink %d emits itself) got  %v\nwant %v", s.id, pos, l, exp)
				}
			}
		}})

	// ------------------------------------------------------------- C02
	add(&Scn{Prop: "C02", Name: "concurrent", Doc: "two goroutines emit with key-values of their own on one stream (its general job) and on jobs, two emissions each in any of 5 key-value forms and without key-values, all interleavings at sinks that look at the map only when it is their turn",
		Cfg: conc(3), Deep: concP(5), Shards: 4, DeepShards: 8, Body: func() {
			mu := &mc.Mutex{}
			w := &world{st: health.NewStream(), created: mc.VNow(), mu: mu}
			w.addSink()
			w.addSink()
			w.st.KeyValue("s", "stream")
			own := mc.Choose(2) == 1
			if own {
				w.st.Job.KeyValue("j", "general")
			}
			rot := mc.Choose(6)
			apart := mc.Choose(2) == 1
			wants := make([][]string, 2)
			var fs []func()
			for g := 0; g < 2; g++ {
				g := g
				fs = append(fs, func() {
					var t target = w.st
					name, created := "general", w.created
					if apart && g == 1 {
						t, name, created = w.st.NewJob("job"), "job", mc.VNow()
					}
					for k := 0; k < 2; k++ {
						form := 5 + (rot+g+k)%5
						if rot == 5 && g == 1 {
							form = k
						}
						v := posVals(k)
						v.name = fmt.Sprint("g", g, "k", k)
						v.err = errors.New(v.name)
						v.kvs = map[string]string{"c": v.name, fmt.Sprint("only", g, k): "x"}
						want, _ := callForm(t, name, created, form, v)
						if want.Kvs == nil {
							want.Kvs = map[string]string{}
						}
						want.Kvs["s"] = "stream"
						if own && name == "general" {
							want.Kvs["j"] = "general"
						}
						wants[g] = append(wants[g], want.String())
					}
				})
			}
			par(fs...)
			for _, s := range w.sinks {
				idx := make([]int, 2)
				for _, r := range s.got {
					ok := false
					for g := range wants {
						if idx[g] < 2 && wants[g][idx[g]] == r.String() {
							idx[g]++
							ok = true
							break
						}
					}
					if !ok {
						mc.Fail("sink %d got %v, which is no goroutine's next emission\nall: %v\nwanted: %v", s.id, r, s.got, wants)
					}
				}
			}
		}})
	add(&Scn{Prop: "C02", Name: "histories", Doc: "all histories of key-value settings on stream, the stream's own job, two jobs, and emissions, followed by an emission in any of 10 forms on any target with 7 key-value maps (nil, empty, overlapping, empty values); each delivery compared with the reference union, all maps passed in compared with their copies",
		Cfg: seqCfg, Shards: 16, DeepShards: 32, Body: func() {
			n := depth(3, 4)
			w := newWorld(depth(1, 2), "j0", "j1")
			skv := map[string]string{}
			jkv := [3]map[string]string{{}, {}, {}}
			emit := func(i, tgt, form int, kvs map[string]string) {
				t, jn, created := w.at(tgt)
				v := posVals(i)
				v.kvs = kvs
				before := kvString(kvs)
				n0 := len(w.all)
				want, ret := callForm(t, jn, created, form, v)
				u := map[string]string{}
				for k, x := range skv {
					u[k] = x
				}
				for k, x := range jkv[tgt] {
					u[k] = x
				}
				if form >= 5 {
					for k, x := range kvs {
						u[k] = x
					}
				}
				want.Kvs = u
				w.expectNew(n0, want, ret, formNames[form]+" on "+jn)
				if kvString(kvs) != before {
					mc.Fail("the caller's map was changed: %s -> %s", before, kvString(kvs))
				}
			}
			// maps that live as long as the caller: passed to several calls
			maps := []map[string]string{nil, {}, {"a": "call"}, {"a": "call", "c": "call"}, {"a": ""}, {"": "call"}, {"b": "call", "z": "call"}}
			for i := 0; i < n; i++ {
				val := fmt.Sprint("v", i)
				switch c := mc.Choose(17); c {
				case 0, 1, 2:
					k := []string{"a", "b", ""}[c]
					w.st.KeyValue(k, val)
					skv[k] = val
				case 3, 4:
					k := []string{"a", "c"}[c-3]
					w.jobs[0].KeyValue(k, val)
					jkv[1][k] = val
				case 5:
					w.jobs[1].KeyValue("a", val)
					jkv[2]["a"] = val
				case 6:
					w.st.Job.KeyValue("a", val)
					jkv[0]["a"] = val
				case 7:
					w.st.KeyValue("a", "")
					skv["a"] = ""
				case 8:
					w.jobs[0].KeyValue("a", "")
					jkv[1]["a"] = ""
				default:
					c -= 9
					emit(i, []int{1, 1, 1, 1, 0, 0, 2, 2}[c], []int{5, 0, 9, 1, 7, 6, 8, 4}[c], maps[[]int{3, 0, 2, 0, 6, 2, 3, 0}[c]])
				}
			}
			form := mc.Choose(nForms)
			tgt := mc.Choose(3)
			m := 0
			if form >= 5 {
				m = mc.Choose(len(maps))
			}
			emit(n, tgt, form, maps[m])
			// nothing leaked into stream or jobs
			for i := 0; i < 3; i++ {
				emit(n+1, i, 0, nil)
			}
		}})
	add(&Scn{Prop: "C02", Name: "creation", Doc: "all histories of key-value settings on the stream, of creating a job by NewJob or by Run, of settings on the jobs there are and of emissions on stream and jobs: a job sees the stream's key-values as they are when it emits, not as they were when it was made",
		Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: func() {
			w := newWorld(1)
			skv := map[string]string{}
			gkv := map[string]string{}
			var jkv []map[string]string
			emit := func(i, tgt, form int) {
				t, jn, created := w.at(tgt)
				v := posVals(i)
				v.kvs = map[string]string{"c": "call"}
				own := gkv
				if tgt > 0 {
					own = jkv[tgt-1]
				}
				n0 := len(w.all)
				want, ret := callForm(t, jn, created, form, v)
				u := map[string]string{}
				for _, m := range []map[string]string{skv, own, want.Kvs} {
					for k, x := range m {
						u[k] = x
					}
				}
				want.Kvs = u
				w.expectNew(n0, want, ret, formNames[form]+" on "+jn)
			}
			for i, n := 0, depth(5, 6); i < n; i++ {
				val := fmt.Sprint("v", i)
				last := len(w.jobs)
				switch mc.Choose(8) {
				case 0:
					w.st.KeyValue("a", val)
					skv["a"] = val
				case 1:
					w.st.KeyValue("b", val)
					skv["b"] = val
				case 2:
					w.addJob("j")
					jkv = append(jkv, map[string]string{})
				case 3:
					if last > 0 {
						w.jobs[last-1].KeyValue("a", val)
						jkv[last-1]["a"] = val
					} else {
						w.st.Job.KeyValue("a", val)
						gkv["a"] = val
					}
				case 4:
					emit(i, last, i%2*5)
				case 5:
					emit(i, 0, 2+i%3)
				case 6:
					if last > 1 {
						emit(i, 1, 4+5*(i%2))
					}
				case 7:
					inside, set := mc.Choose(2), false
					n0 := len(w.all)
					w.st.Run("j", func() error {
						if inside == 1 { // while the job runs
							w.st.KeyValue("a", val)
							set = true
						}
						return nil
					})
					if set {
						skv["a"] = val
					}
					if len(w.all) != n0+1 || kvString(w.all[n0].Kvs) != kvString(skv) {
						mc.Fail("the completion of Run got %v, want key-values %s", w.all[n0:], kvString(skv))
					}
				}
			}
			for tgt := 0; tgt <= len(w.jobs); tgt++ {
				emit(9, tgt, 0)
				emit(9, tgt, 6)
			}
		}})
	add(&Scn{Prop: "C02", Name: "map_orders", Doc: "overlapping stream, job and call key-values (3 keys each) under every map iteration order of the merge", Cfg: mc.Cfg{NoPreempt: true, MapOrder: true, Bound: 99},
		Deep: &mc.Cfg{NoPreempt: true, MapOrder: true, Bound: 99}, Body: func() {
			w := newWorld(1, "j")
			w.st.KeyValue("a", "s").KeyValue("b", "s").KeyValue("c", "s")
			w.jobs[0].KeyValue("b", "j").KeyValue("c", "j").KeyValue("d", "j")
			form := 5 + mc.Choose(5)
			t, jn, created := w.at(1)
			v := posVals(0)
			v.kvs = map[string]string{"c": "k", "d": "k", "e": "k"}
			want, ret := callForm(t, jn, created, form, v)
			want.Kvs = map[string]string{"a": "s", "b": "j", "c": "k", "d": "k", "e": "k"}
			w.expectNew(0, want, ret, formNames[form])
		}})
	add(&Scn{Prop: "C02", Name: "sizes", Doc: "stream, job and call key-values of each size 0,1,2,9,100,1000 with half-overlapping keys, every form", Cfg: seqCfg, Body: func() {
		sizes := []int{0, 1, 2, 9, 100, 1000}
		w := newWorld(2, "j")
		u := map[string]string{}
		n1, n2, n3 := sizes[mc.Choose(6)], sizes[mc.Choose(6)], sizes[mc.Choose(6)]
		form := []int{0, 1, 5, 6, 9}[mc.Choose(5)]
		for i := 0; i < n1; i++ {
			k := fmt.Sprint("k", i)
			w.st.KeyValue(k, "s")
			u[k] = "s"
		}
		for i := n1 / 2; i < n1/2+n2; i++ {
			k := fmt.Sprint("k", i)
			w.jobs[0].KeyValue(k, "j")
			u[k] = "j"
		}
		v := posVals(0)
		v.kvs = map[string]string{}
		for i := n1/2 + n2/2; i < n1/2+n2/2+n3; i++ {
			k := fmt.Sprint("k", i)
			v.kvs[k] = "c"
			if form >= 5 {
				u[k] = "c"
			}
		}
		t, jn, created := w.at(1)
		want, ret := callForm(t, jn, created, form, v)
		want.Kvs = u
		w.expectNew(0, want, ret, formNames[form])
		if len(w.jobs[0].KeyValues) != n2 || len(w.st.KeyValues) != n1 {
			mc.Fail("emitting changed the stream's or job's own key-values")
		}
	}})
	add(&Scn{Prop: "C02", Name: "streams", Doc: "two streams with jobs of the same name: key-values never cross, all orders of 4 settings and emissions", Cfg: seqCfg, Body: func() {
		w := []*world{newWorld(1, "j"), newWorld(1, "j")}
		kv := [4]map[string]string{{}, {}, {}, {}}
		for i := 0; i < 4; i++ {
			c := mc.Choose(8)
			x := w[c%2]
			val := fmt.Sprint("v", i)
			switch c / 2 {
			case 0:
				x.st.KeyValue("a", val)
				kv[c%2]["a"] = val
			case 1:
				x.jobs[0].KeyValue("b", val)
				kv[2+c%2]["b"] = val
			default:
				t, jn, created := x.at(c/2 - 2)
				n0 := len(x.all)
				v := posVals(i)
				want, ret := callForm(t, jn, created, 5+i, v)
				for k, y := range kv[c%2] {
					want.Kvs[k] = y
				}
				if c/2 == 3 {
					for k, y := range kv[2+c%2] {
						want.Kvs[k] = y
					}
				}
				x.expectNew(n0, want, ret, formNames[5+i])
			}
		}
	}})

	// ------------------------------------------------------------- C03
	add(&Scn{Prop: "C03", Name: "histories", Doc: "all histories of reporting errors of 12 shapes (plain, custom, uncomparable, muted, nested muted, unmuted by the user, wrapping a reported one, ...) or any error returned earlier, through stream or job, with 0..2 sinks; identity, message, original error, trace, emitted flag checked at the sinks and at the caller",
		Cfg: seqCfg, Shards: 8, DeepShards: 16, Body: c03histories})
	add(&Scn{Prop: "C03", Name: "sinks", Doc: "an error of any of 4 shapes reported two or three times in every form, with 0 to 40 sinks: what every sink and the caller see", Cfg: seqCfg, Body: func() {
		n := mc.Choose(41)
		w := newWorld(n, "j")
		err := []error{errBoom, sliceErr{"a", "b"}, health.Mute(errBoom), &health.UnmutedError{Err: errBoom, Stack: stack.NewTrace(0)}}[mc.Choose(4)]
		_, muted := err.(*health.MutedError)
		var first error
		for i := 0; i < 3; i++ {
			t, jn, created := w.at(mc.Choose(2))
			n0 := len(w.all)
			v := posVals(0)
			v.err = err
			form := []int{1, 6}[mc.Choose(2)]
			want, ret := callForm(t, jn, created, form, v)
			w.expectNew(n0, want, ret, formNames[form])
			if first == nil {
				first = ret
			}
			if ret != first || ret.Error() != err.Error() {
				mc.Fail("report %d returned %T %q, want what the first one returned", i, ret, ret)
			}
			for _, r := range w.all[n0:] {
				if r.Flag != (i > 0 && !muted) {
					mc.Fail("with %d sinks, report %d: sink %d sees the error as emitted=%v", n, i, r.Sink, r.Flag)
				}
			}
			if u, ok := ret.(*health.UnmutedError); ok == muted || ok && !u.Emitted {
				mc.Fail("with %d sinks, report %d returned %T, not marked as emitted", n, i, ret)
			}
			err = ret
		}
	}})
	add(&Scn{Prop: "C03", Name: "callers", Doc: "first frame of the trace is the function calling EventErr/EventErrKv: plain function, closure, method, through the interface, deep recursion, deferred call, goroutine; stream and job",
		Cfg: seqCfg, Body: c03callers})
	add(&Scn{Prop: "C03", Name: "concurrent", Doc: "two goroutines report different errors (and re-report them) on one stream, all interleavings at the sinks", Cfg: conc(3), Deep: concP(6), DeepShards: 8, Body: c03concurrent})

	// ------------------------------------------------------------- C04
	add(&Scn{Prop: "C04", Name: "reported", Doc: "a function that reports an error of any kind (on its job, the stream, both, with or without key-values) and returns what it got back, also through a nested Run: returned unchanged, completed once with an error status", Cfg: seqCfg, Body: c04reported})
	add(&Scn{Prop: "C04", Name: "outcomes", Doc: "Run on stream/job x outcome (nil, 5 error shapes, 14 panic values) x emissions inside x nested Run with its own outcome x sinks 0..2", Cfg: seqCfg, Shards: 2, Body: c04outcomes})
	add(&Scn{Prop: "C04", Name: "sequences", Doc: "sequences of three Runs with all outcome combinations on stream, fresh and reused jobs", Cfg: seqCfg, Body: c04sequences})
	add(&Scn{Prop: "C04", Name: "concurrent", Doc: "two goroutines Run functions with every pair of outcomes on one stream, all interleavings at the sinks", Cfg: conc(3), Deep: concP(5), Shards: 2, DeepShards: 8, Body: c04concurrent})
}
