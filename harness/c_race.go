package main

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/stack"
	"verif/mc"
)

// The scenarios of C30 run in the -race build. On every schedule the detector
// looks for two accesses to one place, one of them a write, that nothing
// orders; the scheduler itself is invisible to it. The bodies keep no shared
// state of their own and format nothing (fmt's pools would order accesses).

// touch reads every field of a snapshot.
func touch(l []*health.IntervalAggregation) (n int64) {
	tm := func(t *health.TimerAggregation) int64 {
		return t.Count + t.NanosSum + int64(t.NanosSumSquares) + t.NanosMin + t.NanosMax
	}
	for _, a := range l {
		n += a.IntervalStart.Unix() + a.SerialNumber
		for k, v := range a.Events {
			n += int64(len(k)) + v
		}
		for k, v := range a.Gauges {
			n += int64(len(k)) + int64(v)
		}
		for k, v := range a.Timers {
			n += int64(len(k)) + tm(v)
		}
		for k, v := range a.EventErrs {
			n += int64(len(k)) + v.Count
		}
		for k, j := range a.Jobs {
			n += int64(len(k)) + tm(&j.TimerAggregation) + j.CountSuccess + j.CountValidationError + j.CountPanic + j.CountError + j.CountJunk
			for k, v := range j.Events {
				n += int64(len(k)) + v
			}
			for k, v := range j.Gauges {
				n += int64(len(k)) + int64(v)
			}
			for k, v := range j.Timers {
				n += int64(len(k)) + tm(v)
			}
			for k, v := range j.EventErrs {
				n += int64(len(k)) + v.Count
			}
		}
	}
	return n
}

// change writes to everything a snapshot's owner may change.
func change(a *health.IntervalAggregation) {
	a.SerialNumber += 7
	a.Events["mine"]++
	a.Gauges["mine"]++
	for k, t := range a.Timers {
		t.Count++
		t.NanosMax++
		a.Timers[k] = t
	}
	for _, e := range a.EventErrs {
		e.Count++
	}
	for _, j := range a.Jobs {
		j.Count++
		j.CountSuccess++
		j.Events["mine"]++
		for _, t := range j.Timers {
			t.Count++
		}
		for _, e := range j.EventErrs {
			e.Count++
		}
	}
}

type discard struct{}

func (discard) Write(b []byte) (int, error) {
	n := 0
	for range b {
		n++
	}
	return n, nil
}

// nullReply gives every client request a fresh good answer.
func nullReply(body string) func(*mc.HTTPCall) {
	return func(c *mc.HTTPCall) { c.Reply = []byte(body) }
}

// emitAll makes every emission call once on t.
func emitAll(t target, v vals) {
	for f := 0; f < nForms; f++ {
		emitForm(t, f, v)
	}
}

//go:noinline
func emitForm(t target, form int, v vals) error {
	switch form {
	case 0:
		t.Event(v.name)
	case 1:
		return t.EventErr(v.name, v.err)
	case 2:
		t.Timing(v.name, v.n)
	case 3:
		t.Gauge(v.name, v.f)
	case 4:
		t.Complete(v.status)
	case 5:
		t.EventKv(v.name, v.kvs)
	case 6:
		return t.EventErrKv(v.name, v.err, v.kvs)
	case 7:
		t.TimingKv(v.name, v.n, v.kvs)
	case 8:
		t.GaugeKv(v.name, v.f, v.kvs)
	case 9:
		t.CompleteKv(v.status, v.kvs)
	}
	return nil
}

func init() {
	race := func(name, doc string, quick, thorough int, body func()) {
		add(&Scn{Prop: "C30", Name: name, Doc: doc, Cfg: conc(quick), Deep: concP(thorough), Shards: 2, DeepShards: 8, Race: true, Body: body})
	}
	// two emitters with jobs of their own, the same names, key-values and errors
	pair := func(st *health.Stream, forms [2][]int, errs ...error) []func() {
		kvs := map[string]string{"k": "v", "l": "w"}
		shared := []error{errors.New("shared"), health.Mute(errors.New("muted")), sliceErr{"a", "b"}}
		if len(errs) > 0 {
			shared = errs
		}
		var fs []func()
		for g := 0; g < 2; g++ {
			g := g
			fs = append(fs, func() {
				j := st.NewJob("job")
				j.KeyValue("own", "x")
				for i, f := range forms[g] {
					r := emitForm(j, f, vals{name: "ev", n: int64(i), f: float64(i), status: health.Error, err: shared[i%len(shared)], kvs: kvs})
					if r != nil && i == 0 {
						emitForm(j, 1, vals{name: "again", err: r})
					}
				}
				emitForm(st, forms[g][0], vals{name: "general", err: shared[0], kvs: kvs})
			})
		}
		return fs
	}
	errsOnly := [2][]int{{1, 6, 1}, {6, 1, 6}}
	mixed := [2][]int{{1, 2, 5, 8}, {6, 7, 4, 3}}
	all := [2][]int{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {9, 8, 7, 6, 5, 4, 3, 2, 1, 0}}

	race("writers", "two goroutines emit every form to both writer sinks on one stream with its own key-values", 2, 3, func() {
		st := health.NewStream()
		st.KeyValue("s", "t")
		st.AddSink(&health.WriterSink{Writer: discard{}}).AddSink(&health.JsonWriterSink{Writer: discard{}})
		par(pair(st, all)...)
	})
	race("general", "two goroutines emit every form, with and without key-values, on the stream itself, which has key-values of its own and of its general job, create jobs and mute errors", 2, 3, func() {
		st := health.NewStream()
		st.KeyValue("s", "t").Job.KeyValue("own", "x")
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		st.AddSink(&health.WriterSink{Writer: discard{}}).AddSink(&health.JsonWriterSink{Writer: discard{}}).AddSink(sink)
		kvs := map[string]string{"k": "v"}
		f := func(forms []int) func() {
			return func() {
				m := health.Mute(errBoom)
				emitForm(st, 1, vals{name: "ev", err: m})
				for i, f := range forms {
					emitForm(st, f, vals{name: "ev", n: int64(i), f: float64(i), status: health.Error, err: errBoom, kvs: kvs})
				}
				st.NewJob("j").KeyValue("k", "w").Event("x")
				_ = m.Error()
			}
		}
		par(f([]int{5, 6, 7, 8, 9, 0}), f([]int{9, 8, 7, 6, 5, 1}))
		sink.ShutdownServer()
	})
	race("run", "two goroutines run jobs through one stream (success, error, panic) with a writer and a polling sink", 2, 3, func() {
		st := health.NewStream()
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		st.AddSink(&health.WriterSink{Writer: discard{}}).AddSink(sink)
		e := errors.New("x")
		run := func(k int) func() {
			return func() {
				j := st.NewJob("job")
				j.Run(func() error { j.Event("e"); return nil })
				st.Run("job", func() error { return j.EventErr("e", e) })
				if k == 0 {
					st.Run("job", func() error { panic(e) })
				}
			}
		}
		par(run(0), run(1), func() { touch(sink.GetMetrics()) })
		sink.ShutdownServer()
	})
	race("polling_errors", "two goroutines report shared errors (and what they got back) through a stream to a polling sink while a third reads snapshots", 2, 3, func() {
		st := health.NewStream()
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		st.AddSink(sink)
		par(append(pair(st, errsOnly), func() { touch(sink.GetMetrics()) })...)
		touch(sink.GetMetrics())
		sink.ShutdownServer()
	})
	race("polling_snapshots", "two goroutines emit every kind to a polling sink, others take snapshots, read and change them and request /health", 2, 3, func() {
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		sink.StartServer("127.0.0.1:5050")
		mc.WaitIdle()
		h, _ := mc.Server("127.0.0.1:5050").(http.Handler)
		st := health.NewStream()
		st.AddSink(sink)
		fs := pair(st, mixed)
		fs = append(fs, func() {
			l := sink.GetMetrics()
			touch(l)
			change(l[len(l)-1])
			touch(sink.GetMetrics())
		}, func() {
			if h != nil {
				httpGet(h, "/health")
			}
			touch(sink.GetMetrics())
		})
		par(fs...)
		sink.ShutdownServer()
	})
	race("requests", "an emitter and three goroutines requesting /health and other paths from one sink, directly and through its server", 2, 3, func() {
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		sink.StartServer("127.0.0.1:5050")
		mc.WaitIdle()
		h, _ := mc.Server("127.0.0.1:5050").(http.Handler)
		if h == nil {
			h = sink
		}
		par(func() { sink.EmitEvent("j", "e", nil); sink.EmitGauge("j", "g", 2, nil) },
			func() { httpGet(sink, "/health"); httpGet(sink, "/other") },
			func() { httpGet(h, "/x"); httpGet(h, "/health") },
			func() { httpGet(h, "/health") })
		sink.ShutdownServer()
	})
	race("two_of_each", "two goroutines, each with a stream, jobs and sinks of its own (writers, polling, StatsD, Bugsnag, Librato, runtime metrics): nothing they use is shared", 0, 1, func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			if strings.Contains(c.URL, "bugsnag") {
				c.Reply = []byte("OK")
			}
		}
		f := func() {
			st := health.NewStream()
			sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
			sd := newStatsd(nil)
			bs := bugsnag.NewSink(&bugsnag.Config{APIKey: "k"})
			lb := librato.New("u", "k", "")
			st.AddSink(&health.WriterSink{Writer: discard{}}).AddSink(sink).AddSink(sd).AddSink(bs).AddSink(lb).AddSink(&health.JsonWriterSink{Writer: io.Discard})
			m := runtime_metrics.NewRuntimeMetrics(st, nil)
			m.Start()
			emitAll(st.NewJob("j"), vals{name: "ev", n: 5, f: 1.5, status: health.Error, err: errors.New("x"), kvs: map[string]string{"k": "v"}})
			st.Run("r", func() error { panic("x") })
			mc.Sleep(libratoPeriod)
			m.Report()
			sd.Drain()
			l := sink.GetMetrics()
			change(l[len(l)-1])
			touch(l)
			httpGet(sink, "/health")
			m.Stop()
			bs.ShutdownServer()
			lb.Stop()
			sd.Stop()
			sink.ShutdownServer()
		}
		par(f, f)
	})
	race("polling_time", "emitters and snapshot readers while intervals end (the clock moves between and during emissions)", 2, 3, func() {
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*2)
		st := health.NewStream()
		st.AddSink(sink)
		par(func() {
			j := st.NewJob("job")
			for i := 0; i < 4; i++ {
				j.Event("e")
				j.EventErr("e", errBoom)
				mc.Sleep(40 * time.Second)
			}
		}, func() {
			for i := 0; i < 3; i++ {
				l := sink.GetMetrics()
				mc.Sleep(50 * time.Second)
				touch(l)
			}
		}, func() {
			mc.Sleep(70 * time.Second)
			l := sink.GetMetrics()
			touch(l)
			mc.Sleep(30 * time.Second)
			touch(l)
			change(l[len(l)-1])
		})
		sink.ShutdownServer()
	})
	race("statsd", "two goroutines emit every kind to a StatsD sink while two others drain it and the flush timer runs; then Stop", 2, 3, func() {
		s := newStatsd(&health.StatsDSinkOptions{Prefix: "p"})
		st := health.NewStream()
		st.AddSink(s)
		fs := pair(st, mixed)
		fs = append(fs, func() { s.Drain() }, func() { mc.Sleep(time.Second); s.Drain() })
		par(fs...)
		s.Stop()
	})
	race("statsd_stop", "emitting, draining and stopping a StatsD sink at the same time", 2, 3, func() {
		s := newStatsd(nil)
		par(func() { s.EmitEvent("j", "e", nil); s.EmitGauge("j", "g", 2, nil) }, func() { s.Drain() }, func() { s.Stop() })
	})
	race("bugsnag", "two goroutines report errors through a stream with two Bugsnag sinks of one configuration reading the same traces, and notify on their own, then change the maps they passed", 2, 3, func() {
		mc.S.Env.HTTP = nullReply("OK")
		st := health.NewStream()
		cfg := &bugsnag.Config{APIKey: "k"} // shared by both, and by Notify
		var ss []*bugsnag.Sink
		for i := 0; i < 2; i++ {
			s := bugsnag.NewSink(cfg)
			ss = append(ss, s)
			st.AddSink(s)
		}
		f := func() {
			kvs := map[string]string{"request": "r", "formdata": "f"}
			j := st.NewJob("job")
			r := j.EventErrKv("e", errBoom, kvs)
			kvs["request"] = "changed"
			j.EventErr("again", r)
			if u, ok := r.(*health.UnmutedError); ok {
				u.Stack.Stack()
			}
			j.Event("e")
			bugsnag.Notify(cfg, "job", "e", errBoom, stack.NewTrace(0), kvs)
		}
		par(f, f)
		for _, s := range ss {
			s.ShutdownServer()
		}
	})
	race("librato", "two goroutines emit every kind to a Librato sink around its flush, then Stop", 2, 3, func() {
		mc.S.Env.HTTP = nullReply("")
		s := librato.New("u", "k", "p")
		st := health.NewStream()
		st.AddSink(s)
		fs := pair(st, mixed)
		g := fs[1]
		fs[1] = func() { mc.Sleep(libratoPeriod); g() }
		par(fs...)
		mc.Sleep(libratoPeriod)
		s.Stop()
	})
	race("librato_stop", "emitting to and stopping a Librato sink while a post is in progress", 2, 3, func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Delay = 2 * time.Second }
		s := librato.New("u", "k", "")
		s.EmitEvent("j", "e", nil)
		par(func() { mc.Sleep(libratoPeriod); s.EmitTiming("j", "t", 5, nil) }, func() { mc.Sleep(libratoPeriod + time.Second); s.Stop() })
	})
	race("runtime_metrics", "a runtime metrics reporter and a goroutine emit to one polling sink while the reporter is stopped and snapshots are read", 2, 3, func() {
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		st := health.NewStream()
		st.AddSink(sink)
		m := runtime_metrics.NewRuntimeMetrics(st, &runtime_metrics.Options{Interval: time.Second, Memory: true, GC: true, GCQuantile: true, Goroutines: true})
		m.Start()
		par(func() { mc.Sleep(time.Second); st.Gauge("alloc", 1); st.NewJob("j").Event("x") }, func() { mc.Sleep(2 * time.Second); touch(sink.GetMetrics()); m.Stop() })
		sink.ShutdownServer()
	})
	race("reporters", "two goroutines and the poller of one runtime metrics reporter report at the same time", 1, 2, func() {
		m := runtime_metrics.NewRuntimeMetrics(health.NewStream().AddSink(&health.WriterSink{Writer: discard{}}), nil)
		m.Start()
		f := func() { mc.Sleep(5 * time.Second); m.Report() }
		par(f, f)
		m.Stop()
	})
	race("traces", "three goroutines render one trace and read its frames at the same time; also through the errors that share it", 3, 4, func() {
		tr := stack.NewTrace(0)
		u := &health.UnmutedError{Err: errBoom, Stack: tr}
		n := func(l []stack.Frame) (k int) {
			for _, f := range l {
				k += len(f.Name) + len(f.File) + f.LineNumber + len(f.Package)
				if f.IsSystemPackage {
					k++
				}
			}
			return k
		}
		par(func() { tr.Stack(); n(tr.Frames()) }, func() { n(tr.Frames()) }, func() { u.Stack.Stack(); _ = u.Error() })
	})
	race("aggregations", "goroutines clone, marshal and merge from one aggregation at the same time", 2, 3, func() {
		src := buildAgg([]op{ev("a", "e"), er("a", "e"), ti("a", "t", 5), ga("b", "g", 2), co("a", health.Panic, 9)}, false)
		into := func() *health.IntervalAggregation {
			return buildAgg([]op{ev("a", "e"), er("b", "e"), ti("a", "t", 5)}, false)
		}
		f := func() {
			x := into()
			x.Merge(src)
			c := src.Clone()
			change(c)
			change(x)
			touch([]*health.IntervalAggregation{x, c, src})
		}
		par(f, f, func() { touch([]*health.IntervalAggregation{src}) })
	})
	race("everything", "two goroutines emit to writer, polling, StatsD, Bugsnag and Librato sinks on one stream at the same time", 1, 2, func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			if strings.Contains(c.URL, "bugsnag") {
				c.Reply = []byte("OK")
			}
		}
		st := health.NewStream()
		sink := health.NewJsonPollingSink(time.Minute, time.Minute*3)
		sd := newStatsd(nil)
		bs := bugsnag.NewSink(&bugsnag.Config{APIKey: "k"})
		lb := librato.New("u", "k", "")
		st.AddSink(&health.WriterSink{Writer: discard{}}).AddSink(sink).AddSink(sd).AddSink(bs).AddSink(lb).AddSink(&health.JsonWriterSink{Writer: io.Discard})
		fs := append(pair(st, all), func() { touch(sink.GetMetrics()); sd.Drain() })
		par(fs...)
		mc.Sleep(libratoPeriod)
		sd.Drain()
		touch(sink.GetMetrics())
		bs.ShutdownServer()
		lb.Stop()
		sd.Stop()
		sink.ShutdownServer()
	})
}
