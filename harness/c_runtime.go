package main

import (
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/gocraft/health"
	rm "github.com/gocraft/health/runtime_metrics"
	"verif/mc"
)

// memMode: 0 ordinary values, 1 everything zero (a fresh process), 2 huge ones.
var memMode int

// memAt is what the (dictated) runtime reports for a statistic at a time.
func memAt(name string, at time.Duration) float64 {
	switch {
	case memMode == 1:
		return 0
	case memMode == 2 && name != "MemStats.GCCPUFraction" && strings.HasPrefix(name, "MemStats.") && !strings.HasPrefix(name, "MemStats.Num"):
		return 1 << 52
	}
	h := uint32(2166136261)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint32(name[i])) * 16777619
	}
	v := float64(h%100000) + float64(at/time.Second)*1000003
	switch {
	case name == "MemStats.GCCPUFraction":
		return v / 1e12
	case strings.HasPrefix(name, "GCStats.Q"):
		return v * 1009
	case strings.HasPrefix(name, "MemStats.Num"):
		return float64(h%1000) + float64(at/time.Second)
	}
	return v
}

func countFDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		mc.Fail("/proc/self/fd: %v", err)
	}
	return len(d)
}

type rmGauge struct{ name, src string }

// rmExpected lists the gauges an option enables and the statistic behind each.
func rmExpected(o rm.Options) []rmGauge {
	var l []rmGauge
	add := func(n, s string) { l = append(l, rmGauge{n, s}) }
	if o.Memory {
		add("alloc", "MemStats.Alloc")
		add("heap_objects", "MemStats.HeapObjects")
	}
	if o.GC {
		add("pause_total_ns", "MemStats.PauseTotalNs")
		add("num_gc", "MemStats.NumGC")
		add("next_gc", "MemStats.NextGC")
		add("gc_cpu_fraction", "MemStats.GCCPUFraction")
	}
	if o.GCQuantile {
		add("gc_pause_quantile_50", "q50")
		add("gc_pause_quantile_max", "qmax")
	}
	if o.Goroutines {
		add("num_goroutines", "NumGoroutine")
	}
	if o.Cgo {
		add("num_cgo_call", "NumCgoCall")
	}
	if o.FDs {
		add("num_fds_used", "fds")
	}
	return l
}

// dictate makes the runtime report memAt.
func dictate(mode ...int) {
	memMode = 0
	if len(mode) > 0 {
		memMode = mode[0]
	}
	mc.S.Env.Mem = &mc.MemValues{Next: func(name string) float64 {
		var i, n int
		if k, _ := fmt.Sscanf(name, "GCStats.Q%d/%d", &i, &n); k == 2 {
			// quantiles are asked for by their number: name them by their share
			return memAt(fmt.Sprintf("GCStats.Q%.3f", float64(i)/float64(max(n, 1))), mc.VNow())
		}
		return memAt(name, mc.VNow())
	}}
}

func rmValueOK(g rmGauge, v float64, at time.Duration) bool {
	switch g.src {
	case "q50":
		return math.Abs(v-memAt("GCStats.Q0.500", at)/1e6) < 0.0010001
	case "qmax":
		return math.Abs(v-memAt("GCStats.Q1.000", at)/1e6) < 0.0010001
	case "fds":
		n := float64(countFDs())
		return v == n || v == n-1
	}
	return v == memAt(g.src, at)
}

// checkReport checks one batch of gauges.
func checkReport(got []rec, o rm.Options, at time.Duration) {
	want := rmExpected(o)
	byName := map[string]float64{}
	for _, r := range got {
		if r.K != kGauge {
			mc.Fail("emitted %v", r)
		}
		if _, dup := byName[r.Event]; dup {
			mc.Fail("gauge %q emitted twice in one report", r.Event)
		}
		byName[r.Event] = r.Value
	}
	for _, g := range want {
		v, ok := byName[g.name]
		if !ok {
			mc.Fail("options %+v: gauge %q missing from the report", o, g.name)
		}
		if !rmValueOK(g, v, at) {
			mc.Fail("gauge %q is %v, but the runtime reports %s=%v (fds %d)", g.name, v, g.src, memAt(g.src, at), countFDs())
		}
		delete(byName, g.name)
	}
	for n := range byName {
		mc.Fail("options %+v: gauge %q was not enabled", o, n)
	}
}

func init() {
	add(&Scn{Prop: "C22", Name: "options", Doc: "no options and all 64 combinations x 4 intervals x open files, three ticks, then Stop: exact gauges, values (dictated by the simulated runtime, changing with time), times, silence before the first interval and after Stop", Cfg: seqCfg, Shards: 2, Body: func() {
		dictate()
		var opts *rm.Options
		eff := rm.Options{Interval: 5 * time.Second, Memory: true, GC: true, GCQuantile: true, Goroutines: true, Cgo: true, FDs: true}
		if c := mc.Choose(65); c > 0 {
			c--
			eff = rm.Options{Interval: []time.Duration{time.Second, 100 * time.Millisecond, 7 * time.Second, 10 * time.Minute}[mc.Choose(4)],
				Memory: c&1 > 0, GC: c&2 > 0, GCQuantile: c&4 > 0, Goroutines: c&8 > 0, Cgo: c&16 > 0, FDs: c&32 > 0}
			cp := eff
			opts = &cp
		}
		for i, n := 0, mc.Choose(2)*3; i < n; i++ {
			f, err := os.Open("/dev/null")
			if err != nil {
				mc.Fail("%v", err)
			}
			defer f.Close()
		}
		st := health.NewStream()
		s := &recSink{}
		st.AddSink(s)
		m := rm.NewRuntimeMetrics(st, opts)
		if opts != nil {
			*opts = rm.Options{} // the caller's struct is the caller's
		}
		mc.Sleep(3 * time.Hour)
		if len(s.got) != 0 {
			mc.Fail("emitted before Start: %v", s.got)
		}
		m.Start()
		t0 := mc.VNow()
		for i := 1; i <= 3; i++ {
			mc.WaitIdle()
			for k := 0; i == 2 && k < 3; k++ { // the process opens more files meanwhile
				f, err := os.Open("/dev/null")
				if err != nil {
					mc.Fail("%v", err)
				}
				defer f.Close()
			}
			mc.Sleep(t0 + time.Duration(i)*eff.Interval - time.Millisecond - mc.VNow())
			mc.WaitIdle()
			if len(s.got) != 0 {
				mc.Fail("emitted before the interval was over: %v", s.got)
			}
			mc.Sleep(time.Millisecond)
			mc.WaitIdle()
			checkReport(s.got, eff, mc.VNow())
			s.got = nil
		}
		m.Stop()
		mc.Sleep(5 * eff.Interval)
		mc.WaitIdle()
		if len(s.got) != 0 {
			mc.Fail("emitted after Stop returned: %v", s.got)
		}
	}})
	add(&Scn{Prop: "C22", Name: "manual", Doc: "manual reports for all 64 option combinations, on a stream and on a job, of ordinary, zero and huge statistics", Cfg: seqCfg, Body: func() {
		dictate(mc.Choose(3))
		c := mc.Choose(64)
		o := rm.Options{Interval: time.Hour, Memory: c&1 > 0, GC: c&2 > 0, GCQuantile: c&4 > 0, Goroutines: c&8 > 0, Cgo: c&16 > 0, FDs: c&32 > 0}
		st := health.NewStream()
		s := &recSink{}
		st.AddSink(s)
		var r health.EventReceiver = st
		if mc.Choose(2) == 1 {
			r = st.NewJob("job")
		}
		m := rm.NewRuntimeMetrics(r, &o)
		for i := 0; i < 2; i++ {
			m.Report()
			checkReport(s.got, o, mc.VNow())
			s.got = nil
			mc.Sleep(13 * time.Second)
		}
	}})
	add(&Scn{Prop: "C22", Name: "cycles", Doc: "one reporter started and stopped four times, for 0 to 3 intervals each time, with manual reports or none between: a report per interval while started, none while stopped", Cfg: burst, Body: func() {
		dictate()
		o := rm.Options{Interval: time.Second, Memory: true, GCQuantile: true}
		st := health.NewStream()
		s := &recSink{}
		st.AddSink(s)
		m := rm.NewRuntimeMetrics(st, &o)
		for k := 0; k < 4; k++ {
			m.Start()
			n := mc.Choose(4)
			mc.Sleep(300 * time.Millisecond)
			for i := 0; i < n; i++ {
				mc.WaitIdle()
				if len(s.got) != 0 {
					mc.Fail("emitted before the interval was over: %v", s.got)
				}
				mc.Sleep(700 * time.Millisecond)
				mc.WaitIdle()
				checkReport(s.got, o, mc.VNow())
				s.got = nil
				mc.Sleep(300 * time.Millisecond)
			}
			m.Stop()
			mc.Sleep(10 * time.Second)
			mc.WaitIdle()
			if len(s.got) != 0 {
				mc.Fail("emitted though stopped: %v", s.got)
			}
			if mc.Choose(2) == 1 {
				m.Report()
				checkReport(s.got, o, mc.VNow())
				s.got = nil
			}
		}
	}})
	add(&Scn{Prop: "C22", Name: "slow", Doc: "sinks that take up to 0.95 of an interval over a report, the same each time or alternating, for 8 intervals of 3 lengths: every report is made when its interval is over, and complete", Cfg: burst, Body: func() {
		dictate()
		iv := []time.Duration{time.Second, 5 * time.Second, 700 * time.Millisecond}[mc.Choose(3)]
		o := rm.Options{Interval: iv, Memory: true, GCQuantile: true}
		share := []int64{0, 1, 25, 50, 95}
		d := [2]int64{share[mc.Choose(5)], share[mc.Choose(5)]}
		st := health.NewStream()
		var at []time.Duration
		start := mc.VNow()
		st.AddSink(&sinkFuncs{gauge: func(string) {
			at = append(at, (mc.VNow() - start))
			if k := (len(at) - 1) / 4 % 2; d[k] > 0 {
				mc.Sleep(iv * time.Duration(d[k]) / 400)
			}
		}})
		m := rm.NewRuntimeMetrics(st, &o)
		m.Start()
		for k := 1; k <= 8; k++ {
			mc.Sleep(iv*time.Duration(k) - iv/100 - (mc.VNow() - start))
			mc.WaitIdle()
			if len(at) != 4*(k-1) {
				mc.Fail("%d gauges before the end of interval %d, want %d (reports take %v%% of an interval): %v", len(at), k, 4*(k-1), d, at)
			}
			mc.Sleep(iv/100 + iv*97/100)
			mc.WaitIdle()
			if len(at) != 4*k {
				mc.Fail("%d gauges at the end of interval %d, want %d (reports take %v%% of an interval): %v", len(at), k, 4*k, d, at)
			}
			if at[4*(k-1)] != iv*time.Duration(k) {
				mc.Fail("report %d was made at %v, want %v", k, at[4*(k-1)], iv*time.Duration(k))
			}
		}
		m.Stop()
	}})
	add(&Scn{Prop: "C22", Name: "stop", Doc: "Stop at any moment among ticks and a manual report, with a fast or slow stream: it returns and nothing is emitted afterwards", Cfg: clocked(3), Deep: clockedP(5), Shards: 4, DeepShards: 8, Body: func() {
		dictate()
		o := rm.Options{Interval: time.Second, Goroutines: true, Cgo: true}
		slow := []time.Duration{0, 3 * time.Second}[mc.Choose(2)]
		st := health.NewStream()
		s := &recSink{mu: &mc.Mutex{}}
		st.AddSink(s)
		if slow > 0 {
			st.AddSink(&recSink{hook: func(rec) { mc.Sleep(slow) }})
		}
		m := rm.NewRuntimeMetrics(st, &o)
		m.Start()
		manual := mc.Choose(2)
		mc.Sleep(time.Duration(mc.Choose(3)) * 750 * time.Millisecond)
		var wg mc.WaitGroup
		if manual == 1 {
			wg.Add(1)
			mc.GoNamed("manual", func() {
				defer wg.Done()
				m.Report()
			})
		}
		mc.Gosched()
		m.Stop()
		wg.Wait()
		n := len(s.got)
		mc.Sleep(10 * time.Second)
		mc.WaitIdle()
		if len(s.got) != n {
			mc.Fail("%d gauges emitted after Stop returned", len(s.got)-n)
		}
		g := map[string]int{}
		for _, r := range s.got {
			g[r.Event]++
		}
		if len(g) > 2 || g["num_goroutines"] != g["num_cgo_call"] || n > 0 && len(g) != 2 {
			mc.Fail("reports are not complete: %v", g)
		}
		mc.Logf("%d", n)
	}})
	add(&Scn{Prop: "C22", Name: "two", Doc: "two reporters with different options and intervals on one stream, stopped in either order or at once", Cfg: conc(3), Deep: concP(5), Shards: 2, DeepShards: 8, Body: func() {
		dictate()
		st := health.NewStream()
		s := &recSink{mu: &mc.Mutex{}}
		st.AddSink(s)
		a := rm.NewRuntimeMetrics(st, &rm.Options{Interval: time.Second, Cgo: true})
		b := rm.NewRuntimeMetrics(st, &rm.Options{Interval: 2 * time.Second, Goroutines: true})
		a.Start()
		b.Start()
		mc.Sleep(4100 * time.Millisecond)
		mc.WaitIdle()
		par(a.Stop, b.Stop)
		mc.Sleep(10 * time.Second)
		mc.WaitIdle()
		g := map[string]int{}
		for _, r := range s.got {
			g[r.Event]++
		}
		if len(g) != 2 || g["num_cgo_call"] != 4 || g["num_goroutines"] != 2 {
			mc.Fail("reports: %v", g)
		}
	}})
}
