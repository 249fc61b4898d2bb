package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

// one-interval reference: apply ops in order.
func refAgg(ops []op) *aggM {
	a := newAggM(time.Time{})
	for _, o := range ops {
		a.apply(o)
	}
	return a
}

// interleavings calls f with every interleaving of the prefixes of progs given by n.
func interleavings(progs [][]op, n []int, f func([]op) bool) bool {
	var cur []op
	idx := make([]int, len(progs))
	var rec func() bool
	rec = func() bool {
		done := true
		for g := range progs {
			if idx[g] < n[g] {
				done = false
				cur = append(cur, progs[g][idx[g]])
				idx[g]++
				if rec() {
					return true
				}
				idx[g]--
				cur = cur[:len(cur)-1]
			}
		}
		if done {
			return f(cur)
		}
		return false
	}
	return rec()
}

// consistent says whether content is what some set of emissions, closed under
// each goroutine's order, aggregates to; the vectors that fit are returned.
func consistent(progs [][]op, content string) (fits [][]int) {
	key := fmt.Sprint(progs)
	m := consMemo[key]
	if m == nil {
		m = allContents(progs)
		consMemo[key] = m
	}
	return m[content]
}

var consMemo = map[string]map[string][][]int{}

// allContents maps every content reachable by consistent emissions to the
// vectors of emissions counted per goroutine.
func allContents(progs [][]op) map[string][][]int {
	out := map[string][][]int{}
	n := make([]int, len(progs))
	var rec func(g int)
	rec = func(g int) {
		if g == len(progs) {
			seen := map[string]bool{}
			interleavings(progs, n, func(l []op) bool {
				c := refAgg(l).content()
				if !seen[c] {
					seen[c] = true
					out[c] = append(out[c], append([]int{}, n...))
				}
				return false
			})
			return
		}
		for i := 0; i <= len(progs[g]); i++ {
			n[g] = i
			rec(g + 1)
		}
		n[g] = 0
	}
	rec(0)
	return out
}

func leq(a, b []int) bool {
	for i := range a {
		if a[i] > b[i] {
			return false
		}
	}
	return true
}

// programs of emitting goroutines: shared names, every kind.
var progSets = [][][]op{
	{{ev("j", "e"), ev("k", "e"), er("j", "e")}, {ev("j", "e"), co("j", health.Success, 5), ti("j", "e", 3)}, {ev("x", "x"), ev("x", "x"), ga("j", "g", 9)}},
	{{ti("j", "t", 7), ga("j", "g", 1), er("k", "x")}, {ti("j", "t", -2), ga("j", "g", 2), co("k", health.Error, 1)}, {ga("j", "g", 3), ti("j", "t", 100), ev("j", "e")}},
	{{co("j", health.Panic, 10), co("j", health.Junk, 20), er("j", "e")}, {er("j", "e"), co("j", health.ValidationError, 1), ga("k", "g", 5)}, {er("j", "e"), er("k", "e"), co("j", health.Error, 4)}},
}

var getHealth = func(s *health.JsonPollingSink) []*health.IntervalAggregation {
	r := httpGet(s, "/health")
	return decodeHealth(r).IntervalAggregations
}

func single(l []*health.IntervalAggregation) *aggM {
	if len(l) != 1 {
		mc.Fail("%d intervals in the snapshot, want 1 (no time has passed)", len(l))
	}
	return readAgg(l[0])
}

func c05body(emitters, per, readers, reads int, viaHTTP bool) func() {
	return c05bodyOf(false, emitters, per, readers, reads, viaHTTP)
}

func c05bodyOf(alike bool, emitters, per, readers, reads int, viaHTTP bool) func() {
	return func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		var progs [][]op
		if alike {
			// all of one kind, all distinguishable
			k := mc.Choose(5)
			for g := 0; g < emitters; g++ {
				var p []op
				for i := 0; i < per; i++ {
					n := fmt.Sprint("n", g, i)
					p = append(p, []op{ev("j", n), er("j", n), ti("j", n, int64(10*g+i)), ga("j", n, float64(10*g+i)), co(n, statuses[2*g+i], int64(10*g+i))}[k])
				}
				progs = append(progs, p)
			}
		} else {
			set := progSets[mc.Choose(len(progSets))]
			for g := 0; g < emitters; g++ {
				progs = append(progs, set[g][:per])
			}
		}
		returned := make([]int, emitters)
		var fs []func()
		for g := range progs {
			fs = append(fs, func() {
				for i, o := range progs[g] {
					o.emit(sink)
					returned[g] = i + 1
				}
			})
		}
		type shot struct {
			content string
			serial  int64
		}
		shots := make([][]shot, readers)
		for r := 0; r < readers; r++ {
			fs = append(fs, func() {
				for i := 0; i < reads; i++ {
					var l []*health.IntervalAggregation
					if viaHTTP && r == 0 {
						l = getHealth(sink)
					} else {
						l = sink.GetMetrics()
					}
					a := single(l)
					shots[r] = append(shots[r], shot{a.content(), a.Serial})
				}
			})
		}
		par(fs...)
		for r := range shots {
			lo := [][]int{make([]int, emitters)}
			for i, s := range shots[r] {
				var ok [][]int
				for _, f := range consistent(progs, s.content) {
					for _, l := range lo {
						if leq(l, f) {
							ok = append(ok, f)
							break
						}
					}
				}
				if len(ok) == 0 {
					mc.Fail("snapshot %d of reader %d is no aggregation of emissions consistent with the earlier ones:\n%s", i, r, s.content)
				}
				lo = ok
				mc.Logf("reader %d sees %v", r, ok[0])
			}
		}
		mc.WaitIdle()
		a := single(sink.GetMetrics())
		full := make([]int, emitters)
		for g := range full {
			full[g] = per
		}
		complete := false
		for _, f := range consistent(progs, a.content()) {
			complete = complete || leq(full, f)
		}
		if !complete {
			mc.Fail("when idle the snapshot is not all emissions: %s", diff(a.content(), refAgg(append(append([]op{}, progs[0]...), progs[1]...)).content()))
		}
		sink.ShutdownServer()
	}
}

func c05burst(emitters, each int) func() {
	return func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		runs := mc.Choose(2) == 1 // equal emissions after one another
		// a second or more passes while the queue fills and the aggregator does not get to run
		busy := []time.Duration{0, time.Second, 2500 * time.Millisecond}[mc.Choose(3)]
		mc.S.CaseLast = mc.Choose(2) == 1
		fs := make([]func(), 0, emitters+1)
		for g := 0; g < emitters; g++ {
			fs = append(fs, func() {
				for i := 0; i < each; i++ {
					if g == 0 && (i == 10 || i == each-10) {
						mc.Busy(busy)
					}
					k, v := i%5, int64(i)
					if runs {
						k, v = i/(each/5), 7
					}
					switch k {
					case 0:
						sink.EmitEvent("j", "e", nil)
					case 1:
						sink.EmitTiming("j", "t", v, nil)
					case 2:
						sink.EmitEventErr("j", "e", errBoom, nil)
					case 3:
						sink.EmitComplete("j", health.Success, 1, nil)
					case 4:
						sink.EmitGauge("j", "g", 1, nil)
					}
				}
			})
		}
		var serials []int64
		fs = append(fs, func() {
			for i := 0; i < 3; i++ {
				serials = append(serials, single(sink.GetMetrics()).Serial)
			}
		})
		par(fs...)
		mc.WaitIdle()
		a := single(sink.GetMetrics())
		n := int64(emitters * (each / 5))
		if a.Events["e"] != n || a.Errs["e"] != n || a.Timers["t"].Count != n || a.Jobs["j"].Counts[0] != n || a.Serial != 5*n || a.Jobs["j"].Events["e"] != n || a.Jobs["j"].T.Count != n {
			mc.Fail("burst of %d per goroutine: counted events=%d errs=%d timings=%d completions=%d serial=%d, want %d of each", each, a.Events["e"], a.Errs["e"], a.Timers["t"].Count, a.Jobs["j"].Counts[0], a.Serial, n)
		}
		sink.ShutdownServer()
	}
}

// boundary bodies for C05/C07: emissions around an interval boundary while the clock moves.
func clockBody(check func(sink *health.JsonPollingSink, progs [][]op, d time.Duration)) func() {
	return func() {
		d := 2 * time.Second
		sink := health.NewJsonPollingSink(d, 100*d)
		mc.Sleep(d - 500*time.Millisecond)
		progs := [][]op{{ev("j", "a"), ti("j", "t", 3)}, {er("k", "x"), ga("j", "g", 2)}}
		par(func() {
			for _, o := range progs[0] {
				o.emit(sink)
				mc.Sleep(600 * time.Millisecond)
			}
		}, func() {
			mc.Sleep(500 * time.Millisecond)
			for _, o := range progs[1] {
				o.emit(sink)
			}
		}, func() {
			for i := 0; i < 2; i++ {
				t0 := mc.Now()
				l := sink.GetMetrics()
				checkWindow2(l, d, 100, t0, mc.Now())
				mc.Sleep(time.Second)
			}
		})
		mc.WaitIdle()
		check(sink, progs, d)
		sink.ShutdownServer()
	}
}

func checkWindow(l []*health.IntervalAggregation, d time.Duration, maxN int, now time.Time) {
	checkWindow2(l, d, maxN, now, now)
}

// checkWindow2 checks the shape of a snapshot taken at some time in [t0, t1].
func checkWindow2(l []*health.IntervalAggregation, d time.Duration, maxN int, t0, t1 time.Time) {
	if len(l) == 0 {
		mc.Fail("empty snapshot")
	}
	if len(l) > maxN {
		mc.Fail("%d intervals in a snapshot, at most %d are retained", len(l), maxN)
	}
	for i, x := range l {
		if x == nil {
			mc.Fail("nil interval in a snapshot")
		}
		if !x.IntervalStart.Truncate(d).Equal(x.IntervalStart) {
			mc.Fail("interval start %v is no multiple of %v", x.IntervalStart, d)
		}
		if i > 0 && !x.IntervalStart.After(l[i-1].IntervalStart) {
			mc.Fail("intervals not strictly ascending: %v after %v", x.IntervalStart, l[i-1].IntervalStart)
		}
	}
	last := l[len(l)-1].IntervalStart
	if last.After(t1) || !t0.Before(last.Add(d)) {
		mc.Fail("last interval starts %v and does not contain the current time %v", last, t1)
	}
}

// ------------------------------------------------------------- C06 alphabet

func c06alphabet() []op {
	var ops []op
	for _, j := range []string{"a", "X"} {
		for _, e := range []string{"a", "a.b"} {
			ops = append(ops, ev(j, e), er(j, e), ti(j, e, 5), ti(j, e, -3), ti(j, e, 0), ga(j, e, 2.5), ga(j, e, 0))
		}
		for i, s := range statuses {
			ops = append(ops, co(j, s, int64(10*i+1)))
		}
		ops = append(ops, co(j, health.Success, -7), co(j, health.Error, 0))
	}
	return ops
}

func checkContent(sink *health.JsonPollingSink, want *aggM, what string) {
	mc.WaitIdle()
	if got := single(sink.GetMetrics()).content(); got != want.content() {
		mc.Fail("after %s:%s", what, diff(got, want.content()))
	}
}

// ------------------------------------------------------------- C07 histories

type winCfg struct {
	d, retain time.Duration
	max       int
	base      time.Time
}

var winCfgs = []winCfg{
	{time.Minute, 5 * time.Minute, 5, time.Time{}},
	{time.Second, 3 * time.Second, 3, time.Time{}},
	{10 * time.Second, 25 * time.Second, 2, time.Time{}},
	{time.Minute, time.Minute, 1, time.Time{}},
	{7 * time.Second, 21 * time.Second, 3, time.Time{}},
	{time.Minute, 30 * time.Second, 1, time.Time{}},
	{100 * time.Millisecond, 400 * time.Millisecond, 4, time.Time{}},
	{time.Hour, 2 * time.Hour, 2, time.Time{}},
	{time.Millisecond, 3 * time.Millisecond, 3, time.Time{}}, // far shorter than the sink's own ticks
}

// winModel follows which interval every emission was counted in.
type winModel struct {
	c      winCfg
	aggs   map[int64]*aggM // by start (unix nanos)
	seen   map[int64]bool  // starts that were in a snapshot
	lastAt int64
}

func newWinModel(c winCfg) *winModel {
	return &winModel{c: c, aggs: map[int64]*aggM{}, seen: map[int64]bool{}}
}

func (m *winModel) start() time.Time { return mc.Now().Truncate(m.c.d) }

func (m *winModel) emit(sink health.Sink, o op) {
	o.emit(sink)
	mc.WaitIdle()
	s := m.start()
	a := m.aggs[s.UnixNano()]
	if a == nil {
		a = newAggM(s)
		m.aggs[s.UnixNano()] = a
	}
	a.apply(o)
}

func (m *winModel) snapshot(sink *health.JsonPollingSink) []*health.IntervalAggregation {
	mc.WaitIdle()
	l := sink.GetMetrics()
	m.check(l)
	return l
}

func (m *winModel) check(l []*health.IntervalAggregation) {
	checkWindow(l, m.c.d, m.c.max, mc.Now())
	if m.c.d >= 2*time.Second {
		for i := 1; i < len(l); i++ {
			if g := l[i].IntervalStart.Sub(l[i-1].IntervalStart); g != m.c.d {
				mc.Fail("no intervals between %v and %v (interval duration %v): the window did not slide while idle", l[i-1].IntervalStart, l[i].IntervalStart, m.c.d)
			}
		}
	}
	in := map[int64]bool{}
	for _, x := range l {
		k := x.IntervalStart.UnixNano()
		in[k] = true
		want := ""
		if a := m.aggs[k]; a != nil {
			want = a.content()
		}
		if got := readAgg(x).content(); got != want {
			mc.Fail("interval %v: %s", x.IntervalStart, diff(got, want))
		}
	}
	gone := func(k int64) {
		if in[k] {
			return
		}
		if len(l) < m.c.max {
			mc.Fail("interval %v was dropped though the snapshot holds only %d of %d", time.Unix(0, k).UTC(), len(l), m.c.max)
		}
		if l[0].IntervalStart.UnixNano() < k {
			mc.Fail("interval %v was dropped before the older %v", time.Unix(0, k).UTC(), l[0].IntervalStart)
		}
	}
	for k := range m.aggs {
		gone(k)
	}
	for k := range m.seen {
		gone(k)
	}
	for k := range in {
		m.seen[k] = true
	}
}

func c07ops(d time.Duration) []func(m *winModel, s *health.JsonPollingSink, i int) {
	adv := func(f func(now time.Time) time.Duration) func(*winModel, *health.JsonPollingSink, int) {
		return func(m *winModel, s *health.JsonPollingSink, i int) {
			mc.Sleep(f(mc.Now()))
		}
	}
	toNext := func(now time.Time) time.Duration { return now.Truncate(d).Add(d).Sub(now) }
	return []func(m *winModel, s *health.JsonPollingSink, i int){
		func(m *winModel, s *health.JsonPollingSink, i int) { m.emit(s, ev("j", "e")) },
		func(m *winModel, s *health.JsonPollingSink, i int) { m.emit(s, ti("j", "t", int64(i+1))) },
		func(m *winModel, s *health.JsonPollingSink, i int) { m.snapshot(s) },
		adv(func(now time.Time) time.Duration { return toNext(now) - 1 }),
		adv(toNext),
		adv(func(now time.Time) time.Duration { return toNext(now) + 1 }),
		adv(func(now time.Time) time.Duration { return d * 3 / 4 }),
		adv(func(now time.Time) time.Duration { return 2*d + d/2 }),
		adv(func(now time.Time) time.Duration { return 7 * d }),
	}
}

var zoned = time.Date(2024, 2, 29, 23, 59, 58, 999999999, time.FixedZone("x", 5*3600+45*60))

func c07history(c winCfg) func() {
	return func() {
		sink := health.NewJsonPollingSink(c.d, c.retain)
		m := newWinModel(c)
		ops := c07ops(c.d)
		n := depth(4, 5)
		if c.d >= time.Hour {
			n = depth(2, 3)
		}
		for i := 0; i < n; i++ {
			ops[mc.Choose(len(ops))](m, sink, i)
		}
		m.snapshot(sink)
		m.emit(sink, co("j", health.Success, 4))
		m.snapshot(sink)
		sink.ShutdownServer()
	}
}

// ------------------------------------------------------------- C08

type kept struct {
	l    []*health.IntervalAggregation
	dump string
	json string
}

func keep(l []*health.IntervalAggregation) *kept {
	return &kept{l, dumpAll(l), jsonOf(l)}
}

func (k *kept) check(what string) {
	if d := dumpAll(k.l); d != k.dump {
		mc.Fail("a snapshot taken earlier changed after %s:%s", what, diff(d, k.dump))
	}
	if j := jsonOf(k.l); j != k.json {
		mc.Fail("the JSON form of a snapshot taken earlier changed after %s", what)
	}
}

// scramble changes everything reachable in an aggregation.
func scramble(ia *health.IntervalAggregation) {
	ia.SerialNumber += 1000
	for _, m := range []map[string]int64{ia.Events} {
		for k := range m {
			m[k] += 500
		}
		m["scrambled"] = 1
	}
	for k := range ia.Gauges {
		ia.Gauges[k] -= 77
	}
	ia.Gauges["scrambled"] = 1
	for _, t := range ia.Timers {
		scrambleTimer(t)
	}
	ia.Timers["scrambled"] = &health.TimerAggregation{Count: 3}
	for _, e := range ia.EventErrs {
		e.Count += 31
	}
	ia.EventErrs["scrambled"] = &health.ErrorCounter{Count: 2}
	for _, j := range ia.Jobs {
		scrambleJob(j)
	}
	ia.Jobs["scrambled"] = &health.JobAggregation{CountJunk: 9}
}

func scrambleTimer(t *health.TimerAggregation) {
	t.Count += 11
	t.NanosSum -= 1001
	t.NanosSumSquares += 5
	t.NanosMin -= 100000
	t.NanosMax += 100000
}

func scrambleJob(j *health.JobAggregation) {
	scrambleTimer(&j.TimerAggregation)
	j.CountSuccess += 2
	j.CountValidationError += 2
	j.CountPanic += 2
	j.CountError += 2
	j.CountJunk += 2
	for k := range j.Events {
		j.Events[k] += 500
	}
	j.Events["scrambled"] = 1
	for k := range j.Gauges {
		j.Gauges[k] -= 77
	}
	j.Gauges["scrambled"] = 1
	for _, t := range j.Timers {
		scrambleTimer(t)
	}
	j.Timers["scrambled"] = &health.TimerAggregation{Count: 3}
	for _, e := range j.EventErrs {
		e.Count += 31
	}
	j.EventErrs["scrambled"] = &health.ErrorCounter{Count: 2}
}

func c08history() {
	d := 10 * time.Second
	sink := health.NewJsonPollingSink(d, 2*d)
	m := newWinModel(winCfg{d: d, max: 2})
	var snaps []*kept
	n := depth(5, 6)
	for i := 0; i < n; i++ {
		what := ""
		switch c := mc.Choose(10); c {
		case 0:
			m.emit(sink, ev("j", "e"))
			what = "event"
		case 1:
			m.emit(sink, er("j", "e"))
			what = "error event"
		case 2:
			m.emit(sink, ti("j", "e", int64(i)))
			what = "timing"
		case 3:
			m.emit(sink, ga("j", "e", float64(i)))
			what = "gauge"
		case 4:
			m.emit(sink, co("j", statuses[i%5], int64(i)))
			what = "completion"
		case 5:
			snaps = append(snaps, keep(m.snapshot(sink)))
			what = "snapshot"
		case 6:
			// a caller plays with the current interval of a fresh snapshot
			l := m.snapshot(sink)
			scramble(l[len(l)-1])
			m.snapshot(sink)
			what = "another snapshot's current interval was modified"
		case 7:
			mc.Sleep(d)
			what = "an interval passed"
		case 8:
			l := getHealth(sink)
			m.check(l)
			snaps = append(snaps, keep(l))
			what = "GET /health"
		case 9:
			l := m.snapshot(sink)
			o := health.NewIntervalAggregation(time.Time{})
			o.Merge(l[len(l)-1])
			l[len(l)-1].Merge(o)
			what = "merging a snapshot"
		}
		for _, k := range snaps {
			k.check(what)
		}
	}
	m.snapshot(sink)
	sink.ShutdownServer()
}

func c08concurrent() {
	sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	for _, o := range progSets[mc.Choose(3)][0] {
		o.emit(sink)
	}
	mc.WaitIdle()
	progs := progSets[mc.Choose(3)]
	var yield mc.Mutex
	par(func() {
		for _, o := range progs[1] {
			o.emit(sink)
		}
	}, func() {
		k := keep(sink.GetMetrics())
		for i := 0; i < 2; i++ {
			yield.Lock()
			yield.Unlock()
			k.check("concurrent emissions")
		}
		scramble(k.l[0])
	}, func() {
		k := keep(sink.GetMetrics())
		yield.Lock()
		yield.Unlock()
		k.check("concurrent emissions and snapshots")
		k2 := keep(getHealth(sink))
		k.check("a GET /health")
		if strings.Contains(k2.dump, "scrambled") {
			mc.Fail("changes to another snapshot show up:\n%s", k2.dump)
		}
	})
	mc.WaitIdle()
	if s := dumpAll(sink.GetMetrics()); strings.Contains(s, "scrambled") {
		mc.Fail("changes to a snapshot show up in a later one:\n%s", s)
	}
}

func init() {
	// ------------------------------------------------------------- C05
	add(&Scn{Prop: "C05", Name: "two_emitters", Doc: "2 emitters x 2 emissions (3 program sets), 1 reader x 2 GetMetrics: all interleavings within the preemption bound; each snapshot must be the aggregation of emissions closed under program order (brute force over prefixes and interleavings), monotone per reader, complete when idle",
		Cfg: conc(3), Deep: concP(5), Shards: 8, DeepShards: 32, Body: c05body(2, 2, 1, 2, false)})
	add(&Scn{Prop: "C05", Name: "readers", Doc: "2 emitters x 1, 2 readers (one over HTTP) x 2 snapshots",
		Cfg: conc(3), Deep: concP(5), Shards: 8, DeepShards: 32, Body: c05body(2, 1, 2, 2, true)})
	add(&Scn{Prop: "C05", Name: "three_emitters", Doc: "3 emitters x 2 emissions, 1 reader x 1 snapshot",
		Cfg: conc(3), Deep: concP(4), Shards: 8, DeepShards: 32, Body: c05body(3, 2, 1, 1, false)})
	add(&Scn{Prop: "C05", Name: "long_programs", Doc: "2 emitters x 3 emissions, 1 HTTP reader x 3 snapshots",
		Cfg: conc(3), Deep: concP(4), Shards: 8, DeepShards: 32, Body: c05body(2, 3, 1, 3, true)})
	add(&Scn{Prop: "C05", Name: "alike", Doc: "2 emitters x 2 emissions of one kind (each kind), all different, 1 reader x 1 GetMetrics",
		Cfg: conc(3), Deep: concP(4), Shards: 4, DeepShards: 8, Body: c05bodyOf(true, 2, 2, 1, 1, false)})
	for _, b := range []struct{ g, n int }{{1, 10000}, {2, 5000}, {5, 2000}, {1, 4095}, {1, 4100}} {
		add(&Scn{Prop: "C05", Name: fmt.Sprintf("burst_%dx%d", b.g, b.n), Doc: "emissions, rotating over the kinds or in runs of equal ones, pile up far beyond the queue while a reader takes snapshots; nothing may be lost, everything must return",
			Cfg: burst, Body: c05burst(b.g, b.n)})
	}
	shut := func(pre int) func() {
		return func() {
			sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
			for i := 0; i < pre; i++ {
				sink.EmitEvent("j", "pre", nil)
			}
			par(func() {
				ev("j", "a").emit(sink)
				ti("j", "t", 1).emit(sink)
			}, func() {
				er("j", "a").emit(sink)
			}, func() {
				sink.ShutdownServer()
			})
		}
	}
	add(&Scn{Prop: "C05", Name: "shutdown", Doc: "ShutdownServer called while emitters are active returns in every interleaving, and so do the emitting calls", Cfg: conc(3), Deep: concP(5), Body: shut(1)})
	add(&Scn{Prop: "C05", Name: "full_order", Doc: "one goroutine sets a gauge on and on with an almost full queue, all blocking orders: no snapshot shows it going back, the last one the last value", Cfg: mc.Cfg{NoPreempt: true, Horizon: time.Hour, CaseCost: 2, FreeCost: 1, Bound: 1}, Deep: &mc.Cfg{NoPreempt: true, Horizon: time.Hour, CaseCost: 3, FreeCost: 1, Bound: 2}, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		n, seen := 4094+mc.Choose(8), -1.0
		for i := 0; i < n; i++ {
			sink.EmitGauge("j", "g", float64(i), nil)
			if i < n-3 {
				continue
			}
			if mc.Choose(2) == 1 {
				if v, ok := single(sink.GetMetrics()).Gauges["g"]; ok {
					if v < seen {
						mc.Fail("the gauge went from %v back to %v", seen, v)
					}
					seen = v
				}
			}
		}
		mc.WaitIdle()
		if v := single(sink.GetMetrics()).Gauges["g"]; v != float64(n-1) {
			mc.Fail("the gauge is %v, but was last set to %v", v, n-1)
		}
	}})
	add(&Scn{Prop: "C05", Name: "full_kinds", Doc: "one goroutine emits all five kinds in turn beyond a full queue while another waits for a snapshot, all blocking orders and select choices towards the end of the queue: every snapshot shows the first so many of them", Cfg: mc.Cfg{NoPreempt: true, Horizon: time.Hour, CaseCost: 1, SkipCases: 4085, FreeCost: 1, Bound: 1}, Deep: &mc.Cfg{NoPreempt: true, Horizon: time.Hour, CaseCost: 1, SkipCases: 4085, FreeCost: 1, Bound: 2}, Body: func() {
		var gate, done mc.Mutex
		gate.Lock()
		done.Lock()
		var look func()
		mc.Go(func() {
			gate.Lock()
			look()
			done.Unlock()
		})
		mc.WaitIdle()
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		off, n, last := mc.Choose(5), 4097+mc.Choose(3), 0
		look = func() {
			a := single(sink.GetMetrics())
			v, ok := a.Gauges["x"]
			g := int(v) + 1
			if !ok {
				g = 0
			}
			var c int64
			if j := a.Jobs["c"]; j != nil {
				c = j.T.Count
			}
			l := []int{int(a.Events["x"]), int(a.Errs["x"]), int(a.Timers["x"].Count), g, int(c)}
			k := 0
			for _, x := range l {
				k += x
			}
			for i, x := range l {
				if x != (k+4-(i+5-off)%5)/5 {
					mc.Fail("a snapshot shows %v emissions of the five kinds, which were emitted in turn by one goroutine", l)
				}
			}
			if k < last {
				mc.Fail("a snapshot shows %d emissions after one with %d", k, last)
			}
			last = k
		}
		for i := 0; i < n; i++ {
			[]op{ev("j", "x"), er("j", "x"), ti("j", "x", 1), ga("j", "x", float64(i/5)), co("c", health.Success, 1)}[(i+off)%5].emit(sink)
			if i == 4080 {
				gate.Unlock()
			}
		}
		done.Lock()
		mc.WaitIdle()
		if look(); last != n {
			mc.Fail("%d of %d emissions counted", last, n)
		}
	}})
	add(&Scn{Prop: "C05", Name: "shutdown_full", Doc: "the same with an almost full queue, all blocking orders", Cfg: mc.Cfg{NoPreempt: true, Horizon: time.Hour, CaseCost: 1, Bound: 2}, Body: shut(4090)})
	add(&Scn{Prop: "C05", Name: "clock", Doc: "emissions and snapshots around an interval boundary with timers firing at any point: totals over all intervals", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 16,
		Body: clockBody(func(sink *health.JsonPollingSink, progs [][]op, d time.Duration) {
			l := sink.GetMetrics()
			tot := newAggM(time.Time{})
			for _, p := range progs {
				for _, o := range p {
					tot.apply(o)
				}
			}
			m := health.NewIntervalAggregation(time.Time{})
			for _, x := range l {
				m.Merge(x)
			}
			if got := readAgg(m); got.Events["a"] != 1 || got.Errs["x"] != 1 || got.Gauges["g"] != 2 || got.Timers["t"].Count != 1 || got.Timers["t"].Sum != 3 {
				mc.Fail("over all intervals: %s", diff(got.content(), tot.content()))
			}
		})})

	// ------------------------------------------------------------- C06
	add(&Scn{Prop: "C06", Name: "sequences", Doc: "all sequences of emissions over an alphabet of 42 (all kinds, jobs, names that collide with each other, statuses, negative/zero/positive values), compared with the reference aggregation after the last", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		al := c06alphabet()
		want := newAggM(time.Time{})
		var l []string
		for i, n := 0, depth(3, 4); i < n; i++ {
			o := al[mc.Choose(len(al))]
			o.emit(sink)
			want.apply(o)
			l = append(l, o.String())
		}
		checkContent(sink, want, join(l))
	}})
	add(&Scn{Prop: "C06", Name: "many_names", Doc: "30000 different jobs, or as many different events, errors, timers and gauges of one job, and then the last ones and the first ones again: every one is counted", Cfg: burst, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		mk := []func(string) op{
			func(s string) op { return co(s, health.Success, 3) },
			func(s string) op { return ev("j", s) },
			func(s string) op { return er("j", s) },
			func(s string) op { return ti("j", s, 5) },
			func(s string) op { return ga("j", s, 2) },
			func(s string) op { return ev(s, s) },
		}[mc.Choose(6)]
		for i := 0; i < 30000+2000; i++ {
			o := mk(fmt.Sprint("n", i%30000))
			if i >= 31000 {
				o = mk(fmt.Sprint("n", i-2000))
			}
			o.emit(sink)
			want.apply(o)
			if i%1000 == 0 {
				mc.WaitIdle()
			}
		}
		checkContent(sink, want, "many names")
	}})
	bound := func(name string, mk func(int64) op) {
		add(&Scn{Prop: "C06", Name: name, Doc: "all triples of boundary values", Cfg: seqCfg, Shards: 2, Body: func() {
			sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
			want := newAggM(time.Time{})
			var l []string
			for i := 0; i < depth(3, 4); i++ {
				o := mk(int64s[mc.Choose(len(int64s))])
				o.emit(sink)
				want.apply(o)
				l = append(l, o.String())
			}
			checkContent(sink, want, join(l))
		}})
	}
	bound("timing_values", func(n int64) op { return ti("j", "t", n) })
	bound("completion_values", func(n int64) op { return co("j", health.Success, n) })
	add(&Scn{Prop: "C06", Name: "gauge_values", Doc: "all pairs of boundary gauge values incl. infinities", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		fs := append(append([]float64{}, floats...), math.Inf(1), math.Inf(-1), math.NaN())
		for i := 0; i < 2; i++ {
			o := ga("j", "g", fs[mc.Choose(len(fs))])
			o.emit(sink)
			want.apply(o)
		}
		checkContent(sink, want, "gauges")
	}})
	add(&Scn{Prop: "C06", Name: "names", Doc: "pairs of awkward job and event names for every kind", Cfg: seqCfg, Shards: 2, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
		for _, o := range []op{ev(j, e), er(j, e), ti(j, e, 3), ga(j, e, 4), co(j, health.Error, 9), ev(e, j), er("plain", e), ti(j, "plain", 8)} {
			o.emit(sink)
			want.apply(o)
		}
		checkContent(sink, want, "names")
	}})
	add(&Scn{Prop: "C06", Name: "error_samples", Doc: "all sequences of 7 errors from 3 shapes (equal, different, uncomparable) then 40 different ones: only the count matters and is exact", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		put := func(e error) {
			o := op{K: kErr, Job: "j", Event: "e", Err: e}
			o.emit(sink)
			want.apply(o)
		}
		for i := 0; i < 7; i++ {
			put([]error{errBoom, valErr{"v"}, sliceErr{"s"}}[mc.Choose(3)])
		}
		for i := 0; i < 40; i++ {
			put(fmt.Errorf("e%d", i))
		}
		checkContent(sink, want, "errors")
	}})
	add(&Scn{Prop: "C06", Name: "long", Doc: "60000 emissions rotating over 200 jobs and 300 names, compared with the reference every 5000", Cfg: burst, Body: func() {
		sink := health.NewJsonPollingSink(time.Hour, 5*time.Hour)
		want := newAggM(time.Time{})
		n := depth(60000, 300000)
		for i := 0; i < n; i++ {
			j, e := fmt.Sprint("j", (i*7)%200), fmt.Sprint("e", (i*13)%300)
			var o op
			switch (i / 3) % 5 {
			case 0:
				o = ev(j, e)
			case 1:
				o = er(j, e)
			case 2:
				o = ti(j, e, int64(i%1000)-500)
			case 3:
				o = ga(j, e, float64(i))
			case 4:
				o = co(j, statuses[i%5], int64(i%777))
			}
			o.emit(sink)
			want.apply(o)
			if i%5000 == 4999 {
				checkContent(sink, want, fmt.Sprint(i, " emissions"))
			}
		}
	}})
	add(&Scn{Prop: "C06", Name: "via_stream", Doc: "sequences of emission calls on stream and jobs with the polling sink attached", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		st := health.NewStream()
		st.AddSink(sink)
		j := st.NewJob("j")
		want := newAggM(time.Time{})
		for i := 0; i < 3; i++ {
			mc.Sleep(time.Duration(i * 10))
			c := mc.Choose(20)
			v := posVals(i)
			var r rec
			if c < 10 {
				r, _ = callForm(st, "general", 0, c, v)
			} else {
				r, _ = callForm(j, "j", 0, c-10, v)
			}
			want.apply(op{K: r.K, Job: r.Job, Event: r.Event, Nanos: r.Nanos, Value: r.Value, Status: r.Status})
		}
		checkContent(sink, want, "stream calls")
	}})

	// ------------------------------------------------------------- C07
	for _, c := range winCfgs {
		for _, z := range []bool{false, true} {
			c := c
			cfg := seqCfg
			name := fmt.Sprintf("window_%v_%v", c.d, c.retain)
			if z {
				cfg.Base = zoned
				name += "_zoned"
			}
			add(&Scn{Prop: "C07", Name: name, Doc: "all histories of emissions, snapshots and clock advances (up to, exactly to, past the boundary, fractions, several intervals, beyond the retention); shape and content of every snapshot and legality of every dropped interval checked", Cfg: cfg, Shards: 1, DeepShards: 4, Body: c07history(c)})
		}
	}
	add(&Scn{Prop: "C07", Name: "clock", Doc: "emissions and snapshots around an interval boundary with timers firing at any point: every emission is in exactly one interval, one of those open while it was under way", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 16,
		Body: clockBody(func(sink *health.JsonPollingSink, progs [][]op, d time.Duration) {
			t0 := mc.Now()
			l := sink.GetMetrics()
			checkWindow2(l, d, 100, t0, mc.Now())
			for _, w := range []string{"a", "t", "x", "g"} {
				n := 0
				for _, x := range l {
					a := readAgg(x)
					if a.Events[w] > 0 || a.Errs[w] > 0 || a.Timers[w].Count > 0 || a.Gauges[w] > 0 {
						n++
					}
				}
				if n != 1 {
					mc.Fail("emission %q is in %d intervals", w, n)
				}
			}
		})})
	add(&Scn{Prop: "C07", Name: "hours", Doc: "3 hours of virtual time with emissions and snapshots every few seconds", Cfg: burst, Body: func() {
		c := winCfg{d: time.Minute, max: 5}
		sink := health.NewJsonPollingSink(c.d, 5*time.Minute)
		m := newWinModel(c)
		for i := 0; i < 2000; i++ {
			if i%7 < 3 {
				m.emit(sink, ev("j", fmt.Sprint("e", i%5)))
			}
			if i%11 == 0 {
				m.snapshot(sink)
				for k := range m.aggs {
					if k < mc.Now().Add(-20*time.Minute).UnixNano() {
						delete(m.aggs, k)
					}
				}
			}
			mc.Sleep(time.Duration(i%13) * time.Second)
		}
	}})

	for _, c := range []winCfg{{d: 12 * time.Hour, retain: 36 * time.Hour, max: 3}, {d: 24 * time.Hour, retain: 72 * time.Hour, max: 3}, {d: 7 * 24 * time.Hour, retain: 14 * 24 * time.Hour, max: 2}} {
		for _, zone := range []int{-9*3600 - 1800, 0, 5*3600 + 2700, 13 * 3600} {
			c := c
			cfg := burst
			cfg.MaxSteps = 100000000
			cfg.Base = time.Date(2024, 2, 28, 21, 0, 1, 5, time.FixedZone("x", zone))
			add(&Scn{Prop: "C07", Name: fmt.Sprintf("days_%v_%d", c.d, zone), Doc: "intervals of half a day, a day, a week over several of them in four time zones: emissions and snapshots four to five times per interval", Cfg: cfg, Body: func() {
				sink := health.NewJsonPollingSink(c.d, c.retain)
				m := newWinModel(c)
				step := c.d / 4
				for i := 0; i < 16; i++ {
					m.emit(sink, ev("j", fmt.Sprint("e", i%3)))
					m.snapshot(sink)
					mc.Sleep(step - time.Duration(1+i%2)*time.Hour/3)
					m.emit(sink, ga("j", "g", float64(i)))
				}
				m.snapshot(sink)
			}})
		}
	}
	for _, c := range []winCfg{{d: time.Minute, retain: 24 * time.Hour, max: 1440}, {d: time.Second, retain: time.Hour, max: 3600}, {d: time.Hour, retain: 7 * 24 * time.Hour, max: 168}} {
		c := c
		add(&Scn{Prop: "C07", Name: fmt.Sprintf("many_%d", c.max), Doc: "a window of hundreds or thousands of intervals filled beyond its size: nothing is dropped early", Cfg: burst, Body: func() {
			sink := health.NewJsonPollingSink(c.d, c.retain)
			m := newWinModel(c)
			for i := 0; i < c.max+c.max/4; i++ {
				if i%3 != 1 {
					m.emit(sink, ev("j", fmt.Sprint("e", i%5)))
				}
				if i%(c.max/8) == 0 || i == c.max-1 || i == c.max {
					m.snapshot(sink)
				}
				mc.Sleep(c.d)
				for k := range m.aggs {
					if k < mc.Now().Add(-c.retain-c.d).UnixNano() {
						delete(m.aggs, k)
						delete(m.seen, k)
					}
				}
			}
			m.snapshot(sink)
		}})
	}

	// ------------------------------------------------------------- C08
	add(&Scn{Prop: "C08", Name: "histories", Doc: "all histories of emissions of 5 kinds, snapshots, GET /health, modification of a fresh snapshot's current interval, merging it, and interval changes; every earlier snapshot is compared with its original dump and JSON after every step", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: c08history})
	add(&Scn{Prop: "C08", Name: "concurrent", Doc: "an emitter and two readers (GetMetrics, GET /health, one modifying its snapshot) under all interleavings", Cfg: conc(2), Deep: concP(3), Shards: 8, DeepShards: 32, Body: c08concurrent})

	// ------------------------------------------------------------- C09
	add(&Scn{Prop: "C09", Name: "sequences", Doc: "all sequences of emissions (42), snapshots and interval changes; the serial of every interval equals the number of emissions counted in it", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: func() {
		d := 10 * time.Second
		sink := health.NewJsonPollingSink(d, 3*d)
		m := newWinModel(winCfg{d: d, max: 3})
		// completions count whatever their status is
		al := append(c06alphabet(), co("j", -1, 3), co("j", 5, 3), co("k", 100, 0))
		chk := func() {
			mc.WaitIdle()
			for _, x := range sink.GetMetrics() {
				want := int64(0)
				if a := m.aggs[x.IntervalStart.UnixNano()]; a != nil {
					want = a.Serial
				}
				if x.SerialNumber != want {
					mc.Fail("serial of %v is %d after %d emissions", x.IntervalStart, x.SerialNumber, want)
				}
			}
		}
		for i, n := 0, depth(3, 4); i < n; i++ {
			c := mc.Choose(len(al) + 2)
			switch {
			case c < len(al):
				m.emit(sink, al[c])
			case c == len(al):
				mc.Sleep(d)
			default:
				getHealth(sink)
			}
			chk()
			chk()
		}
	}})
	add(&Scn{Prop: "C09", Name: "long", Doc: "66000 emissions of one kind in one interval (thorough: 1000000), the serial compared around every power of two", Cfg: burst, Shards: 5, DeepShards: 5, Body: func() {
		sink := health.NewJsonPollingSink(time.Hour, 5*time.Hour)
		o := []op{ev("j", "e"), er("j", "e"), ti("j", "e", 3), ga("j", "e", 4), co("j", health.Junk, 5)}[mc.Choose(5)]
		want := newAggM(time.Time{})
		for i := 1; i <= depth(66000, 1000000); i++ {
			o.emit(sink)
			want.apply(o)
			if k := i & (i - 1); k == 0 || (i+1)&i == 0 || k == 1 || i%50000 == 0 {
				for k := 0; k < 2; k++ {
					mc.WaitIdle()
					l := sink.GetMetrics()
					if n := l[len(l)-1].SerialNumber; n != int64(i) {
						mc.Fail("serial is %d after %d emissions", n, i)
					}
					mc.Sleep(2 * time.Second) // the sink's clock ticks meanwhile
				}
			}
		}
		checkContent(sink, want, "a long run")
	}})
	add(&Scn{Prop: "C09", Name: "concurrent", Doc: "2 emitters and a reader taking snapshots under all interleavings: equal serials imply equal content, serial = number of emissions shown", Cfg: conc(2), Deep: concP(4), Shards: 8, DeepShards: 32, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		progs := progSets[mc.Choose(3)][:2]
		total := func(a *aggM) int64 {
			n := int64(0)
			for _, v := range a.Events {
				n += v
			}
			for _, v := range a.Errs {
				n += v
			}
			for _, t := range a.Timers {
				n += t.Count
			}
			for _, j := range a.Jobs {
				n += j.T.Count
			}
			return n
		}
		gauges := 0
		for _, p := range progs {
			for _, o := range p[:2] {
				if o.K == kGauge {
					gauges++
				}
			}
		}
		var shots []*aggM
		par(func() {
			for _, o := range progs[0][:2] {
				o.emit(sink)
			}
		}, func() {
			for _, o := range progs[1][:2] {
				o.emit(sink)
			}
		}, func() {
			for i := 0; i < 3; i++ {
				shots = append(shots, single(sink.GetMetrics()))
			}
		})
		mc.WaitIdle()
		shots = append(shots, single(sink.GetMetrics()))
		for i, a := range shots {
			n := total(a)
			if a.Serial < n || a.Serial > n+int64(gauges) {
				mc.Fail("serial %d with %d counted emissions (and at most %d gauges)", a.Serial, n, gauges)
			}
			if i > 0 {
				b := shots[i-1]
				if a.Serial < b.Serial {
					mc.Fail("serial went from %d to %d", b.Serial, a.Serial)
				}
				if a.Serial == b.Serial && a.content() != b.content() {
					mc.Fail("same serial %d, different content:%s", a.Serial, diff(a.content(), b.content()))
				}
			}
		}
		if last := shots[len(shots)-1]; last.Serial != 4 {
			mc.Fail("serial %d after 4 emissions", last.Serial)
		}
	}})
}
