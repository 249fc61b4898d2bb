package main

import (
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

// buildAgg makes the aggregation of ops the way users get one: from a snapshot.
func buildAgg(ops []op, viaJSON bool) *health.IntervalAggregation {
	sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
	for _, o := range ops {
		o.emit(sink)
	}
	mc.WaitIdle()
	l := sink.GetMetrics()
	a := l[len(l)-1]
	sink.ShutdownServer()
	if viaJSON {
		return viaJson(a)
	}
	return a
}

func viaJson(a *health.IntervalAggregation) *health.IntervalAggregation {
	b, err := json.Marshal(a)
	if err != nil {
		mc.Fail("marshal: %v", err)
	}
	var c health.IntervalAggregation
	if err := json.Unmarshal(b, &c); err != nil {
		mc.Fail("unmarshal: %v", err)
	}
	return &c
}

func mergeAlphabet() []op {
	return []op{
		ev("a", "x"), ev("b", "x"), ev("a", "y"),
		er("a", "x"), er("b", "x"), {K: kErr, Job: "a", Event: "x", Err: valErr{"other"}},
		ti("a", "x", 5), ti("a", "x", -3), ti("b", "x", 100), ti("a", "y", 0),
		ga("a", "x", 1.5), ga("b", "x", -2), ga("a", "y", 0),
		co("a", health.Success, 7), co("a", health.Error, 0), co("b", health.Panic, -9), co("a", health.ValidationError, 40), co("a", health.Junk, 3),
	}
}

func pickOps(al []op, n int) []op {
	var out []op
	for i := 0; i < n; i++ {
		c := mc.Choose(len(al) + 1 - 0)
		if c == len(al) {
			break
		}
		out = append(out, al[c])
	}
	return out
}

func checkMerged(into *health.IntervalAggregation, all []op, what string) {
	want := refAgg(all)
	if got := readAgg(into).content(); got != want.content() {
		mc.Fail("%s of %v:%s", what, all, diff(got, want.content()))
	}
}

// cloneChecks: clones of a equal it and share nothing with it (a is spoilt).
func cloneChecks(a *health.IntervalAggregation) {
	d, j := readAgg(a).dump(), jsonOf(a)
	c := a.Clone()
	if c == a {
		mc.Fail("Clone returned its receiver")
	}
	if got := readAgg(c).dump(); got != d {
		mc.Fail("clone differs:%s", diff(got, d))
	}
	if jsonOf(c) != j {
		mc.Fail("JSON of the clone differs:\n%s\n%s", jsonOf(c), j)
	}
	if readAgg(a).dump() != d {
		mc.Fail("cloning changed the original")
	}
	if !c.IntervalStart.Equal(a.IntervalStart) {
		mc.Fail("start differs")
	}
	// same behaviour from here on
	extra := buildAgg([]op{er("a", "x"), ti("a", "x", -8), co("a", health.Success, 1), ga("b", "x", 4), ev("z", "z")}, false)
	a2, c2 := a.Clone(), a.Clone()
	a2.Merge(extra)
	if readAgg(a).dump() != d || readAgg(c).dump() != d || readAgg(c2).dump() != d {
		mc.Fail("merging into a clone changed the original or another clone")
	}
	c2.Merge(extra)
	if readAgg(a2).dump() != readAgg(c2).dump() || jsonOf(a2) != jsonOf(c2) {
		mc.Fail("two clones behave differently")
	}
	scramble(c)
	if got := readAgg(a).dump(); got != d {
		mc.Fail("changing the clone changed the original:%s", diff(got, d))
	}
	c3 := a.Clone()
	scramble(a)
	if got := readAgg(c3).dump(); got != d {
		mc.Fail("changing the original changed the clone:%s", diff(got, d))
	}
}

// decodedAgg decodes one of the documents a host can send: entries that count
// nothing, jobs without entries, and values no emission gives.
func decodedAgg(timers, errs, ints, serials []string) (*health.IntervalAggregation, string) {
	tm, er, n := timers[mc.Choose(len(timers))], errs[mc.Choose(len(errs))], ints[mc.Choose(len(ints))]
	maps := func(k int) string {
		if k == 0 {
			return `"timers":{},"gauges":{},"events":{},"event_errs":{}`
		}
		return `"timers":{"x":` + tm + `},"gauges":{"x":` + n + `},"events":{"x":` + n + `},"event_errs":{"x":` + er + `}`
	}
	job := func(k int, more string) string { return `"j":{` + maps(k) + more + `}` }
	jobs := []string{"", job(0, ""), job(1, ""), job(1, `,"count":3,"nanos_sum":`+n+`,"nanos_sum_squares":1e300,"nanos_min":-4,"nanos_max":9,"count_success":`+n+`,"count_junk":2`)}
	doc := `{"interval_start":"2011-09-09T23:36:00+02:00","serial_number":` + serials[mc.Choose(len(serials))] + `,"jobs":{` + jobs[mc.Choose(len(jobs))] + `},` + maps(mc.Choose(2)) + `}`
	a := &health.IntervalAggregation{}
	if err := json.Unmarshal([]byte(doc), a); err != nil {
		mc.Fail("unmarshal %s: %v", doc, err)
	}
	return a, doc
}

var (
	docTimers  = []string{`{"count":0}`, `{"count":0,"nanos_sum":0,"nanos_sum_squares":0,"nanos_min":5,"nanos_max":7}`, `{"count":1,"nanos_sum":-5,"nanos_sum_squares":25,"nanos_min":-5,"nanos_max":-5}`, `{"count":4,"nanos_sum":9223372036854775807,"nanos_sum_squares":1e308,"nanos_min":-9223372036854775808,"nanos_max":9223372036854775807}`}
	docErrs    = []string{`{"count":0}`, `{"count":1}`, `{"count":9}`}
	docInts    = []string{"0", "1", "-3"}
	docSerials = []string{"0", "5"}
)

func init() {
	add(&Scn{Prop: "C11", Name: "pairs", Doc: "all pairs of aggregations of up to 2 emissions each over 18 (all kinds, shared and distinct names and jobs, negative and zero values), the argument also decoded from JSON: result equals the aggregation of all emissions, serial +1, argument unmodified; afterwards everything in one is changed and the other must not notice", Cfg: seqCfg, Shards: 16, DeepShards: 32, Body: func() {
		al := mergeAlphabet()
		na := pickOps(al, 2)
		nb := pickOps(al, depth(2, 2))
		mode := (len(na)*7 + len(nb)*3) % 2
		if deep {
			mode = mc.Choose(2)
		}
		a, b := buildAgg(na, mode == 1), buildAgg(nb, mode == 1)
		serial := a.SerialNumber
		start := a.IntervalStart
		bDump, bJSON := readAgg(b).dump(), jsonOf(b)
		a.Merge(b)
		if a.SerialNumber != serial+1 {
			mc.Fail("serial went from %d to %d", serial, a.SerialNumber)
		}
		if !a.IntervalStart.Equal(start) {
			mc.Fail("merging changed the interval start")
		}
		checkMerged(a, append(append([]op{}, na...), nb...), "merge")
		fresh := health.NewIntervalAggregation(time.Time{})
		if fresh.Merge(b); !fresh.IntervalStart.IsZero() || fresh.SerialNumber != 1 {
			mc.Fail("merging into a new aggregation made its start %v and its serial %d", fresh.IntervalStart, fresh.SerialNumber)
		}
		checkMerged(fresh, nb, "merge into a new one")
		if readAgg(b).dump() != bDump || jsonOf(b) != bJSON {
			mc.Fail("merging modified its argument:%s", diff(readAgg(b).dump(), bDump))
		}
		aDump := readAgg(a).dump()
		// more merging into the result must not reach the argument
		a2 := buildAgg(na, false)
		a.Merge(a2)
		scramble(a)
		if readAgg(b).dump() != bDump {
			mc.Fail("changing the result changed the argument:%s", diff(readAgg(b).dump(), bDump))
		}
		c := buildAgg(na, mode == 1)
		c.Merge(b)
		scramble(b)
		if readAgg(c).dump() != aDump {
			mc.Fail("changing the argument changed the result:%s", diff(readAgg(c).dump(), aDump))
		}
	}})
	add(&Scn{Prop: "C11", Name: "decoded", Doc: "decoded aggregations (counters of zero, extreme values, jobs without entries) merged into an empty one, one with the same names, and a decoded one: argument unmodified, nothing shared afterwards, counters add up", Cfg: seqCfg, Shards: 4, Body: func() {
		b, doc := decodedAgg(docTimers, docErrs, docInts, docSerials)
		var into *health.IntervalAggregation
		mk := func() *health.IntervalAggregation { return health.NewIntervalAggregation(time.Unix(0, 0).UTC()) }
		switch mc.Choose(3) {
		case 1:
			mk = func() *health.IntervalAggregation {
				return buildAgg([]op{ev("j", "x"), er("j", "x"), ti("j", "x", 3), ga("k", "x", 7), co("j", health.Junk, 6)}, false)
			}
		case 2:
			k := mc.Choose(2)
			mk = func() *health.IntervalAggregation {
				a := &health.IntervalAggregation{}
				json.Unmarshal([]byte(doc), a)
				if k == 1 {
					a.Jobs = map[string]*health.JobAggregation{}
				}
				return a
			}
		}
		into = mk()
		was, bDump := readAgg(into), readAgg(b).dump()
		into.Merge(b)
		if got := readAgg(b).dump(); got != bDump {
			mc.Fail("merging modified its argument:%s", diff(got, bDump))
		}
		got, bm := readAgg(into), readAgg(b)
		if got.Events["x"] != was.Events["x"]+bm.Events["x"] || got.Errs["x"] != was.Errs["x"]+bm.Errs["x"] {
			mc.Fail("merging %s: events %d errors %d", doc, got.Events["x"], got.Errs["x"])
		}
		if v, ok := bm.Gauges["x"]; ok && got.Gauges["x"] != v {
			mc.Fail("merging %s: gauge %v", doc, got.Gauges["x"])
		}
		for k, j := range bm.Jobs {
			w := was.Jobs[k]
			g := got.Jobs[k]
			if g == nil {
				mc.Fail("merging %s: job %q is missing", doc, k)
			}
			if w == nil {
				w = &jobM{mapsM: newMapsM()}
			}
			for i := range g.Counts {
				if g.Counts[i] != w.Counts[i]+j.Counts[i] {
					mc.Fail("merging %s: completion counters %v", doc, g.Counts)
				}
			}
		}
		d := readAgg(into).dump()
		into.Merge(mk())
		scramble(into)
		if got := readAgg(b).dump(); got != bDump {
			mc.Fail("changing the result changed the argument:%s", diff(got, bDump))
		}
		c := mk()
		c.Merge(b)
		scramble(b)
		if got := readAgg(c).dump(); got != d {
			mc.Fail("changing the argument changed the result:%s", diff(got, d))
		}
	}})
	add(&Scn{Prop: "C11", Name: "triples", Doc: "three aggregations of one emission each merged in sequence into an empty one, and tree-wise", Cfg: seqCfg, Shards: 2, Body: func() {
		al := mergeAlphabet()
		var all []op
		into := health.NewIntervalAggregation(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))
		tree := make([]*health.IntervalAggregation, 3)
		for i := 0; i < 3; i++ {
			o := al[mc.Choose(len(al))]
			all = append(all, o)
			x := buildAgg([]op{o}, i == 1)
			d := readAgg(x).dump()
			into.Merge(x)
			if readAgg(x).dump() != d {
				mc.Fail("merging modified its argument")
			}
			checkMerged(into, all, "merge into an empty one")
			tree[i] = x
		}
		if into.SerialNumber != 3 {
			mc.Fail("serial is %d after three merges into a fresh aggregation", into.SerialNumber)
		}
		tree[1].Merge(tree[2])
		tree[0].Merge(tree[1])
		checkMerged(tree[0], all, "tree merge")
	}})
	add(&Scn{Prop: "C11", Name: "not_finite", Doc: "gauges of every pair of 9 values, among them NaN, infinities and negative zero, of jobs and names there are or are not yet: the merged one's value holds, exactly, and the argument is unmodified", Cfg: seqCfg, Body: func() {
		vals := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1.5, -2, math.MaxFloat64, math.SmallestNonzeroFloat64}
		na := []op{ga("a", "x", vals[mc.Choose(len(vals))])}
		nb := []op{ga([]string{"a", "b"}[mc.Choose(2)], []string{"x", "y"}[mc.Choose(2)], vals[mc.Choose(len(vals))])}
		if mc.Choose(2) == 1 {
			na, nb = append(na, ev("a", "x"), ti("a", "x", 3)), append(nb, ev("a", "x"), ti("a", "x", -4))
		}
		a, b := buildAgg(na, false), buildAgg(nb, false)
		bDump := readAgg(b).dump()
		a.Merge(b)
		checkMerged(a, append(append([]op{}, na...), nb...), "merge")
		if readAgg(b).dump() != bDump {
			mc.Fail("merging modified its argument")
		}
		c := a.Clone()
		c.Merge(a)
		if readAgg(c).content() != readAgg(func() *health.IntervalAggregation { x := a.Clone(); x.Merge(a.Clone()); return x }()).content() {
			mc.Fail("merging a clone gives something else")
		}
	}})
	add(&Scn{Prop: "C11", Name: "copies", Doc: "2 to 4 equal aggregations of 1 to 200 emissions (as of processes that do the same), the first one itself or an empty one taking up the others, also as decoded ones: nothing is taken for known", Cfg: burst, Body: func() {
		al := mergeAlphabet()
		k, n, own, js := 1+mc.Choose(3), []int{1, 2, 3, 5, 8, 18, 40, 200}[mc.Choose(8)], mc.Choose(2) == 1, mc.Choose(2) == 1
		var ops, all []op
		for i := 0; i < n; i++ {
			o := al[(i*7+i/18)%len(al)]
			if o.K != kComplete {
				o.Event = fmt.Sprint(o.Event, i/18%6)
			}
			ops = append(ops, o)
		}
		into := health.NewIntervalAggregation(time.Time{})
		if own {
			into = buildAgg(ops, js)
			all = append(all, ops...)
		}
		for i := 0; i < k; i++ {
			into.Merge(buildAgg(ops, js))
			all = append(all, ops...)
			checkMerged(into, all, fmt.Sprint("copy ", i))
		}
	}})
	add(&Scn{Prop: "C11", Name: "random_large", Doc: "a chain of 60 aggregations of 40 emissions each", Cfg: burst, Body: func() {
		al := mergeAlphabet()
		var all []op
		into := health.NewIntervalAggregation(time.Time{})
		for i := 0; i < 60; i++ {
			var ops []op
			for k := 0; k < 40; k++ {
				o := al[(i*31+k*17+i*k)%len(al)]
				o.Job = fmt.Sprint(o.Job, (i+k)%7)
				if o.K != kComplete {
					o.Event = fmt.Sprint(o.Event, (i*k)%5)
				}
				o.Nanos *= int64(k + 1)
				ops = append(ops, o)
			}
			all = append(all, ops...)
			into.Merge(buildAgg(ops, i%3 == 0))
			checkMerged(into, all, "chain")
		}
	}})
	add(&Scn{Prop: "C11", Name: "map_orders", Doc: "merging maps with several entries under every map iteration order", Cfg: mc.Cfg{NoPreempt: true, MapOrder: true, Bound: 99}, Body: func() {
		na := []op{ev("a", "x"), ti("a", "x", 3), co("b", health.Error, 1)}
		nb := []op{ev("a", "x"), ev("b", "y"), co("a", health.Success, 2)}
		a, b := buildAgg(na, false), buildAgg(nb, false)
		a.Merge(b)
		checkMerged(a, append(append([]op{}, na...), nb...), "merge")
	}})

	// ------------------------------------------------------------- C12
	add(&Scn{Prop: "C12", Name: "intervals", Doc: "clones of aggregations of up to 3 emissions over 18: equal dump, JSON and further behaviour (merging the same into both); then all of one is changed by writes and merges and the other must not notice", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: func() {
		ops := pickOps(mergeAlphabet(), depth(3, 4))
		a := buildAgg(ops, len(ops) == 2)
		cloneChecks(a)
	}})
	add(&Scn{Prop: "C12", Name: "decoded", Doc: "clones of decoded aggregations with counters of zero, extreme values, jobs without entries", Cfg: seqCfg, Body: func() {
		a, _ := decodedAgg(docTimers, docErrs, docInts, docSerials)
		cloneChecks(a)
		a, _ = decodedAgg(docTimers[:1], docErrs[:1], docInts[:1], docSerials[:1])
		for _, j := range a.Jobs {
			d := readAgg(a).dump()
			c := j.Clone()
			if c == j || jsonOf(c) != jsonOf(j) {
				mc.Fail("clone of a job: %s, want %s", jsonOf(c), jsonOf(j))
			}
			scrambleJob(c)
			if readAgg(a).dump() != d {
				mc.Fail("changing the clone of a job changed the original")
			}
		}
	}})
	add(&Scn{Prop: "C12", Name: "parts", Doc: "clones of job, timer and error-counter aggregations of up to 3 emissions, changed in all fields", Cfg: seqCfg, Shards: 2, Body: func() {
		ops := pickOps(mergeAlphabet(), 3)
		a := buildAgg(ops, false)
		d := readAgg(a).dump()
		for k, jb := range a.Jobs {
			c := jb.Clone()
			if c == jb || jsonOf(c) != jsonOf(jb) {
				mc.Fail("clone of job %q differs: %s vs %s", k, jsonOf(c), jsonOf(jb))
			}
			wrap := health.NewIntervalAggregation(a.IntervalStart)
			wrap.Jobs[k] = c
			w2 := health.NewIntervalAggregation(a.IntervalStart)
			w2.Jobs[k] = jb
			if readAgg(wrap).dump() != readAgg(w2).dump() {
				mc.Fail("clone of job %q differs:%s", k, diff(readAgg(wrap).dump(), readAgg(w2).dump()))
			}
			scrambleJob(c)
			if readAgg(a).dump() != d {
				mc.Fail("changing the clone of job %q changed the original", k)
			}
			c2 := jb.Clone()
			cd := jsonOf(c2)
			orig := a.Clone()
			scrambleJob(jb)
			if jsonOf(c2) != cd {
				mc.Fail("changing job %q changed its clone", k)
			}
			a = orig
		}
		a = buildAgg(ops, false)
		for k, t := range a.Timers {
			c := t.Clone()
			if c == t || *c != *t {
				mc.Fail("clone of timer %q: %v vs %v", k, *c, *t)
			}
			scrambleTimer(c)
			if readAgg(a).dump() != d {
				mc.Fail("changing the clone of timer %q changed the original", k)
			}
		}
		for k, e := range a.EventErrs {
			c := e.Clone()
			if c == e || c.Count != e.Count || jsonOf(c) != jsonOf(e) {
				mc.Fail("clone of error counter %q: %v vs %v", k, jsonOf(c), jsonOf(e))
			}
			c.Count += 9
			if readAgg(a).dump() != d {
				mc.Fail("changing the clone of error counter %q changed the original", k)
			}
		}
	}})
	add(&Scn{Prop: "C12", Name: "names", Doc: "awkward names in every map", Cfg: seqCfg, Body: func() {
		j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
		a := buildAgg([]op{ev(j, e), er(j, e), ti(j, e, 3), ga(j, e, 4), co(j, health.Error, 9), co(e, health.Panic, 2), er("k", e), er("k", "x")}, false)
		c := a.Clone()
		if readAgg(c).dump() != readAgg(a).dump() || jsonOf(a) != jsonOf(c) {
			mc.Fail("clone differs:%s", diff(readAgg(c).dump(), readAgg(a).dump()))
		}
		d := readAgg(a).dump()
		scramble(c)
		if readAgg(a).dump() != d {
			mc.Fail("changing the clone changed the original")
		}
	}})
	add(&Scn{Prop: "C12", Name: "large", Doc: "an aggregation of up to 4000 emissions over many names, from a snapshot or merged together from small ones", Cfg: burst, Body: func() {
		al := mergeAlphabet()
		var ops []op
		merged := mc.Choose(2) == 1
		for k, n := 0, []int{4000, 40, 100, 400}[mc.Choose(4)]; k < n; k++ {
			o := al[k%len(al)]
			o.Job = fmt.Sprint(o.Job, k%70)
			if o.K != kComplete {
				o.Event = fmt.Sprint(o.Event, k%131)
			}
			ops = append(ops, o)
		}
		var a *health.IntervalAggregation
		if merged {
			a = health.NewIntervalAggregation(time.Time{})
			for i := range ops {
				ops[i].Nanos += int64(i)
				a.Merge(buildAgg(ops[i:i+1], false))
			}
		} else {
			a = buildAgg(ops, false)
		}
		d := readAgg(a).dump()
		c := a.Clone()
		if readAgg(c).dump() != d || jsonOf(a) != jsonOf(c) {
			mc.Fail("clone differs:%s", diff(readAgg(c).dump(), d))
		}
		scramble(c)
		if readAgg(a).dump() != d {
			mc.Fail("changing the clone changed the original")
		}
	}})
}
