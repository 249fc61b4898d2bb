package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

// seqCfg: one logical thread; only the harness's own choices branch.
var seqCfg = mc.Cfg{NoPreempt: true, Horizon: 10000 * time.Hour}

// conc: every deviation from the default schedule (a preemption, another
// goroutine when the running one blocks, another ready select case) costs 1.
func conc(bound int) mc.Cfg { return mc.Cfg{Bound: bound, FreeCost: 1, CaseCost: 1} }

// concFree: only preemptions cost; blocking switches and select cases are free.
func concFree(bound int) mc.Cfg { return mc.Cfg{Bound: bound} }

// clocked: like conc, and timers may fire while goroutines could still run.
func clocked(bound int) mc.Cfg { return mc.Cfg{Bound: bound, FreeCost: 1, CaseCost: 1, Clock: true} }

func clockedP(bound int) *mc.Cfg { c := clocked(bound); return &c }

// burst: the default schedule only (long runs).
var burst = mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, MaxSteps: 1 << 23, Horizon: 10000 * time.Hour}

func concP(bound int) *mc.Cfg { c := conc(bound); return &c }

// ------------------------------------------------------------- emissions

type kind int

const (
	kEvent kind = iota
	kErr
	kTiming
	kGauge
	kComplete
)

var kindNames = []string{"event", "err", "timing", "gauge", "complete"}

// op is one emission.
type op struct {
	K      kind
	Job    string
	Event  string
	Nanos  int64
	Value  float64
	Status health.CompletionStatus
	Err    error
	Kvs    map[string]string
}

func (o op) String() string {
	switch o.K {
	case kEvent:
		return fmt.Sprintf("event(%q,%q)", o.Job, o.Event)
	case kErr:
		return fmt.Sprintf("err(%q,%q,%v)", o.Job, o.Event, o.Err)
	case kTiming:
		return fmt.Sprintf("timing(%q,%q,%d)", o.Job, o.Event, o.Nanos)
	case kGauge:
		return fmt.Sprintf("gauge(%q,%q,%v)", o.Job, o.Event, o.Value)
	}
	return fmt.Sprintf("complete(%q,%d,%d)", o.Job, o.Status, o.Nanos)
}

func ev(job, event string) op            { return op{K: kEvent, Job: job, Event: event} }
func er(job, event string) op            { return op{K: kErr, Job: job, Event: event, Err: errBoom} }
func ti(job, event string, n int64) op   { return op{K: kTiming, Job: job, Event: event, Nanos: n} }
func ga(job, event string, v float64) op { return op{K: kGauge, Job: job, Event: event, Value: v} }
func co(job string, s health.CompletionStatus, n int64) op {
	return op{K: kComplete, Job: job, Status: s, Nanos: n}
}

var errBoom = errors.New("boom")

// emit sends an emission to a sink directly.
func (o op) emit(s health.Sink) {
	switch o.K {
	case kEvent:
		s.EmitEvent(o.Job, o.Event, o.Kvs)
	case kErr:
		s.EmitEventErr(o.Job, o.Event, o.Err, o.Kvs)
	case kTiming:
		s.EmitTiming(o.Job, o.Event, o.Nanos, o.Kvs)
	case kGauge:
		s.EmitGauge(o.Job, o.Event, o.Value, o.Kvs)
	case kComplete:
		s.EmitComplete(o.Job, o.Status, o.Nanos, o.Kvs)
	}
}

var statuses = []health.CompletionStatus{health.Success, health.ValidationError, health.Panic, health.Error, health.Junk}
var statusNames = []string{"success", "validation_error", "panic", "error", "junk"}

// ------------------------------------------------------------- recording sink

// rec is one call a sink received.
type rec struct {
	K      kind
	Job    string
	Event  string
	Nanos  int64
	Value  float64
	Status health.CompletionStatus
	Err    error
	Kvs    map[string]string
	Flag   bool // error: marked emitted on arrival
	Sink   int
}

func copyKvs(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

type recSink struct {
	id   int
	got  []rec
	all  *[]rec // shared log over all sinks
	mu   *mc.Mutex
	hook func(rec)
}

func (s *recSink) put(r rec) {
	r.Sink = s.id
	if s.mu != nil {
		s.mu.Lock()
		defer s.mu.Unlock()
	}
	r.Kvs = copyKvs(r.Kvs)
	if u, ok := r.Err.(*health.UnmutedError); ok {
		r.Flag = u.Emitted
	}
	s.got = append(s.got, r)
	if s.all != nil {
		*s.all = append(*s.all, r)
	}
	if s.hook != nil {
		s.hook(r)
	}
}

func (s *recSink) EmitEvent(job string, event string, kvs map[string]string) {
	s.put(rec{K: kEvent, Job: job, Event: event, Kvs: kvs})
}
func (s *recSink) EmitEventErr(job string, event string, err error, kvs map[string]string) {
	s.put(rec{K: kErr, Job: job, Event: event, Err: err, Kvs: kvs})
}
func (s *recSink) EmitTiming(job string, event string, n int64, kvs map[string]string) {
	s.put(rec{K: kTiming, Job: job, Event: event, Nanos: n, Kvs: kvs})
}
func (s *recSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	s.put(rec{K: kComplete, Job: job, Status: st, Nanos: n, Kvs: kvs})
}
func (s *recSink) EmitGauge(job string, event string, v float64, kvs map[string]string) {
	s.put(rec{K: kGauge, Job: job, Event: event, Value: v, Kvs: kvs})
}

func kvString(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteByte('{')
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q ", k, m[k])
	}
	b.WriteByte('}')
	return b.String()
}

func (r rec) String() string {
	switch r.K {
	case kEvent:
		return fmt.Sprintf("event job=%q event=%q kvs=%s", r.Job, r.Event, kvString(r.Kvs))
	case kErr:
		m := "<nil>"
		if r.Err != nil {
			m = r.Err.Error()
		}
		return fmt.Sprintf("err job=%q event=%q msg=%q kvs=%s", r.Job, r.Event, m, kvString(r.Kvs))
	case kTiming:
		return fmt.Sprintf("timing job=%q event=%q nanos=%d kvs=%s", r.Job, r.Event, r.Nanos, kvString(r.Kvs))
	case kGauge:
		return fmt.Sprintf("gauge job=%q event=%q value=%s kvs=%s", r.Job, r.Event, fl(r.Value), kvString(r.Kvs))
	}
	return fmt.Sprintf("complete job=%q status=%d nanos=%d kvs=%s", r.Job, int(r.Status), r.Nanos, kvString(r.Kvs))
}

func fl(v float64) string {
	return strconv.FormatFloat(v, 'g', -1, 64) + "/" + strconv.FormatUint(math.Float64bits(v), 16)
}

// ------------------------------------------------------------- reference aggregation

type timerM struct {
	Count, Sum int64
	Sq         float64
	Min, Max   int64
}

func (t *timerM) add(n int64) {
	t.Count++
	t.Sum += n
	t.Sq += float64(n) * float64(n)
	if t.Count == 1 || n < t.Min {
		t.Min = n
	}
	if t.Count == 1 || n > t.Max {
		t.Max = n
	}
}

type mapsM struct {
	Events map[string]int64
	Errs   map[string]int64
	Gauges map[string]float64
	Timers map[string]timerM
}

func newMapsM() mapsM {
	return mapsM{map[string]int64{}, map[string]int64{}, map[string]float64{}, map[string]timerM{}}
}

type jobM struct {
	mapsM
	T      timerM
	Counts [5]int64
}

// aggM is the reference model of one interval's aggregation.
type aggM struct {
	Start  time.Time
	Serial int64
	mapsM
	Jobs map[string]*jobM
}

func newAggM(start time.Time) *aggM {
	return &aggM{Start: start, mapsM: newMapsM(), Jobs: map[string]*jobM{}}
}

func (m *mapsM) apply(o op) {
	switch o.K {
	case kEvent:
		m.Events[o.Event]++
	case kErr:
		m.Errs[o.Event]++
	case kTiming:
		t := m.Timers[o.Event]
		t.add(o.Nanos)
		m.Timers[o.Event] = t
	case kGauge:
		m.Gauges[o.Event] = o.Value
	}
}

func (a *aggM) apply(o op) {
	j := a.Jobs[o.Job]
	if j == nil {
		j = &jobM{mapsM: newMapsM()}
		a.Jobs[o.Job] = j
	}
	if o.K == kComplete {
		j.T.add(o.Nanos)
		if o.Status >= 0 && int(o.Status) < 5 {
			j.Counts[o.Status]++
		}
	} else {
		a.mapsM.apply(o)
		j.mapsM.apply(o)
	}
	a.Serial++
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (m *mapsM) dump(b *strings.Builder, ind string) {
	for _, k := range sortedKeys(m.Events) {
		b.WriteString(ind + "events[" + strconv.Quote(k) + "]=" + strconv.FormatInt(m.Events[k], 10) + "\n")
	}
	for _, k := range sortedKeys(m.Errs) {
		b.WriteString(ind + "errs[" + strconv.Quote(k) + "]=" + strconv.FormatInt(m.Errs[k], 10) + "\n")
	}
	for _, k := range sortedKeys(m.Gauges) {
		b.WriteString(ind + "gauges[" + strconv.Quote(k) + "]=" + fl(m.Gauges[k]) + "\n")
	}
	for _, k := range sortedKeys(m.Timers) {
		t := m.Timers[k]
		b.WriteString(ind + "timers[" + strconv.Quote(k) + "]=")
		t.dump(b)
	}
}

func (t *timerM) dump(b *strings.Builder) {
	b.WriteString("n=" + strconv.FormatInt(t.Count, 10) + " sum=" + strconv.FormatInt(t.Sum, 10) + " sq=" + fl(t.Sq) +
		" min=" + strconv.FormatInt(t.Min, 10) + " max=" + strconv.FormatInt(t.Max, 10) + "\n")
}

// content is everything but start and serial.
func (a *aggM) content() string {
	var b strings.Builder
	a.mapsM.dump(&b, "")
	for _, k := range sortedKeys(a.Jobs) {
		j := a.Jobs[k]
		b.WriteString("job " + strconv.Quote(k) + " counts=" + fmt.Sprint(j.Counts) + " ")
		j.T.dump(&b)
		j.mapsM.dump(&b, "  ")
	}
	return b.String()
}

func (a *aggM) dump() string {
	return "start=" + a.Start.UTC().Format(time.RFC3339Nano) + " serial=" + strconv.FormatInt(a.Serial, 10) + "\n" + a.content()
}

// ------------------------------------------------------------- reading the real thing

func readTimer(t *health.TimerAggregation) timerM {
	return timerM{t.Count, t.NanosSum, t.NanosSumSquares, t.NanosMin, t.NanosMax}
}

// readAgg converts what the library shows into the model's terms.
func readAgg(ia *health.IntervalAggregation) *aggM {
	if ia == nil {
		mc.Fail("nil interval aggregation")
	}
	a := newAggM(ia.IntervalStart)
	a.Serial = ia.SerialNumber
	for k, v := range ia.Events {
		a.Events[k] = v
	}
	for k, v := range ia.EventErrs {
		a.Errs[k] = v.Count
	}
	for k, v := range ia.Gauges {
		a.Gauges[k] = v
	}
	for k, v := range ia.Timers {
		a.Timers[k] = readTimer(v)
	}
	for k, j := range ia.Jobs {
		x := &jobM{mapsM: newMapsM()}
		for n, v := range j.Events {
			x.Events[n] = v
		}
		for n, v := range j.EventErrs {
			x.Errs[n] = v.Count
		}
		for n, v := range j.Gauges {
			x.Gauges[n] = v
		}
		for n, v := range j.Timers {
			x.Timers[n] = readTimer(v)
		}
		x.T = readTimer(&j.TimerAggregation)
		x.Counts = [5]int64{j.CountSuccess, j.CountValidationError, j.CountPanic, j.CountError, j.CountJunk}
		a.Jobs[k] = x
	}
	return a
}

func dumpAll(l []*health.IntervalAggregation) string {
	var b strings.Builder
	for _, x := range l {
		b.WriteString(readAgg(x).dump())
		b.WriteByte('\n')
	}
	return b.String()
}

func contents(l []*health.IntervalAggregation) string {
	var b strings.Builder
	for _, x := range l {
		b.WriteString(readAgg(x).content())
	}
	return b.String()
}

// diff shows two dumps compactly.
func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	var b strings.Builder
	seen := map[string]int{}
	for _, l := range w {
		seen[l]++
	}
	for _, l := range g {
		if seen[l] > 0 {
			seen[l]--
		} else {
			b.WriteString("\n  got:  " + l)
		}
	}
	for _, l := range w {
		if seen[l] > 0 {
			seen[l]--
			b.WriteString("\n  want: " + l)
		}
	}
	s := b.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// ------------------------------------------------------------- names and values

// awkward names: everything valid UTF-8 that has ever broken a formatter or encoder.
var awkward = []string{"plain", "", " ", "%", "%d", "%s%s", "100%!", "%!(EXTRA", "%%", `"`, `\`, `a"b\c`, "\n", "\t", "\x00", "\x7f", "<b>&'", "\u2028\u2029", "é", "日本語", "\U0001F600", "a.b/c:d|e@f#g", "key=val,x", "null", "{}", "[]", "A_Z-0.9", strings.Repeat("n", 300)}

var int64s = []int64{math.MinInt64, -1000000, -1, 0, 1, 2, 999, 1000, 2000, 2001, 1999999, 2000000, 2000001, 9999999, 10000000, 10000001, 3000000000, math.MaxInt64}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 0.099999, -0.099999, 0.1000001, 1e-9, 0.005, 1.005, 2.5, 123456.789, 1e21, -1e21, 1.7976931348623157e308, 5e-324, 1e20, 0.1 + 0.2}

func join(a []string) string { return strings.Join(a, " ") }

// par runs the functions in goroutines and waits for them.
func par(fs ...func()) {
	var wg mc.WaitGroup
	wg.Add(len(fs))
	for i, f := range fs {
		mc.GoNamed("worker"+strconv.Itoa(i), func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}

// sinkFuncs is a sink made of what it is to do about errors and gauges.
type sinkFuncs struct {
	err   func(error)
	gauge func(string)
}

func (s *sinkFuncs) EmitEvent(job, event string, kvs map[string]string) {}
func (s *sinkFuncs) EmitEventErr(job, event string, err error, kvs map[string]string) {
	if s.err != nil {
		s.err(err)
	}
}
func (s *sinkFuncs) EmitTiming(job, event string, nanos int64, kvs map[string]string) {}
func (s *sinkFuncs) EmitGauge(job, event string, value float64, kvs map[string]string) {
	if s.gauge != nil {
		s.gauge(event)
	}
}
func (s *sinkFuncs) EmitComplete(job string, status health.CompletionStatus, nanos int64, kvs map[string]string) {
}
