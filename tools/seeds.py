SEEDS = []
def s(id, property, edits, demo, needs, what, dir="", flags=""):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what, dir=dir, flags=flags))

SINK = '''
type zzCall struct {
	kind, job, event string
	nanos            int64
	value            float64
	status           CompletionStatus
	err              error
	kvs              map[string]string
}
type zzSink struct{ calls []zzCall }

func zzCopy(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}
func (z *zzSink) EmitEvent(j, e string, kvs map[string]string) {
	z.calls = append(z.calls, zzCall{kind: "event", job: j, event: e, kvs: zzCopy(kvs)})
}
func (z *zzSink) EmitEventErr(j, e string, err error, kvs map[string]string) {
	z.calls = append(z.calls, zzCall{kind: "err", job: j, event: e, err: err, kvs: zzCopy(kvs)})
}
func (z *zzSink) EmitTiming(j, e string, n int64, kvs map[string]string) {
	z.calls = append(z.calls, zzCall{kind: "timing", job: j, event: e, nanos: n, kvs: zzCopy(kvs)})
}
func (z *zzSink) EmitComplete(j string, st CompletionStatus, n int64, kvs map[string]string) {
	z.calls = append(z.calls, zzCall{kind: "complete", job: j, status: st, nanos: n, kvs: zzCopy(kvs)})
}
func (z *zzSink) EmitGauge(j, e string, v float64, kvs map[string]string) {
	z.calls = append(z.calls, zzCall{kind: "gauge", job: j, event: e, value: v, kvs: zzCopy(kvs)})
}
'''

s("c01-general-job", "C01",
  [("health.go", '''func (s *Stream) NewJob(name string) *Job {
	return &Job{''', '''func (s *Stream) NewJob(name string) *Job {
	if s.Job != nil && s.Job.JobName == name {
		// the stream already has a job of that name
		return s.Job
	}
	return &Job{''')],
  '''package health

import (
	"testing"
	"time"
)
''' + SINK + '''
func TestZZDemo(t *testing.T) {
	st := NewStream()
	z := &zzSink{}
	st.AddSink(z)
	time.Sleep(300 * time.Millisecond)
	st.NewJob("general").Complete(Success)
	if n := z.calls[0].nanos; n > 200e6 {
		t.Fatalf("a job completed at once took %d ns", n)
	}
}
''', "a job that happens to be named like the stream's own (\"general\"), some time after the stream was made",
  "the completion time of such a job is counted from the creation of the stream, and key-values set on it leak into the stream's emissions")

s("c02-merge-order", "C02",
  [("health.go", '''		allKvs = make(map[string]string)
		for k, v := range j.Stream.KeyValues {
			allKvs[k] = v
		}
		for k, v := range j.KeyValues {
			allKvs[k] = v
		}
''', '''		allKvs = make(map[string]string, len(j.KeyValues)+len(j.Stream.KeyValues)+len(instanceKvs))
		for k, v := range j.KeyValues {
			allKvs[k] = v
		}
		for k, v := range j.Stream.KeyValues {
			if _, ok := allKvs[k]; !ok || v != "" && allKvs[k] == "" {
				allKvs[k] = v
			}
		}
''')],
  '''package health

import "testing"
''' + SINK + '''
func TestZZDemo(t *testing.T) {
	st := NewStream()
	z := &zzSink{}
	st.AddSink(z)
	st.KeyValue("user", "root")
	j := st.NewJob("j")
	j.KeyValue("user", "")
	j.Event("e")
	if v := z.calls[0].kvs["user"]; v != "" {
		t.Fatalf("the job's value was overridden by the stream's: %q", v)
	}
}
''', "a job that sets a key to the empty string which the stream has set to something else", "the stream's value wins over the job's")

s("c03-unwrap", "C03",
  [("error.go", '''	default:
		return &UnmutedError{Err: err, Stack: stack.NewTrace(2)}
''', '''	default:
		if w, ok := err.(interface{ Unwrap() error }); ok {
			// keep the original trace of an error that was reported before
			if u, ok := w.Unwrap().(*UnmutedError); ok && u.Stack != nil {
				return &UnmutedError{Err: err, Stack: u.Stack, Emitted: u.Emitted}
			}
		}
		return &UnmutedError{Err: err, Stack: stack.NewTrace(2)}
''')],
  '''package health

import (
	"errors"
	"fmt"
	"testing"
)
''' + SINK + '''
func TestZZDemo(t *testing.T) {
	st := NewStream()
	z := &zzSink{}
	st.AddSink(z)
	e1 := st.EventErr("a", errors.New("inner"))
	n := len(z.calls)
	emitted := false
	st.AddSink(sinkFunc(func(err error) { emitted = err.(*UnmutedError).Emitted }))
	st.EventErr("b", fmt.Errorf("outer: %w", e1))
	if len(z.calls) != n+1 {
		t.Fatal("no call")
	}
	if emitted {
		t.Fatal("a new error arrived at the sinks marked as already emitted")
	}
}

type sinkFunc func(err error)

func (sinkFunc) EmitEvent(string, string, map[string]string)                           {}
func (f sinkFunc) EmitEventErr(_, _ string, err error, _ map[string]string)            { f(err) }
func (sinkFunc) EmitTiming(string, string, int64, map[string]string)                   {}
func (sinkFunc) EmitComplete(string, CompletionStatus, int64, map[string]string)       {}
func (sinkFunc) EmitGauge(string, string, float64, map[string]string)                  {}
''', "reporting an error, wrapping what was returned with %w and reporting that", "the new error reaches the sinks marked as emitted (so Bugsnag never sees it) and with another place's trace")

s("c04-panic-error", "C04",
  [("health.go", '''			err = errors.New(fmt.Sprint(r))
''', '''			if e, ok := r.(error); ok {
				err = e
			} else {
				err = errors.New(fmt.Sprint(r))
			}
''')],
  '''package health

import (
	"bytes"
	"testing"
)

type zzErr struct{ msg string }

func (e *zzErr) Error() string { return e.msg }

func TestZZDemo(t *testing.T) {
	st := NewStream()
	var b bytes.Buffer
	st.AddSink(&WriterSink{&b})
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("Run let a panic through: %v", r)
		}
	}()
	st.Run("j", func() error {
		var e *zzErr
		panic(e)
	})
}
''', "a panic whose value is an error that cannot be printed (a nil pointer of an error type)", "the panic escapes from Run and no completion is reported")

s("c05-drop-when-full", "C05",
  [("json_polling_sink.go", '''	s.cmdChan <- &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
''', '''	cmd := &emitCmd{Kind: cmdKindTiming, Job: job, Event: event, Nanos: nanos}
	select {
	case s.cmdChan <- cmd:
	case <-time.After(250 * time.Microsecond):
		// never hold up the caller for long
	}
''')],
  '''package health

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewJsonPollingSink(time.Hour, time.Hour)
	// keep the aggregating goroutine busy: it cannot hand over a snapshot nobody takes
	hold := make(chan []*IntervalAggregation)
	s.intervalsChanChan <- hold
	var wg sync.WaitGroup
	n := cap(s.cmdChan) + 100
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			s.EmitTiming("j", "e", 1, nil)
		}
	}()
	time.Sleep(300 * time.Millisecond)
	<-hold
	wg.Wait()
	time.Sleep(200 * time.Millisecond)
	m := s.GetMetrics()
	if c := m[len(m)-1].Timers["e"].Count; c != int64(n) {
		t.Fatalf("%d of %d timings counted", c, n)
	}
}
''', "a full queue while the aggregating goroutine is held up for longer than a moment", "timings are silently dropped")

s("c06-min-zero", "C06",
  [("interval_aggregation.go", "	if a.Count == 1 || nanos < a.NanosMin {", "	if a.NanosMin == 0 || nanos < a.NanosMin {")],
  '''package health

import "testing"

func TestZZDemo(t *testing.T) {
	a := newAggregator(60e9, 300e9)
	a.EmitTiming("j", "e", 0)
	a.EmitTiming("j", "e", 5)
	if tm := a.getIntervalAggregation().Timers["e"]; tm.NanosMin != 0 || tm.NanosMax != 5 {
		t.Fatalf("min %d max %d, want 0 and 5", tm.NanosMin, tm.NanosMax)
	}
}
''', "a timing of exactly zero followed by longer ones", "the minimum forgets the zero")

s("c07-window-gap", "C07",
  [("aggregator.go", '''	if n == a.maxIntervals {
		for i := 1; i < n; i++ {''', '''	if n > 1 && interval.Sub(a.intervalAggregations[n-1].IntervalStart) > a.retain {
		// nothing we hold is recent any more
		a.intervalAggregations = append(a.intervalAggregations[:0], current)
	} else if n == a.maxIntervals {
		for i := 1; i < n; i++ {''')],
  '''package health

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	defer resetNowMock()
	a := newAggregator(time.Minute, 5*time.Minute)
	setNowMock("2011-09-09T23:36:13Z")
	a.EmitEvent("j", "old")
	setNowMock("2011-09-09T23:37:13Z")
	a.EmitEvent("j", "old2")
	setNowMock("2011-09-09T23:50:13Z")
	a.EmitEvent("j", "new")
	if l := a.memorySafeIntervals(); len(l) != 3 || l[0].Events["old"] != 1 {
		t.Fatalf("%d intervals, want 3: completed intervals vanished though there was room", len(l))
	}
}
''', "at least two intervals, then a pause longer than the retention time (e.g. a suspended machine)", "completed intervals are dropped although there is room for them")

s("c08-job-timers", "C08",
  [("interval_aggregation_clone.go", '''	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	dup.TimerAggregation = ja.TimerAggregation
''', '''	dup.aggregationMaps = *ja.aggregationMaps.Clone()
	if len(ja.EventErrs) > 0 && len(ja.Timers) == 0 && len(ja.Events) == 0 {
		// a job that only failed: its counters need no copy of their own
		dup.EventErrs = ja.EventErrs
	}
	dup.TimerAggregation = ja.TimerAggregation
''')],
  '''package health

import (
	"errors"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewJsonPollingSink(time.Hour, time.Hour)
	s.EmitEventErr("j", "e", errors.New("x"), nil)
	time.Sleep(20 * time.Millisecond)
	m := s.GetMetrics()
	s.EmitEventErr("j", "e", errors.New("x"), nil)
	time.Sleep(20 * time.Millisecond)
	if c := m[0].Jobs["j"].EventErrs["e"].Count; c != 1 {
		t.Fatalf("the snapshot changed after it was taken: %d", c)
	}
}
''', "a job that has error events but no events or timings, a snapshot, then another error", "the snapshot's per-job error counter moves on")

s("c09-serial-gauge", "C09",
  [("aggregator.go", '''	intAgg.Gauges[event] = value
	jobAgg := intAgg.getJobAggregation(job)
	jobAgg.Gauges[event] = value
	intAgg.SerialNumber++
''', '''	old, known := intAgg.Gauges[event]
	intAgg.Gauges[event] = value
	jobAgg := intAgg.getJobAggregation(job)
	jobAgg.Gauges[event] = value
	if !known || old != value {
		intAgg.SerialNumber++
	}
''')],
  '''package health

import "testing"

func TestZZDemo(t *testing.T) {
	a := newAggregator(60e9, 300e9)
	a.EmitGauge("j1", "g", 1)
	x := a.memorySafeIntervals()[0]
	a.EmitGauge("j2", "g", 1)
	y := a.memorySafeIntervals()[0]
	if x.SerialNumber == y.SerialNumber {
		t.Fatalf("content changed (%d, %d jobs) under the same serial number", len(x.Jobs), len(y.Jobs))
	}
}
''', "the same gauge value emitted again by another job in the same interval", "content changes under an unchanged serial number, so healthd ignores it")

s("c11-merge-alias", "C11",
  [("interval_aggregation_merge.go", '''			existingErrCounter.Count += v.Count
''', '''			if existingErrCounter.Count == 0 || v.Count == 0 {
				continue
			}
			existingErrCounter.Count += v.Count
'''), ("interval_aggregation_merge.go", '''			intoAm.Timers[k] = v.Clone()
		}
	}

	for k, v := range fromAm.EventErrs {''', '''			if v.Count == 1 {
				intoAm.Timers[k] = v
				continue
			}
			intoAm.Timers[k] = v.Clone()
		}
	}

	for k, v := range fromAm.EventErrs {''')],
  '''package health

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	mk := func() *IntervalAggregation {
		a := newAggregator(60e9, 300e9)
		a.EmitTiming("j", "e", 7)
		return a.getIntervalAggregation()
	}
	sum := NewIntervalAggregation(time.Now())
	x, y := mk(), mk()
	sum.Merge(x)
	sum.Merge(y)
	if x.Timers["e"].Count != 1 {
		t.Fatalf("the first merged-in aggregation was changed by the second merge: %+v", x.Timers["e"])
	}
}
''', "a timer with exactly one sample that is new to the result, and a later merge into the same result", "the merged-in aggregation is changed by later merges")

s("c13-key-collision", "C13",
  [("statsd_sink.go", '''	key := eventKey{job, event, suffix}
''', '''	key := eventKey{job, event, suffix}
	if job != "" && suffix == "" {
		// one buffer per full name
		key = eventKey{"", job + "." + event, suffix}
	}
''')],
  '''package health

import (
	"net"
	"strings"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s, err := NewStatsDSink(l.LocalAddr().String(), &StatsDSinkOptions{SanitizationFunc: nil, SkipTopLevelEvents: true})
	if err != nil {
		t.Fatal(err)
	}
	s.EmitEvent("a", "", nil)
	s.EmitEvent("a.", "", nil)
	s.EmitEvent("a", ".", nil)
	s.Drain()
	b := make([]byte, 2000)
	l.SetReadDeadline(time.Now().Add(5 * time.Second))
	n, err := l.Read(b)
	if err != nil {
		t.Fatal(err)
	}
	if got, want := string(b[:n]), "a:1|c\\na.:1|c\\na..:1|c\\n"; got != want {
		t.Fatalf("%s\\nwant\\n%s", strings.TrimSpace(got), want)
	}
}
''', "an empty event name (or names with dots at the seam) so that two different job/event pairs share a buffer key", "a metric is sent under another metric's name")

s("c14-write-error", "C14",
  [("statsd_sink.go", '''	if (lenb + lenUdpBuf) > maxUdpBytes {
		s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr)
		s.udpBuf.Truncate(0)
	}
''', '''	if (lenb + lenUdpBuf) > maxUdpBytes {
		if _, err := s.udpConn.WriteToUDP(s.udpBuf.Bytes(), s.udpAddr); err != nil {
			return
		}
		s.udpBuf.Truncate(0)
	}
''')],
  '''package health

import (
	"net"
	"strings"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s, err := NewStatsDSink(l.LocalAddr().String(), nil)
	if err != nil {
		t.Fatal(err)
	}
	s.Stop() // we run the rest by hand
	good := s.udpAddr
	line := func(c string) []byte { return []byte(strings.Repeat(c, 997) + ":1\\n") }
	s.udpBuf.Truncate(0)
	s.writeStatsDMetric(line("a"))
	s.udpAddr = &net.UDPAddr{IP: good.IP, Port: 0} // cannot be sent to
	s.writeStatsDMetric(line("b"))
	s.udpAddr = good
	s.writeStatsDMetric(line("c"))
	s.flush()
	var got strings.Builder
	b := make([]byte, 4000)
	for {
		l.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		n, err := l.Read(b)
		if err != nil {
			break
		}
		got.Write(b[:n])
	}
	if !strings.Contains(got.String(), "bbb") {
		t.Fatalf("the line after the failed datagram was lost")
	}
}
''', "a failing UDP write at the moment a full datagram is sent to make room", "lines that were not part of the failed datagram are lost")


s("c10-stale-body", "C10",
  [("json_polling_sink_http.go", '''		jsonData, err := json.MarshalIndent(response, "", "\\t")
		if err != nil {
			renderError(rw, err)
			return
		}
		rw.Write(jsonData)
''', '''		// encoding is expensive: do it only when something was counted since the last request
		var version int64
		for _, m := range metrics {
			version += m.SerialNumber + 1
		}
		healthBodiesMutex.Lock()
		defer healthBodiesMutex.Unlock()
		if b, ok := healthBodies[s]; ok && b.version == version {
			rw.Write(b.data)
			return
		}
		jsonData, err := json.MarshalIndent(response, "", "\\t")
		if err != nil {
			renderError(rw, err)
			return
		}
		healthBodies[s] = healthBody{version, jsonData}
		rw.Write(jsonData)
'''), ("json_polling_sink_http.go", '''func (s *JsonPollingSink) StartServer(''', '''type healthBody struct {
	version int64
	data    []byte
}

var healthBodiesMutex sync.Mutex
var healthBodies = map[*JsonPollingSink]healthBody{}

func (s *JsonPollingSink) StartServer('''), ("json_polling_sink_http.go", '''	"net/http"
	"time"
''', '''	"net/http"
	"sync"
	"time"
''')],
  '''package health

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	const d = 300 * time.Millisecond
	s := NewJsonPollingSink(d, d)
	defer s.ShutdownServer()
	get := func() time.Time {
		w := httptest.NewRecorder()
		r, _ := http.NewRequest("GET", "/health", nil)
		s.ServeHTTP(w, r)
		var resp HealthAggregationsResponse
		if err := json.Unmarshal(w.Body.Bytes(), &resp); err != nil {
			t.Fatal(err)
		}
		return resp.IntervalAggregations[len(resp.IntervalAggregations)-1].IntervalStart
	}
	first := get()
	time.Sleep(2 * d)
	m := s.GetMetrics()
	if now := m[len(m)-1].IntervalStart; get().Equal(first) || now.Equal(first) {
		t.Fatalf("/health still serves the interval of %v, the sink has %v", first, now)
	}
}
''', "a full window in which an interval is pushed out and another one comes in with equally many emissions between two requests",
  "/health keeps serving the old intervals")

s("c12-empty-timer", "C12",
  [("interval_aggregation_clone.go", '''	var dup = *ta
	return &dup
''', '''	if ta.Count == 0 {
		// nothing was measured yet
		return ta
	}
	var dup = *ta
	return &dup
''')],
  '''package health

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var a IntervalAggregation
	if err := json.Unmarshal([]byte(`{"timers":{"t":{"count":0}},"jobs":{}}`), &a); err != nil {
		t.Fatal(err)
	}
	b := a.Clone()
	b.Timers["t"].ingest(5)
	if a.Timers["t"].Count != 0 {
		t.Fatal("a timing added to the clone shows up in the original")
	}
}
''', "an aggregation holding a timer without samples (a decoded one)", "the clone shares that timer with its original")

s("c15-busy-flush", "C15",
  [("statsd_sink.go", '''LOOP:
	for cmd := range cmdChan {
''', '''	lastLen := 0
LOOP:
	for cmd := range cmdChan {
'''), ("statsd_sink.go", '''		case statsdCmdKindFlush:
			s.flush()
		default:
			s.processCmd(&cmd)
''', '''		case statsdCmdKindFlush:
			// more is coming: let the packet fill up
			if n := s.udpBuf.Len(); n != lastLen {
				lastLen = n
				continue
			}
			s.flush()
		default:
			s.processCmd(&cmd)
''')],
  '''package health

import (
	"net"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s, err := NewStatsDSink(l.LocalAddr().String(), nil)
	if err != nil {
		t.Fatal(err)
	}
	stop := make(chan int)
	done := make(chan int)
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
				s.EmitEvent("j", "e", nil)
			}
		}
	}()
	b := make([]byte, 2000)
	l.SetReadDeadline(time.Now().Add(1500 * time.Millisecond))
	_, err = l.Read(b)
	close(stop)
	<-done
	if err != nil {
		t.Fatal("nothing was sent although something is emitted all the time: ", err)
	}
}
''', "emissions in every flush period", "without a drain nothing is sent until the datagram is full")

s("c16-pair-order", "C16",
  [("writer_sink.go", '''	keys := make([]string, 0, len(kvs))
	for k := range kvs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	keysLenMinusOne := len(keys) - 1

	b.WriteString(" kvs:[")
	for i, k := range keys {
		b.WriteString(k)
		b.WriteRune(':')
		b.WriteString(kvs[k])

		if i != keysLenMinusOne {
			b.WriteRune(' ')
		}
	}
	b.WriteRune(']')
''', '''	pairs := make([]string, 0, len(kvs))
	for k, v := range kvs {
		pairs = append(pairs, k+":"+v)
	}
	sort.Strings(pairs)

	b.WriteString(" kvs:[")
	b.WriteString(strings.Join(pairs, " "))
	b.WriteRune(']')
'''), ("writer_sink.go", '''	"sort"
''', '''	"sort"
	"strings"
''')],
  '''package health

import (
	"bytes"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var b bytes.Buffer
	(&WriterSink{&b}).EmitEvent("j", "e", map[string]string{"user": "x", "user-id": "7"})
	if !strings.HasSuffix(b.String(), "kvs:[user:x user-id:7]\\n") {
		t.Fatal(b.String())
	}
}
''', "two keys one of which continues the other with a character before ':' (user, user-id)", "the key-values are no longer in ascending key order")

s("c17-shared-buffer", "C17",
  [("json_writer_sink.go", '''	}{job, event, timestamp(), nanoseconds, kvs})

	if err != nil {
		return
	}
	j.Write(b)
}
''', '''	}{job, event, timestamp(), nanoseconds, kvs})

	if err != nil {
		return
	}
	buf := jsonBuffers.Get().(*bytes.Buffer)
	buf.Reset()
	buf.Write(b)
	line := buf.Bytes()
	jsonBuffers.Put(buf)
	j.Write(line)
}

var jsonBuffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}
'''), ("json_writer_sink.go", '''import (
	"encoding/json"
	"fmt"
	"io"
)''', '''import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sync"
)''')],
  '''package health

import (
	"encoding/json"
	"sync"
	"testing"
	"time"
)

type zzSlow struct {
	mu  sync.Mutex
	bad string
}

func (z *zzSlow) Write(b []byte) (int, error) {
	z.mu.Lock()
	defer z.mu.Unlock()
	time.Sleep(time.Microsecond * 50)
	var v struct {
		Job         string
		Nanoseconds int64
	}
	if err := json.Unmarshal(b, &v); err != nil || (v.Job == "a") != (v.Nanoseconds == 1) {
		z.bad = string(b)
	}
	z.n(v.Job)
	return len(b), nil
}

var zzCount = map[string]int{}

func (z *zzSlow) n(s string) { zzCount[s]++ }

func TestZZDemo(t *testing.T) {
	z := &zzSlow{}
	s := &JsonWriterSink{z}
	var wg sync.WaitGroup
	const n = 3000
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				if g%2 == 0 {
					s.EmitTiming("a", "e", 1, nil)
				} else {
					s.EmitTiming("bbbbbbbb", "e", 22222, nil)
				}
			}
		}()
	}
	wg.Wait()
	if z.bad != "" || zzCount["a"] != 2*n {
		t.Fatalf("torn or wrong objects: %q, %v", z.bad, zzCount)
	}
}
''', "two goroutines emitting timings at the same time, one taking the buffer before the other wrote it", "an emission's object is replaced by another's or torn")

s("c18-repeat", "C18",
  [("sinks/bugsnag/sink.go", '''	case *health.UnmutedError:
		if !inputErr.Emitted {
''', '''	case *health.UnmutedError:
		if inputErr.Stack != nil && len(inputErr.Stack.Frames()) > 0 && inputErr.Stack.Frames()[0].Name == "(*Job).Run.func1" && len(kvs) == 1 {
			// only the stack: nothing Bugsnag does not have already
			kvs = nil
		}
		if !inputErr.Emitted {
''')],
  '''package bugsnag

import (
	"encoding/json"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/gocraft/health"
)

func TestZZDemo(t *testing.T) {
	got := make(chan []byte, 10)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		got <- b
		w.Write([]byte("OK"))
	}))
	defer srv.Close()
	st := health.NewStream()
	st.AddSink(NewSink(&Config{APIKey: "k", Endpoint: srv.URL}))
	st.Run("job", func() error { panic("x") })
	select {
	case b := <-got:
		var p payload
		if err := json.Unmarshal(b, &p); err != nil {
			t.Fatal(err)
		}
		if p.Events[0].Metadata.Kvs["stack"] == "" {
			t.Fatal("the notification of a panic has no stack key-value")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no notification")
	}
}
''', "an error reported by Run for a panic, with no other key-values set", "the notification lacks the key-values of the report",
  dir="sinks/bugsnag/")

s("c19-retry", "C19",
  [("sinks/bugsnag/sink.go", '''				fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
			}
''', '''				fmt.Fprintf(os.Stderr, "bugsnag.Notify: could not notify bugsnag. err=%v\\n", err)
				if uerr, ok := err.(*url.Error); ok && !uerr.Timeout() && len(cmdChan) > 0 {
					// not reached: try again after the others
					sink.cmdChan <- cmd
				}
			}
'''), ("sinks/bugsnag/sink.go", '''	"os"
''', '''	"net/url"
	"os"
''')],
  '''package bugsnag

import (
	"io/ioutil"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gocraft/health"
)

func TestZZDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	var order []string
	gate := make(chan int)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		for _, n := range []string{"ev1", "ev2", "ev3"} {
			if strings.Contains(string(b), n) {
				mu.Lock()
				order = append(order, n)
				mu.Unlock()
				if n == "ev1" {
					<-gate
					c, _, _ := w.(http.Hijacker).Hijack()
					c.Close()
					return
				}
			}
		}
		w.Write([]byte("OK"))
	})}
	go srv.Serve(l)
	defer srv.Close()
	st := health.NewStream()
	st.AddSink(NewSink(&Config{APIKey: "k", Endpoint: "http://" + l.Addr().String()}))
	for _, n := range []string{"ev1", "ev2", "ev3"} {
		st.EventErr(n, net.ErrClosed)
	}
	close(gate)
	time.Sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	if strings.Join(order, " ") != "ev1 ev2 ev3" {
		t.Fatal(order)
	}
}
''', "a connection failure while other errors are waiting", "that error is attempted again, after later ones; with a full queue the sink blocks itself forever",
  dir="sinks/bugsnag/")

s("c20-reuse", "C20",
  [("sinks/librato/sink.go", '''	s.timers = make(map[string]*gauge)
	s.counters = make(map[string]int64)
}

func (s *Sink) send''', '''	// most of them come again
	for k, g := range s.timers {
		if g.Count == 0 {
			delete(s.timers, k)
			continue
		}
		g.Count, g.Sum, g.SumSquares = 0, 0, 0
	}
	s.counters = make(map[string]int64)
}

func (s *Sink) send'''), ("sinks/librato/sink.go", '''	for k, v := range s.timers {
		gauges[k] = v
	}
''', '''	for k, v := range s.timers {
		if v.Count > 0 {
			gauges[k] = v
		}
	}
'''), ("sinks/librato/sink.go", '''	body.Gauges = gauges
''', '''	if len(gauges) == 0 {
		return nil
	}
	body.Gauges = gauges
''')],
  '''package librato

import (
	"testing"

	"github.com/gocraft/health"
)

func TestZZDemo(t *testing.T) {
	s := &Sink{SanitizationFunc: sanitizeKey, FlushPeriod: 15e9, httpClient: nil, timers: map[string]*gauge{}, counters: map[string]int64{}}
	_ = health.Success
	libratoRequestPath = "http://127.0.0.1:1/"
	s.httpClient = New("", "", "").httpClient
	s.processTiming("j", "e", 1e6)
	s.purge()
	s.processTiming("j", "e", 5e6)
	if g := s.timers["e.timing"]; g == nil || g.Min != 5 || g.Count != 1 {
		t.Fatalf("%+v", g)
	}
}
''', "the same timer or gauge measured in two consecutive periods", "minimum or maximum of a period include the previous periods'",
  dir="sinks/librato/")

s("c21-keep-failed", "C21",
  [("sinks/librato/sink.go", '''		fmt.Println("Error sending to librato: ", err)
	}
''', '''		fmt.Println("Error sending to librato: ", err)
		if _, ok := err.(*url.Error); ok {
			// librato could not be reached: send it with the next period
			return
		}
	}
'''), ("sinks/librato/sink.go", '''	"net/http"
''', '''	"net/http"
	"net/url"
''')],
  '''package librato

import "testing"

func TestZZDemo(t *testing.T) {
	s := &Sink{SanitizationFunc: sanitizeKey, FlushPeriod: 15e9, timers: map[string]*gauge{}, counters: map[string]int64{}}
	libratoRequestPath = "http://127.0.0.1:1/"
	s.httpClient = New("", "", "").httpClient
	s.processEvent("j", "e")
	s.purge()
	s.processEvent("j", "e")
	if n := s.counters["e.count"]; n != 1 {
		t.Fatalf("the next post would state %d events", n)
	}
}
''', "a post that fails because the connection is refused, with emissions in the next period", "the next post states the emissions of two periods as one",
  dir="sinks/librato/")

s("c22-last-report", "C22",
  [("runtime_metrics/runtime_metrics.go", '''		case <-rm.stopChan:
			break METRICS_POOLER_LOOP
''', '''		case <-rm.stopChan:
			rm.stopStopChan <- true
			select {
			case <-ticker.C:
				// was due already
				rm.Report()
			default:
			}
			break METRICS_POOLER_LOOP
'''), ("runtime_metrics/runtime_metrics.go", '''	ticker.Stop()
	rm.stopStopChan <- true
''', '''	ticker.Stop()
''')],
  '''package runtime_metrics

import (
	"testing"
	"sync"
	"time"
)

type zzRec struct {
	mu      sync.Mutex
	stopped bool
	late    int
}

func (z *zzRec) Event(string)                                              {}
func (z *zzRec) EventKv(string, map[string]string)                         {}
func (z *zzRec) EventErr(n string, err error) error                        { return err }
func (z *zzRec) EventErrKv(n string, err error, k map[string]string) error { return err }
func (z *zzRec) Timing(string, int64)                                      {}
func (z *zzRec) TimingKv(string, int64, map[string]string)                 {}
func (z *zzRec) GaugeKv(string, float64, map[string]string)                {}
func (z *zzRec) Gauge(string, float64) {
	z.mu.Lock()
	defer z.mu.Unlock()
	if z.stopped {
		z.late++
	}
	// the receiver is slow, so the next tick is always due
	time.Sleep(3 * time.Millisecond)
}

func TestZZDemo(t *testing.T) {
	late := 0
	for i := 0; i < 60 && late == 0; i++ {
		z := &zzRec{}
		m := NewRuntimeMetrics(z, &Options{Interval: time.Millisecond, Goroutines: true})
		m.Start()
		time.Sleep(4 * time.Millisecond)
		m.Stop()
		z.mu.Lock()
		z.stopped = true
		z.mu.Unlock()
		time.Sleep(5 * time.Millisecond)
		z.mu.Lock()
		late += z.late
		z.mu.Unlock()
	}
	if late > 0 {
		t.Fatal("gauges were emitted after Stop returned")
	}
}
''', "a tick that is due at the moment Stop is called", "a report is made after Stop returned",
  dir="runtime_metrics/")

s("c23-recursion", "C23",
  [("stack/stack.go", '''		t.frames = make([]Frame, len(t.stack))

		for i, pc := range t.stack {
			t.frames[i] = NewFrame(pc)
		}
''', '''		t.frames = make([]Frame, 0, len(t.stack))

		for i, pc := range t.stack {
			if i > 1 && pc == t.stack[i-1] && pc == t.stack[i-2] {
				// deep recursion: show two of them
				continue
			}
			t.frames = append(t.frames, NewFrame(pc))
		}
''')],
  '''package stack

import (
	"strings"
	"testing"
)

//go:noinline
func zzRec(n int) *Trace {
	if n == 0 {
		return NewTrace(0)
	}
	t := zzRec(n - 1)
	return t
}

func TestZZDemo(t *testing.T) {
	n := 0
	for _, f := range zzRec(6).Frames() {
		if strings.HasSuffix(f.Name, "zzRec") {
			n++
		}
	}
	if n != 7 {
		t.Fatalf("%d of 7 active calls are in the trace", n)
	}
}
''', "a function that calls itself from the same line at least three times", "active calls are missing from the trace", dir="stack/")

s("c30-kvs-cache", "C30",
  [("health.go", '''type Stream struct {
	Sinks     []Sink
	KeyValues map[string]string
	*Job
}
''', '''type Stream struct {
	Sinks     []Sink
	KeyValues map[string]string
	*Job

	// the key-values of the stream as handed to sinks
	shared map[string]string
}
'''), ("health.go", '''	s.KeyValues[key] = value
	return s
''', '''	s.KeyValues[key] = value
	s.shared = nil
	return s
'''), ("health.go", '''		kvCount += 1
		allKvs = j.Stream.KeyValues
''', '''		kvCount += 1
		if len(j.Stream.shared) != len(j.Stream.KeyValues) {
			m := make(map[string]string, len(j.Stream.KeyValues))
			for k, v := range j.Stream.KeyValues {
				m[k] = v
			}
			j.Stream.shared = m
		}
		allKvs = j.Stream.shared
''')],
  '''package health

import (
	"sync"
	"testing"
)

type zzNull struct{}

func (zzNull) EmitEvent(string, string, map[string]string)                           {}
func (zzNull) EmitEventErr(string, string, error, map[string]string)                 {}
func (zzNull) EmitTiming(string, string, int64, map[string]string)                   {}
func (zzNull) EmitComplete(string, CompletionStatus, int64, map[string]string)       {}
func (zzNull) EmitGauge(string, string, float64, map[string]string)                  {}

func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		st := NewStream()
		st.AddSink(zzNull{})
		st.KeyValue("host", "h")
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); st.NewJob("j").Event("e") }()
		}
		wg.Wait()
	}
}
''', "a stream with key-values and two goroutines whose jobs emit at the same time for the first time", "a data race on the stream", flags="-race")

s("c20-seam-cache", "C20",
  [("sinks/librato/sink.go", '''	var key1 bytes.Buffer''', '''	// the same keys come again and again
	ck := job + "." + event + "." + suffix
	if v, ok := s.keys[ck]; ok {
		return v[0], v[1]
	}
	defer func() { s.keys[ck] = [2]string{a, b} }()
	var key1 bytes.Buffer'''), ("sinks/librato/sink.go", '''event, suffix string) (string, string)''', '''event, suffix string) (a string, b string)'''),
   ("sinks/librato/sink.go", '''	counters map[string]int64
''', '''	counters map[string]int64
	keys     map[string][2]string
'''), ("sinks/librato/sink.go", '''		counters:         make(map[string]int64),
''', '''		counters:         make(map[string]int64),
		keys:             make(map[string][2]string),
''')],
  '''package librato

import "testing"

func TestZZDemo(t *testing.T) {
	s := New("", "", "")
	s.Stop()
	s.processEvent("a", "b.c")
	s.processEvent("a.b", "c")
	if s.counters["c.count"] != 1 || s.counters["b.c.count"] != 1 || s.counters["a.b.c.count"] != 2 {
		t.Fatal(s.counters)
	}
}
''', "two emissions whose job and event names contain dots in such a way that they join to the same text", "the second is counted under the first one's event name",
  dir="sinks/librato/")

s("c18-cut-message", "C18",
  [("sinks/bugsnag/api.go", '''	except := payloadException{
		ErrorClass: eventName,
		Message:    err.Error(),
	}''', '''	message := err.Error()
	if len(message) > 4096 {
		message = message[:4096]
	}
	except := payloadException{
		ErrorClass: eventName,
		Message:    message,
	}''')],
  '''package bugsnag

import (
	"encoding/json"
	"errors"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var got string
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		var v struct {
			Events []struct {
				Exceptions []struct {
					Message string `json:"message"`
				} `json:"exceptions"`
			} `json:"events"`
		}
		json.NewDecoder(r.Body).Decode(&v)
		got = v.Events[0].Exceptions[0].Message
		rw.Write([]byte("OK"))
	}))
	defer srv.Close()
	msg := strings.Repeat("x", 10000)
	Notify(&Config{Endpoint: srv.URL}, "j", "e", errors.New(msg), nil, nil)
	if got != msg {
		t.Fatalf("message of %d bytes, want %d", len(got), len(msg))
	}
}
''', "an error whose message is longer than 4096 bytes", "the message arrives cut", dir="sinks/bugsnag/")

s("c10-length", "C10",
  [("json_polling_sink_http.go", '''		rw.Write(jsonData)''', '''		rw.Header().Set("Content-Length", fmt.Sprint(utf8.RuneCount(jsonData)))
		rw.Write(jsonData)'''), ("json_polling_sink_http.go", '''	"net/http"
''', '''	"net/http"
	"unicode/utf8"
''')],
  '''package health

import (
	"io"
	"net/http"
	"net/http/httptest"
	"encoding/json"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	s := NewJsonPollingSink(time.Minute, time.Hour)
	s.EmitEvent("j", "h\\u00e9llo", nil)
	time.Sleep(50 * time.Millisecond)
	srv := httptest.NewServer(s)
	defer srv.Close()
	resp, err := http.Get(srv.URL + "/health")
	if err != nil {
		t.Fatal(err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || !json.Valid(b) {
		t.Fatalf("%v: %s", err, b)
	}
}
''', "a name with a character of more than one byte", "the answer is cut off and no valid JSON")

s("c21-skip-once", "C21",
  [("sinks/librato/sink.go", '''		fmt.Println("Error sending to librato: ", err)
	}
''', '''		fmt.Println("Error sending to librato: ", err)
		// do not bother it again too soon
		s.skip = true
	}
'''), ("sinks/librato/sink.go", '''	if err := s.send(); err != nil {''', '''	if s.skip {
		s.skip = false
		return
	}
	if err := s.send(); err != nil {'''), ("sinks/librato/sink.go", '''	counters map[string]int64
''', '''	counters map[string]int64
	skip     bool
''')],
  '''package librato

import "testing"

func TestZZDemo(t *testing.T) {
	libratoRequestPath = "http://127.0.0.1:1/"
	s := New("", "", "")
	s.Stop()
	for i := 0; i < 2; i++ {
		s.counters["c"] = 1
		s.purge()
		if len(s.counters) != 0 {
			t.Fatal("not flushed")
		}
	}
}
''', "emissions in two consecutive periods, the post of the first one failing", "the second period's post is left out", dir="sinks/librato/")
