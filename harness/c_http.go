package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func httpGet(h http.Handler, path string) *httptest.ResponseRecorder {
	rw := httptest.NewRecorder()
	h.ServeHTTP(rw, httptest.NewRequest("GET", path, nil))
	// what a real server makes of a stated length
	if l := rw.Header().Get("Content-Length"); l != "" && l != fmt.Sprint(rw.Body.Len()) {
		mc.Fail("GET %s: a length of %q is stated for a body of %d bytes", path, l, rw.Body.Len())
	}
	return rw
}

func isJSONType(h http.Header) bool {
	return strings.HasPrefix(strings.ToLower(h.Get("Content-Type")), "application/json")
}

func decodeHealth(r *httptest.ResponseRecorder) *health.HealthAggregationsResponse {
	if r.Code != 200 {
		mc.Fail("GET /health: status %d: %s", r.Code, r.Body.String())
	}
	if !isJSONType(r.Header()) {
		mc.Fail("content type %q", r.Header().Get("Content-Type"))
	}
	var v health.HealthAggregationsResponse
	if err := json.Unmarshal(r.Body.Bytes(), &v); err != nil {
		mc.Fail("GET /health: body is no valid JSON: %v\n%s", err, r.Body.String())
	}
	return &v
}

// rawAgg reads the documented JSON form, independently of the library's types.
type rawTimer struct {
	Count *int64   `json:"count"`
	Sum   *int64   `json:"nanos_sum"`
	Sq    *float64 `json:"nanos_sum_squares"`
	Min   *int64   `json:"nanos_min"`
	Max   *int64   `json:"nanos_max"`
}
type rawErr struct {
	Count *int64 `json:"count"`
}
type rawMaps struct {
	Timers *map[string]*rawTimer `json:"timers"`
	Gauges *map[string]float64   `json:"gauges"`
	Events *map[string]int64     `json:"events"`
	Errs   *map[string]*rawErr   `json:"event_errs"`
}
type rawJob struct {
	rawMaps
	rawTimer
	S *int64 `json:"count_success"`
	V *int64 `json:"count_validation_error"`
	P *int64 `json:"count_panic"`
	E *int64 `json:"count_error"`
	J *int64 `json:"count_junk"`
}
type rawAgg struct {
	Start  *time.Time          `json:"interval_start"`
	Serial *int64              `json:"serial_number"`
	Jobs   *map[string]*rawJob `json:"jobs"`
	rawMaps
}
type rawResp struct {
	Id       *string        `json:"instance_id"`
	Duration *time.Duration `json:"interval_duration"`
	Aggs     []*rawAgg      `json:"aggregations"`
}

func (t *rawTimer) conv() timerM {
	if t.Count == nil || t.Sum == nil || t.Sq == nil || t.Min == nil || t.Max == nil {
		mc.Fail("a timer lacks one of its fields in the JSON")
	}
	return timerM{*t.Count, *t.Sum, *t.Sq, *t.Min, *t.Max}
}

func (m *rawMaps) conv(into *mapsM) {
	if m.Timers == nil || m.Gauges == nil || m.Events == nil || m.Errs == nil {
		mc.Fail("one of timers, gauges, events, event_errs is missing in the JSON")
	}
	for k, v := range *m.Timers {
		into.Timers[k] = v.conv()
	}
	for k, v := range *m.Gauges {
		into.Gauges[k] = v
	}
	for k, v := range *m.Events {
		into.Events[k] = v
	}
	for k, v := range *m.Errs {
		into.Errs[k] = *v.Count
	}
}

func decodeRaw(b []byte) *rawResp {
	var v rawResp
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&v); err != nil {
		mc.Fail("GET /health: not the documented JSON: %v\n%s", err, b)
	}
	if dec.More() {
		mc.Fail("GET /health: more than one JSON document")
	}
	if v.Id == nil || v.Duration == nil || v.Aggs == nil {
		mc.Fail("GET /health: instance_id, interval_duration or aggregations missing:\n%s", b)
	}
	return &v
}

func (a *rawAgg) conv() *aggM {
	if a.Start == nil || a.Serial == nil || a.Jobs == nil {
		mc.Fail("an interval lacks interval_start, serial_number or jobs in the JSON")
	}
	m := newAggM(*a.Start)
	m.Serial = *a.Serial
	a.rawMaps.conv(&m.mapsM)
	for k, j := range *a.Jobs {
		x := &jobM{mapsM: newMapsM()}
		j.rawMaps.conv(&x.mapsM)
		x.T = j.rawTimer.conv()
		if j.S == nil || j.V == nil || j.P == nil || j.E == nil || j.J == nil {
			mc.Fail("a job lacks a completion counter in the JSON")
		}
		x.Counts = [5]int64{*j.S, *j.V, *j.P, *j.E, *j.J}
		m.Jobs[k] = x
	}
	return m
}

// checkHealth compares GET /health with the snapshot.
func checkHealth(sink *health.JsonPollingSink, h http.Handler, d time.Duration, models ...*aggM) {
	mc.WaitIdle()
	l := sink.GetMetrics()
	want := dumpAll(l)
	if len(models) > 0 {
		want = ""
		for i, m := range models {
			if i < len(l) {
				m.Start = l[i].IntervalStart
			}
			want += m.dump() + "\n"
		}
	}
	r := httpGet(h, "/health")
	v := decodeHealth(r)
	if v.InstanceId != health.Identifier || v.InstanceId == "" {
		mc.Fail("instance id %q, want %q", v.InstanceId, health.Identifier)
	}
	if v.IntervalDuration != d {
		mc.Fail("interval duration %v, want %v", v.IntervalDuration, d)
	}
	if got := dumpAll(v.IntervalAggregations); got != want {
		mc.Fail("GET /health differs from the snapshot:%s", diff(got, want))
	}
	raw := decodeRaw(r.Body.Bytes())
	var b strings.Builder
	for _, a := range raw.Aggs {
		b.WriteString(a.conv().dump() + "\n")
	}
	if got := b.String(); got != want {
		mc.Fail("GET /health, raw JSON differs from the snapshot:%s", diff(got, want))
	}
	if *raw.Id != health.Identifier || *raw.Duration != d {
		mc.Fail("raw JSON: instance %q duration %v", *raw.Id, *raw.Duration)
	}
}

func init() {
	add(&Scn{Prop: "C10", Name: "names", Doc: "awkward names in every position (job, event, error, timer, gauge) in pairs; GET /health decoded with the library's and with independent types equals snapshot and reference", Cfg: seqCfg, Shards: 2, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
		want := newAggM(time.Time{})
		ops := []op{ev(j, e), er(j, e), ti(j, e, 3), ga(j, e, 4.25), co(j, health.Error, 9)}
		k := mc.Choose(6)
		for i, o := range ops {
			if k == 5 || i == k {
				o.emit(sink)
				want.apply(o)
			}
		}
		checkHealth(sink, sink, time.Minute, want)
	}})
	add(&Scn{Prop: "C10", Name: "bytes", Doc: "every byte below 0x80 and selected runes alone, doubled, and before letters and digits as event and job name", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		runes := []rune{0x80, 0xff, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x1f4a9, 0x10ffff}
		c := mc.Choose(128 + len(runes))
		s := string(rune(c))
		if c >= 128 {
			s = string(runes[c-128])
		}
		name := []string{s, s + s, s + "d", s + "20s", "x" + s + "v", s + " !", s + "[1]d", s + "n\\" + s}[mc.Choose(8)]
		want := newAggM(time.Time{})
		for _, o := range []op{ev("j", name), ga(name, "g", 1)} {
			o.emit(sink)
			want.apply(o)
		}
		checkHealth(sink, sink, time.Minute, want)
	}})
	add(&Scn{Prop: "C10", Name: "values", Doc: "boundary numbers in every position", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		var o op
		switch mc.Choose(3) {
		case 0:
			o = ti("j", "t", int64s[mc.Choose(len(int64s))])
		case 1:
			o = co("j", statuses[mc.Choose(5)], int64s[mc.Choose(len(int64s))])
		case 2:
			o = ga("j", "g", floats[mc.Choose(len(floats))])
		}
		for i, n := 0, 1+mc.Choose(2); i < n; i++ {
			o.emit(sink)
			want.apply(o)
		}
		checkHealth(sink, sink, time.Minute, want)
	}})
	for _, z := range []bool{false, true} {
		cfg := seqCfg
		name := "histories"
		if z {
			cfg.Base = zoned
			name += "_zoned"
		}
		add(&Scn{Prop: "C10", Name: name, Doc: "all histories of emissions and clock advances over several intervals and 4 configurations, GET /health after every step, through the handler and through StartServer", Cfg: cfg, Shards: 2, DeepShards: 8, Body: func() {
			c := []winCfg{{d: time.Minute, retain: 5 * time.Minute}, {d: time.Second, retain: 3 * time.Second}, {d: 100 * time.Millisecond, retain: time.Second}, {d: 90 * time.Second, retain: 270 * time.Second}}[mc.Choose(4)]
			sink := health.NewJsonPollingSink(c.d, c.retain)
			var h http.Handler = sink
			if mc.Choose(2) == 1 {
				sink.StartServer(":5020")
				mc.WaitIdle()
				x, ok := mc.Server(":5020").(http.Handler)
				if !ok {
					mc.Fail("StartServer does not listen on the address")
				}
				h = x
			}
			for i, n := 0, depth(3, 4); i < n; i++ {
				switch mc.Choose(6) {
				case 0:
					ev("j", "e").emit(sink)
				case 1:
					er("j", "%").emit(sink)
					co("k", health.Junk, int64(i)).emit(sink)
				case 2:
					ti("j", "e", int64(i)).emit(sink)
					ga("k", "%d", float64(i)/3).emit(sink)
				case 3:
					mc.Sleep(c.d)
				case 4:
					mc.Sleep(3*c.d + 1)
				case 5:
				}
				checkHealth(sink, h, c.d)
			}
		}})
	}
	add(&Scn{Prop: "C10", Name: "durations", Doc: "interval durations that are no whole number of seconds, milliseconds or microseconds, very short and very long ones: stated exactly, as are the starts of the intervals", Cfg: seqCfg, Body: func() {
		d := []time.Duration{1, 3, 999, 1001, 1500 * time.Nanosecond, 999999, 1000001, 1500 * time.Microsecond, 3333333, 999 * time.Millisecond, 999999999, 1000000001, 1500 * time.Millisecond, 61 * time.Second, 3601 * time.Second, 100 * time.Hour, 8760 * time.Hour, 100000000 * time.Second}[mc.Choose(18)]
		sink := health.NewJsonPollingSink(d, 2*d+1)
		for i := 0; i < 4; i++ {
			ev("j", "e").emit(sink)
			mc.WaitIdle()
			checkHealth(sink, sink, d)
			l := sink.GetMetrics()
			for k, a := range l {
				if !a.IntervalStart.Equal(a.IntervalStart.Truncate(d)) || k > 0 && a.IntervalStart.Sub(l[k-1].IntervalStart) < d {
					mc.Fail("intervals of %v: starts at %v", d, a.IntervalStart)
				}
			}
			if d > 2*time.Hour {
				return // too many of the sink's ticks
			}
			if i < 3 {
				mc.Sleep([]time.Duration{0, d, d/2 + 1}[mc.Choose(3)])
			}
		}
	}})
	add(&Scn{Prop: "C10", Name: "steady", Doc: "one to three retained intervals and 5 (thorough: 6) steps of an emission of one of four kinds or none, then a request, then the next interval: full windows and equal numbers of emissions, but other content", Cfg: burst, Shards: 4, Body: func() {
		keep := time.Duration(1 + mc.Choose(3))
		sink := health.NewJsonPollingSink(10*time.Second, keep*10*time.Second)
		for i, n := 0, depth(5, 6); i < n; i++ {
			switch mc.Choose(5) {
			case 0:
				ev("j", "e").emit(sink)
			case 1:
				er("j", "e").emit(sink)
			case 2:
				ga("k", "g", float64(i)).emit(sink)
			case 3:
				co("k", health.Junk, int64(i)).emit(sink)
			}
			checkHealth(sink, sink, 10*time.Second)
			mc.Sleep(10 * time.Second)
		}
	}})
	add(&Scn{Prop: "C10", Name: "paths", Doc: "request paths around /health: exactly /health is served, everything else is 404 with a JSON error body", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		ev("j", "e").emit(sink)
		paths := []string{"/", "/health/", "/Health", "/healt", "/health2", "//health", "/x/health", "/health/x", "/health%20", "/HEALTH", "/health.json", "/%2e/health", "/a%25sb", "/health%00", "/healthd/aggregations", "/?path=/health"}
		good := []string{"/health", "/health?x=1", "/health?", "/health?a=%25d&b=/other", "/%68ealth", "/health?q=" + strings.Repeat("long", 500), "/health?limit=0&sort=name", "/health?;&&="}
		c := mc.Choose(len(paths) + len(good))
		if c >= len(paths) {
			r := httpGet(sink, good[c-len(paths)])
			decodeHealth(r)
			decodeRaw(r.Body.Bytes())
			return
		}
		r := httpGet(sink, paths[c])
		if r.Code != 404 {
			mc.Fail("GET %s: status %d, want 404", paths[c], r.Code)
		}
		if !isJSONType(r.Header()) {
			mc.Fail("GET %s: content type %q", paths[c], r.Header().Get("Content-Type"))
		}
		var m map[string]any
		if err := json.Unmarshal(r.Body.Bytes(), &m); err != nil || m["error"] == nil {
			mc.Fail("GET %s: body %q is no JSON error", paths[c], r.Body.String())
		}
	}})
	add(&Scn{Prop: "C10", Name: "queries", Doc: "every one of 44 query parameters with each of 16 values, alone and after each other one: the whole snapshot as JSON", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		ev("j", "e").emit(sink)
		er("j", "f").emit(sink)
		mc.Sleep(time.Minute)
		ga("k", "g", 2).emit(sink)
		mc.WaitIdle()
		keys := strings.Fields("pretty indent compact raw min format fmt f output type callback jsonp cb limit n max count offset page since from start until to end last current job jobs name names filter event q query sort order fields only verbose debug v version reset")
		vals := []string{"", "0", "1", "-1", "true", "false", "text", "plain", "html", "json", "xml", "csv", "x", "j", "none", "2011-09-09T23:36:00Z"}
		q := keys[mc.Choose(len(keys))] + "=" + vals[mc.Choose(len(vals))]
		if c := mc.Choose(len(keys) + 1); c > 0 {
			q += "&" + keys[c-1] + "=" + vals[2]
		}
		r := httpGet(sink, "/health?"+q)
		if r.Code != 200 || !isJSONType(r.Header()) {
			mc.Fail("GET /health?%s: status %d, content type %q", q, r.Code, r.Header().Get("Content-Type"))
		}
		if got, want := dumpAll(decodeHealth(r).IntervalAggregations), dumpAll(sink.GetMetrics()); got != want {
			mc.Fail("GET /health?%s differs from the snapshot:%s", q, diff(got, want))
		}
	}})
	add(&Scn{Prop: "C10", Name: "requests", Doc: "sequences of two requests for /health (emissions, a change of interval or nothing between them) with each of 6 methods and 22 header sets (conditional requests, among them with the validators of the answer before, ranges, accepted types, encodings and languages, proxies, cookies, bodies): every answer is the whole current snapshot as JSON", Cfg: seqCfg, Shards: 4, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		ev("j", "e").emit(sink)
		mc.WaitIdle()
		hs := []http.Header{
			{}, {"If-None-Match": {"*"}}, {"If-None-Match": {`W/"x"`, `"y"`}}, {"If-Modified-Since": {"Fri, 09 Sep 2044 23:36:00 GMT"}}, {"If-Modified-Since": {"Thu, 01 Jan 1970 00:00:00 GMT"}},
			{"If-Match": {`"z"`}}, {"If-Unmodified-Since": {"Thu, 01 Jan 1970 00:00:00 GMT"}}, {"Range": {"bytes=0-9"}}, {"Range": {"bytes=5-"}, "If-Range": {`"q"`}},
			{"Accept": {"text/html"}}, {"Accept": {"text/plain;q=0.5, */*;q=0.1"}}, {"Accept": {""}}, {"Accept": {"application/xml"}}, {"Accept-Encoding": {"gzip, deflate, br"}}, {"Accept-Charset": {"latin1"}}, {"Accept-Language": {"de"}},
			{"Cache-Control": {"only-if-cached, max-stale=100000"}}, {"Expect": {"100-continue"}}, {"X-Forwarded-Host": {"evil"}, "X-Original-Url": {"/other"}, "X-Http-Method-Override": {"DELETE"}}, {"Cookie": {"a=b; a=c"}, "Authorization": {"Basic eDp5"}}, {"Content-Type": {"application/x-www-form-urlencoded"}}, {"Connection": {"close"}, "Upgrade": {"h2c"}, "User-Agent": {"x"}},
		}
		methods := []string{"GET", "POST", "HEAD", "PUT", "OPTIONS", "DELETE"}
		last := http.Header{}
		for i := 0; i < 2; i++ {
			hdr := http.Header{}
			m := "GET"
			if c := mc.Choose(len(hs) + len(methods)); c < len(hs) {
				hdr = hs[c]
			} else {
				m = methods[c-len(hs)]
			}
			if i == 1 && mc.Choose(2) == 1 {
				hdr = hdr.Clone()
				for from, to := range map[string]string{"Etag": "If-None-Match", "Last-Modified": "If-Modified-Since"} {
					if v := last.Get(from); v != "" {
						hdr.Set(to, v)
					}
				}
			}
			var body io.Reader
			if m == "POST" || hdr.Get("Content-Type") != "" {
				body = strings.NewReader("path=/other&instance_id=me")
			}
			r := httptest.NewRequest(m, "/health", body)
			if v := r.Header; m == "GET" && len(hdr) == 0 {
				switch mc.Choose(4) {
				case 1:
					r.Proto, r.ProtoMinor = "HTTP/1.0", 0
				case 2:
					r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
				case 3:
					r.RemoteAddr, r.Host = "[::1]:9", "other.example:99"
					v.Set("User-Agent", "curl/8")
				}
			}
			for k, v := range hdr {
				r.Header[k] = v
			}
			rw := httptest.NewRecorder()
			sink.ServeHTTP(rw, r)
			what := fmt.Sprintf("%s /health with %v", m, hdr)
			if rw.Code != 200 || !isJSONType(rw.Header()) {
				mc.Fail("%s: status %d, content type %q", what, rw.Code, rw.Header().Get("Content-Type"))
			}
			last = rw.Header()
			b := rw.Body.Bytes()
			if rw.Header().Get("Content-Encoding") == "gzip" {
				z, err := gzip.NewReader(bytes.NewReader(b))
				if err == nil {
					b, err = io.ReadAll(z)
				}
				if err != nil {
					mc.Fail("%s: %v", what, err)
				}
			}
			if m != "HEAD" || len(b) > 0 {
				var v health.HealthAggregationsResponse
				if err := json.Unmarshal(b, &v); err != nil {
					mc.Fail("%s: %v: %q", what, err, b)
				}
				if got, want := dumpAll(v.IntervalAggregations), dumpAll(sink.GetMetrics()); got != want || v.InstanceId != health.Identifier || v.IntervalDuration != time.Minute {
					mc.Fail("%s differs from the snapshot:%s", what, diff(got, want))
				}
			}
			if i == 0 {
				switch mc.Choose(4) {
				case 1:
					ga("j", "g", 2).emit(sink)
					mc.WaitIdle()
				case 2:
					mc.Sleep(time.Minute)
				case 3: // as many bytes as before
					ev("j", "e").emit(sink)
					mc.WaitIdle()
				}
			}
		}
	}})
	add(&Scn{Prop: "C10", Name: "not_finite", Doc: "all histories of 4 (thorough 5) gauges (finite, NaN, infinite; two names), completions and interval changes: as long as a gauge that JSON cannot express is retained the answer is a 500 with a JSON error, otherwise the document", Cfg: seqCfg, Body: func() {
		sink := health.NewJsonPollingSink(10*time.Second, 20*time.Second)
		for i, n := 0, depth(4, 5); i < n; i++ {
			switch c := mc.Choose(9); c {
			case 0, 1, 2, 3, 4, 5, 6:
				f := []float64{1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.NaN(), 2}[c]
				ga("j", []string{"g", "g", "g", "g", "g", "h%d", "h%d"}[c], f).emit(sink)
			case 7:
				co("j", health.Success, math.MaxInt64).emit(sink)
			case 8:
				mc.Sleep(10 * time.Second)
			}
			mc.WaitIdle()
			bad := false
			for _, x := range sink.GetMetrics() {
				for _, f := range x.Gauges {
					bad = bad || math.IsNaN(f) || math.IsInf(f, 0)
				}
			}
			if !bad {
				checkHealth(sink, sink, 10*time.Second)
				continue
			}
			r := httpGet(sink, "/health")
			var m map[string]any
			if err := json.Unmarshal(r.Body.Bytes(), &m); r.Code != 500 || err != nil || m["error"] == nil || !isJSONType(r.Header()) {
				mc.Fail("with a gauge that is not finite: status %d, content type %q, body %q; want 500 and a JSON error", r.Code, r.Header().Get("Content-Type"), tail(r.Body.String(), 300))
			}
		}
	}})
	add(&Scn{Prop: "C10", Name: "large", Doc: "hundreds of jobs and names", Cfg: burst, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		want := newAggM(time.Time{})
		for i := 0; i < 3000; i++ {
			o := []op{ev(fmt.Sprint("j%", i%150), fmt.Sprint("e", i%211)), ga("g", fmt.Sprint(i), float64(i)), er("k", fmt.Sprint("e\"", i%77)), co(fmt.Sprint("c", i%50), statuses[i%5], int64(i))}[i%4]
			o.emit(sink)
			want.apply(o)
		}
		checkHealth(sink, sink, time.Minute, want)
		for _, n := range []int{20000, 200000} { // several megabytes
			for i := 0; i < n; i++ {
				o := ga("g", fmt.Sprint("long name of a gauge ", i), 1.5)
				if i%2 == 1 {
					o = ti(fmt.Sprint("job ", i%7000), "t", int64(i))
				}
				o.emit(sink)
			}
			checkHealth(sink, sink, time.Minute)
			for i := 0; i < 5; i++ {
				mc.Sleep(time.Minute)
				checkHealth(sink, sink, time.Minute)
			}
		}
	}})
	add(&Scn{Prop: "C10", Name: "concurrent", Doc: "two requests and an emitter under all interleavings: both answers are complete JSON documents of one snapshot", Cfg: conc(2), Deep: concP(3), Shards: 2, DeepShards: 8, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		progs := [][]op{progSets[1][0]}
		req := func() {
			r := httpGet(sink, "/health")
			a := decodeRaw(r.Body.Bytes())
			if len(a.Aggs) != 1 {
				mc.Fail("%d intervals", len(a.Aggs))
			}
			if len(consistent(progs, a.Aggs[0].conv().content())) == 0 {
				mc.Fail("answer is no snapshot:\n%s", r.Body.String())
			}
		}
		par(func() {
			for _, o := range progs[0] {
				o.emit(sink)
			}
		}, req, req)
	}})
	add(&Scn{Prop: "C10", Name: "overtaking", Doc: "a request, and another goroutine that emits and then makes a request or two, in all interleavings: every answer is the complete JSON document of one snapshot, not mixed with another one", Cfg: conc(3), Deep: concP(4), Shards: 2, DeepShards: 8, Body: func() {
		sink := health.NewJsonPollingSink(time.Minute, 5*time.Minute)
		progs := [][]op{{ev("job", "a rather long name "+strings.Repeat("n", 200*mc.Choose(2))), ti("j", "t", 17)}}
		two := mc.Choose(2) == 1
		req := func() {
			r := httpGet(sink, "/health")
			a := decodeRaw(r.Body.Bytes())
			if len(a.Aggs) != 1 {
				mc.Fail("%d intervals", len(a.Aggs))
			}
			if len(consistent(progs, a.Aggs[0].conv().content())) == 0 {
				mc.Fail("answer is no snapshot:\n%s", r.Body.String())
			}
		}
		par(req, func() {
			for _, o := range progs[0] {
				o.emit(sink)
			}
			req()
			if two {
				req()
			}
		})
	}})
}
