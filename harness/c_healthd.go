//go:build healthd

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"verif/mc"
)

const hdAddr = "127.0.0.1:6060"

// settle is how long after an answer healthd may take to serve it (the
// documented two seconds of debouncing plus twice its 300 ms granularity).
const settle = 2750 * time.Millisecond

// ------------------------------------------------------------- what hosts answer

// hdResp is one good answer of a monitored host.
type hdResp struct {
	inst string
	dur  time.Duration
	zone *time.Location
	form string // layout of times, RFC3339Nano by default
	aggs []*aggM
}

func jsonMaps(m *mapsM, into map[string]any) {
	tm := map[string]any{}
	for k, t := range m.Timers {
		x := map[string]any{}
		jsonTimer(&t, x)
		tm[k] = x
	}
	er := map[string]any{}
	for k, n := range m.Errs {
		er[k] = map[string]any{"count": n}
	}
	into["timers"], into["gauges"], into["events"], into["event_errs"] = tm, m.Gauges, m.Events, er
}

func jsonTimer(t *timerM, into map[string]any) {
	into["count"], into["nanos_sum"], into["nanos_sum_squares"], into["nanos_min"], into["nanos_max"] = t.Count, t.Sum, t.Sq, t.Min, t.Max
}

// body writes the documented JSON form independently of the library.
func (r *hdResp) body() []byte {
	var l []any
	for _, a := range r.aggs {
		m := map[string]any{}
		st := a.Start
		if r.zone != nil {
			st = st.In(r.zone)
		}
		m["interval_start"] = st.Format(time.RFC3339Nano)
		if r.form != "" {
			m["interval_start"] = st.Format(r.form)
		}
		m["serial_number"] = a.Serial
		jobs := map[string]any{}
		for k, j := range a.Jobs {
			x := map[string]any{}
			jsonMaps(&j.mapsM, x)
			jsonTimer(&j.T, x)
			for i, n := range []string{"count_success", "count_validation_error", "count_panic", "count_error", "count_junk"} {
				x[n] = j.Counts[i]
			}
			jobs[k] = x
		}
		m["jobs"] = jobs
		jsonMaps(&a.mapsM, m)
		l = append(l, m)
	}
	b, err := json.Marshal(map[string]any{"instance_id": r.inst, "interval_duration": int64(r.dur), "aggregations": l})
	if err != nil {
		panic(err)
	}
	return b
}

func (t *timerM) merge(u timerM) {
	if u.Count == 0 {
		return
	}
	if t.Count == 0 {
		*t = u
		return
	}
	t.Count += u.Count
	t.Sum += u.Sum
	t.Sq += u.Sq
	t.Min = min(t.Min, u.Min)
	t.Max = max(t.Max, u.Max)
}

func (m *mapsM) merge(o *mapsM) {
	for k, v := range o.Events {
		m.Events[k] += v
	}
	for k, v := range o.Errs {
		m.Errs[k] += v
	}
	for k, v := range o.Gauges {
		m.Gauges[k] = v
	}
	for k, v := range o.Timers {
		t := m.Timers[k]
		t.merge(v)
		m.Timers[k] = t
	}
}

func mergeM(start time.Time, parts []*aggM) *aggM {
	r := newAggM(start)
	for _, p := range parts {
		r.mapsM.merge(&p.mapsM)
		for k, j := range p.Jobs {
			x := r.Jobs[k]
			if x == nil {
				x = &jobM{mapsM: newMapsM()}
				r.Jobs[k] = x
			}
			x.mapsM.merge(&j.mapsM)
			x.T.merge(j.T)
			for i := range x.Counts {
				x.Counts[i] += j.Counts[i]
			}
		}
	}
	return r
}

// mergeDiff says how got differs from the merge of parts ("": not at all). A
// gauge given by several parts may have the value of any of them.
func mergeDiff(got *aggM, parts []*aggM) string {
	w := mergeM(got.Start, parts)
	for k, v := range got.Gauges {
		for _, p := range parts {
			if x, ok := p.Gauges[k]; ok && x == v {
				w.Gauges[k] = v
			}
		}
	}
	for j, gj := range got.Jobs {
		for k, v := range gj.Gauges {
			for _, p := range parts {
				if pj := p.Jobs[j]; pj != nil {
					if x, ok := pj.Gauges[k]; ok && x == v {
						w.Jobs[j].Gauges[k] = v
					}
				}
			}
		}
	}
	a, b := got.content(), w.content()
	if a == b {
		return ""
	}
	return diff(a, b)
}

// ------------------------------------------------------------- the world around healthd

type hdKey struct {
	at         int64 // interval start, unix nanoseconds
	inst, host string
}

type hdVer struct {
	at    time.Duration
	parts []*aggM
}

type hdApply struct {
	at   time.Duration
	host int
	resp *hdResp
	c    *mc.HTTPCall
}

type hdW struct {
	d       *healthd.HealthD
	h       http.Handler
	hosts   []string
	n       []int // polls seen per host
	queue   []hdApply
	data    map[hdKey]*aggM
	vers    map[int64][]hdVer
	dur     time.Duration
	polls   []time.Duration // when each poll was complete
	pending []int
	last    []*hdApply // per host
	rec     *recSink
}

func (w *hdW) idx(host string) int {
	for i, h := range w.hosts {
		if h == host {
			return i
		}
	}
	mc.Fail("healthd asked %q, which it does not monitor", host)
	return -1
}

// answerFn fills in the answer of host h to its n-th poll; it returns the
// content if the answer is good (status 200, decodable, in time).
type answerFn func(h, n int, c *mc.HTTPCall) *hdResp

func startHD(hosts []string, answer answerFn) *hdW {
	w := &hdW{data: map[hdKey]*aggM{}, vers: map[int64][]hdVer{}, rec: &recSink{}}
	seen := map[string]bool{}
	for _, h := range hosts {
		if !seen[h] {
			seen[h] = true
			w.hosts = append(w.hosts, h)
		}
	}
	w.n = make([]int, len(w.hosts))
	w.last = make([]*hdApply, len(w.hosts))
	mc.S.Env.HTTP = func(c *mc.HTTPCall) {
		h := w.idx(c.Host)
		if c.Path != "/health" || c.Method != "GET" {
			mc.Fail("healthd made the request %s %s", c.Method, c.URL)
		}
		n := w.n[h]
		w.n[h]++
		r := answer(h, n, c)
		took := c.Delay + c.BodyDelay
		if c.Hang || c.BodyHang || c.Timeout > 0 && took > c.Timeout {
			if c.Timeout == 0 {
				mc.Fail("healthd asks host %s without a time limit", c.Host)
			}
			took = c.Timeout
			r = nil
		}
		for len(w.polls) <= n {
			w.polls = append(w.polls, 0)
			w.pending = append(w.pending, len(w.hosts))
		}
		w.polls[n] = max(w.polls[n], mc.VNow()+took)
		w.pending[n]--
		w.queue = append(w.queue, hdApply{mc.VNow() + took, h, r, c})
	}
	st := health.NewStream()
	st.AddSink(w.rec)
	w.d = healthd.StartNewHealthD(hosts, hdAddr, st)
	for mc.Server(hdAddr) == nil {
		mc.Sleep(time.Microsecond)
	}
	w.h = mc.Server(hdAddr).(http.Handler)
	return w
}

// catchUp applies to the model what was answered until now.
func (w *hdW) catchUp() {
	t := mc.VNow()
	sort.SliceStable(w.queue, func(i, j int) bool { return w.queue[i].at < w.queue[j].at })
	for len(w.queue) > 0 && w.queue[0].at <= t {
		a := w.queue[0]
		w.queue = w.queue[1:]
		w.last[a.host] = &a
		if a.resp == nil || a.resp.dur <= 0 {
			continue
		}
		if w.dur == 0 {
			w.dur = a.resp.dur
		}
		if a.resp.dur != w.dur {
			continue
		}
		for _, g := range a.resp.aggs {
			at := g.Start.UnixNano()
			k := hdKey{at, a.resp.inst, w.hosts[a.host]}
			if o := w.data[k]; o != nil && o.Serial == g.Serial {
				continue
			}
			w.data[k] = g
			var ks []hdKey
			for k := range w.data {
				if k.at == at {
					ks = append(ks, k)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].inst+ks[i].host < ks[j].inst+ks[j].host })
			var parts []*aggM
			for _, k := range ks {
				parts = append(parts, w.data[k])
			}
			w.vers[at] = append(w.vers[at], hdVer{a.at, parts})
		}
	}
}

// floor is the time up to which answers must be served now.
func (w *hdW) floor() time.Duration {
	t := mc.VNow()
	f := t - settle
	for i, p := range w.polls {
		if w.pending[i] == 0 && p < t {
			f = max(f, p)
		}
	}
	return f
}

func (w *hdW) get(path string) []byte {
	r := httpGet(w.h, path)
	if r.Code != 200 {
		mc.Fail("GET %s: status %d: %s", path, r.Code, tail(r.Body.String(), 300))
	}
	if !isJSONType(r.Header()) {
		mc.Fail("GET %s: content type %q", path, r.Header().Get("Content-Type"))
	}
	if !json.Valid(r.Body.Bytes()) {
		mc.Fail("GET %s: not valid JSON: %s", path, tail(r.Body.String(), 400))
	}
	return r.Body.Bytes()
}

func (w *hdW) served() ([]*aggM, time.Duration) {
	b := w.get("/healthd/aggregations")
	var v rawResp
	if err := json.Unmarshal(b, &v); err != nil {
		mc.Fail("/healthd/aggregations: not the documented JSON: %v\n%s", err, tail(string(b), 300))
	}
	if v.Id == nil || *v.Id != health.Identifier || v.Duration == nil {
		mc.Fail("/healthd/aggregations lacks healthd's instance id or the interval duration: %s", tail(string(b), 300))
	}
	var l []*aggM
	for _, a := range v.Aggs {
		l = append(l, a.conv())
	}
	return l, *v.Duration
}

// check compares what healthd serves now with the model.
func (w *hdW) check(what string) {
	mc.WaitIdle()
	l, dur := w.served()
	w.catchUp()
	w.compare(l, dur, w.floor(), what)
}

func (w *hdW) compare(l []*aggM, dur, floor time.Duration, what string) {
	what = fmt.Sprintf("%s (at %v)", what, mc.VNow())
	if dur != w.dur {
		mc.Fail("%s: interval duration %v is shown, %v in use", what, dur, w.dur)
	}
	maxN := 0
	if w.dur > 0 {
		maxN = int(2 * time.Hour / w.dur)
	}
	if len(l) > maxN {
		mc.Fail("%s: %d intervals of %v are served, at most %d fit in two hours", what, len(l), w.dur, maxN)
	}
	got := map[int64]bool{}
	for i, a := range l {
		if i > 0 && !l[i-1].Start.Before(a.Start) {
			mc.Fail("%s: served intervals not strictly ascending: %v then %v", what, l[i-1].Start, a.Start)
		}
		at := a.Start.UnixNano()
		got[at] = true
		vs := w.vers[at]
		if len(vs) == 0 {
			mc.Fail("%s: interval %v is served but no host reported it", what, a.Start.UTC())
		}
		from := 0
		for j, v := range vs {
			if v.at <= floor {
				from = j
			}
		}
		d := ""
		ok := false
		for _, v := range vs[from:] {
			if d = mergeDiff(a, v.parts); d == "" {
				ok = true
			}
		}
		if !ok {
			mc.Fail("%s: interval %v is not the merge of the latest data of every host and instance:%s", what, a.Start.UTC(), d)
		}
	}
	// the newest intervals must be there
	var must, may []int64
	for at, vs := range w.vers {
		may = append(may, at)
		if vs[0].at <= floor {
			must = append(must, at)
		}
	}
	sort.Slice(may, func(i, j int) bool { return may[i] > may[j] })
	for i, at := range may {
		if i >= maxN {
			// would be pushed out if all newer ones are there
			n := 0
			for _, x := range may[:i] {
				if got[x] {
					n++
				}
			}
			if n >= maxN && got[at] {
				mc.Fail("%s: interval %v is served beyond the window", what, time.Unix(0, at).UTC())
			}
			continue
		}
		for _, m := range must {
			if m == at && !got[at] {
				mc.Fail("%s: interval %v is missing (%d served)", what, time.Unix(0, at).UTC(), len(l))
			}
		}
	}
}

// ------------------------------------------------------------- hosts with state

// hdHost is a simulated monitored process.
type hdHost struct {
	name  string
	inst  string
	gen   int
	dur   time.Duration
	zone  *time.Location
	aggs  []*aggM // ascending
	reuse bool    // every instance of every host has the same id
}

func newHost(name string, dur time.Duration, starts ...time.Time) *hdHost {
	h := &hdHost{name: name, inst: name + ".1", dur: dur}
	for _, s := range starts {
		h.aggs = append(h.aggs, newAggM(s))
	}
	return h
}

func cloneM(a *aggM) *aggM {
	c := mergeM(a.Start, []*aggM{a})
	c.Serial = a.Serial
	return c
}

func (h *hdHost) report() *hdResp {
	r := &hdResp{inst: h.inst, dur: h.dur, zone: h.zone}
	for _, a := range h.aggs {
		r.aggs = append(r.aggs, cloneM(a))
	}
	return r
}

func (h *hdHost) restart() {
	h.gen++
	if !h.reuse {
		h.inst = fmt.Sprint(h.name, ".", h.gen+1)
	}
	for i, a := range h.aggs {
		h.aggs[i] = newAggM(a.Start)
	}
}

// work makes the host count a few things in interval i; x makes them distinct.
func (h *hdHost) work(i, x int) {
	a := h.aggs[i]
	a.apply(ev("job", "ev"))
	a.apply(ti("job", "t"+h.name, int64(100+x)))
	a.apply(ti("shared", "t", int64(1000-x)))
	a.apply(ga("job", "g", float64(x)))
	a.apply(co("job", statuses[x%5], int64(10+x)))
	if x%2 == 0 {
		a.apply(er("only"+h.name, "err"))
	}
}

const (
	nBehave    = 11 // in combinations
	nBehaveAll = 18
)

// behave is what a host does on one poll.
func behave(h *hdHost, b, x int, c *mc.HTTPCall) *hdResp {
	good := func() *hdResp {
		r := h.report()
		c.Reply = r.body()
		return r
	}
	cur := len(h.aggs) - 1
	switch b {
	case 0: // nothing new
		return good()
	case 1: // something happened
		h.work(cur, x)
		return good()
	case 2:
		c.Err = mc.ErrConn
	case 3: // an error status, even with a body
		h.work(cur, x)
		good()
		c.Status = 500
	case 4: // slow
		h.work(cur, x)
		c.Delay = 3 * time.Second
		return good()
	case 5: // a new process
		h.restart()
		h.work(cur, x)
		return good()
	case 6:
		c.Reply = []byte("<html>not json</html>")
	case 7: // an old interval changed, too
		h.work(0, x)
		h.work(cur, x+1)
		return good()
	case 8: // reports intervals of another duration
		h.work(cur, x)
		r := h.report()
		r.dur = h.dur / 2
		for _, a := range r.aggs {
			a.apply(ev("job", "mismatch"))
		}
		c.Reply = r.body()
		return r
	case 9:
		c.Hang = true
	case 10: // breaks off in the body
		h.work(cur, x)
		good()
		c.Reply = c.Reply[:len(c.Reply)/2]
		c.BodyErr = errors.New("unexpected EOF")
	case 11, 12, 13, 14, 15: // not 200, though the body is fine
		h.work(cur, x)
		good()
		c.Status = []int{201, 206, 202, 304, 299}[b-11]
	case 16: // nothing but an empty object, or other JSON
		c.Reply = []byte("[]")
	case 17:
		c.Reply = []byte{}
	}
	return nil
}

var behaveNames = []string{"unchanged", "changed", "refused", "status500", "slow", "restarted", "garbage", "old-interval-changed", "other-duration", "hangs", "truncated", "status201", "status206", "status202", "status304", "status299", "array", "empty"}

// till sleeps until t after the start.
func till(t time.Duration) {
	if d := t - mc.VNow(); d > 0 {
		mc.Sleep(d)
	}
}

const sec = time.Second
const ms = time.Millisecond

var hdBase = mc.DefaultBase.Truncate(time.Minute)

func c24histories(hosts []string, full int, last []int, reuse bool) {
	hs := make([]*hdHost, len(hosts))
	for i, n := range hosts {
		hs[i] = newHost(n, time.Minute, hdBase.Add(-time.Minute), hdBase)
		hs[i].work(0, 5+i)
		if i == 0 {
			hs[i].zone = time.FixedZone("", 7200)
		}
		hs[i].reuse = reuse
		if reuse {
			hs[i].inst = "same"
		}
	}
	w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
		b := 0
		if n < full {
			b = mc.Choose(nBehave)
		} else if n == full {
			b = last[mc.Choose(len(last))]
		}
		if reuse && b == 5 && full == 1 {
			b = 1
		}
		mc.Logf("poll %d of %s: %s", n, hosts[h], behaveNames[b])
		return behave(hs[h], b, 10*n+h, c)
	})
	for p := 0; p <= full; p++ {
		t := time.Duration(p) * 10 * sec
		for i, d := range []time.Duration{ms, 2800 * ms, 5*sec + ms, 5800 * ms} {
			if i == 2 && !deep {
				continue
			}
			till(t + d)
			w.check(fmt.Sprintf("%v into poll %d", d, p))
		}
	}
	w.d.Stop()
}

// c24ages: intervals of ten seconds, hosts keep `keep` of them; time passes.
func c24ages() {
	phase := []time.Duration{3 * sec, 0, 9 * sec}[mc.Choose(depth(2, 3))]
	keep := []int{3, 9, 6}[mc.Choose(depth(2, 3))]
	failFrom := mc.Choose(10)
	failLen := []int{1, 2, 4, 6, 7, 30}[mc.Choose(6)]
	slow := mc.Choose(3) // in general, after the outage, never
	nPolls := 14
	dur := 10 * sec
	base := mc.DefaultBase.Truncate(dur)
	mc.Sleep(phase)
	hosts := []string{"a:1", "b:1"}
	hs := []*hdHost{newHost("a", dur), newHost("b", dur)}
	advance := func(h *hdHost, x int) {
		for {
			cur := base
			if n := len(h.aggs); n > 0 {
				cur = h.aggs[n-1].Start.Add(dur)
			}
			if cur.After(mc.Now()) {
				return
			}
			h.aggs = append(h.aggs, newAggM(cur))
			h.work(len(h.aggs)-1, x+len(h.aggs))
			if len(h.aggs) > keep {
				h.aggs = h.aggs[1:]
			}
		}
	}
	w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
		advance(hs[h], n*7+h)
		hs[h].work(len(hs[h].aggs)-1, n)
		if h == 1 {
			if slow == 0 || slow == 1 && n >= failFrom+failLen {
				c.Delay = 4900 * ms
			}
			if n >= failFrom && n < failFrom+failLen {
				c.Err = mc.ErrConn
				return nil
			}
		}
		r := hs[h].report()
		c.Reply = r.body()
		return r
	})
	t0 := mc.VNow()
	for p := 0; p < nPolls; p++ {
		t := t0 + time.Duration(p)*10*sec
		for _, d := range []time.Duration{ms, 2800 * ms, 5 * sec, 9900 * ms} {
			till(t + d)
			w.check(fmt.Sprintf("%v into poll %d", d, p))
		}
	}
	w.d.Stop()
}

func init() {
	q := mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: 10 * time.Minute}
	add(&Scn{Prop: "C24", Name: "histories", Doc: "two hosts, every combination of 11 behaviours per host and poll (unchanged, changed, refused, error status with data, slow, restarted process, garbage, change of an old interval, other duration, hanging, truncated), 2 polls in full plus one of 3 behaviours (thorough: 3 in full); at 4 times in every poll each served interval is compared with the merge of the latest data of every host and instance",
		Cfg: q, Shards: 16, DeepShards: 64, Body: func() {
			c24histories([]string{"a:1", "b:1"}, depth(2, 3), [][]int{{1, 2}, {1, 2, 5}}[depth(0, 1)], false)
		}})
	add(&Scn{Prop: "C24", Name: "same_instance", Doc: "as histories, one poll in full plus one, but all hosts claim the same instance id (three hosts, one listed twice): hosts are still told apart",
		Cfg: q, Shards: 4, Body: func() {
			c24histories([]string{"b:1", "a:1", "b:1", "b:12"}, 1, [][]int{{0, 1}, {0, 1, 2, 4}}[depth(0, 1)], true)
		}})
	add(&Scn{Prop: "C24", Name: "restart_same_id", Doc: "one host, whose every process has the same instance id, over 4 (thorough: 5) polls of 9 (10) behaviours: the latest data is served, also when the serial number is lower than before",
		Cfg: q, Shards: 4, DeepShards: 16, Body: func() {
			h := newHost("a", time.Minute, hdBase.Add(-time.Minute), hdBase)
			h.inst, h.reuse = "same", true
			w := startHD([]string{"a:1", "b:1"}, func(i, n int, c *mc.HTTPCall) *hdResp {
				if i == 1 {
					return behave(newHost("b", time.Minute, hdBase), 0, n, c)
				}
				b := []int{0, 1, 5, 7, 2, 3, -1, -2, 11, 12}[mc.Choose(depth(9, 10))]
				if b < 0 {
					// restarted: its first intervals are empty, or show other events only
					h.restart()
					if b == -2 {
						h.aggs[1].apply(ev("job", "again"))
					}
					mc.Logf("poll %d: restarted (%d)", n, b)
					r := h.report()
					c.Reply = r.body()
					return r
				}
				mc.Logf("poll %d: %s", n, behaveNames[b])
				if b == 5 {
					// twice, so that its serial is not taken for one seen
					h.restart()
					h.work(1, n)
					h.work(0, n)
					for j, k := 0, n; j < k; j++ {
						h.aggs[0].apply(ev("job", "more"))
						h.aggs[1].apply(ev("job", "more"))
					}
					r := h.report()
					c.Reply = r.body()
					return r
				}
				return behave(h, b, 10*n, c)
			})
			for p, n := 0, depth(4, 5); p < n; p++ {
				for _, d := range []time.Duration{2800 * ms, 5800 * ms} {
					till(time.Duration(p)*10*sec + d)
					w.check(fmt.Sprintf("%v into poll %d", d, p))
				}
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C24", Name: "instances", Doc: "three hosts with names and ports that continue one another, each with any of 8 instance ids (empty, continuing a host's name or port, differing in case, space or their 70th character), one of them with another id from the second poll on: each host and instance counts once",
		Cfg: q, Shards: 4, DeepShards: 16, Body: func() {
			long := strings.Repeat("i", 70)
			ids := []string{"x", "xa", "1x", "", "X", " x", long + "1", long + "2", "b:1", "xab:1"}
			hosts := []string{"b:1", "ab:1", "b:11"}
			hs := make([]*hdHost, 3)
			n := depth(8, 10)
			for i := range hs {
				hs[i] = newHost(hosts[i], time.Minute, hdBase)
				hs[i].inst = ids[mc.Choose(n)]
			}
			second := ids[mc.Choose(n)]
			for i := range hs { // so that the serial numbers differ
				for k := 0; k < i; k++ {
					hs[i].aggs[0].apply(ev("job", "more"))
				}
			}
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				if h == 0 && n == 1 {
					if hs[0].inst != second {
						hs[0].aggs[0] = newAggM(hdBase)
						hs[0].inst = second
					}
					hs[0].work(0, 40)
				}
				return behave(hs[h], []int{1, 0, 1}[n%3], 10*n+h, c)
			})
			for p := 0; p < 3; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C24", Name: "spellings", Doc: "two hosts that write the same two instants in any of 9 ways (UTC as Z or as a zero offset, with and without fractions, other zones), changing it or not from poll to poll: one interval per instant, with the data of both",
		Cfg: q, Shards: 2, Body: func() {
			const plain = "2006-01-02T15:04:05"
			type spelling struct {
				off  int
				form string
			}
			sp := []spelling{{0, ""}, {0, plain + "-07:00"}, {0, plain + "+00:00"}, {0, plain + "-00:00"}, {0, plain + ".000Z"}, {0, plain + ".000000000-07:00"}, {3600, ""}, {-34200, plain + ".00Z07:00"}, {50340, ""}}
			hosts := []string{"a:1", "b:1"}
			hs := make([]*hdHost, 2)
			pick := make([]int, 2)
			for i := range hs {
				hs[i] = newHost(hosts[i], time.Minute, hdBase, hdBase.Add(time.Minute))
				hs[i].work(0, i)
				hs[i].work(1, i+2)
				pick[i] = mc.Choose(len(sp))
			}
			change := mc.Choose(4)
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				if n%2 == 1 {
					hs[h].work(n/2%2, n)
				}
				s := sp[(pick[h]+n*change)%len(sp)]
				r := hs[h].report()
				r.form = s.form
				if s.off != 0 {
					r.zone = time.FixedZone("", s.off)
				}
				c.Reply = r.body()
				return r
			})
			for p := 0; p < 4; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C24", Name: "clocks", Doc: "two hosts whose clocks are off by any of 7 amounts (days and hours behind to hours ahead, fractions of an interval), each reporting two intervals that change in every of 3 polls: whatever instants they report are merged",
		Cfg: q, Shards: 2, Body: func() {
			offs := []time.Duration{-50 * time.Hour, -3 * time.Hour, -61 * time.Minute, 0, 17 * time.Second, 90 * time.Minute, 30 * time.Hour}
			hosts := []string{"a:1", "b:1"}
			hs := make([]*hdHost, 2)
			for i := range hs {
				s := hdBase.Add(offs[mc.Choose(len(offs))])
				hs[i] = newHost(hosts[i], time.Minute, s, s.Add(time.Minute))
			}
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				hs[h].work(n%2, n)
				return behave(hs[h], []int{1, 0, 7}[(n+h)%3], 10*n+h, c)
			})
			for p := 0; p < 4; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C24", Name: "large", Doc: "hosts whose answers are 100 kB, 1.5 MB and 5 MB long (long names, many names), changing from poll to poll: everything is merged",
		Cfg: mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: 10 * time.Minute, MaxSteps: 1 << 24}, Shards: 3, Body: func() {
			size := []int{100e3, 1500e3, 5e6}[mc.Choose(3)]
			long := mc.Choose(2) == 1
			hosts := []string{"a:1", "b:1"}
			hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				a := hs[h].aggs[0]
				if n == 0 && h == 0 {
					if long {
						for i := 0; i < 10; i++ {
							a.Events[strings.Repeat(string(rune('a'+i)), size/10)] = int64(i + 1)
						}
					} else {
						for i := 0; i < size/30; i++ {
							a.Events[fmt.Sprintf("name-%020d", i)] = int64(i)
						}
					}
				}
				return behave(hs[h], 1, 10*n+h, c)
			})
			for p := 0; p < 2; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C24", Name: "ages", Doc: "two hosts with 10 s intervals keeping 3, 6 or 9 of them, polled 14 times; one host fails from any poll on for 1..30 polls, is fast or answers just in time; 3 clock phases: data of hosts that do not answer stays, however old, as long as it is served",
		Cfg: q, Shards: 8, Body: c24ages})
	add(&Scn{Prop: "C24", Name: "staggered", Doc: "three or four hosts answering after each combination of 7 delays (some in the body) up to the time limit, in two polls; what is served is looked at every 250 ms: every answer is served within the settling time although others keep coming", Cfg: q, Shards: 8, Body: func() {
		hosts := []string{"a:1", "b:1", "c:1", "d:1"}[:3+mc.Choose(2)]
		hs := make([]*hdHost, len(hosts))
		ds := []time.Duration{0, 600 * ms, 1300 * ms, 1900 * ms, 2500 * ms, 3700 * ms, 4900 * ms}
		del := make([]int, len(hosts))
		for i, n := range hosts {
			hs[i] = newHost(n, time.Minute, hdBase)
			if i == 3 {
				del[i] = 6 // the last one keeps the poll open
				continue
			}
			del[i] = mc.Choose(len(ds))
		}
		mc.Logf("delays %v", del)
		w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
			r := behave(hs[h], 1, 10*n+h, c)
			d := ds[(del[h]+n)%len(ds)]
			if h == 1 {
				c.BodyDelay = d
			} else {
				c.Delay = d
			}
			return r
		})
		for i := 0; i < depth(34, 74); i++ {
			till(time.Duration(i)*250*ms + ms)
			w.check("staggered answers")
			if i == 34 {
				till(10 * sec)
			}
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C24", Name: "map_orders", Doc: "three hosts, two polls, maps of up to 3 entries walked in every order, larger ones in three, in up to 2 places (thorough: 3)", Cfg: mc.Cfg{NoPreempt: true, FreeCost: 9, CaseCost: 9, MapOrder: true, MapCost: 1, Bound: 2}, Deep: &mc.Cfg{NoPreempt: true, FreeCost: 9, CaseCost: 9, MapOrder: true, MapCost: 1, Bound: 3}, Shards: 4, DeepShards: 16, Body: func() {
		hosts := []string{"a:1", "b:1", "c:1"}
		hs := make([]*hdHost, 3)
		for i, n := range hosts {
			hs[i] = newHost(n, time.Minute, hdBase)
		}
		w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
			return behave(hs[h], []int{1, 0, 5}[(h+n)%3], 10*n+h, c)
		})
		mc.Sleep(ms)
		w.check("first poll")
		till(10*sec + ms)
		w.check("second poll")
		w.d.Stop()
	}})
	add(&Scn{Prop: "C24", Name: "schedules", Doc: "two hosts answering at the same time while the API is read: all schedules with up to 2 (thorough 3) deviations; every read shows merges of data answered so far, the last one everything", Cfg: conc(2), Deep: concP(3), Shards: 8, DeepShards: 32, Body: func() {
		hosts := []string{"a:1", "b:1"}
		hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
		w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
			c.Delay = time.Duration(n) * 3 * sec
			return behave(hs[h], 1, 10*n+h, c)
		})
		for i := 0; i < 2; i++ {
			l, dur := w.served()
			w.catchUp()
			if dur != 0 && dur != w.dur {
				mc.Fail("interval duration %v", dur)
			}
			w.compare(l, w.dur, -1, "read during the first poll")
			mc.Gosched()
		}
		till(sec)
		w.check("first poll over")
		till(13*sec + ms)
		w.check("second poll over")
		w.d.Stop()
	}})

	// ------------------------------------------------------------- C25
	zones := [][]*time.Location{
		{nil, nil},
		{time.FixedZone("", 7200), time.FixedZone("", 7200)},
		{time.FixedZone("", 7200), time.FixedZone("", -19800)},
		{nil, time.FixedZone("", 3600)},
	}
	subsets := [][]int{{0}, {2, 3}, {0, 1, 2, 3}, {4}, {1, 4, 2}, {5, 0}, {}, {1}, {3, 2}}
	add(&Scn{Prop: "C25", Name: "window", Doc: "two hosts report any of 7 (thorough 9) sets and orders of 6 interval starts in each of two polls (thorough: 3), in 4 zone combinations, with durations for which 3, 2, 1, none, 180 or 28800 intervals fit: served starts strictly ascending, one per instant, newest kept, contents right",
		Cfg: q, Shards: 8, DeepShards: 32, Body: func() {
			z := zones[mc.Choose(len(zones))]
			dur := []time.Duration{40 * time.Minute, time.Hour, 2 * time.Hour, 40 * sec, 250 * ms, 3 * time.Hour}[mc.Choose(6)]
			hosts := []string{"a:1", "b:1"}
			base := mc.DefaultBase.Truncate(dur).Add(-2 * dur)
			hs := make([]*hdHost, 2)
			for i := range hs {
				hs[i] = newHost(hosts[i], dur)
				hs[i].zone = z[i]
				for k := 0; k < 6; k++ {
					hs[i].aggs = append(hs[i].aggs, newAggM(base.Add(time.Duration(k)*dur)))
					hs[i].work(k, k+i)
				}
			}
			n := depth(2, 3)
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				full := hs[h].report()
				r := &hdResp{inst: full.inst, dur: dur, zone: full.zone}
				if p < n {
					for _, k := range subsets[mc.Choose(depth(7, 9))] {
						r.aggs = append(r.aggs, full.aggs[k])
					}
				}
				if z := r.zone; z != nil { // another *time.Location every time
					_, off := time.Now().In(z).Zone()
					r.zone = time.FixedZone("", off)
				}
				c.Reply = r.body()
				return r
			})
			for p := 0; p <= n; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C25", Name: "durations", Doc: "two hosts with every pair of interval durations out of 7 (usual, mismatching, zero, negative, huge) and either answering first: only those with the duration in use (the first valid one) contribute, the duration shown is the one in use",
		Cfg: q, Body: func() {
			durs := []time.Duration{time.Minute, 2 * time.Minute, 30 * sec, 0, -time.Minute, 1, 119 * time.Minute}
			hosts := []string{"a:1", "b:1"}
			hs := make([]*hdHost, 2)
			for i := range hs {
				hs[i] = newHost(hosts[i], durs[mc.Choose(len(durs))], hdBase)
				hs[i].work(0, i)
			}
			first := mc.Choose(2)
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				if h != first {
					c.Delay = sec
				}
				hs[h].work(0, 3*p+h)
				r := hs[h].report()
				c.Reply = r.body()
				return r
			})
			for p := 0; p < 3; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
				till(time.Duration(p)*10*sec + sec + ms)
				w.check(fmt.Sprint("poll ", p, " over"))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C25", Name: "changes", Doc: "one or two hosts that report any of 4 interval durations (usual, shorter, longer, zero) in each of 3 polls (thorough 4): the first valid one stays in use, what comes with another does not contribute",
		Cfg: q, Shards: 2, Body: func() {
			durs := []time.Duration{time.Minute, 30 * sec, 2 * time.Minute, 0}
			hosts := []string{"a:1", "b:1"}[:1+mc.Choose(2)]
			hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
			n := depth(3, 4)
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				if p < n {
					hs[h].dur = durs[mc.Choose(len(durs))]
				}
				hs[h].work(0, 3*p+h)
				c.Delay = time.Duration(h) * sec
				r := hs[h].report()
				c.Reply = r.body()
				return r
			})
			for p := 0; p <= n; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
				till(time.Duration(p)*10*sec + sec + ms)
				w.check(fmt.Sprint("poll ", p, " over"))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C25", Name: "full", Doc: "a host that reports more short intervals than fit in two hours, at once or the newer ones in the next poll, some changing later: as many as fit are served, the newest",
		Cfg: mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: time.Hour, MaxSteps: 1 << 26}, Shards: 4, Body: func() {
			dur := []time.Duration{4 * sec, 15 * sec}[mc.Choose(2)]
			max := int(2 * time.Hour / dur)
			first := []int{max + 50, max, max / 2}[mc.Choose(3)]
			h := newHost("a", dur)
			base := mc.DefaultBase.Truncate(dur).Add(-2 * time.Hour)
			for i := 0; i < max+50; i++ {
				h.aggs = append(h.aggs, newAggM(base.Add(time.Duration(i)*dur)))
				h.aggs[i].apply(ev("j", fmt.Sprint("e", i%3)))
			}
			w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp {
				r := h.report()
				if n == 0 {
					r.aggs = r.aggs[:first]
				}
				c.Reply = r.body()
				return r
			})
			for p := 0; p < 2; p++ {
				till(time.Duration(p)*10*sec + ms)
				w.check(fmt.Sprint("poll ", p))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C25", Name: "hours", Doc: "3 hours of virtual time with intervals of 5, 10 and 30 minutes, a host reporting its last 3 intervals in a foreign zone, dying after 1 h in one variant: bounded window, old intervals unchanged",
		Cfg: mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: 100 * time.Hour, MaxSteps: 1 << 24}, Shards: 6, Body: func() {
			dur := []time.Duration{5 * time.Minute, 10 * time.Minute, 30 * time.Minute}[mc.Choose(3)]
			dies := mc.Choose(2) == 1
			hosts := []string{"a:1", "b:1"}
			base := mc.DefaultBase.Truncate(dur)
			hs := []*hdHost{newHost("a", dur), newHost("b", dur)}
			hs[0].zone = time.FixedZone("", 5*3600)
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				x := hs[h]
				cur := mc.Now().Truncate(dur)
				if len(x.aggs) == 0 || x.aggs[len(x.aggs)-1].Start.Before(cur) {
					x.aggs = append(x.aggs, newAggM(cur))
					if len(x.aggs) > 3 {
						x.aggs = x.aggs[1:]
					}
				}
				if n%7 == h {
					x.work(len(x.aggs)-1, n)
				}
				if h == 1 && dies && mc.Now().Sub(base) > time.Hour {
					c.Err = mc.ErrConn
					return nil
				}
				r := x.report()
				c.Reply = r.body()
				return r
			})
			for t := ms; t < depth2(3*time.Hour, 9*time.Hour); t += 130 * sec {
				till(t)
				w.check("long run")
			}
			w.d.Stop()
		}})

	// ------------------------------------------------------------- C26
	add(&Scn{Prop: "C26", Name: "histories", Doc: "every sequence of 18 behaviours of a host over 3 polls (thorough 4), a second host rotating through them, a third never answering: all documented fields of the host list after every poll",
		Cfg: q, Shards: 4, DeepShards: 16, Body: func() {
			hosts := []string{"m:1", "a:9", "m:1", "zz:1"}
			n := depth(3, 4)
			hs := []*hdHost{newHost("m", time.Minute, hdBase), newHost("a", time.Minute, hdBase), newHost("zz", time.Minute, hdBase)}
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				b := 2
				switch h {
				case 0:
					if p < n {
						b = mc.Choose(nBehaveAll)
					}
				case 1:
					b = (p*3 + 1) % nBehaveAll
				}
				c.BodyDelay = time.Duration(h) * 7 * ms
				return behave(hs[h], b, p, c)
			})
			first := make([]time.Time, 3)
			last := make([]time.Time, 3)
			w.checkHosts(first, last, true)
			for p := 0; p < n; p++ {
				for _, d := range []time.Duration{500 * ms, 6 * sec} {
					till(time.Duration(p)*10*sec + d)
					mc.WaitIdle()
					w.checkHosts(first, last, false)
				}
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C26", Name: "many", Doc: "0, 1, 2, 20 and 300 hosts in awkward order, all answering, refusing, breaking off, hanging, or each something else, over two polls: each once, sorted by host and port, with its state", Cfg: q, Body: func() {
		n := []int{0, 1, 2, 20, 300}[mc.Choose(5)]
		how := []int{0, 2, 10, 9, -1}[mc.Choose(5)]
		var hosts []string
		for i := 0; i < n; i++ {
			hosts = append(hosts, fmt.Sprintf("h%d.example:%d", (i*7919)%n, 1000+i%3))
		}
		w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
			b := how
			if b < 0 || p > 0 {
				b = (h + p*7) % nBehaveAll
			}
			return behave(newHost("x", time.Minute, hdBase), b, 0, c)
		})
		first, last := make([]time.Time, len(w.hosts)), make([]time.Time, len(w.hosts))
		if how == 0 {
			mc.Sleep(ms)
			w.checkHosts(first, last, false)
		}
		for p := 0; p < 2; p++ {
			till(time.Duration(p)*10*sec + 8*sec)
			mc.WaitIdle()
			w.checkHosts(first, last, false)
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C26", Name: "undecodable", Doc: "good answers with each of 17 things before or after them, or rewritten so that they are no JSON, in the first or second of three polls: an error with no data, the next answer is fine again", Cfg: q, Body: func() {
		wraps := []func(string) string{
			func(s string) string { return "\xef\xbb\xbf" + s },
			func(s string) string { return ")]}',\n" + s },
			func(s string) string { return "while(1);" + s },
			func(s string) string { return "cb(" + s + ")" },
			func(s string) string { return s + ";" },
			func(s string) string { return s + s },
			func(s string) string { return s + "\n{}" },
			func(s string) string { return s + "\x00" },
			func(s string) string { return "\x00" + s },
			func(s string) string { return "// c\n" + s },
			func(s string) string { return s + "/* c */" },
			func(s string) string { return strings.ReplaceAll(s, `"`, "'") },
			func(s string) string { return s[:len(s)-1] + ",}" },
			func(s string) string { return s[:len(s)-1] },
			func(s string) string { return "[" + s + "]" },
			func(s string) string { return strings.Join(strings.Split(s, ""), "\x00") + "\x00" },
			func(s string) string { return fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(s), s) },
		}
		wrap, when := wraps[mc.Choose(len(wraps))], mc.Choose(2)
		h := newHost("x", time.Minute, hdBase)
		w := startHD([]string{"x:1"}, func(_, p int, c *mc.HTTPCall) *hdResp {
			h.work(0, p)
			r := behave(h, 0, p, c)
			if p == when {
				c.Reply = []byte(wrap(string(c.Reply)))
				return nil
			}
			return r
		})
		first, last := make([]time.Time, 1), make([]time.Time, 1)
		for p := 0; p < 3; p++ {
			till(time.Duration(p)*10*sec + ms)
			mc.WaitIdle()
			w.checkHosts(first, last, false)
			w.check(fmt.Sprint("poll ", p))
		}
		w.d.Stop()
	}})
}

func depth2(a, b time.Duration) time.Duration {
	if deep {
		return b
	}
	return a
}

type rawHost struct {
	HostPort *string        `json:"host_port"`
	Check    *time.Time     `json:"last_check_time"`
	Inst     *string        `json:"last_instance_id"`
	Dur      *time.Duration `json:"last_interval_duration"`
	Err      *string        `json:"last_err"`
	Nanos    *int64         `json:"last_nanos"`
	Code     *int           `json:"last_code"`
	First    *time.Time     `json:"first_successful_response"`
	Last     *time.Time     `json:"last_successful_response"`
}

// checkHosts compares the host list with what was answered. first and last
// hold each host's success times.
func (w *hdW) checkHosts(first, last []time.Time, early bool) {
	b := w.get("/healthd/hosts")
	var v struct {
		Id    *string        `json:"instance_id"`
		Dur   *time.Duration `json:"interval_duration"`
		Hosts []rawHost      `json:"hosts"`
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&v); err != nil || v.Id == nil || v.Dur == nil {
		mc.Fail("/healthd/hosts: not the documented JSON (%v): %s", err, tail(string(b), 300))
	}
	// success times, from all answers until now
	t := mc.VNow()
	sort.SliceStable(w.queue, func(i, j int) bool { return w.queue[i].at < w.queue[j].at })
	for _, a := range w.queue {
		if a.at <= t && a.resp != nil {
			at := mc.DefaultBase.Add(a.at)
			if first[a.host].IsZero() {
				first[a.host] = at
			}
			last[a.host] = at
		}
	}
	w.catchUp()
	if len(v.Hosts) != len(w.hosts) {
		mc.Fail("%d hosts are listed, %d monitored", len(v.Hosts), len(w.hosts))
	}
	for i, x := range v.Hosts {
		if x.HostPort == nil || x.Check == nil || x.Inst == nil || x.Dur == nil || x.Err == nil || x.Nanos == nil || x.Code == nil || x.First == nil || x.Last == nil {
			mc.Fail("/healthd/hosts: a field is missing: %s", tail(string(b), 300))
		}
		if i > 0 && *v.Hosts[i-1].HostPort >= *x.HostPort {
			mc.Fail("host list not sorted: %q, %q", *v.Hosts[i-1].HostPort, *x.HostPort)
		}
		h := w.idx(*x.HostPort)
		if early {
			continue
		}
		if !x.First.Equal(first[h]) || !x.Last.Equal(last[h]) {
			mc.Fail("%s at %v: first/last success shown %v / %v, want %v / %v", *x.HostPort, t, *x.First, *x.Last, first[h], last[h])
		}
		a := w.last[h]
		if a == nil {
			if !x.Check.IsZero() || *x.Err != "" || *x.Code != 0 || *x.Inst != "" {
				mc.Fail("%s was not checked yet, but the list shows %s", *x.HostPort, jsonOf(x))
			}
			continue
		}
		if !x.Check.Equal(mc.DefaultBase.Add(a.c.At)) {
			mc.Fail("%s: last check shown at %v, was at %v", *x.HostPort, *x.Check, a.c.At)
		}
		if a.resp != nil {
			if *x.Err != "" || *x.Code != 200 || *x.Inst != a.resp.inst || *x.Dur != a.resp.dur || *x.Nanos != int64(a.at-a.c.At) {
				mc.Fail("%s answered well, but the list shows %s", *x.HostPort, jsonOf(x))
			}
		} else {
			if a.c.Answered && *x.Code != a.c.Status {
				mc.Fail("%s answered status %d, shown %d", *x.HostPort, a.c.Status, *x.Code)
			}
			if a.c.Answered && *x.Nanos != int64(a.at-a.c.At) {
				mc.Fail("%s took %v, shown %d ns", *x.HostPort, a.at-a.c.At, *x.Nanos)
			}
			switch {
			case a.c.Answered && a.c.Status != 200 && a.c.BodyErr == nil && !a.c.BodyHang:
				// nothing went wrong but the status
			case *x.Err == "":
				mc.Fail("%s failed, but no error is shown: %s", *x.HostPort, jsonOf(x))
			case a.c.Err != nil && !strings.Contains(*x.Err, a.c.Err.Error()):
				mc.Fail("%s: error shown %q, was %q", *x.HostPort, *x.Err, a.c.Err)
			}
			// of the answer itself, if it could be read; never of an earlier one
			inst, dur := "", time.Duration(0)
			if a.c.Answered && a.c.BodyErr == nil && !a.c.BodyHang {
				var v rawResp
				if json.Unmarshal(a.c.Reply, &v) == nil && v.Id != nil && v.Duration != nil {
					inst, dur = *v.Id, *v.Duration
				}
			}
			if *x.Inst != "" && *x.Inst != inst || *x.Dur != 0 && *x.Dur != dur {
				mc.Fail("%s failed, but an instance or duration is shown which this answer did not give: %s", *x.HostPort, jsonOf(x))
			}
			if !a.c.Answered && *x.Code != 0 {
				mc.Fail("%s gave no answer, but status %d is shown", *x.HostPort, *x.Code)
			}
		}
	}
}
