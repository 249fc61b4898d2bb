//go:build healthd

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"verif/mc"
)

// weird are answers with status 200 that no health sink gives.
func weird() []string {
	st := hdBase.Format(time.RFC3339)
	wrap := func(agg string) string {
		return `{"instance_id":"w","interval_duration":60000000000,"aggregations":[` + agg + `]}`
	}
	agg := func(rest string) string {
		return wrap(`{"interval_start":"` + st + `","serial_number":1` + rest + `}`)
	}
	return []string{
		"", "null", "{}", "[]", "0", `"x"`, "true", "{", "\x00", "not json", `{"aggregations":null}`,
		`{"interval_duration":0,"aggregations":[]}`,
		`{"interval_duration":-1,"aggregations":[]}`,
		`{"interval_duration":1,"aggregations":[]}`,
		`{"interval_duration":9223372036854775807,"aggregations":[]}`,
		`{"interval_duration":-9223372036854775808,"aggregations":[]}`,
		`{"interval_duration":"1m","aggregations":[]}`,
		`{"interval_duration":60000000000}`,
		`{"interval_duration":60000000000,"aggregations":null}`,
		`{"interval_duration":60000000000,"aggregations":{}}`,
		`{"instance_id":null,"interval_duration":60000000000,"aggregations":[]}`,
		`{"instance_id":7,"interval_duration":60000000000,"aggregations":[]}`,
		`{"interval_duration":0,"aggregations":[{"interval_start":"` + st + `"}]}`,
		`{"interval_duration":-60000000000,"aggregations":[{"interval_start":"` + st + `"}]}`,
		`{"aggregations":[{"interval_start":"` + st + `"}]}`,
		wrap("null"), wrap("null,null"), wrap("{}"), wrap("{},{}"), wrap("[]"), wrap("7"), wrap(`{"interval_start":null}`), wrap(`{"interval_start":"yesterday"}`),
		wrap(`{"interval_start":"0001-01-01T00:00:00Z"}`), wrap(`{"interval_start":"9999-12-31T23:59:59Z"}`), wrap(`{"interval_start":"2011-09-09T23:36:00.5+14:00"}`),
		agg(""), agg(`,"jobs":null,"timers":null,"gauges":null,"events":null,"event_errs":null`),
		agg(`,"jobs":{"j":null}`), agg(`,"jobs":{"j":{}}`), agg(`,"jobs":{"j":7}`), agg(`,"jobs":[]`),
		agg(`,"jobs":{"":null,"k":{"count":3}}`),
		agg(`,"timers":{"t":null}`), agg(`,"timers":{"t":{}}`), agg(`,"timers":{"t":{"count":-1}}`),
		agg(`,"event_errs":{"e":null}`), agg(`,"event_errs":{"e":{}}`), agg(`,"event_errs":{"e":{"count":null}}`),
		agg(`,"events":{"e":null}`), agg(`,"gauges":{"g":null}`), agg(`,"gauges":{"g":1e400}`), agg(`,"events":{"e":1.5}`),
		agg(`,"jobs":{"j":{"timers":{"t":null},"event_errs":{"e":null},"events":{"e":1}}}`),
		agg(`,"jobs":{"job":{"timers":null,"gauges":null,"events":null,"event_errs":null}}`),
		agg(`,"jobs":{"job":{"count":-5,"nanos_sum":-9223372036854775808,"nanos_sum_squares":-1,"nanos_min":5,"nanos_max":-5}}`),
		agg(`,"jobs":{"job":{"count":9223372036854775807,"nanos_sum":9223372036854775807,"nanos_sum_squares":1}}`),
		agg(`,"unknown":{"deep":[[[[{}]]]]}`),
		agg(`,"serial_number":-1`) + "trailing",
	}
}

var apiPaths = []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs", "/healthd/jobs?sort=name&limit=2", "/healthd/jobs?sort=stddev", "/healthd/hosts"}

func c27polls(w *hdW, n int, what string) {
	for h, k := range w.n {
		if k != n {
			mc.Fail("%s: host %s was asked %d times in %v, want %d", what, w.hosts[h], k, mc.VNow(), n)
		}
	}
}

func init() {
	q := mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: 10 * time.Minute}
	add(&Scn{Prop: "C27", Name: "bodies", Doc: "each of about 60 answers no health sink gives (missing, zero, negative, huge, wrongly typed or null parts, no JSON), alone or while a good host is monitored, before, between or after good answers: no crash, polling and API go on, the good host is served, Stop returns",
		Cfg: q, Shards: 4, Body: func() {
			ws := weird()
			body := ws[mc.Choose(len(ws))]
			when := mc.Choose(3)
			alone := mc.Choose(2) == 1
			code := []int{200, 500}[mc.Choose(2)]
			mc.Logf("body %s at poll %d, alone %v, status %d", body, when, alone, code)
			hosts := []string{"w:1", "good:1"}
			if alone {
				hosts = hosts[:1]
			}
			hs := []*hdHost{newHost("w", time.Minute, hdBase), newHost("good", time.Minute, hdBase)}
			hs[1].aggs[0].apply(ev("goodjob", "goodevent"))
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				if h == 0 && n == when {
					c.Reply = []byte(body)
					c.Status = code
					return nil
				}
				if h == 1 {
					// the duration in use is the good one's when it comes first
					if when == 0 && n == 0 {
						c.Delay = 10 * ms
					}
				} else {
					hs[0].work(0, n)
				}
				r := hs[h].report()
				c.Reply = r.body()
				return r
			})
			for p := 0; p < 4; p++ {
				till(time.Duration(p)*10*sec + 20*ms)
				mc.WaitIdle()
				c27polls(w, p+1, fmt.Sprintf("after %q", tail(body, 100)))
				for _, path := range apiPaths {
					w.get(path)
				}
			}
			l, dur := w.served()
			if !alone && dur == time.Minute {
				ok := false
				for _, a := range l {
					ok = ok || a.Start.Equal(hdBase) && a.Jobs["goodjob"] != nil && a.Jobs["goodjob"].Events["goodevent"] == 1
				}
				if !ok {
					mc.Fail("after %q from another host the data of the good host is not served: %d intervals", tail(body, 100), len(l))
				}
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C27", Name: "many", Doc: "1..140 hosts of which one answers after d in 20 steps up to the time limit and the others all hang, answer or fail at the same moment (timeout, 0 s, 2.1 s, 4.9 s): polling never stops, everything answered is served",
		Cfg: mc.Cfg{NoPreempt: true, FreeCost: 9, CaseCost: 1, Bound: 0, Horizon: 10 * time.Minute, MaxSteps: 1 << 22}, Shards: 8, Body: func() {
			n := []int{1, 2, 30, 64, 65, 66, 67, 70, 100, 140}[mc.Choose(10)]
			d := time.Duration(mc.Choose(20)) * 250 * ms
			mode := mc.Choose(4)
			hosts := make([]string, n)
			hs := make([]*hdHost, n)
			for i := range hosts {
				hosts[i] = fmt.Sprintf("h%03d:1", i)
				hs[i] = newHost(hosts[i], time.Minute, hdBase)
				hs[i].aggs[0].apply(ev("job", "ev"))
			}
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				if h == 0 {
					c.Delay = d
				} else {
					switch mode {
					case 0:
						c.Hang = true
						return nil
					case 1:
						c.Delay = 2100 * ms
					case 2:
						c.Delay = 4900 * ms
						if p%2 == 0 {
							c.Err = mc.ErrConn
							return nil
						}
					}
				}
				hs[h].aggs[0].apply(ev("job", "ev"))
				r := hs[h].report()
				c.Reply = r.body()
				return r
			})
			for p := 0; p < 3; p++ {
				till(time.Duration(p)*10*sec + 9*sec)
				mc.WaitIdle()
				c27polls(w, p+1, fmt.Sprintf("%d hosts", n))
				w.check(fmt.Sprintf("%d hosts", n))
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C27", Name: "stop", Doc: "Stop called at 9 times with hosts answering, hanging or failing and three API requests in progress or starting around it: all schedules with up to 1 (thorough 2) deviations; Stop and every request return, no poll starts afterwards",
		Cfg: conc(1), Deep: concP(2), Shards: 8, DeepShards: 32, Body: func() {
			at := []time.Duration{0, ms, 299 * ms, 3 * sec, 5 * sec, 9900 * ms, 10 * sec, 13 * sec, 15 * sec}[mc.Choose(9)]
			hang := mc.Choose(2) == 1
			hosts := []string{"a:1", "b:1"}
			hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
			w := startHD(hosts, func(h, n int, c *mc.HTTPCall) *hdResp {
				if h == 1 && hang {
					c.Hang = true
					return nil
				}
				c.Delay = time.Duration(h) * 3 * sec
				return behave(hs[h], 1, n, c)
			})
			till(at)
			done := 0
			get := func(path string) func() {
				return func() {
					r := httpGet(w.h, path)
					if r.Code != 200 || !json.Valid(r.Body.Bytes()) {
						mc.Fail("GET %s around Stop: status %d %s", path, r.Code, tail(r.Body.String(), 200))
					}
					done++
				}
			}
			par(func() { w.d.Stop() }, get("/healthd/aggregations"), get("/healthd/hosts"), get("/healthd/jobs"))
			if done != 3 {
				mc.Fail("%d of 3 requests answered", done)
			}
			// later requests get an answer, too
			get("/healthd/aggregations")()
			get("/healthd/hosts")()
			mc.Sleep(sec) // a poll may have been about to start
			n := len(mc.S.Env.Calls)
			mc.Sleep(30 * sec)
			if len(mc.S.Env.Calls) != n {
				mc.Fail("%d hosts were asked long after Stop had returned", len(mc.S.Env.Calls)-n)
			}
		}})
	add(&Scn{Prop: "C27", Name: "requests", Doc: "1, 17, 20 (thorough: 40) API requests at once while hosts answer, and again after Stop: all are answered", Cfg: conc(1), Shards: 8, Body: func() {
		n := []int{1, 17, 20, 40}[mc.Choose(depth(3, 4))]
		stop := mc.Choose(2)
		hs := newHost("a", time.Minute, hdBase)
		w := startHD([]string{"a:1"}, func(h, n int, c *mc.HTTPCall) *hdResp { return behave(hs, 1, n, c) })
		var fs []func()
		got := 0
		for i := 0; i < n; i++ {
			p := []string{"/healthd/aggregations", "/healthd/hosts"}[i%2]
			fs = append(fs, func() {
				if r := httpGet(w.h, p); r.Code == 200 && json.Valid(r.Body.Bytes()) {
					got++
				}
			})
			if i == n/2 && stop == 1 {
				fs = append(fs, func() { w.d.Stop() })
			}
		}
		par(fs...)
		if got != n {
			mc.Fail("%d of %d requests were answered with JSON", got, n)
		}
		if stop == 0 {
			w.d.Stop()
		}
	}})
	add(&Scn{Prop: "C27", Name: "behaviours", Doc: "every sequence of 4 behaviours (of 11) of one of two hosts: each host is asked at once and then every 10 s, API answers throughout", Cfg: q, Shards: 4, DeepShards: 8, Body: func() {
		hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
		n := depth(3, 4)
		w := startHD([]string{"a:1", "b:1"}, func(h, p int, c *mc.HTTPCall) *hdResp {
			b := (p + 4) % nBehave
			if h == 0 && p < n {
				b = mc.Choose(nBehave)
			}
			return behave(hs[h], b, p, c)
		})
		for p := 0; p < n+1; p++ {
			till(time.Duration(p)*10*sec + 400*ms)
			mc.WaitIdle()
			c27polls(w, p+1, "polling")
			w.get("/healthd/jobs")
			w.get("/healthd/hosts")
		}
		w.d.Stop()
	}})

	// ------------------------------------------------------------- C28
	sortKeys := []string{"name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "min", "max", "stddev", "", "nonsense"}
	limits := []string{"", "0", "1", "2", "3", "10", "1000", "-1", "x", "99999999999999999999", "010", "0x2", "1_0", "2.0"}
	sets := func() [][]*aggM {
		mk := func(at int, ops ...op) *aggM {
			a := newAggM(hdBase.Add(time.Duration(at) * time.Minute))
			for _, o := range ops {
				a.apply(o)
			}
			return a
		}
		var many, names []op
		for i := 0; i < 40; i++ {
			many = append(many, co(fmt.Sprintf("j%02d", (i*17)%40), statuses[i%5], int64((i*31)%17)), co(fmt.Sprintf("j%02d", i), health.Success, int64(i)))
		}
		for i, n := range awkward {
			names = append(names, co(n, statuses[i%5], int64(i)), ev(n, n))
		}
		same := []op{}
		for i := 0; i < 7; i++ {
			same = append(same, co("same", health.Success, 1234567891), co("same2", health.Error, 100000001), co("neg", health.Junk, -77))
		}
		long := []op{}
		for i := 0; i < 12; i++ {
			long = append(long, co(strings.Repeat("long/name ", 7+i%3*20)+fmt.Sprint(i*7%12), health.Success, 5))
		}
		huge := mk(0, co("huge", health.Success, 1000), co("huge2", health.Junk, 1000), co("one", health.Success, 1000))
		huge.Jobs["huge"].T = timerM{6000000000, 9000000000000, 2e16, -5, 1 << 40}
		huge.Jobs["huge"].Counts = [5]int64{5999999999, 0, 1}
		huge.Jobs["huge2"].T = timerM{1<<31 + 1, 1<<31 + 1, 4e15, 1, 1 << 50}
		huge.Jobs["huge2"].Counts = [5]int64{0, 0, 0, 0, 1<<31 + 1}
		return [][]*aggM{
			{},
			{mk(0, long...)},
			{huge},
			{mk(0)},
			{mk(0, ev("onlyevents", "e"))},
			{mk(0, co("a", health.Success, 5))},
			{mk(0, co("a", health.Success, 5), co("b", health.Panic, 50), co("c", health.Error, 500), co("c", health.Error, 100), co("a", health.Junk, 1), co("b", health.ValidationError, 7), co("c", health.Success, 9), ev("d", "e")),
				mk(1, co("b", health.Success, 6), co("a", health.Success, 77), ga("a", "g", 2), ti("z", "t", 9))},
			{mk(-2, many...), mk(0, many[:11]...), mk(1, many[5:]...)},
			{mk(0, names...)},
			{mk(0, same...)},
			{mk(0, co("big", health.Success, 3000000000000), co("big", health.Success, 3000000000001), co("big", health.Success, 2999999999999), co("small", health.Success, 1))},
		}
	}
	add(&Scn{Prop: "C28", Name: "jobs", Doc: "11 data sets (none, empty, single, ties, many jobs over 3 intervals, awkward names, equal durations whose variance rounds below zero, large ones, long names, counts of billions) x 14 sort keys x 14 limits: every listed job's figures against exact arithmetic, order and limit",
		Cfg: q, Shards: 4, Body: func() {
			ss := sets()
			s := ss[mc.Choose(len(ss))]
			key, limit := sortKeys[mc.Choose(len(sortKeys))], limits[mc.Choose(len(limits))]
			h := newHost("a", time.Minute)
			h.aggs = s
			w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp { return behave(h, 0, n, c) })
			mc.Sleep(ms)
			v := url.Values{}
			if key != "" {
				v.Set("sort", key)
			}
			if limit != "" {
				v.Set("limit", limit)
			}
			path := "/healthd/jobs?" + v.Encode()
			checkJobs(w, path, s, key, limit)
			w.d.Stop()
		}})
	add(&Scn{Prop: "C28", Name: "limits", Doc: "300 jobs, 14 limits around powers of two and the number of jobs, 4 sort keys", Cfg: q, Body: func() {
		a := newAggM(hdBase)
		for i := 0; i < 300; i++ {
			a.apply(co(fmt.Sprint("j", i*7%300), statuses[i%5], int64(i*i%1000)))
		}
		h := newHost("a", time.Minute)
		h.aggs = []*aggM{a}
		w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp { return behave(h, 0, n, c) })
		mc.Sleep(ms)
		for _, limit := range []string{"", "9", "127", "128", "129", "255", "256", "257", "299", "300", "301", "32768", "65537", "2147483648", "4294967297"} {
			for _, key := range []string{"", "name", "total_time", "stddev"} {
				v := url.Values{}
				if key != "" {
					v.Set("sort", key)
				}
				if limit != "" {
					v.Set("limit", limit)
				}
				checkJobs(w, "/healthd/jobs?"+v.Encode(), h.aggs, key, limit)
			}
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C28", Name: "overall", Doc: "the 11 data sets, split over 1 or 2 hosts: overall is the merge of all served intervals, aggregations the intervals; before any answer, too",
		Cfg: q, Body: func() {
			ss := sets()
			s := ss[mc.Choose(len(ss))]
			n := 1 + mc.Choose(2)
			late := mc.Choose(2) == 1
			var hosts []string
			for i := 0; i < n; i++ {
				hosts = append(hosts, fmt.Sprint("h", i, ":1"))
			}
			w := startHD(hosts, func(h, p int, c *mc.HTTPCall) *hdResp {
				if late {
					c.Delay = sec
				}
				x := newHost(hosts[h], time.Minute)
				for i, a := range s {
					if i%n == h {
						x.aggs = append(x.aggs, a)
					}
				}
				return behave(x, 0, p, c)
			})
			overall := func() *aggM {
				var v struct {
					Overall *rawAgg `json:"overall"`
				}
				b := w.get("/healthd/aggregations/overall")
				if err := json.Unmarshal(b, &v); err != nil {
					mc.Fail("overall: %v: %s", err, tail(string(b), 300))
				}
				if v.Overall == nil {
					return nil
				}
				return v.Overall.conv()
			}
			if late {
				if o := overall(); o != nil && o.content() != "" {
					mc.Fail("overall is not empty before any host answered: %s", o.content())
				}
				if l, _ := w.served(); len(l) > 0 {
					mc.Fail("intervals served before any host answered")
				}
				checkJobs(w, "/healthd/jobs", nil, "", "")
				mc.Sleep(sec)
			}
			mc.Sleep(ms)
			w.check("one poll")
			o := overall()
			if len(s) == 0 {
				if o != nil && o.content() != "" {
					mc.Fail("overall is %s, nothing was reported", o.content())
				}
			} else {
				if o == nil {
					mc.Fail("overall is missing")
				}
				o.Start = s[0].Start
				if d := mergeDiff(o, s); d != "" {
					mc.Fail("overall is not the merge of all intervals:%s", d)
				}
			}
			w.d.Stop()
		}})
	add(&Scn{Prop: "C28", Name: "paths", Doc: "unknown paths (near misses of known ones) get 404 and a JSON error, known ones 200", Cfg: q, Body: func() {
		h := newHost("a", time.Minute, hdBase)
		w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp { return behave(h, 1, n, c) })
		mc.Sleep(ms)
		for _, p := range apiPaths {
			w.get(p)
		}
		for _, p := range []string{"/", "/healthd", "/health", "/jobs", "/healthd/job", "/healthd/jobs/x", "/healthd/aggregation", "/healthd/aggregations/overal", "/healthd/aggregations/overall/x", "/healthd/hosts2", "/HEALTHD/jobs", "/%25s"} {
			r := httpGet(w.h, p)
			if r.Code != 404 || !json.Valid(r.Body.Bytes()) {
				mc.Fail("GET %s: status %d, body %s", p, r.Code, tail(r.Body.String(), 200))
			}
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C28", Name: "requests", Doc: "every endpoint with each of 40 query parameters it does not have and 14 values, with each of 20 header sets and in HTTP/1.0 and HTTP/2: the same JSON as without", Cfg: q, Body: func() {
		h := newHost("a", time.Minute, hdBase, hdBase.Add(time.Minute))
		w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp { h.work(n%2, n); return behave(h, 0, n, c) })
		mc.Sleep(ms)
		keys := strings.Fields("pretty indent compact raw format fmt f output type callback jsonp cb n max count offset page since from start until to end last job jobs name names filter event q query order fields only verbose debug v version reset desc Sort LIMIT")
		vals := []string{"", "0", "1", "-1", "true", "false", "text", "html", "json", "xml", "csv", "x", "desc", "name"}
		hs := []http.Header{
			{"If-None-Match": {"*"}}, {"If-None-Match": {`W/"x"`, `"y"`}}, {"If-Modified-Since": {"Fri, 09 Sep 2044 23:36:00 GMT"}}, {"If-Modified-Since": {"Thu, 01 Jan 1970 00:00:00 GMT"}},
			{"If-Match": {`"z"`}}, {"If-Unmodified-Since": {"Thu, 01 Jan 1970 00:00:00 GMT"}}, {"Range": {"bytes=0-9"}}, {"Range": {"bytes=5-"}, "If-Range": {`"q"`}},
			{"Accept": {"text/html"}}, {"Accept": {"text/plain;q=0.5, */*;q=0.1"}}, {"Accept": {""}}, {"Accept": {"application/xml"}}, {"Accept-Charset": {"latin1"}}, {"Accept-Language": {"de"}},
			{"Cache-Control": {"only-if-cached, max-stale=100000"}}, {"Expect": {"100-continue"}}, {"X-Forwarded-Host": {"evil"}, "X-Original-Url": {"/other"}, "X-Http-Method-Override": {"DELETE"}}, {"Cookie": {"a=b; a=c"}, "Authorization": {"Basic eDp5"}}, {"Origin": {"http://else.where"}, "Access-Control-Request-Method": {"GET"}}, {"Connection": {"close"}, "Upgrade": {"h2c"}, "User-Agent": {"x"}},
		}
		paths := []string{"/healthd/aggregations", "/healthd/aggregations/overall", "/healthd/jobs?sort=name", "/healthd/jobs?sort=name&limit=1", "/healthd/hosts"}
		for _, p := range paths {
			want := string(w.get(p))
			try := func(what string, r *http.Request) {
				rw := httptest.NewRecorder()
				w.h.ServeHTTP(rw, r)
				if rw.Code != 200 || !isJSONType(rw.Header()) || rw.Body.String() != want {
					mc.Fail("GET %s: status %d, content type %q,%s", what, rw.Code, rw.Header().Get("Content-Type"), diff(rw.Body.String(), want))
				}
			}
			for _, k := range keys {
				for _, v := range vals {
					u := p + "?" + k + "=" + v
					if strings.Contains(p, "?") {
						u = p + "&" + k + "=" + v
					}
					try(u, httptest.NewRequest("GET", u, nil))
				}
			}
			for _, hd := range hs {
				r := httptest.NewRequest("GET", p, nil)
				for k, v := range hd {
					r.Header[k] = v
				}
				try(fmt.Sprintf("%s with %v", p, hd), r)
			}
			for i := 0; i < 3; i++ {
				r := httptest.NewRequest("GET", p, nil)
				r.Proto, r.ProtoMajor, r.ProtoMinor = []string{"HTTP/1.0", "HTTP/2.0", "HTTP/1.1"}[i], 1+i%2, 0
				r.RemoteAddr, r.Host = "[::1]:9", []string{"", "other.example:99", "LOCALHOST"}[i]
				try(p+" in "+r.Proto, r)
			}
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C28", Name: "numbers", Doc: "a job over all multisets of up to 4 durations out of 9 (negative, zero, equal, large): count, sum, squares, min, max, mean, standard deviation exact to rounding", Cfg: q, Shards: 4, Body: func() {
		ds := []int64{0, 1, 2, -5, 999999999, 1000000000, 1234567890123, 100000001, 3}
		a := newAggM(hdBase)
		n := 1 + mc.Choose(4)
		from := 0
		for i := 0; i < n; i++ {
			from += mc.Choose(len(ds) - from)
			a.apply(co("j", statuses[i%5], ds[from]))
		}
		h := newHost("a", time.Minute)
		h.aggs = []*aggM{a}
		w := startHD([]string{"a:1"}, func(_, n int, c *mc.HTTPCall) *hdResp { return behave(h, 0, n, c) })
		mc.Sleep(ms)
		checkJobs(w, "/healthd/jobs", h.aggs, "", "")
		w.d.Stop()
	}})
}

type rawApiJob struct {
	Name   *string  `json:"name"`
	Count  *int64   `json:"count"`
	S      *int64   `json:"count_success"`
	V      *int64   `json:"count_validation_error"`
	P      *int64   `json:"count_panic"`
	E      *int64   `json:"count_error"`
	J      *int64   `json:"count_junk"`
	Sum    *int64   `json:"nanos_sum"`
	Sq     *float64 `json:"nanos_sum_squares"`
	Min    *int64   `json:"nanos_min"`
	Max    *int64   `json:"nanos_max"`
	Avg    *float64 `json:"nanos_avg"`
	StdDev *float64 `json:"nanos_std_dev"`
}

func (j *rawApiJob) key(k string) float64 {
	switch k {
	case "count":
		return float64(*j.Count)
	case "count_success":
		return float64(*j.S)
	case "count_validation_error":
		return float64(*j.V)
	case "count_panic":
		return float64(*j.P)
	case "count_error":
		return float64(*j.E)
	case "count_junk":
		return float64(*j.J)
	case "total_time":
		return float64(*j.Sum)
	case "avg":
		return *j.Avg
	case "min":
		return float64(*j.Min)
	case "max":
		return float64(*j.Max)
	case "stddev":
		return *j.StdDev
	}
	return 0
}

// checkJobs compares the jobs endpoint with the merge of parts.
func checkJobs(w *hdW, path string, parts []*aggM, key, limit string) {
	b := w.get(path)
	var v struct {
		Id   *string         `json:"instance_id"`
		Dur  *time.Duration  `json:"interval_duration"`
		Jobs []rawApiJob     `json:"jobs"`
		Raw  json.RawMessage `json:"-"`
	}
	if err := json.Unmarshal(b, &v); err != nil || v.Id == nil || v.Dur == nil {
		mc.Fail("GET %s: not the documented JSON (%v): %s", path, err, tail(string(b), 300))
	}
	m := mergeM(hdBase, parts)
	want := len(m.Jobs)
	if n, ok := new(big.Int).SetString(limit, 10); ok && n.Sign() > 0 && n.IsInt64() && n.Int64() < int64(want) {
		want = int(n.Int64())
	}
	if len(v.Jobs) != want {
		mc.Fail("GET %s: %d jobs listed, want %d of %d", path, len(v.Jobs), want, len(m.Jobs))
	}
	seen := map[string]bool{}
	for i := range v.Jobs {
		j := &v.Jobs[i]
		if j.Name == nil || j.Count == nil || j.S == nil || j.V == nil || j.P == nil || j.E == nil || j.J == nil || j.Sum == nil || j.Sq == nil || j.Min == nil || j.Max == nil || j.Avg == nil || j.StdDev == nil {
			mc.Fail("GET %s: a field is missing: %s", path, tail(string(b), 300))
		}
		x := m.Jobs[*j.Name]
		if x == nil || seen[*j.Name] {
			mc.Fail("GET %s: job %q is listed twice or does not exist", path, *j.Name)
		}
		seen[*j.Name] = true
		if got := [5]int64{*j.S, *j.V, *j.P, *j.E, *j.J}; got != x.Counts || (timerM{*j.Count, *j.Sum, *j.Sq, *j.Min, *j.Max}) != x.T {
			mc.Fail("GET %s: job %q shows %s, want %+v %+v", path, *j.Name, jsonOf(j), x.Counts, x.T)
		}
		avg, sd, tol := 0.0, 0.0, 0.0
		if n := x.T.Count; n > 0 {
			avg = float64(x.T.Sum) / float64(n)
			if n > 1 {
				num := new(big.Float).SetPrec(300).Mul(big.NewFloat(float64(n)), big.NewFloat(x.T.Sq).SetPrec(300))
				sum := new(big.Float).SetPrec(300).SetInt64(x.T.Sum)
				sq := new(big.Float).SetPrec(300).Mul(sum, sum)
				scale, _ := num.Float64()
				num.Sub(num, sq)
				f, _ := num.Float64()
				div := float64(n) * float64(n-1)
				sd = math.Sqrt(math.Max(f, 0) / div)
				tol = math.Sqrt(1e-15*math.Abs(scale)/div) * 2
				if f > 0 {
					// far from cancellation the relative error is small
					tol = math.Min(tol, 1e-14*math.Abs(scale)/div/sd)
				}
			}
		}
		if !near(*j.Avg, avg) || math.Abs(*j.StdDev-sd) > tol+1e-9*sd || math.IsNaN(*j.StdDev) {
			mc.Fail("GET %s: job %q shows mean %v and deviation %v, want %v and %v", path, *j.Name, *j.Avg, *j.StdDev, avg, sd)
		}
		if i > 0 {
			p := &v.Jobs[i-1]
			if key == "name" && *p.Name > *j.Name || key != "name" && p.key(key) < j.key(key) {
				mc.Fail("GET %s: %q comes before %q", path, *p.Name, *j.Name)
			}
		}
	}
	// a limit keeps the first ones
	if want < len(m.Jobs) && want > 0 {
		last := &v.Jobs[want-1]
		b := w.get(strings.Replace(path, "limit="+limit, "", 1))
		var all struct {
			Jobs []rawApiJob `json:"jobs"`
		}
		json.Unmarshal(b, &all)
		if len(all.Jobs) != len(m.Jobs) {
			mc.Fail("without limit %d jobs are listed, want %d", len(all.Jobs), len(m.Jobs))
		}
		var names []string
		for i := range all.Jobs {
			j := &all.Jobs[i]
			names = append(names, *j.Name)
			if !seen[*j.Name] && key != "" && key != "nonsense" && key != "name" && j.key(key) > last.key(key) {
				mc.Fail("GET %s: %q was cut off although it comes before %q", path, *j.Name, *last.Name)
			}
		}
		if key == "name" {
			sort.Strings(names)
			for i := range v.Jobs {
				if *v.Jobs[i].Name != names[i] {
					mc.Fail("GET %s: position %d is %q, want %q", path, i, *v.Jobs[i].Name, names[i])
				}
			}
		}
	}
}

func init() {
	for _, k := range []int{0, 1} {
		k := k
		add(&Scn{Prop: "C30", Name: []string{"healthd", "healthd_stop"}[k], Doc: []string{"API requests of all kinds while hosts answer and healthd aggregates", "API requests while healthd is stopped"}[k], Cfg: conc(1), Deep: concP(2), Shards: 4, DeepShards: 16, Race: true, Body: func() {
			hosts := []string{"a:1", "b:1"}
			bodies := make([][]byte, 4) // of host i at its first poll, and at later ones
			for i := range bodies {
				h := newHost(hosts[i%2], time.Minute, hdBase)
				h.work(0, i)
				if i >= 2 {
					h.work(0, i)
				}
				bodies[i] = h.report().body()
			}
			mc.S.Env.HTTP = func(c *mc.HTTPCall) {
				i := 0
				if c.Host == "b:1" {
					i = 1
					c.Delay = sec
				}
				if mc.VNow() > sec {
					i += 2
				}
				c.Reply = append([]byte{}, bodies[i]...)
			}
			d := healthd.StartNewHealthD(hosts, hdAddr, health.NewStream())
			for mc.Server(hdAddr) == nil {
				mc.Sleep(time.Microsecond)
			}
			h := mc.Server(hdAddr).(http.Handler)
			// one request each: a goroutine's next request would order what it read
			// before with what healthd does next
			get := func(at time.Duration, path string) func() {
				return func() { mc.Sleep(at); httpGet(h, path) }
			}
			fs := []func(){get(0, "/healthd/jobs?sort=name"), get(0, "/healthd/hosts"), get(0, "/healthd/aggregations")}
			if k == 1 {
				fs = append(fs, func() { d.Stop() })
			} else {
				fs = append(fs, get(sec, "/healthd/aggregations/overall"), get(2*sec, "/healthd/hosts"), get(2*sec, "/healthd/jobs?sort=count"),
					get(2*sec, "/healthd/aggregations"), get(10*sec, "/healthd/aggregations"), get(10*sec, "/healthd/hosts"), func() { mc.Sleep(22 * sec) })
			}
			par(fs...)
			if k == 0 {
				d.Stop()
			}
		}})
	}
}
