//go:build healthd

package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/healthd"
	"verif/mc"
)

// ----------------------------------------------------------- C32
// What healthd reports about itself on the stream it was given.

// codeStatus is the completion status of a request answered with code.
func codeStatus(code int) health.CompletionStatus {
	switch {
	case code < 400:
		return health.Success
	case code == 422:
		return health.ValidationError
	case code < 500:
		return health.Junk
	}
	return health.Error
}

// ownPoll is what one finished poll must have reported.
type ownPoll struct {
	host string
	err  string // error event, "" if none
	took time.Duration
}

func pollErr(c *mc.HTTPCall, decodes bool) string {
	t := c.Timeout
	switch {
	case c.Err != nil || c.Hang || t > 0 && c.Delay > t:
		return "poll.client.get"
	case c.BodyErr != nil || c.BodyHang || t > 0 && c.Delay+c.BodyDelay > t:
		return "poll.ioutil.read_all"
	case !decodes:
		return "poll.json.unmarshall"
	}
	return ""
}

// checkPolls compares the "poll" jobs in recs with want (in order of completion).
func checkPolls(recs []rec, want []ownPoll, what string) {
	var got []ownPoll
	errs := map[string]int{}
	for _, r := range recs {
		if r.Job != "poll" {
			continue
		}
		switch r.K {
		case kErr:
			if r.Err == nil || r.Err.Error() == "" {
				mc.Fail("%s: poll error event %q without an error", what, r.Event)
			}
			errs[r.Event]++
		case kComplete:
			e := ""
			if r.Status != health.Success {
				e = "?"
			}
			if r.Status != health.Success && r.Status != health.Error {
				mc.Fail("%s: a poll completed with status %v", what, r.Status)
			}
			got = append(got, ownPoll{r.Kvs["host_port"], e, time.Duration(r.Nanos)})
		default:
			mc.Fail("%s: poll job reports a %v named %q", what, r.K, r.Event)
		}
	}
	werrs := map[string]int{}
	// completions at the same instant may come in any order
	left := append([]ownPoll{}, want...)
	for _, g := range got {
		ok := false
		for i, w := range left {
			if w.host == g.host && (w.err != "") == (g.err != "") && w.took == g.took {
				left = append(left[:i], left[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			mc.Fail("%s: poll completion %+v was reported, expected are %+v", what, g, want)
		}
	}
	if len(left) > 0 {
		mc.Fail("%s: no completion for the polls %+v (reported: %+v)", what, left, got)
	}
	for _, w := range want {
		if w.err != "" {
			werrs[w.err]++
		}
	}
	if fmt.Sprint(errs) != fmt.Sprint(werrs) {
		mc.Fail("%s: poll error events %v, expected %v", what, errs, werrs)
	}
}

// checkRequests compares the jobs named by routes in recs with the requests made.
func checkRequests(recs []rec, reqs map[string][]int, what string) {
	started, done := map[string]int{}, map[string][]string{}
	for _, r := range recs {
		if !strings.HasPrefix(r.Job, "/") {
			continue
		}
		switch r.K {
		case kEvent:
			if r.Event != "starting_request" || r.Kvs["path"] != r.Job {
				mc.Fail("%s: request of %s reports event %q with %v", what, r.Job, r.Event, r.Kvs)
			}
			started[r.Job]++
		case kComplete:
			if r.Kvs["path"] != r.Job {
				mc.Fail("%s: completion of %s carries %v", what, r.Job, r.Kvs)
			}
			if len(done[r.Job]) >= started[r.Job] {
				mc.Fail("%s: completion of %s before its starting_request", what, r.Job)
			}
			done[r.Job] = append(done[r.Job], fmt.Sprint(r.Kvs["code"], " ", r.Status))
		default:
			mc.Fail("%s: request of %s reports a %v named %q", what, r.Job, r.K, r.Event)
		}
	}
	for path, codes := range reqs {
		var want []string
		for _, c := range codes {
			want = append(want, fmt.Sprint(c, " ", codeStatus(c)))
		}
		if started[path] != len(codes) {
			mc.Fail("%s: %d starting_request events for %d requests of %s", what, started[path], len(codes), path)
		}
		if !sameBag(done[path], want) {
			mc.Fail("%s: completions of %s: %v, expected %v", what, path, done[path], want)
		}
		delete(started, path)
	}
	if len(started) > 0 {
		mc.Fail("%s: jobs for requests never made: %v", what, started)
	}
}

func sameBag(a, b []string) bool {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func checkRest(recs []rec, min int, what string) {
	n := 0
	for _, r := range recs {
		switch {
		case r.Job == "poll" || strings.HasPrefix(r.Job, "/"):
		case r.Job == "recalculate":
			if r.K != kComplete || r.Status != health.Success {
				mc.Fail("%s: recalculate reports %v %q, status %v", what, r.K, r.Event, r.Status)
			}
			n++
		default:
			mc.Fail("%s: unexpected %v %q of job %q", what, r.K, r.Event, r.Job)
		}
	}
	if n < min {
		mc.Fail("%s: %d recalculations reported though new data were combined at least %d times", what, n, min)
	}
}

// pollWatch remembers what the polls so far must have reported.
type pollWatch struct {
	l []struct {
		at time.Duration
		ownPoll
	}
}

func (p *pollWatch) add(c *mc.HTTPCall, decodes bool) {
	took := c.Delay + c.BodyDelay
	if c.Err != nil {
		took = c.Delay
	}
	if c.Hang || c.BodyHang || c.Timeout > 0 && took > c.Timeout {
		took = c.Timeout
	}
	p.l = append(p.l, struct {
		at time.Duration
		ownPoll
	}{mc.VNow() + took, ownPoll{c.Host, pollErr(c, decodes), took}})
}

func (p *pollWatch) done() (r []ownPoll) {
	for _, x := range p.l {
		if x.at <= mc.VNow() {
			r = append(r, x.ownPoll)
		}
	}
	return
}

// ----------------------------------------------------------- C33
// memHost answers the i-th poll in one of several ways, always with new data.
// Intervals are half an hour long, so that four fit in healthd's window, and a
// new one is reported every few polls.
func memHost(b, i int, c *mc.HTTPCall) {
	mk := func(at time.Time, inst, name string) {
		x := newAggM(at)
		x.apply(ev("j", name))
		x.apply(ti("j", name, 5))
		x.apply(er(name, "e"))
		x.Serial = int64(i)
		c.Reply = (&hdResp{inst: inst, dur: 30 * time.Minute, aggs: []*aggM{x}}).body()
	}
	now := hdBase.Truncate(time.Hour).Add(time.Duration(i/3) * 30 * time.Minute)
	switch b {
	case 0: // new names in every interval
		mk(now, "i", bulk(i/3))
	case 1: // new names all the time, in the running interval
		mk(now, "i", bulk(i))
	case 2: // a new process every time
		mk(now, bulk(i), "name")
	case 3: // data far too old
		mk(now.Add(-20000*time.Hour), "i", bulk(i))
	case 4: // another interval duration
		mk(now, "i", bulk(i))
		c.Reply = []byte(strings.Replace(string(c.Reply), `"interval_duration":1800000000000`, `"interval_duration":30000000000`, 1))
	case 5:
		c.Err = mc.ErrConn
	case 6:
		c.Hang = true
	case 7:
		c.Reply = []byte(bulk(i))
	case 8:
		mk(now, "i", bulk(i))
		c.Status = 500
	}
}

func init() {
	add(&Scn{Prop: "C33", Name: "healthd", Doc: "every cycle of 1 or 2 of 9 behaviours of a host (new names per interval or poll, new processes, ancient data, other durations, failures of 4 kinds) next to a good one, with and without API requests, over 240 to 420 (thorough 1680) polls, 80 to 560 intervals: live heap and number of goroutines level off", Cfg: burst, Shards: 16, DeepShards: 32, Body: func() {
		bulkSize = memKB << 10
		c := mc.Choose(2 * 9 * 10)
		api := c%2 == 1
		c /= 2
		b1, b2 := c%9, c/9 // b2 == 9: only b1
		what := fmt.Sprintf("behaviours %d and %d, API %v", b1, b2, api)
		var n [2]int
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			h := 0
			if c.Host == "good:1" {
				h = 1
			}
			n[h]++
			b := b1
			if h == 1 {
				b = 0
			} else if n[h]%2 == 1 && b2 < 9 {
				b = b2
			}
			memHost(b, n[h], c)
			if h == 0 {
				c.Delay = ms // the good one decides on the interval duration
			}
		}
		d := healthd.StartNewHealthD([]string{"a:1", "good:1"}, hdAddr, health.NewStream())
		for mc.Server(hdAddr) == nil {
			mc.Sleep(time.Microsecond)
		}
		h := mc.Server(hdAddr).(http.Handler)
		cycle(what, depth(60, 240), memKB, func(i int) {
			mc.Sleep(10 * sec)
			if api && i%10 == 0 {
				for _, p := range apiPaths {
					httpGet(h, p)
				}
			}
		})
		d.Stop()
	}})
	add(&Scn{Prop: "C33", Name: "healthd_drips", Doc: "each of 9 behaviours of a host alone with small data next to a good one, with and without API requests after every poll, over 3 x 600 (thorough 6000) polls: not even a few bytes per poll stay", Cfg: burst, Shards: 18, Body: func() {
		c := mc.Choose(18)
		bulkSize = 16
		var n [2]int
		mc.S.Env.HTTP = func(hc *mc.HTTPCall) {
			h := 0
			if hc.Host == "good:1" {
				h = 1
			}
			n[h]++
			memHost((c/2)*(1-h), n[h], hc)
			if h == 0 {
				hc.Delay = ms
			}
		}
		d := healthd.StartNewHealthD([]string{"a:1", "good:1"}, hdAddr, health.NewStream())
		for mc.Server(hdAddr) == nil {
			mc.Sleep(time.Microsecond)
		}
		h := mc.Server(hdAddr).(http.Handler)
		drip(fmt.Sprintf("behaviour %d, API %v", c/2, c%2 == 1), depth(600, 6000), 20, func(i int) {
			mc.Sleep(10 * sec)
			if c%2 == 1 {
				httpGet(h, apiPaths[i%len(apiPaths)])
			}
		})
		d.Stop()
	}})
	q := mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Horizon: 10 * time.Minute}
	add(&Scn{Prop: "C32", Name: "polls", Doc: "every sequence of 13 behaviours of one of two hosts over 3 polls (thorough 4): one completed poll job per finished poll with its host, outcome and duration, one error event of the right kind per failed poll, recalculations reported", Cfg: q, Shards: 4, DeepShards: 8, Body: func() {
		hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
		n := depth(3, 4)
		var pw pollWatch
		w := startHD([]string{"a:1", "b:1"}, func(h, p int, c *mc.HTTPCall) *hdResp {
			b := (p + 1) % nBehave
			if h == 0 && p < n {
				b = mc.Choose(nBehave + 2)
			}
			var r *hdResp
			switch b {
			case nBehave: // hangs in the body
				r = behave(hs[h], 1, p, c)
				c.BodyHang = true
			case nBehave + 1: // error status without a body
				c.Status, c.Reply = 503, []byte("")
			default:
				r = behave(hs[h], b, p, c)
			}
			mc.Logf("host %d poll %d: behaviour %d", h, p, b)
			pw.add(c, b != 6 && b != nBehave+1)
			return r
		})
		for p := 0; p < n+1; p++ {
			for _, at := range []time.Duration{ms, 2600 * ms, 5400 * ms} {
				till(time.Duration(p)*10*sec + at)
				mc.WaitIdle()
				checkPolls(w.rec.got, pw.done(), fmt.Sprint("poll ", p, " after ", at))
			}
			checkRest(w.rec.got, 1, fmt.Sprint("poll ", p))
		}
		w.d.Stop()
	}})
	add(&Scn{Prop: "C32", Name: "requests", Doc: "all sequences of 4 (thorough 5) API requests over data that can or cannot be written as JSON: one job per request named by its route, with its path, status code and matching completion status", Cfg: q, Body: func() {
		huge := mc.Choose(2) == 1
		w := startHD([]string{"a:1"}, func(h, n int, c *mc.HTTPCall) *hdResp {
			x := newAggM(hdBase)
			x.apply(co("j", health.Success, 5))
			r := &hdResp{inst: "i", dur: time.Minute, aggs: []*aggM{x}}
			c.Reply = r.body()
			if huge && n == 0 {
				// two intervals whose squares add up to infinity
				s := strings.Replace(string(c.Reply), `"nanos_sum_squares":25`, `"nanos_sum_squares":1.7e308`, 1)
				i := strings.Index(s, `[`)
				j := strings.LastIndex(s, `]`)
				el := s[i+1 : j]
				c.Reply = []byte(s[:i+1] + el + "," + strings.Replace(el, hdBase.Format(time.RFC3339), hdBase.Add(time.Minute).Format(time.RFC3339), 1) + s[j:])
			}
			return r
		})
		till(5 * sec)
		reqs := map[string][]int{}
		for i := 0; i < depth(4, 5); i++ {
			ps := append([]string{"/healthd/%6A%6fbs?limit=1", "/%68ealthd/aggregations%2Foverall"}, apiPaths...)
			c := mc.Choose(len(ps) + 1)
			if c == len(ps) {
				break
			}
			p := ps[c]
			from := len(w.rec.got)
			r := httpGet(w.h, p)
			path, _, _ := strings.Cut(p, "?")
			path, _ = url.PathUnescape(path)
			reqs[path] = append(reqs[path], r.Code)
			checkRequests(w.rec.got[from:], map[string][]int{path: {r.Code}}, "GET "+p)
			checkRequests(w.rec.got, reqs, "GET "+p)
			mc.Sleep(time.Duration(i) * 300 * ms)
		}
		checkRest(w.rec.got, 1, "requests")
		w.d.Stop()
		checkRequests(w.rec.got, reqs, "Stop")
	}})
	add(&Scn{Prop: "C32", Name: "concurrent", Doc: "three API clients while two hosts answer: every schedule with up to 2 (thorough 3) deviations; each request and each poll reported exactly once", Cfg: conc(2), Deep: concP(3), Shards: 4, DeepShards: 16, Body: func() {
		hs := []*hdHost{newHost("a", time.Minute, hdBase), newHost("b", time.Minute, hdBase)}
		var pw pollWatch
		w := startHD([]string{"a:1", "b:1"}, func(h, n int, c *mc.HTTPCall) *hdResp {
			var r *hdResp
			if h == 1 {
				c.Err = mc.ErrConn
			} else {
				r = behave(hs[h], 1, n, c)
			}
			pw.add(c, true)
			return r
		})
		w.rec.mu = &mc.Mutex{}
		reqs := map[string][]int{}
		cl := func(paths ...string) func() {
			return func() {
				for _, p := range paths {
					r := httpGet(w.h, p)
					reqs[p] = append(reqs[p], r.Code)
				}
			}
		}
		par(cl("/healthd/jobs", "/healthd/hosts"), cl("/healthd/hosts"), cl("/healthd/aggregations/overall"))
		mc.Sleep(3 * sec)
		mc.WaitIdle()
		checkRequests(w.rec.got, reqs, "concurrent requests")
		checkPolls(w.rec.got, pw.done(), "concurrent requests")
		checkRest(w.rec.got, 1, "concurrent requests")
		w.d.Stop()
	}})
}
