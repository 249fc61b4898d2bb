package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/librato"
	"verif/mc"
)

const libratoURL = "https://metrics-api.librato.com/v1/metrics"
const libratoPeriod = 15 * time.Second

// libStat is the reference for one measurement.
type libStat struct {
	count             float64
	sum, sq, min, max float64
	counter           bool
}

type libModel struct {
	prefix string
	clean  func(string) string
	m      map[string]*libStat
}

func newLib(prefix string) *libModel {
	return &libModel{prefix: prefix, clean: libClean, m: map[string]*libStat{}}
}

func libClean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune(".:-_", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (l *libModel) name(parts ...string) string {
	n := strings.Join(parts, ".")
	if l.prefix != "" {
		n = l.prefix + "." + n
	}
	return n
}

func (l *libModel) inc(k string) {
	s := l.m[k]
	if s == nil {
		s = &libStat{counter: true}
		l.m[k] = s
	}
	s.count++
}

func (l *libModel) measure(k string, v float64) {
	s := l.m[k]
	if s == nil {
		s = &libStat{min: v, max: v}
		l.m[k] = s
	}
	s.count++
	s.sum += v
	s.sq += v * v
	s.min = math.Min(s.min, v)
	s.max = math.Max(s.max, v)
}

func (l *libModel) apply(o op) {
	j, e := l.clean(o.Job), l.clean(o.Event)
	switch o.K {
	case kEvent:
		l.inc(l.name(e, "count"))
		l.inc(l.name(j, e, "count"))
	case kErr:
		l.inc(l.name(e, "error", "count"))
		l.inc(l.name(j, e, "error", "count"))
	case kTiming:
		l.measure(l.name(e, "timing"), float64(o.Nanos)/1e6)
		l.measure(l.name(j, e, "timing"), float64(o.Nanos)/1e6)
	case kGauge:
		l.measure(l.name(e, "gauge"), o.Value)
		l.measure(l.name(j, e, "gauge"), o.Value)
	case kComplete:
		l.measure(l.name(j, statusNames[o.Status], "timing"), float64(o.Nanos)/1e6)
	}
}

type libPost struct {
	Time   *int64                     `json:"measure_time"`
	Period *int64                     `json:"period"`
	Source *string                    `json:"source"`
	Gauges map[string]map[string]any  `json:"gauges"`
	Rest   map[string]json.RawMessage `json:"-"`
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

func libDecode(c *mc.HTTPCall) *libPost {
	var p libPost
	if err := json.Unmarshal(c.Body, &p); err != nil {
		mc.Fail("the post is no valid JSON: %v: %s", err, tail(string(c.Body), 300))
	}
	return &p
}

// check compares a post with the model; source "" means the host name.
func (l *libModel) check(c *mc.HTTPCall, source string) {
	if c.Method != "POST" || c.URL != libratoURL {
		mc.Fail("metrics were sent as %s %s", c.Method, c.URL)
	}
	if h := strings.Join(c.Header["Authorization"], ","); h != "Basic "+base64.StdEncoding.EncodeToString([]byte("user:key:x")) {
		mc.Fail("authorization header %q", h)
	}
	if h := strings.Join(c.Header["Content-Type"], ","); !strings.HasPrefix(h, "application/json") {
		mc.Fail("content type %q", h)
	}
	p := libDecode(c)
	if source == "" {
		source, _ = os.Hostname()
	}
	if str(p.Source) != source {
		mc.Fail("source %q, want %q", str(p.Source), source)
	}
	if p.Period == nil || *p.Period != 15 {
		mc.Fail("post states period %v, want 15 seconds", jsonOf(p.Period))
	}
	if want := mc.Now().Add(c.At - mc.VNow()).Unix(); p.Time == nil || *p.Time != want {
		mc.Fail("post states time %s, want %d", jsonOf(p.Time), want)
	}
	for _, k := range sortedKeys(p.Gauges) {
		g := p.Gauges[k]
		w := l.m[k]
		if w == nil {
			mc.Fail("the post holds %q=%v, which was not emitted since the last post; want %v", k, g, sortedKeys(l.m))
		}
		f := func(n string) float64 {
			x, ok := g[n].(float64)
			if !ok {
				mc.Fail("%q lacks %s: %v", k, n, g)
			}
			return x
		}
		unit := ""
		switch {
		case w.counter:
			unit = "count"
		case strings.HasSuffix(k, "timing"):
			unit = "ms"
		}
		at, _ := g["attributes"].(map[string]any)
		if at["aggregate"] != true || unit != "" && at["display_units_long"] != unit {
			mc.Fail("%q has the attributes %v, want it to be aggregated and to have unit %q", k, at, unit)
		}
		if w.counter {
			if v := f("value"); v != w.count {
				mc.Fail("%q is %v, want %v", k, v, w.count)
			}
			continue
		}
		if f("count") != w.count || !near(f("sum"), w.sum) || !near(f("min"), w.min) || !near(f("max"), w.max) || math.Abs(f("sum_squares")-w.sq) > 1e-9*w.sq {
			mc.Fail("%q is %v, want %+v", k, g, *w)
		}
	}
	for _, k := range sortedKeys(l.m) {
		if p.Gauges[k] == nil {
			mc.Fail("the post lacks %q", k)
		}
	}
}

func newLibrato(prefix string) *librato.Sink { return librato.New("user", "key:x", prefix) }

func libAlphabet() []op {
	return []op{
		ev("j", "e"), ev("k", "e"), ev("j", "f g"), er("j", "e"), er("k", "f"),
		ti("j", "e", 1500000), ti("j", "e", 0), ti("k", "e", 999),
		ga("j", "e", 2.5), ga("j", "e", -3), ga("k", "f", 0),
		co("j", health.Success, 7000001), co("j", health.Error, 3), co("k", health.Success, 12345678901), co("j", health.Success, 0),
		// names that fall together after joining
		ti("j", "success", 4000000), ev("j", "e.error"),
	}
}

func init() {
	add(&Scn{Prop: "C20", Name: "histories", Doc: "all sequences of emissions over 17 kinds/names/values and flush ticks, with and without prefix: every post equals the reference aggregation of its period", Cfg: seqCfg, Shards: 8, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		prefix := []string{"", "app one"}[mc.Choose(2)]
		s := newLibrato(prefix)
		l := newLib(prefix)
		al := libAlphabet()
		posts := 0
		flush := func() {
			mc.Sleep(libratoPeriod)
			mc.WaitIdle()
			if len(l.m) > 0 {
				posts++
			}
			cs := mc.S.Env.Calls
			if len(cs) != posts {
				mc.Fail("%d posts, want %d", len(cs), posts)
			}
			if len(l.m) > 0 {
				l.check(cs[posts-1], "")
			}
			l.m = map[string]*libStat{}
		}
		mc.Sleep(time.Millisecond) // stay clear of the ticks
		for i, n := 0, depth(4, 5); i < n; i++ {
			c := mc.Choose(len(al) + 1)
			if c == len(al) {
				flush()
				continue
			}
			al[c].emit(s)
			l.apply(al[c])
		}
		flush()
		flush()
		checkClosed()
		s.Stop()
	}})
	add(&Scn{Prop: "C20", Name: "names", Doc: "every kind x awkward job and event names x prefix, custom sanitization and source", Cfg: seqCfg, Shards: 4, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
		prefix := []string{"", "pre", "p!%d"}[mc.Choose(3)]
		s := newLibrato(prefix)
		l := newLib(prefix)
		source := ""
		if len(prefix) == 3 {
			source = "so\"urce %d"
			s.Source = source
			s.SanitizationFunc = func(x string) string { return "<" + strings.ToUpper(x) + ">" }
			l.clean = func(x string) string { return "<" + strings.ToUpper(x) + ">" }
		}
		for _, o := range []op{ev(j, e), er(j, e), ti(j, e, 2500000), ga(j, e, 1.5), co(j, statuses[mc.Choose(5)], 12000000)} {
			o.emit(s)
			l.apply(o)
		}
		mc.Sleep(libratoPeriod + time.Second)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d posts, want 1", len(mc.S.Env.Calls))
		}
		l.check(mc.S.Env.Calls[0], source)
		s.Stop()
	}})
	add(&Scn{Prop: "C20", Name: "bytes", Doc: "every character 1..383 in job and event names", Cfg: seqCfg, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		x := string(rune(1 + mc.Choose(383)))
		s := newLibrato("")
		l := newLib("")
		for _, o := range []op{ev("a"+x+"b", x), ti(x, x+x, 1), co(x, health.Junk, 1), ga("j", "é"+x, 3), er(x+"1", "z")} {
			o.emit(s)
			l.apply(o)
		}
		mc.Sleep(libratoPeriod + time.Second)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d posts, want 1", len(mc.S.Env.Calls))
		}
		l.check(mc.S.Env.Calls[0], "")
	}})
	add(&Scn{Prop: "C20", Name: "seams", Doc: "all sequences of two emissions (thorough: three) of any kind whose job, event and suffix parts run together in the same way (dots at the seams, empty parts, kinds as names), with and without such a prefix", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		prefix := []string{"", "a", "a."}[mc.Choose(3)]
		s := newLibrato(prefix)
		l := newLib(prefix)
		jobs := []string{"", "a", "a.", ".", "a.a", "error"}
		evs := []string{"", "a", ".a", "a.error", "error", "success", "a b", "a_b"}
		if deep {
			jobs, evs = []string{"", "a", "a.", "a.a"}, []string{"", "a", ".a", "a.error", "error"}
		}
		for i, n := 0, depth(2, 3); i < n; i++ {
			j := jobs[mc.Choose(len(jobs))]
			var o op
			if c := mc.Choose(4*len(evs) + 2); c < 4*len(evs) {
				e := evs[c/4]
				o = []op{ev(j, e), er(j, e), ti(j, e, int64(1000*(i+1))), ga(j, e, float64(i)+0.5)}[c%4]
			} else {
				o = co(j, []health.CompletionStatus{health.Success, health.Error}[c-4*len(evs)], int64(3000*(i+1)))
			}
			o.emit(s)
			l.apply(o)
		}
		mc.Sleep(libratoPeriod + time.Second)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d posts, want 1", len(mc.S.Env.Calls))
		}
		l.check(mc.S.Env.Calls[0], "")
		s.Stop()
	}})
	add(&Scn{Prop: "C20", Name: "values", Doc: "all sequences of three boundary values per kind of measurement: count, sum, squares, minimum, maximum", Cfg: seqCfg, Shards: 4, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		s := newLibrato("")
		l := newLib("")
		k := mc.Choose(3)
		for i := 0; i < 3; i++ {
			var o op
			if k == 2 {
				v := floats[mc.Choose(len(floats))]
				if math.IsInf(v*v, 0) {
					v = 42
				}
				o = ga("j", "e", v)
			} else {
				v := int64s[mc.Choose(len(int64s))]
				o = ti("j", "e", v)
				if k == 1 {
					o = co("j", health.Panic, v)
				}
			}
			o.emit(s)
			l.apply(o)
		}
		mc.Sleep(libratoPeriod + time.Second)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d posts, want 1", len(mc.S.Env.Calls))
		}
		l.check(mc.S.Env.Calls[0], "")
	}})
	add(&Scn{Prop: "C20", Name: "long", Doc: "400 emissions over 20 periods", Cfg: burst, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		s := newLibrato("p")
		al := libAlphabet()
		stride := 1 + mc.Choose(8)
		mc.Sleep(time.Millisecond)
		for p := 0; p < 20; p++ {
			l := newLib("p")
			for i := 0; i < 20; i++ {
				o := al[(p*7+i*stride)%len(al)]
				o.Nanos += int64(i * p * 1000)
				o.emit(s)
				l.apply(o)
			}
			mc.Sleep(libratoPeriod)
			mc.WaitIdle()
			if len(mc.S.Env.Calls) != p+1 {
				mc.Fail("%d posts after %d periods", len(mc.S.Env.Calls), p+1)
			}
			l.check(mc.S.Env.Calls[p], "")
		}
		s.Stop()
	}})

	add(&Scn{Prop: "C20", Name: "large", Doc: "posts of 10, 300, 1000, 5000 and 20000 different names, and again of a few", Cfg: burst, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		s := newLibrato("p")
		mc.Sleep(time.Millisecond)
		for p, n := range []int{10, 300, 1000, 3, 5000, 20000, 4} {
			l := newLib("p")
			for i := 0; i < n; i++ {
				o := []op{ev(fmt.Sprint("j", i%97), fmt.Sprint("e", i)), er("j", fmt.Sprint("e", i)), ti("j", fmt.Sprint("t", i), int64(i)*1000), ga(fmt.Sprint("j", i), "g", float64(i)), co(fmt.Sprint("c", i), statuses[i%5], int64(i))}[i%5]
				o.emit(s)
				l.apply(o)
			}
			mc.Sleep(libratoPeriod)
			mc.WaitIdle()
			if len(mc.S.Env.Calls) != p+1 {
				mc.Fail("%d posts after %d periods", len(mc.S.Env.Calls), p+1)
			}
			l.check(mc.S.Env.Calls[p], "")
		}
		s.Stop()
	}})
	add(&Scn{Prop: "C20", Name: "sources", Doc: "hosts of 8 names, and whose name cannot be found out; the source set by the user or not", Cfg: seqCfg, Body: func() {
		hosts := []string{"host", "Web-01.Example.COM", "a b", "ü<\"&>", "localhost", "1", strings.Repeat("h", 300), ""}
		p, source := &mc.Process{Pid: 7}, ""
		if c := mc.Choose(len(hosts) + 1); c < len(hosts) {
			p.Host = hosts[c]
		} else {
			p.HostErr = errBoom
		}
		mc.StartAs(p)
		source = p.Host
		s := newLibrato("")
		if mc.Choose(2) == 1 {
			source = []string{"Own Source", "", "x"}[mc.Choose(3)]
			s.Source = source
		}
		for k := 0; k < 2; k++ {
			ev("j", "e").emit(s)
			mc.Sleep(libratoPeriod + time.Millisecond)
			mc.WaitIdle()
			if len(mc.S.Env.Calls) != k+1 {
				mc.Fail("%d posts, want %d", len(mc.S.Env.Calls), k+1)
			}
			if got := str(libDecode(mc.S.Env.Calls[k]).Source); got != source && !(source == "" && got == "<missing>") {
				mc.Fail("source %q, want %q", got, source)
			}
		}
		s.Stop()
	}})
	add(&Scn{Prop: "C20", Name: "starts", Doc: "a sink made at any of 11 offsets to the full second, period and minute: the time every post states", Cfg: seqCfg, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		mc.Sleep([]time.Duration{0, 1, time.Second - 1, time.Second, 1500 * time.Millisecond, 4 * time.Second, 7*time.Second + 1, 14999 * time.Millisecond, 29 * time.Second, 59999999999, 3*time.Hour + 8*time.Second}[mc.Choose(11)])
		s := newLibrato("")
		mc.Sleep(time.Millisecond)
		for p := 0; p < 3; p++ {
			l := newLib("")
			for _, o := range libAlphabet()[:1+mc.Choose(4)] {
				o.emit(s)
				l.apply(o)
			}
			mc.Sleep(libratoPeriod)
			mc.WaitIdle()
			if len(mc.S.Env.Calls) != p+1 {
				mc.Fail("%d posts after %d periods", len(mc.S.Env.Calls), p+1)
			}
			l.check(mc.S.Env.Calls[p], "")
		}
		s.Stop()
	}})

	// ------------------------------------------------------------- C21
	add(&Scn{Prop: "C21", Name: "faults", Doc: "every assignment of 9 API behaviours to the posts of several periods, each period emitting nothing or something: contents of every post exact, timing of posts exact unless the API is slow, responses released, Stop returns and silences the sink", Cfg: seqCfg, Shards: 4, Body: func() {
		var faults []int
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			f := mc.Choose(libFaults)
			faults = append(faults, f)
			libAnswer(c, f)
		}
		s := newLibrato("p")
		mc.Sleep(time.Millisecond)
		posts := 0
		for p, n := 0, depth(4, 5); p < n; p++ {
			l := newLib("p")
			switch mc.Choose(3) {
			case 0:
			case 1:
				o := ev("j", fmt.Sprint("e", p))
				o.emit(s)
				l.apply(o)
			case 2:
				for _, o := range []op{ti("j", "t", int64(p+1)*1000), ga("j", "g", float64(p)), ti("j", "t", 5)} {
					o.emit(s)
					l.apply(o)
				}
			}
			mc.Sleep(libratoPeriod)
			mc.WaitIdle()
			cs := mc.S.Env.Calls
			if len(l.m) == 0 {
				if len(cs) != posts {
					mc.Fail("a post was made for period %d, in which nothing was emitted", p)
				}
				continue
			}
			posts++
			if len(cs) != posts {
				mc.Fail("%d posts after period %d, want %d", len(cs), p, posts)
			}
			if at := libratoPeriod * time.Duration(p+1); cs[posts-1].At != at {
				mc.Fail("the post of period %d was made at %v, not %v", p, cs[posts-1].At, at)
			}
			l.check(cs[posts-1], "")
			mc.Sleep(10 * time.Second) // slow answers arrive
			mc.WaitIdle()
			checkClosed()
			mc.Sleep(5 * time.Second)
			mc.WaitIdle()
			// this consumed one (empty) period
			if len(mc.S.Env.Calls) != posts {
				mc.Fail("a post was made though nothing was emitted since the last")
			}
			p++
		}
		ev("j", "late").emit(s)
		mc.WaitIdle()
		s.Stop()
		n := len(mc.S.Env.Calls)
		mc.Sleep(time.Minute)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != n {
			mc.Fail("a post was made after Stop returned")
		}
		checkClosed()
	}})
	add(&Scn{Prop: "C21", Name: "periods", Doc: "every assignment of 8 API behaviours (all answered within the period) and of an emission or none to 3 (thorough: 4) consecutive periods, a healthy one at the end: each period with emissions has its post at its end with exactly its emissions", Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			f := 0
			if c.At < libratoPeriod*time.Duration(depth(3, 4)+1) {
				f = mc.Choose(libFaults)
			}
			libAnswer(c, f)
		}
		s := newLibrato("p")
		mc.Sleep(time.Millisecond)
		posts := 0
		for p, n := 0, depth(3, 4)+2; p < n; p++ {
			l := newLib("p")
			mc.Sleep(13 * time.Second) // the answer to the last post is in
			if p == n-1 || p != n-2 && mc.Choose(2) == 1 {
				for _, o := range []op{ti("j", "t", int64(p+1)*1000), ga("j", "g", float64(p)), ev("j", "e"), co("j", health.Success, int64(p))} {
					o.emit(s)
					l.apply(o)
				}
			}
			mc.Sleep(2 * time.Second)
			mc.WaitIdle()
			cs := mc.S.Env.Calls
			if len(l.m) > 0 {
				posts++
			}
			if len(cs) != posts {
				mc.Fail("%d posts after period %d, want %d", len(cs), p, posts)
			}
			if len(l.m) == 0 {
				continue
			}
			if at := libratoPeriod * time.Duration(p+1); cs[posts-1].At != at {
				mc.Fail("the post of period %d was made at %v, not %v", p, cs[posts-1].At, at)
			}
			l.check(cs[posts-1], "")
		}
		mc.Sleep(10 * time.Second)
		mc.WaitIdle()
		checkClosed()
		s.Stop()
	}})
	add(&Scn{Prop: "C21", Name: "streaks", Doc: "1 to 25 posts (of 3 or 600 names) in a row under one of the API behaviours, then healthy ones: every period has its post with exactly its emissions", Cfg: burst, Body: func() {
		f, run, names := mc.Choose(libFaults), []int{1, 2, 3, 4, 5, 6, 8, 10, 11, 17, 25}[mc.Choose(11)], []int{3, 600}[mc.Choose(2)]
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			if len(mc.S.Env.Calls) <= run {
				libAnswer(c, f)
			}
		}
		s := newLibrato("p")
		mc.Sleep(time.Millisecond)
		for p := 0; p < run+3; p++ {
			l := newLib("p")
			mc.Sleep(13 * time.Second)
			for i := 0; i < names; i++ {
				o := []op{ti("j", fmt.Sprint("t", i), int64(p+1)*1000), ev("j", fmt.Sprint("e", i)), er("j", fmt.Sprint("e", i))}[i%3]
				o.emit(s)
				l.apply(o)
			}
			mc.Sleep(2 * time.Second)
			mc.WaitIdle()
			if cs := mc.S.Env.Calls; len(cs) != p+1 {
				mc.Fail("%d posts after period %d, want %d", len(cs), p, p+1)
			}
			l.check(mc.S.Env.Calls[p], "")
		}
		mc.Sleep(10 * time.Second)
		mc.WaitIdle()
		checkClosed()
		s.Stop()
	}})
	add(&Scn{Prop: "C21", Name: "statuses", Doc: "every status from 200 to 599 with one of three bodies for the second of four posts: one post per period with exactly its emissions, every response closed", Cfg: burst, Body: func() {
		status, body := 200+mc.Choose(400), []string{"", "{}", "<html>try again</html>"}[mc.Choose(3)]
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			if len(mc.S.Env.Calls) == 2 {
				c.Status, c.Reply = status, []byte(body)
			}
		}
		s := newLibrato("p")
		mc.Sleep(time.Millisecond)
		for p := 0; p < 4; p++ {
			l := newLib("p")
			for _, o := range []op{ti("j", "t", int64(p+1)*1000), ga("j", "g", float64(p)), ev("j", "e")} {
				o.emit(s)
				l.apply(o)
			}
			mc.Sleep(15 * time.Second)
			mc.WaitIdle()
			if cs := mc.S.Env.Calls; len(cs) != p+1 {
				mc.Fail("%d posts after period %d, want %d (status %d for the second)", len(cs), p, p+1, status)
			}
			l.check(mc.S.Env.Calls[p], "")
		}
		checkClosed()
		s.Stop()
	}})
	add(&Scn{Prop: "C21", Name: "emitters", Doc: "interleavings of two emitters with the sink goroutine and flush ticks arriving at any moment: every emission in exactly one post, in order", Cfg: clocked(3), Deep: clockedP(5), Shards: 4, DeepShards: 8, Body: func() {
		libConc(2, 2, 0, false)
	}})
	add(&Scn{Prop: "C21", Name: "emitters3", Doc: "three emitters, ticks at any moment, posts failing", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 8, Body: func() {
		libConc(3, 1, 1, false)
	}})
	add(&Scn{Prop: "C21", Name: "beats", Doc: "one or two emitters whose emissions fall on the flush ticks, besides earlier ones, in any order of what happens at one moment: each period has its post with at least what was emitted before its end", Cfg: mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Bound: 2, Horizon: time.Hour}, Deep: &mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Bound: 3, Horizon: time.Hour}, Shards: 2, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {}
		s := newLibrato("")
		n := 1 + mc.Choose(2)
		early := mc.Choose(2) == 1
		for g := 0; g < n; g++ {
			mc.GoNamed("emitter", func() {
				for p := 0; p < 4; p++ {
					mc.Sleep(libratoPeriod)
					ev(fmt.Sprint("g", g), fmt.Sprint("n", p)).emit(s)
					ev(fmt.Sprint("g", g), fmt.Sprint("m", p)).emit(s)
				}
			})
		}
		mc.Sleep(time.Second)
		for p := 0; p < 6; p++ {
			mc.Sleep(13 * time.Second)
			if early {
				ev("main", fmt.Sprint("p", p)).emit(s)
				mc.WaitIdle()
			}
			mc.Sleep(2 * time.Second)
			mc.WaitIdle()
			// everything from before this period's end is posted
			all := map[string]float64{}
			for _, c := range mc.S.Env.Calls {
				for k, v := range libDecode(c).Gauges {
					x, _ := v["value"].(float64)
					all[k] += x
				}
			}
			if early {
				if len(mc.S.Env.Calls) != p+1 {
					mc.Fail("%d posts after period %d, want %d", len(mc.S.Env.Calls), p, p+1)
				}
				if all[fmt.Sprintf("main.p%d.count", p)] != 1 {
					mc.Fail("what was emitted during period %d is not posted at its end: %v", p, all)
				}
			}
			for g := 0; g < n; g++ {
				for q := 0; q < p && q < 4; q++ {
					for _, x := range []string{"n", "m"} {
						if v := all[fmt.Sprintf("g%d.%s%d.count", g, x, q)]; v != 1 {
							mc.Fail("what was emitted at the end of period %d was posted %v times at the end of period %d", q, v, p)
						}
					}
				}
			}
		}
		checkClosed()
		s.Stop()
	}})
	add(&Scn{Prop: "C21", Name: "slow", Doc: "two emitters while posts take 4 or 20 seconds", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 8, Body: func() {
		libConc(2, 2, 2+mc.Choose(2), false)
	}})
	add(&Scn{Prop: "C21", Name: "stop", Doc: "Stop at any moment among emitters and ticks, with fast or slow posts: it returns, emitters return, nothing is posted afterwards", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 8, Body: func() {
		libConc(2, 1, 2*mc.Choose(2), true)
	}})
	add(&Scn{Prop: "C21", Name: "burst", Doc: "9000 emissions of all kinds by 3 goroutines while a post takes 10 to 60 seconds, so that up to 3 ticks pass meanwhile (the queue holds 4096): all get through and are counted exactly once", Cfg: burst, Body: func() {
		mc.S.CaseLast = mc.Choose(2) == 1
		slow := []time.Duration{10 * time.Second, 16 * time.Second, 31 * time.Second, 60 * time.Second}[mc.Choose(4)]
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Delay = slow }
		s := newLibrato("")
		ev("j", "first").emit(s)
		mc.Sleep(libratoPeriod + time.Second) // the first post is in flight
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d posts, want 1", len(mc.S.Env.Calls))
		}
		var fs []func()
		for g := 0; g < 3; g++ {
			g := g
			fs = append(fs, func() {
				for i := 0; i < 3000; i++ {
					j := fmt.Sprint("g", g)
					[]op{ti(j, "e", int64(i)*1000000), ev(j, "e"), er(j, "e"), ga(j, "e", float64(i)), co(j, health.Success, int64(i))}[i%5].emit(s)
				}
			})
		}
		par(fs...)
		if mc.Choose(2) == 1 {
			s.Stop()
			return
		}
		mc.Sleep(3*slow + time.Minute)
		mc.WaitIdle()
		sum := map[string]float64{}
		for _, c := range mc.S.Env.Calls[1:] {
			for k, g := range libDecode(c).Gauges {
				if v, ok := g["count"]; ok {
					sum[k] += v.(float64)
				} else {
					sum[k] += g["value"].(float64)
				}
			}
		}
		for _, suffix := range []string{"timing", "count", "error.count", "gauge"} {
			if sum["e."+suffix] != 1800 || sum["g0.e."+suffix] != 600 || sum["g1.e."+suffix] != 600 || sum["g2.e."+suffix] != 600 {
				mc.Fail("posted counts %v, want 1800 and 3 x 600 of each kind", sum)
			}
		}
		if sum["g0.success.timing"] != 600 || sum["g1.success.timing"] != 600 || sum["g2.success.timing"] != 600 {
			mc.Fail("posted counts %v, want 3 x 600 completions", sum)
		}
		s.Stop()
	}})
}

const libFaults = 9

func libAnswer(c *mc.HTTPCall, f int) {
	switch f {
	case 1:
		c.Err = mc.ErrConn
	case 2:
		c.Status, c.Reply = 500, []byte("oops")
	case 3:
		c.Status, c.Reply = 401, []byte(`{"errors":{}}`)
	case 4:
		c.Delay = 4 * time.Second
	case 5:
		c.Delay, c.Err = 9*time.Second, mc.ErrConn
	case 6:
		c.Reply, c.BodyErr = []byte("x"), mc.ErrConn
	case 7:
		c.Status = 302
	case 8:
		c.BodyDelay, c.Reply = 3*time.Second, []byte("{}")
	}
}

// libConc: n goroutines emit per emissions each with names of their own.
func libConc(n, per, mode int, stop bool) {
	mc.S.Env.HTTP = func(c *mc.HTTPCall) {
		switch mode {
		case 1:
			libAnswer(c, 1+len(mc.S.Env.Calls)%3)
		case 2:
			c.Delay = 4 * time.Second
		case 3:
			c.Delay = 20 * time.Second
		}
	}
	s := newLibrato("")
	var fs []func()
	for g := 0; g < n; g++ {
		g := g
		fs = append(fs, func() {
			for i := 0; i < per; i++ {
				ev(fmt.Sprint("g", g), fmt.Sprint("n", i)).emit(s)
				ti(fmt.Sprint("g", g), "t", int64(i+1)*1000000).emit(s)
				if mode == 3 {
					mc.Sleep(7 * time.Second)
				}
			}
		})
	}
	if stop {
		stopped := -1
		fs = append(fs, func() {
			s.Stop()
			stopped = len(mc.S.Env.Calls)
		})
		par(fs...)
		mc.WaitIdle()
		mc.Sleep(time.Minute)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != stopped {
			mc.Fail("%d posts when Stop returned, %d later", stopped, len(mc.S.Env.Calls))
		}
		libTotals(n, per, false)
		checkClosed()
		return
	}
	par(fs...)
	mc.WaitIdle()
	mc.Sleep(2*time.Minute + time.Millisecond)
	mc.WaitIdle()
	libTotals(n, per, true)
	checkClosed()
	s.Stop()
}

// libTotals: over all posts every emission occurs exactly once (at most once
// unless all), and each goroutine's in its order.
func libTotals(n, per int, all bool) {
	got := map[string]float64{}
	first := map[string]int{}
	min := map[string]float64{}
	for i, c := range mc.S.Env.Calls {
		gs := libDecode(c).Gauges
		if len(gs) == 0 {
			mc.Fail("post %d is empty", i)
		}
		for k, g := range gs {
			v, ok := g["value"].(float64)
			if !ok {
				v, _ = g["count"].(float64)
				if m, _ := g["min"].(float64); min[k] == 0 || m < min[k] {
					min[k] = m
				}
			}
			if v <= 0 {
				mc.Fail("post %d: %q counts %v", i, k, v)
			}
			got[k] += v
			if _, ok := first[k]; !ok {
				first[k] = i
			}
		}
	}
	want := map[string]float64{"t.timing": float64(n * per)}
	for g := 0; g < n; g++ {
		want[fmt.Sprintf("g%d.t.timing", g)] = float64(per)
		for i := 0; i < per; i++ {
			want[fmt.Sprintf("g%d.n%d.count", g, i)] = 1
			want[fmt.Sprintf("n%d.count", i)] = float64(n)
			if i > 0 {
				a, ok1 := first[fmt.Sprintf("g%d.n%d.count", g, i)]
				b, ok2 := first[fmt.Sprintf("g%d.n%d.count", g, i-1)]
				if ok1 && (!ok2 || b > a) {
					mc.Fail("goroutine %d: a later emission was posted before an earlier one", g)
				}
			}
		}
	}
	for k, v := range got {
		if want[k] == 0 || v > want[k] {
			mc.Fail("%q was posted %v times, want %v", k, v, want[k])
		}
	}
	if all {
		for k, v := range want {
			if got[k] != v {
				mc.Fail("%q was posted %v times, want %v", k, got[k], v)
			}
		}
	}
	mc.Logf("%d posts", len(mc.S.Env.Calls))
}
