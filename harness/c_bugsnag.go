package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/stack"
	"verif/mc"
)

// bugNote is what a notification says, read independently of the sink's types.
type bugNote struct {
	APIKey *string `json:"apiKey"`
	Events []struct {
		Version    string `json:"payloadVersion"`
		Exceptions []struct {
			Class   *string `json:"errorClass"`
			Message *string `json:"message"`
			Trace   []struct {
				File      string `json:"file"`
				Line      int    `json:"lineNumber"`
				Method    string `json:"method"`
				InProject bool   `json:"inProject"`
			} `json:"stacktrace"`
		} `json:"exceptions"`
		Context *string `json:"context"`
		App     struct {
			Stage *string `json:"releaseStage"`
		} `json:"app"`
		Device struct {
			Host *string `json:"hostname"`
		} `json:"device"`
		Meta struct {
			Request struct {
				URL    string `json:"url"`
				Params string `json:"parameters"`
			} `json:"request"`
			Kvs map[string]string `json:"kvs"`
		} `json:"metaData"`
	} `json:"events"`
}

// bugExp is an expected notification.
type bugExp struct {
	job, event, msg string
	kvs             map[string]string
	trace           []stack.Frame
}

const defaultBugsnag = "https://notify.bugsnag.com/"

func str(p *string) string {
	if p == nil {
		return "<missing>"
	}
	return *p
}

func traceOf(err error) []stack.Frame {
	if u, ok := err.(*health.UnmutedError); ok && u.Stack != nil {
		return append([]stack.Frame{}, u.Stack.Frames()...)
	}
	return nil
}

func decodeBug(c *mc.HTTPCall) *bugNote {
	var n bugNote
	if err := json.Unmarshal(c.Body, &n); err != nil {
		mc.Fail("the notification is no valid JSON: %v: %s", err, tail(string(c.Body), 300))
	}
	if len(n.Events) != 1 || len(n.Events[0].Exceptions) != 1 {
		mc.Fail("a notification must hold exactly one event with one exception: %s", tail(string(c.Body), 500))
	}
	return &n
}

func (e *bugExp) check(cfg *bugsnag.Config, endpoint string, c *mc.HTTPCall) {
	if c.Method != "POST" || c.URL != endpoint {
		mc.Fail("notification was sent as %s %s, want POST %s", c.Method, c.URL, endpoint)
	}
	if h := strings.Join(c.Header["Content-Type"], ","); !strings.HasPrefix(h, "application/json") {
		mc.Fail("notification has content type %q", h)
	}
	n := decodeBug(c)
	x := n.Events[0]
	for _, p := range []struct{ what, got, want string }{
		{"payload version", x.Version, "2"},
		{"API key", str(n.APIKey), cfg.APIKey},
		{"release stage", str(x.App.Stage), cfg.ReleaseStage},
		{"hostname", str(x.Device.Host), cfg.Hostname},
		{"context", str(x.Context), e.job},
		{"error class", str(x.Exceptions[0].Class), e.event},
		{"message", str(x.Exceptions[0].Message), e.msg},
		{"request url", x.Meta.Request.URL, e.kvs["request"]},
		{"request parameters", x.Meta.Request.Params, e.kvs["formdata"]},
		{"kvs", kvString(x.Meta.Kvs), kvString(e.kvs)},
	} {
		if p.got != p.want {
			mc.Fail("notification: %s is %q, want %q", p.what, p.got, p.want)
		}
	}
	tr := x.Exceptions[0].Trace
	if len(tr) != len(e.trace) {
		mc.Fail("notification: %d stack frames, want %d", len(tr), len(e.trace))
	}
	for i, f := range e.trace {
		g := tr[i]
		if g.File != f.File || g.Line != f.LineNumber || g.Method != f.Package+":"+f.Name || g.InProject == f.IsSystemPackage {
			mc.Fail("notification: frame %d is %+v, want %+v", i, g, f)
		}
	}
}

// bugAnswer fills in an answer of the endpoint; it reports whether that is an acceptance.
func bugAnswer(c *mc.HTTPCall, fault int) bool {
	switch fault {
	case 0:
		c.Reply = []byte("OK")
		return true
	case 1:
		c.Err = mc.ErrConn
	case 2:
		c.Status, c.Reply = 500, []byte("internal error")
	case 3:
		c.Reply = []byte("ok")
	case 4:
		c.Reply, c.BodyErr = []byte("O"), errors.New("unexpected EOF")
	case 5:
		c.Delay, c.Reply = 3*time.Second, []byte("OK")
		return true
	case 6:
		c.Status = 400
	case 7:
		c.Reply = []byte("OK\n")
	case 8:
		c.BodyDelay, c.Reply = 2*time.Second, []byte("OK")
		return true
	case 9:
		c.Reply, c.BodyErr = []byte("OK"), errors.New("connection reset")
	case 10: // the body alone decides
		c.Status, c.Reply = 202, []byte("OK")
		return true
	case 11:
		c.Status, c.Reply = 500, []byte("OK")
		return true
	case 12:
		c.Status = 204
	case 13:
		c.Status, c.Reply = 302, []byte("moved")
	case 14:
		c.Reply = []byte(strings.Repeat("OK", 40000))
	case 15:
		c.Reply = []byte("")
	case 16:
		c.Reply = []byte(" OK")
	case 17:
		c.Status, c.Reply = 429, []byte("slow down")
	case 18:
		c.Delay, c.Reply = 45*time.Second, []byte("OK")
		return true
	case 19:
		c.BodyDelay, c.Reply = 45*time.Second, []byte("OK")
		return true
	}
	return false
}

const (
	bugFaults    = 10 // in sequences
	bugFaultsAll = 20
)

func checkClosed() {
	for i, c := range mc.S.Env.Calls {
		if c.Answered && !c.BodyClosed {
			mc.Fail("the response to request %d (%s %s) was never closed", i, c.Method, c.URL)
		}
	}
}

// bugCfg picks a configuration; it returns a private copy and the endpoint to expect.
func bugCfg(i int) (*bugsnag.Config, string) {
	switch i {
	case 0:
		return &bugsnag.Config{APIKey: "key", ReleaseStage: "production", Hostname: "host-1"}, defaultBugsnag
	case 1:
		return &bugsnag.Config{APIKey: "k\"2", ReleaseStage: "stag ing", Hostname: "h<2>", AppVersion: "1.2", Endpoint: "http://bugs.internal:8080/notify?x=1"}, "http://bugs.internal:8080/notify?x=1"
	}
	return &bugsnag.Config{}, defaultBugsnag
}

func init() {
	add(&Scn{Prop: "C18", Name: "histories", Doc: "all sequences of emissions (every kind; fresh, muted, custom, wrapped and re-reported errors; with and without key-values at every level) on stream and job, delivered at once or while an earlier notification is still in flight and the maps are changed meanwhile: exactly the expected notifications", Cfg: seqCfg, Shards: 8, Body: func() {
		cfg, endpoint := bugCfg(mc.Choose(2))
		slow := mc.Choose(2) == 1
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			c.Reply = []byte("OK")
			if slow {
				c.Delay = time.Minute
			}
		}
		own := *cfg
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		jb := st.NewJob("job.1")
		var want []*bugExp
		var last error
		var stKvs, jobKvs = map[string]string{}, map[string]string{}
		shapes := errShapes()
		report := func(onJob bool, name string, err error, kvs map[string]string) {
			fresh := true
			switch x := err.(type) {
			case *health.MutedError:
				fresh = false
			case *health.UnmutedError:
				fresh = !x.Emitted
			}
			var t target = st
			jn := "general"
			all := copyKvs(stKvs)
			if onJob {
				t, jn = jb, "job.1"
				for k, v := range jobKvs {
					all[k] = v
				}
			}
			for k, v := range kvs {
				all[k] = v
			}
			var ret error
			if kvs != nil {
				ret = t.EventErrKv(name, err, kvs)
			} else {
				ret = t.EventErr(name, err)
			}
			if fresh {
				want = append(want, &bugExp{job: jn, event: name, msg: err.Error(), kvs: all, trace: traceOf(ret)})
			}
			last = ret
			for k := range kvs { // the caller's map is the caller's again
				kvs[k] = "changed"
			}
			if kvs != nil {
				kvs["added"] = "later"
			}
		}
		for i, n := 0, depth(3, 4); i < n; i++ {
			switch c := mc.Choose(12 + len(shapes)); c {
			case 0:
				st.Event("e")
				st.Timing("t", 5)
				st.Gauge("g", 1)
				st.Complete(health.Error)
			case 1:
				jb.EventKv("e", map[string]string{"request": "no"})
				jb.TimingKv("t", 5, map[string]string{"request": "no"})
				jb.GaugeKv("g", 1, map[string]string{"request": "no"})
				jb.CompleteKv(health.Panic, map[string]string{"request": "no"})
			case 2:
				report(false, "ev", errBoom, nil)
			case 3:
				report(true, "ev2", errBoom, nil)
			case 4:
				report(false, "ev", errBoom, map[string]string{"request": "http://x/?a=1&b", "formdata": "q=\"1\"", "other": "o"})
			case 5:
				report(true, "ev", errBoom, map[string]string{"request": "/p", "a": "call"})
			case 6:
				if last != nil {
					report(true, "again", last, nil)
				}
			case 7:
				if last != nil {
					report(false, "muted", health.Mute(last), map[string]string{"a": "b"})
				}
			case 8:
				st.KeyValue("a", fmt.Sprint("stream", i))
				stKvs["a"] = fmt.Sprint("stream", i)
			case 9:
				jb.KeyValue("a", fmt.Sprint("job", i))
				jb.KeyValue("formdata", "f")
				jobKvs["a"] = fmt.Sprint("job", i)
				jobKvs["formdata"] = "f"
			case 10:
				if last != nil {
					report(true, "wrapped again", &wrapE{last}, nil)
				}
			case 11:
				// errors that did not come through a stream
				sink.EmitEventErr("direct", "x", errBoom, nil)
				sink.EmitEventErr("direct", "x", health.Mute(errBoom), nil)
				u := &health.UnmutedError{Err: errBoom, Stack: stack.NewTrace(0)}
				sink.EmitEventErr("direct", "y", u, nil)
				want = append(want, &bugExp{job: "direct", event: "y", msg: "boom", trace: traceOf(u)})
				u2 := &health.UnmutedError{Err: errBoom, Stack: stack.NewTrace(0), Emitted: true}
				sink.EmitEventErr("direct", "z", u2, nil)
			default:
				report(c%2 == 0, "shape", shapes[c-12], nil)
			}
			if !slow {
				mc.WaitIdle()
				if len(mc.S.Env.Calls) != len(want) {
					mc.Fail("after step %d: %d notifications, want %d", i, len(mc.S.Env.Calls), len(want))
				}
			}
		}
		mc.Sleep(time.Hour)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != len(want) {
			mc.Fail("%d notifications, want %d", len(mc.S.Env.Calls), len(want))
		}
		for i, c := range mc.S.Env.Calls {
			want[i].check(&own, endpoint, c)
		}
		checkClosed()
	}})
	add(&Scn{Prop: "C18", Name: "text", Doc: "every awkward text as job, event, message, key, value, request, form data, API key, stage and hostname", Cfg: seqCfg, Shards: 2, Body: func() {
		cfg, endpoint := bugCfg(mc.Choose(3))
		pos := mc.Choose(10)
		x := awkward[mc.Choose(len(awkward))]
		job, event, msg, kvs := "j", "e", "m", map[string]string{"k": "v"}
		switch pos {
		case 0:
			job = x
		case 1:
			event = x
		case 2:
			msg = x
		case 3:
			kvs[x] = "y"
		case 4:
			kvs["k"] = x
		case 5:
			kvs["request"] = x
		case 6:
			kvs["formdata"] = x
		case 7:
			cfg.APIKey = x
		case 8:
			cfg.ReleaseStage = x
		case 9:
			cfg.Hostname = x
		}
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		st.AddSink(bugsnag.NewSink(cfg))
		own := *cfg
		jb := st.NewJob(job)
		ret := jb.EventErrKv(event, errors.New(msg), kvs)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d notifications, want 1", len(mc.S.Env.Calls))
		}
		(&bugExp{job, event, msg, kvs, traceOf(ret)}).check(&own, endpoint, mc.S.Env.Calls[0])
	}})
	add(&Scn{Prop: "C18", Name: "subsets", Doc: "every subset of request, form data and two other key-values (with plain, empty and equal values), set on the stream, the job or the call", Cfg: seqCfg, Body: func() {
		cfg, endpoint := bugCfg(0)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		st.AddSink(bugsnag.NewSink(cfg))
		own := *cfg
		jb := st.NewJob("j")
		m, val := mc.Choose(16), mc.Choose(3)
		var kvs, call map[string]string
		lvl := mc.Choose(3)
		for i, k := range []string{"request", "formdata", "k", "stack"} {
			if m>>i&1 == 0 {
				continue
			}
			v := []string{fmt.Sprint("v", i), "", "same"}[val]
			if kvs == nil {
				kvs = map[string]string{}
			}
			kvs[k] = v
			switch lvl {
			case 0:
				st.KeyValue(k, v)
			case 1:
				jb.KeyValue(k, v)
			case 2:
				if call == nil {
					call = map[string]string{}
				}
				call[k] = v
			}
		}
		ret := jb.EventErrKv("e", errors.New("m"), call)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d notifications, want 1", len(mc.S.Env.Calls))
		}
		(&bugExp{"j", "e", "m", kvs, traceOf(ret)}).check(&own, endpoint, mc.S.Env.Calls[0])
	}})
	add(&Scn{Prop: "C18", Name: "sizes", Doc: "texts of 13 lengths up to 70000 bytes (ASCII and multi-byte) as job, event, message, key, value, request and form data, and up to 2000 key-values: nothing is cut", Cfg: seqCfg, Body: func() {
		cfg, endpoint := bugCfg(0)
		n := []int{63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 1025, 4097, 70000}[mc.Choose(13)]
		pos := mc.Choose(8)
		x := strings.Repeat([]string{"x", "é"}[mc.Choose(2)], n)
		job, event, msg, kvs := "j", "e", "m", map[string]string{"k": "v"}
		switch pos {
		case 0:
			job = x
		case 1:
			event = x
		case 2:
			msg = x
		case 3:
			kvs[x] = "y"
		case 4:
			kvs["k"] = x
		case 5:
			kvs["request"] = x
		case 6:
			kvs["formdata"] = x
		case 7:
			for i := 0; i < n && i < 2000; i++ {
				kvs[fmt.Sprint("k", i)] = fmt.Sprint(i)
			}
		}
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		st.AddSink(bugsnag.NewSink(cfg))
		own := *cfg
		jb := st.NewJob(job)
		ret := jb.EventErrKv(event, errors.New(msg), kvs)
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d notifications, want 1", len(mc.S.Env.Calls))
		}
		(&bugExp{job, event, msg, kvs, traceOf(ret)}).check(&own, endpoint, mc.S.Env.Calls[0])
	}})
	add(&Scn{Prop: "C18", Name: "several", Doc: "one to three bugsnag sinks and recording sinks in every order on one stream, an error of every shape reported once or twice in every form: each bugsnag sink notifies of each fresh one, once, and the sinks see it as not emitted before", Cfg: seqCfg, Shards: 2, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		var cfgs []*bugsnag.Config
		var seen []*bool
		for i, n := 0, 1+mc.Choose(3); i < n; i++ {
			if mc.Choose(2) == 1 {
				b := new(bool)
				seen = append(seen, b)
				st.AddSink(&sinkFuncs{err: func(e error) {
					if u, ok := e.(*health.UnmutedError); ok {
						*b = u.Emitted
					}
				}})
			} else {
				c := &bugsnag.Config{APIKey: fmt.Sprint("k", i), Endpoint: fmt.Sprint("http://bugs/", i)}
				cfgs = append(cfgs, c)
				st.AddSink(bugsnag.NewSink(c))
			}
		}
		shapes := errShapes()
		err := shapes[mc.Choose(len(shapes))]
		times := 1 + mc.Choose(2)
		form := mc.Choose(2)
		for k := 0; k < times; k++ {
			fresh := true
			switch x := err.(type) {
			case *health.MutedError:
				fresh = false
			case *health.UnmutedError:
				fresh = !x.Emitted
			}
			n0 := len(mc.S.Env.Calls)
			msg := err.Error()
			if form == 0 {
				err = st.EventErr("e", err)
			} else {
				err = st.NewJob("general").EventErrKv("e", err, nil)
			}
			mc.WaitIdle()
			got := mc.S.Env.Calls[n0:]
			want := len(cfgs)
			if !fresh {
				want = 0
			}
			if len(got) != want {
				mc.Fail("report %d: %d notifications by %d sinks, want %d", k, len(got), len(cfgs), want)
			}
			by := map[string]*mc.HTTPCall{}
			for _, c := range got {
				by[c.URL] = c
			}
			for i := range cfgs {
				if fresh {
					c := by[cfgs[i].Endpoint]
					if c == nil {
						mc.Fail("report %d: no notification by sink %d of %d", k, i, len(cfgs))
					}
					(&bugExp{"general", "e", msg, nil, traceOf(err)}).check(cfgs[i], cfgs[i].Endpoint, c)
				}
			}
			for _, b := range seen {
				if fresh && *b {
					mc.Fail("a sink saw the error as emitted before when it was first reported")
				}
			}
		}
	}})
	add(&Scn{Prop: "C18", Name: "concurrent", Doc: "two goroutines, each reporting one or two errors (with traces of their own, messages of other lengths, key-values) on a stream with a bugsnag sink of its own, or calling Notify: every notification is exactly that of its error, in all interleavings", Cfg: conc(2), Deep: concP(4), Shards: 2, DeepShards: 8, Body: func() {
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		mode := [2]int{mc.Choose(2), mc.Choose(2)}
		var exps [2][]*bugExp
		var cfgs [2]*bugsnag.Config
		var fs []func()
		for g := 0; g < 2; g++ {
			cfg := &bugsnag.Config{APIKey: fmt.Sprint("k", g), Hostname: strings.Repeat("h", 1+g*5), Endpoint: fmt.Sprint("http://bugs/", g)}
			cfgs[g] = cfg
			st := health.NewStream()
			if mode[g] == 0 {
				st.AddSink(bugsnag.NewSink(cfg))
			}
			fs = append(fs, func() {
				for i := 0; i < 2-g; i++ {
					n := fmt.Sprint("g", g, "i", i)
					m := strings.Repeat(n, 1+3*g)
					kvs := map[string]string{"k" + n: m, "request": "/" + n}
					exp := &bugExp{n, n + "e", m, copyKvs(kvs), nil}
					if mode[g] == 0 {
						var ret error
						recurse(3*g+i, func() { ret = st.NewJob(n).EventErrKv(n+"e", errors.New(m), kvs) })
						exp.trace = traceOf(ret)
					} else {
						var t *stack.Trace
						recurse(3*g+i, func() { t = stack.NewTrace(0) })
						exp.trace = append([]stack.Frame{}, t.Frames()...)
						if err := bugsnag.Notify(cfg, n, n+"e", errors.New(m), t, kvs); err != nil {
							mc.Fail("Notify: %v", err)
						}
					}
					exps[g] = append(exps[g], exp)
				}
			})
		}
		par(fs...)
		mc.WaitIdle()
		var idx [2]int
		for _, c := range mc.S.Env.Calls {
			g := 0
			if c.URL == cfgs[1].Endpoint {
				g = 1
			}
			if idx[g] >= len(exps[g]) {
				mc.Fail("more notifications than errors to %s", c.URL)
			}
			exps[g][idx[g]].check(cfgs[g], cfgs[g].Endpoint, c)
			idx[g]++
		}
		if idx[0] != len(exps[0]) || idx[1] != len(exps[1]) {
			mc.Fail("%v notifications, want %d and %d", idx, len(exps[0]), len(exps[1]))
		}
	}})
	add(&Scn{Prop: "C18", Name: "kept_kvs", Doc: "0 to 40 key-values on the stream, the job or the call, all changed as soon as the call has returned: the notification has those of the call", Cfg: seqCfg, Body: func() {
		cfg, endpoint := bugCfg(0)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		st.AddSink(bugsnag.NewSink(cfg))
		own := *cfg
		jb := st.NewJob("j")
		where, kvs := mc.Choose(3), map[string]string{}
		set := func(k, v string) {
			switch where {
			case 0:
				st.KeyValue(k, v)
			case 1:
				jb.KeyValue(k, v)
			case 2:
				kvs[k] = v
			}
		}
		want := map[string]string{}
		for i, n := 0, mc.Choose(41); i < n; i++ {
			k := fmt.Sprint("k", i)
			set(k, "then")
			want[k] = "then"
		}
		ret := jb.EventErrKv("e", errors.New("m"), kvs)
		for k := range want {
			set(k, "later")
		}
		set("new", "later")
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d notifications, want 1", len(mc.S.Env.Calls))
		}
		(&bugExp{"j", "e", "m", want, traceOf(ret)}).check(&own, endpoint, mc.S.Env.Calls[0])
	}})
	add(&Scn{Prop: "C18", Name: "depths", Doc: "errors reported from call depths 0 to 70, from another package's callback and from a panicking job: the trace in the notification is the one of the error", Cfg: seqCfg, Body: func() {
		cfg, endpoint := bugCfg(0)
		own := *cfg
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		var seen []error
		st.AddSink(bugsnag.NewSink(cfg))
		rs := &recSink{hook: func(r rec) {
			if r.K == kErr {
				seen = append(seen, r.Err)
			}
		}}
		st.AddSink(rs)
		d := mc.Choose(74)
		kvs := map[string]string{}
		var want *bugExp
		switch {
		case d < 71:
			var ret error
			recurse(d, func() { ret = st.EventErr("deep", errBoom) })
			want = &bugExp{"general", "deep", "boom", nil, traceOf(ret)}
		case d == 71:
			var ret error
			strings.Map(func(r rune) rune { ret = st.EventErr("cb", errBoom); return r }, "x")
			want = &bugExp{"general", "cb", "boom", nil, traceOf(ret)}
		default:
			st.Run("pan", func() error {
				if d == 72 {
					panic("ouch")
				}
				var m map[string]int
				m["x"] = 1
				return nil
			})
			if len(seen) != 1 {
				mc.Fail("%d errors reported for a panic", len(seen))
			}
			for _, g := range rs.got {
				if g.K == kErr {
					kvs = g.Kvs
				}
			}
			want = &bugExp{"pan", "panic", seen[0].Error(), kvs, traceOf(seen[0])}
		}
		mc.WaitIdle()
		if len(mc.S.Env.Calls) != 1 {
			mc.Fail("%d notifications, want 1", len(mc.S.Env.Calls))
		}
		want.check(&own, endpoint, mc.S.Env.Calls[0])
	}})

	// ------------------------------------------------------------- C19
	add(&Scn{Prop: "C19", Name: "faults", Doc: "every assignment of 10 endpoint behaviours to the first notifications, followed by two healthy ones: each attempted exactly once in order, every response closed, the sink alive", Cfg: seqCfg, Shards: 4, Body: func() {
		cfg, _ := bugCfg(0)
		n := depth(3, 4)
		var faults []int
		for i := 0; i < n; i++ {
			faults = append(faults, mc.Choose(bugFaults))
		}
		together := mc.Choose(2) == 1
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			i := len(mc.S.Env.Calls) - 1
			if i < n {
				bugAnswer(c, faults[i])
			} else {
				c.Reply = []byte("OK")
			}
		}
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		for i := 0; i < n+2; i++ {
			t0 := mc.VNow()
			st.EventErr(fmt.Sprint("n", i), errBoom)
			if mc.VNow() != t0 {
				mc.Fail("reporting waited for the endpoint")
			}
			if !together {
				mc.Sleep(10 * time.Second)
				mc.WaitIdle()
				if len(mc.S.Env.Calls) != i+1 {
					mc.Fail("%d notifications attempted after %d errors", len(mc.S.Env.Calls), i+1)
				}
			}
		}
		mc.Sleep(time.Minute)
		mc.WaitIdle()
		checkBugOrder([][]string{seqNames("n", n+2)}, []int{n + 2})
		checkClosed()
		sink.ShutdownServer()
	}})
	add(&Scn{Prop: "C19", Name: "answers", Doc: "every pair of 20 endpoint behaviours (statuses, bodies, delays, breaks) for the first two of four errors, reported together or apart: each attempted exactly once in order, every response closed, the sink alive", Cfg: seqCfg, Body: func() {
		cfg, _ := bugCfg(0)
		faults := []int{mc.Choose(bugFaultsAll), mc.Choose(bugFaultsAll)}
		gap := mc.Choose(2)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			if i := len(mc.S.Env.Calls) - 1; i < 2 {
				bugAnswer(c, faults[i])
			} else {
				c.Reply = []byte("OK")
			}
		}
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		for i := 0; i < 4; i++ {
			st.EventErr(fmt.Sprint("n", i), errBoom)
			mc.Sleep(time.Duration(gap) * 10 * time.Second)
		}
		mc.Sleep(2 * time.Minute)
		mc.WaitIdle()
		checkBugOrder([][]string{seqNames("n", 4)}, []int{4})
		checkClosed()
		sink.ShutdownServer()
	}})
	add(&Scn{Prop: "C19", Name: "statuses", Doc: "every status from 200 to 599 with and without the accepting body, for the second of three errors or for Notify: each attempted exactly once in order, every response closed, the sink alive", Cfg: seqCfg, Body: func() {
		cfg, _ := bugCfg(0)
		status, good := 200+mc.Choose(400), mc.Choose(2) == 1
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			c.Reply = []byte("OK")
			if len(mc.S.Env.Calls) == 2 {
				c.Status = status
				if !good {
					c.Reply = []byte("try again")
				}
			}
		}
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		for i := 0; i < 3; i++ {
			st.EventErr(fmt.Sprint("n", i), errBoom)
		}
		// the answers take no time, so neither does going on to the next error
		mc.WaitIdle()
		if t := mc.VNow(); len(mc.S.Env.Calls) < 3 && status != 302 {
			mc.Fail("after status %d (accepting body: %v) for the second of three errors only %d were attempted without any time passing (%v)", status, good, len(mc.S.Env.Calls), t)
		}
		mc.Sleep(5 * time.Minute)
		mc.WaitIdle()
		checkBugOrder([][]string{seqNames("n", 3)}, []int{3})
		checkClosed()
		sink.ShutdownServer()
		mc.S.Env.Calls = mc.S.Env.Calls[:1]
		if err := bugsnag.Notify(cfg, "j", "e", errBoom, nil, nil); (err == nil) != good {
			mc.Fail("Notify with status %d and body %q returned %v", status, mc.S.Env.Calls[1].Reply, err)
		}
		if n := len(mc.S.Env.Calls) - 1; n != 1 {
			mc.Fail("Notify made %d requests after status %d", n, status)
		}
		checkClosed()
	}})
	add(&Scn{Prop: "C19", Name: "notify", Doc: "Notify under each of 20 endpoint behaviours, with and without trace and key-values, repeated: error exactly when not accepted, response closed", Cfg: seqCfg, Body: func() {
		cfg, endpoint := bugCfg(1)
		own := *cfg
		for i := 0; i < 2; i++ {
			f := mc.Choose(bugFaultsAll)
			var tr *stack.Trace
			e := &bugExp{"j", "e", "boom", nil, nil}
			if mc.Choose(2) == 1 {
				tr = stack.NewTrace(0)
				e.trace = append([]stack.Frame{}, tr.Frames()...)
			}
			if mc.Choose(2) == 1 {
				e.kvs = map[string]string{"request": "r"}
			}
			ok := false
			mc.S.Env.HTTP = func(c *mc.HTTPCall) { ok = bugAnswer(c, f) }
			n0 := len(mc.S.Env.Calls)
			err := bugsnag.Notify(cfg, "j", "e", errBoom, tr, copyKvs(e.kvs))
			if (err == nil) != ok {
				mc.Fail("Notify with endpoint behaviour %d returned %v", f, err)
			}
			if len(mc.S.Env.Calls) != n0+1 {
				mc.Fail("Notify made %d requests", len(mc.S.Env.Calls)-n0)
			}
			e.check(&own, endpoint, mc.S.Env.Calls[n0])
			checkClosed()
		}
	}})
	add(&Scn{Prop: "C19", Name: "shapes", Doc: "every error shape, including unmuted errors without a trace, then a normal one: the sink survives", Cfg: seqCfg, Body: func() {
		cfg, _ := bugCfg(0)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) { c.Reply = []byte("OK") }
		st := health.NewStream()
		st.AddSink(bugsnag.NewSink(cfg))
		shapes := errShapes()
		for i := 0; i < 2; i++ {
			st.EventErr("s", shapes[mc.Choose(len(shapes))])
		}
		st.EventErr("last", errBoom)
		mc.WaitIdle()
		cs := mc.S.Env.Calls
		if len(cs) == 0 || str(decodeBug(cs[len(cs)-1]).Events[0].Exceptions[0].Class) != "last" {
			mc.Fail("the error reported last was not delivered")
		}
	}})
	for _, n := range []int{2, 3} {
		n := n
		b, db := 4, 6
		per := 2
		if n == 3 {
			b, db, per = 3, 5, 1
		}
		add(&Scn{Prop: "C19", Name: fmt.Sprint("reporters", n), Doc: "interleavings of several reporting goroutines (jobs of one stream), the delivery loop with fast, slow and failing answers, and a shutdown afterwards", Cfg: conc(b), Deep: concP(db), Shards: 4, DeepShards: 8, Body: func() {
			cfg, _ := bugCfg(0)
			mode := mc.Choose(3)
			mc.S.Env.HTTP = func(c *mc.HTTPCall) {
				switch {
				case mode == 1:
					c.Delay, c.Reply = 2*time.Second, []byte("OK")
				case mode == 2 && len(mc.S.Env.Calls)%2 == 1:
					c.Err = mc.ErrConn
				default:
					c.Reply = []byte("OK")
				}
			}
			sink := bugsnag.NewSink(cfg)
			st := health.NewStream()
			st.AddSink(sink)
			var fs []func()
			var names [][]string
			var need []int
			for g := 0; g < n; g++ {
				jb := st.NewJob(fmt.Sprint("g", g))
				ns := seqNames(fmt.Sprint("g", g, "n"), per)
				names = append(names, ns)
				need = append(need, per)
				fs = append(fs, func() {
					for _, x := range ns {
						jb.EventErr(x, errBoom)
					}
				})
			}
			par(fs...)
			if mode == 1 {
				mc.Sleep(time.Duration(2*n*per+1) * time.Second)
			}
			mc.WaitIdle()
			checkBugOrder(names, need)
			checkClosed()
			sink.ShutdownServer()
		}})
	}
	add(&Scn{Prop: "C19", Name: "shutdown", Doc: "interleavings of reporters and ShutdownServer: all return, nothing delivered twice or out of order", Cfg: conc(4), Deep: concP(6), Shards: 4, DeepShards: 8, Body: func() {
		cfg, _ := bugCfg(0)
		slow := mc.Choose(2) == 1
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			c.Reply = []byte("OK")
			if slow {
				c.Delay = 2 * time.Second
			}
		}
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		a, b := st.NewJob("a"), st.NewJob("b")
		na, nb := seqNames("a", 2), seqNames("b", 1)
		var done [3]bool
		mc.GoNamed("a", func() {
			for _, x := range na {
				a.EventErr(x, errBoom)
			}
			done[0] = true
		})
		mc.GoNamed("b", func() {
			for _, x := range nb {
				b.EventErr(x, errBoom)
			}
			done[1] = true
		})
		mc.GoNamed("stop", func() {
			sink.ShutdownServer()
			done[2] = true
		})
		mc.Sleep(time.Minute)
		mc.WaitIdle()
		if done != [3]bool{true, true, true} {
			mc.Fail("reporters/shutdown still blocked: %v", done)
		}
		checkBugOrder([][]string{na, nb}, []int{0, 0})
		checkClosed()
	}})
	add(&Scn{Prop: "C19", Name: "burst", Doc: "80 errors from 4 goroutines with an endpoint that takes a second each (the queue holds 25): all get through and are delivered in order", Cfg: burst, Body: func() {
		cfg, _ := bugCfg(0)
		fail := mc.Choose(3)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			c.Delay, c.Reply = time.Second, []byte("OK")
			if fail == 1 {
				c.Reply = []byte("no")
			}
			if fail == 2 {
				c.Err = mc.ErrConn
			}
		}
		sink := bugsnag.NewSink(cfg)
		st := health.NewStream()
		st.AddSink(sink)
		var fs []func()
		var names [][]string
		for g := 0; g < 4; g++ {
			jb := st.NewJob(fmt.Sprint("g", g))
			ns := seqNames(fmt.Sprint("g", g, "n"), 20)
			names = append(names, ns)
			fs = append(fs, func() {
				for _, x := range ns {
					jb.EventErr(x, errBoom)
				}
			})
		}
		par(fs...)
		mc.Sleep(time.Minute)
		mc.WaitIdle()
		checkBugOrder(names, []int{20, 20, 20, 20})
		checkClosed()
		sink.ShutdownServer()
	}})
}

//go:noinline
func recurse(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	recurse(n-1, f)
}

func seqNames(p string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(p, i))
	}
	return out
}

// checkBugOrder: the attempted notifications are an interleaving of the
// goroutines' errors, each at most once, need[g] at least.
func checkBugOrder(names [][]string, need []int) {
	idx := make([]int, len(names))
	var got []string
	for _, c := range mc.S.Env.Calls {
		got = append(got, str(decodeBug(c).Events[0].Exceptions[0].Class))
	}
next:
	for _, x := range got {
		for g := range names {
			if idx[g] < len(names[g]) && names[g][idx[g]] == x {
				idx[g]++
				continue next
			}
		}
		mc.Fail("notification %q was not due: %v", x, got)
	}
	for g := range names {
		if idx[g] < need[g] {
			mc.Fail("only %d of %d errors of goroutine %d were delivered: %v", idx[g], need[g], g, got)
		}
	}
}
