package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

// recWriter records every Write call.
type recWriter struct {
	mu     *mc.Mutex
	writes []string
	at     []time.Time
	fail   func(n int) (int, error)
}

func (w *recWriter) Write(p []byte) (int, error) {
	if w.mu != nil {
		w.mu.Lock()
		defer w.mu.Unlock()
	}
	w.writes = append(w.writes, string(p))
	w.at = append(w.at, mc.Now())
	if w.fail != nil {
		if n, err := w.fail(len(w.writes) - 1); err != nil {
			return n, err
		}
	}
	return len(p), nil
}

func (w *recWriter) one(what string) (string, time.Time) {
	if len(w.writes) != 1 {
		mc.Fail("%s made %d writes, want exactly 1: %q", what, len(w.writes), w.writes)
	}
	s := w.writes[0]
	w.writes = nil
	at := w.at[0]
	w.at = nil
	return s, at
}

func refDuration(n int64) string {
	if n > 2000000 {
		return strconv.FormatInt(n/1000000, 10) + " ms"
	}
	if n > 2000 {
		return strconv.FormatInt(n/1000, 10) + " μs"
	}
	return strconv.FormatInt(n, 10) + " ns"
}

// refLine is the line WriterSink must write, with or without an empty kvs list.
func refLine(o op, at time.Time) []string {
	s := "[" + at.UTC().Format(time.RFC3339Nano) + "]: job:" + o.Job
	if o.K == kComplete {
		s += " status:" + statusNames[o.Status]
	} else {
		s += " event:" + o.Event
	}
	switch o.K {
	case kErr:
		s += " err:" + o.Err.Error()
	case kTiming, kComplete:
		s += " time:" + refDuration(o.Nanos)
	case kGauge:
		s += " gauge:" + strconv.FormatFloat(o.Value, 'g', -1, 64)
	}
	if len(o.Kvs) == 0 {
		if o.Kvs == nil {
			return []string{s + "\n"}
		}
		return []string{s + "\n", s + " kvs:[]\n"}
	}
	ks := make([]string, 0)
	for k := range o.Kvs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + ":" + o.Kvs[k]
	}
	return []string{s + " kvs:[" + strings.Join(ks, " ") + "]\n"}
}

func checkLine(got string, o op, at time.Time) {
	for _, w := range refLine(o, at) {
		if got == w {
			return
		}
	}
	mc.Fail("%v wrote\n  %q\nwant\n  %q", o, got, refLine(o, at)[0])
}

// checkObject compares one written JSON object with the emission.
func checkObject(got string, o op, at time.Time) {
	dec := json.NewDecoder(strings.NewReader(got))
	var m map[string]json.RawMessage
	if err := dec.Decode(&m); err != nil {
		mc.Fail("%v wrote no JSON object: %v\n%q", o, err, got)
	}
	if dec.More() {
		mc.Fail("%v wrote more than one JSON value: %q", o, got)
	}
	str := func(k, want string) {
		var s *string
		if err := json.Unmarshal(m[k], &s); err != nil || s == nil || *s != want {
			mc.Fail("%v: field %s is %s, want %q", o, k, m[k], want)
		}
		delete(m, k)
	}
	str("Job", o.Job)
	str("Timestamp", at.UTC().Format(time.RFC3339Nano))
	if o.K == kComplete {
		str("Status", statusNames[o.Status])
	} else {
		str("Event", o.Event)
	}
	switch o.K {
	case kErr:
		str("Err", o.Err.Error())
	case kTiming, kComplete:
		if string(m["Nanoseconds"]) != strconv.FormatInt(o.Nanos, 10) {
			mc.Fail("%v: Nanoseconds is %s", o, m["Nanoseconds"])
		}
		delete(m, "Nanoseconds")
	case kGauge:
		f, err := strconv.ParseFloat(string(m["Value"]), 64)
		if err != nil || f != o.Value {
			mc.Fail("%v: Value is %s", o, m["Value"])
		}
		delete(m, "Value")
	}
	var kvs map[string]string
	if err := json.Unmarshal(m["Kvs"], &kvs); err != nil {
		mc.Fail("%v: Kvs is %s", o, m["Kvs"])
	}
	if o.Kvs == nil && string(m["Kvs"]) != "null" {
		mc.Fail("%v: Kvs is %s without key-values", o, m["Kvs"])
	}
	if kvString(kvs) != kvString(o.Kvs) {
		mc.Fail("%v: Kvs is %s, want %s", o, kvString(kvs), kvString(o.Kvs))
	}
	delete(m, "Kvs")
	if len(m) > 0 {
		mc.Fail("%v: unexpected fields in %s", o, got)
	}
}

type writerKind struct {
	prop  string
	mk    func(w *recWriter) health.Sink
	check func(got string, o op, at time.Time)
}

var writerKinds = []writerKind{
	{"C16", func(w *recWriter) health.Sink { return &health.WriterSink{Writer: w} }, checkLine},
	{"C17", func(w *recWriter) health.Sink { return &health.JsonWriterSink{Writer: w} }, checkObject},
}

func init() {
	// times whose nanoseconds have trailing zeros, none, all
	times := []time.Duration{0, 1, 500 * time.Millisecond, 123456789, 999999999, 25 * time.Hour}
	kvss := []map[string]string{nil, {}, {"a": "b"}, {"b": "1", "a": "2"}, {"B": "x", "a": "", "": "y", "é": "ü", "a b": "c:d"}, {"10": "a", "9": "b", "%d": "%s"}}
	for _, wk := range writerKinds {
		wk := wk
		add(&Scn{Prop: wk.prop, Name: "names", Doc: "every kind x awkward job, event and message x key-value maps", Cfg: seqCfg, Shards: 4, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
			o := []op{ev(j, e), {K: kErr, Job: j, Event: "e", Err: errors.New(e)}, ti(j, e, 3000), ga(j, e, 4.25), co(j, health.Error, 9)}[mc.Choose(5)]
			switch mc.Choose(3) {
			case 1:
				o.Kvs = map[string]string{e: j}
			case 2:
				o.Kvs = map[string]string{j: e, "z": j, "": "x"}
			}
			o.emit(s)
			got, at := w.one(o.String())
			wk.check(got, o, at)
		}})
		add(&Scn{Prop: wk.prop, Name: "bytes", Doc: "every byte below 0x80 and selected runes in event, job, message and key-values", Cfg: seqCfg, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			runes := []rune{0x80, 0xff, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x1f4a9, 0x10ffff}
			c := mc.Choose(128 + len(runes))
			n := "x" + string(rune(c)) + "d"
			if c >= 128 {
				n = string(runes[c-128])
			}
			for _, o := range []op{ev(n, "e"), {K: kErr, Job: "j", Event: n, Err: errors.New(n)}, {K: kGauge, Job: "j", Event: "e", Value: 1, Kvs: map[string]string{n: n, "m": "v" + n}}} {
				o.emit(s)
				got, at := w.one(o.String())
				wk.check(got, o, at)
			}
		}})
		for _, z := range []bool{false, true} {
			cfg := seqCfg
			nm := "values"
			if z {
				cfg.Base = zoned
				nm += "_zoned"
			}
			add(&Scn{Prop: wk.prop, Name: nm, Doc: "boundary numbers and statuses x times of day x key-value maps", Cfg: cfg, Shards: 2, Body: func() {
				w := &recWriter{}
				s := wk.mk(w)
				mc.Sleep(times[mc.Choose(len(times))])
				var o op
				switch mc.Choose(4) {
				case 0:
					ns := append(append([]int64{}, int64s...), 1999, 2002, 2999, 3000, 1999999999, 12345678901)
					o = ti("j", "e", ns[mc.Choose(len(ns))])
				case 1:
					o = co("j", statuses[mc.Choose(5)], int64s[mc.Choose(len(int64s))])
				case 2:
					fs := append(append([]float64{}, floats...), 1e6, 1e5, 123456789, 1e-5, 1e-4, 1234567, 1<<53+2, -1.5)
					o = ga("j", "e", fs[mc.Choose(len(fs))])
				case 3:
					shapes := errShapes()
					o = op{K: kErr, Job: "j", Event: "e", Err: shapes[mc.Choose(len(shapes))]}
				}
				o.Kvs = kvss[mc.Choose(len(kvss))]
				before := kvString(o.Kvs)
				o.emit(s)
				got, at := w.one(o.String())
				wk.check(got, o, at)
				if kvString(o.Kvs) != before {
					mc.Fail("key-values were modified")
				}
			}})
		}
		add(&Scn{Prop: wk.prop, Name: "sequences", Doc: "all sequences of emissions (5 kinds x with and without key-values), some writes failing: each emission is one exact write, unaffected by those before", Cfg: seqCfg, Shards: 2, Body: func() {
			w := &recWriter{}
			failing := mc.Choose(4)
			w.fail = func(n int) (int, error) {
				if failing == 3 || failing == 2 && n%2 == 0 {
					return 3, errors.New("disk full")
				}
				return 0, nil
			}
			s := wk.mk(w)
			var l []op
			for i, n := 0, depth(4, 5); i < n; i++ {
				c := mc.Choose(10)
				o := []op{ev("j", fmt.Sprint("event", i)), {K: kErr, Job: "jj", Event: "e", Err: fmt.Errorf("m%d", i)}, ti("j", "e", int64(i)*3000), ga("j", "g", float64(i)/3), co("jjj", statuses[i%5], int64(i)*1500)}[c%5]
				if c >= 5 {
					o.Kvs = map[string]string{"k": fmt.Sprint(i), fmt.Sprint("l", i): "v"}
				}
				o.emit(s)
				l = append(l, o)
				mc.Sleep(time.Duration(i * 1001))
			}
			if len(w.writes) != len(l) {
				mc.Fail("%d emissions made %d writes", len(l), len(w.writes))
			}
			for i := range l {
				wk.check(w.writes[i], l[i], w.at[i])
			}
		}})
		add(&Scn{Prop: wk.prop, Name: "clock", Doc: "all sequences of emissions 0 ns to 1 day apart (9 distances): each carries the time at which it was made", Cfg: seqCfg, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			for i, n := 0, depth(4, 5); i < n; i++ {
				o := []op{ev("j", "e"), er("j", "e"), ti("j", "e", 1), ga("j", "e", 1), co("j", 1, 2)}[i%5]
				o.emit(s)
				got, at := w.one(o.String())
				wk.check(got, o, at)
				mc.Sleep([]time.Duration{0, 1, 99, 999, 1001, 999999, 1000001, time.Second - 1, 24 * time.Hour}[mc.Choose(9)])
			}
		}})
		add(&Scn{Prop: wk.prop, Name: "map_orders", Doc: "4 key-values under every map iteration order", Cfg: mc.Cfg{NoPreempt: true, MapOrder: true, Bound: 99}, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			o := []op{ev("j", "e"), er("j", "e"), ti("j", "e", 1), ga("j", "e", 1), co("j", 1, 2)}[mc.Choose(5)]
			o.Kvs = map[string]string{"b": "1", "a": "2", "c": "3", "B": "4"}
			o.emit(s)
			got, at := w.one(o.String())
			wk.check(got, o, at)
		}})
		add(&Scn{Prop: wk.prop, Name: "large", Doc: "lines with 1000 key-values and 1 MB names; 5000 emissions", Cfg: burst, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			o := ev(strings.Repeat("j", 1<<20), strings.Repeat("e", 70000))
			o.Kvs = map[string]string{}
			for i := 0; i < 1000; i++ {
				o.Kvs[fmt.Sprint("k", i)] = fmt.Sprint(i)
			}
			o.emit(s)
			got, at := w.one("large")
			wk.check(got, o, at)
			for _, n := range []int{255, 256, 1000, 1001, 1024, 4096, 65536, 70001} {
				for _, c := range []string{"x", "é", "\u2028", "\n\""} {
					for _, e := range []error{errors.New(strings.Repeat(c, n)), health.Mute(valErr{strings.Repeat(c, n)}), &health.UnmutedError{Err: errors.New(strings.Repeat(c, n))}} {
						o := op{K: kErr, Job: "j", Event: "e", Err: e, Kvs: map[string]string{"k": strings.Repeat(c, n)}}
						o.emit(s)
						got, at := w.one("a long error")
						wk.check(got, o, at)
					}
				}
			}
			for _, n := range []int{255, 256, 1000, 1024, 4096, 8192, 65536, 70001} {
				for k := 0; k < 5; k++ {
					for pos := 0; pos < 4; pos++ {
						j, e, kvs := "j", "e", map[string]string{"a": "b"}
						long := strings.Repeat("n", n)
						switch pos {
						case 0:
							j = long
						case 1:
							e = long
						case 2:
							kvs = map[string]string{long: "v", "a": "b"}
						case 3:
							kvs["k"] = long
						}
						o := []op{ev(j, e), er(j, e), ti(j, e, 5), ga(j, e, 1.5), co(j, health.Junk, 7)}[k]
						o.Kvs = kvs
						o.emit(s)
						got, at := w.one("an emission with a long part")
						wk.check(got, o, at)
					}
				}
			}
			for i := 0; i < 5000; i++ {
				o := []op{ev("j", "e"), er("j", "e"), ti("j", "e", int64(i)), ga("j", "e", float64(i)), co("j", statuses[i%5], int64(i*1000))}[i%5]
				if i%3 == 0 {
					o.Kvs = map[string]string{"i": fmt.Sprint(i), "j": "x"}
				}
				o.emit(s)
				got, at := w.one("emission")
				wk.check(got, o, at)
			}
		}})
		add(&Scn{Prop: wk.prop, Name: "concurrent", Doc: "3 goroutines x 2 emissions through one sink, all interleavings at the writer: every write is exactly one emission's, each once", Cfg: conc(3), Deep: concP(5), Shards: 2, DeepShards: 8, Body: func() {
			w := &recWriter{mu: new(mc.Mutex)}
			s := wk.mk(w)
			shared := map[string]string{"s": "h", "a": "r"}
			sh := mc.Choose(5)
			var fs []func()
			ops := make([][]op, 3)
			for g := 0; g < 3; g++ {
				for i := 0; i < 2; i++ {
					n := fmt.Sprint("g", g, "i", i) + strings.Repeat("x", g*5)
					o := []op{ev(n, n), {K: kErr, Job: n, Event: n, Err: errors.New(n)}, ti(n, n, int64(g*1000+i)), ga(n, n, float64(g)+0.5), co(n, statuses[g], int64(i))}[(sh+g+i)%5]
					if i == 0 {
						o.Kvs = shared
					}
					ops[g] = append(ops[g], o)
				}
				fs = append(fs, func() {
					for _, o := range ops[g] {
						o.emit(s)
					}
				})
			}
			par(fs...)
			if len(w.writes) != 6 {
				mc.Fail("6 emissions made %d writes: %q", len(w.writes), w.writes)
			}
			idx := [3]int{}
			for i, got := range w.writes {
				var g int
				p := strings.Index(got, "g")
				for p >= 0 && !(len(got) > p+2 && got[p+1] >= '0' && got[p+1] <= '2' && got[p+2] == 'i') {
					q := strings.Index(got[p+1:], "g")
					if q < 0 {
						p = -1
					} else {
						p += 1 + q
					}
				}
				if p < 0 {
					mc.Fail("write %q belongs to no emission", got)
				}
				g = int(got[p+1] - '0')
				if idx[g] >= 2 {
					mc.Fail("goroutine %d: too many writes: %q", g, w.writes)
				}
				wk.check(got, ops[g][idx[g]], w.at[i])
				idx[g]++
			}
		}})
		add(&Scn{Prop: wk.prop, Name: "via_stream", Doc: "calls on stream and job with key-values at all levels", Cfg: seqCfg, Body: func() {
			w := &recWriter{}
			s := wk.mk(w)
			st := health.NewStream()
			st.AddSink(s)
			skv := mc.Choose(2) == 1
			if skv {
				st.KeyValue("s", "1")
			}
			j := st.NewJob("the job")
			mc.Sleep(3000001)
			for i := 0; i < 2; i++ {
				c := mc.Choose(20)
				v := posVals(i)
				v.f = 2.5
				var r rec
				if c < 10 {
					r, _ = callForm(st, "general", 0, c, v)
				} else {
					r, _ = callForm(j, "the job", 0, c-10, v)
				}
				if skv {
					if r.Kvs == nil {
						r.Kvs = map[string]string{}
					}
					r.Kvs["s"] = "1"
				}
				got, at := w.one(formNames[c%10])
				wk.check(got, op{K: r.K, Job: r.Job, Event: r.Event, Nanos: r.Nanos, Value: r.Value, Status: r.Status, Err: v.err, Kvs: r.Kvs}, at)
			}
		}})
	}
}
