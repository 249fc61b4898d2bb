package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

const statsdAddr = "127.0.0.1:8125"

func newStatsd(o *health.StatsDSinkOptions) *health.StatsDSink {
	s, err := health.NewStatsDSink(statsdAddr, o)
	if err != nil {
		mc.Fail("NewStatsDSink: %v", err)
	}
	return s
}

// ------------------------------------------------------------- reference formatter

func statsdClean(s string) string {
	b := []byte(s)
	for i, c := range b {
		ok := c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !ok {
			b[i] = '$'
		}
	}
	return string(b)
}

func statsdMs(n int64) string {
	if n >= 10000000 {
		return strconv.FormatInt(n/1000000, 10)
	}
	return strconv.FormatFloat(float64(n)/1000000, 'f', 2, 64)
}

func statsdGauge(v float64) string {
	if v > -0.1 && v < 0.1 {
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return strconv.FormatFloat(v, 'f', 2, 64)
}

type statsdOpt struct {
	prefix         string
	skipNest, skip bool
	clean          func(string) string
}

func (o *statsdOpt) real() *health.StatsDSinkOptions {
	r := &health.StatsDSinkOptions{Prefix: o.prefix, SkipNestedEvents: o.skipNest, SkipTopLevelEvents: o.skip}
	if o.clean != nil {
		f := o.clean
		r.SanitizationFunc = func(b *bytes.Buffer, s string) { b.WriteString(f(s)) }
	}
	return r
}

// lines is what one emission must put on the wire.
func (o *statsdOpt) lines(e op) []string {
	clean := o.clean
	if clean == nil {
		clean = statsdClean
	}
	name := func(parts ...string) string {
		var l []string
		for _, p := range append([]string{o.prefix}, parts...) {
			if p != "" {
				l = append(l, clean(p))
			}
		}
		return strings.Join(l, ".")
	}
	if e.K == kComplete {
		return []string{name(e.Job, statusNames[e.Status]) + ":" + statsdMs(e.Nanos) + "|ms\n"}
	}
	suffix, val := "", ""
	switch e.K {
	case kEvent:
		val = "1|c"
	case kErr:
		suffix, val = "error", "1|c"
	case kTiming:
		val = statsdMs(e.Nanos) + "|ms"
	case kGauge:
		val = statsdGauge(e.Value) + "|g"
	}
	var out []string
	if !o.skip {
		out = append(out, name(e.Event, suffix)+":"+val+"\n")
	}
	if !o.skipNest {
		out = append(out, name(e.Job, e.Event, suffix)+":"+val+"\n")
	}
	return out
}

func wire() string {
	var b strings.Builder
	for _, d := range mc.S.Env.UDP {
		b.Write(d.Data)
	}
	return b.String()
}

// checkDatagrams checks the shape of every datagram sent.
func checkDatagrams() {
	for i, d := range mc.S.Env.UDP {
		if len(d.Data) == 0 {
			mc.Fail("datagram %d is empty", i)
		}
		if len(d.Data) > 1440 {
			mc.Fail("datagram %d has %d bytes", i, len(d.Data))
		}
		if d.Data[len(d.Data)-1] != '\n' {
			mc.Fail("datagram %d does not end with a complete line: %q", i, tail(string(d.Data), 200))
		}
		if d.To != statsdAddr {
			mc.Fail("datagram %d was sent to %s", i, d.To)
		}
	}
}

func expectWire(got, want string) {
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		a := max(0, i-60)
		mc.Fail("on the wire at byte %d (of %d, want %d):\n got  %q\n want %q", i, len(got), len(want), got[a:min(len(got), i+120)], want[a:min(len(want), i+120)])
	}
}

// packer is the reference for datagrams: greedy filling.
type packer struct {
	cur  string
	sent []string
}

func (p *packer) line(l string) {
	if len(l) > 1440 {
		return
	}
	if len(p.cur)+len(l) > 1440 {
		p.flush()
	}
	p.cur += l
}

func (p *packer) flush() {
	if p.cur != "" {
		p.sent = append(p.sent, p.cur)
		p.cur = ""
	}
}

func (p *packer) check() {
	u := mc.S.Env.UDP
	for i := range u {
		if i >= len(p.sent) {
			mc.Fail("unexpected datagram %d: %q", i, tail(string(u[i].Data), 300))
		}
		if string(u[i].Data) != p.sent[i] {
			mc.Fail("datagram %d has %d bytes, want %d:\n got  %q\n want %q", i, len(u[i].Data), len(p.sent[i]), tail(string(u[i].Data), 300), tail(p.sent[i], 300))
		}
	}
	if len(u) < len(p.sent) {
		mc.Fail("%d datagrams sent, want %d", len(u), len(p.sent))
	}
}

var statsdOpts = []*statsdOpt{
	nil,
	{},
	{prefix: "metroid"},
	{prefix: "my app.x-1"},
	{skipNest: true},
	{skip: true, prefix: "p"},
	{skip: true, skipNest: true},
	{clean: strings.ToUpper, prefix: "pre fix"},
	{clean: func(s string) string { return "<" + s + ">" }},
}

func pickOpt() (*statsdOpt, *health.StatsDSinkOptions) {
	o := statsdOpts[mc.Choose(len(statsdOpts))]
	if o == nil {
		return &statsdOpt{}, nil
	}
	return o, o.real()
}

func statsdAlphabet() []op {
	return []op{
		ev("j", "e"), ev("job two", "e"), ev("j", "e.f"), ev("j.e", "f"), ev("", "e"), ev("j", ""),
		er("j", "e"), er("", "e"),
		ti("j", "e", 1234567), ti("j", "e", 123456789012345), ti("j", "e", 0), ti("k", "e", 9999999),
		ga("j", "e", 0.05), ga("j", "e", 123456789.125), ga("k", "e", -2), ga("j", "e.error", 1),
		co("j", health.Success, 15000000), co("j", health.Error, 7), co("j", health.ValidationError, 1), co("e", health.Error, 5), co("", health.Panic, 3),
	}
}

// ------------------------------------------------------------- C15

type emitterLog struct {
	ops      []op
	returned int
}

// checkMerge checks that got is an interleaving of the goroutines' emissions,
// each emission's lines together; need gives how many of each must be there.
func checkMerge(o *statsdOpt, logs []*emitterLog, got string, need []int, what string) {
	idx := make([]int, len(logs))
	rest := got
	for rest != "" {
		hit := false
		for g, l := range logs {
			if idx[g] < len(l.ops) {
				w := strings.Join(o.lines(l.ops[idx[g]]), "")
				if strings.HasPrefix(rest, w) {
					rest = rest[len(w):]
					idx[g]++
					hit = true
					break
				}
			}
		}
		if !hit {
			mc.Fail("%s: the wire holds %q at a point where no emission of any goroutine is due (so far %v)\nwire: %q", what, tail(rest, 200), idx, tail(got, 500))
		}
	}
	for g := range logs {
		if idx[g] < need[g] {
			mc.Fail("%s: only %d of the %d emissions goroutine %d had made are on the wire: %q", what, idx[g], need[g], g, tail(got, 400))
		}
	}
}

func statsdProgs(n, per int) []*emitterLog {
	all := []op{ev("j", "e0"), ti("j", "e1", 5), co("j", health.Success, 3), ga("j", "e2", 4)}
	var out []*emitterLog
	for g := 0; g < n; g++ {
		l := &emitterLog{}
		for i := 0; i < per; i++ {
			o := all[(i+g)%4]
			o.Job = fmt.Sprint("g", g)
			if o.K != kComplete {
				o.Event = fmt.Sprint("g", g, "n", i)
			}
			l.ops = append(l.ops, o)
		}
		out = append(out, l)
	}
	return out
}

func (l *emitterLog) run(s *health.StatsDSink) func() {
	return func() {
		for i, o := range l.ops {
			o.emit(s)
			l.returned = i + 1
		}
	}
}

func drainer(o *statsdOpt, logs []*emitterLog, s *health.StatsDSink, n int) func() {
	return func() {
		for k := 0; k < n; k++ {
			need := make([]int, len(logs))
			for g := range logs {
				need[g] = logs[g].returned
			}
			s.Drain()
			checkMerge(o, logs, wire(), need, "when Drain returned")
		}
	}
}

func allReturned(logs []*emitterLog) []int {
	n := make([]int, len(logs))
	for g := range logs {
		n[g] = len(logs[g].ops)
	}
	return n
}

func c15body(emitters, per, drainers, drains int) func() {
	return func() {
		o := &statsdOpt{}
		s := newStatsd(nil)
		logs := statsdProgs(emitters, per)
		var fs []func()
		for _, l := range logs {
			fs = append(fs, l.run(s))
		}
		for i := 0; i < drainers; i++ {
			fs = append(fs, drainer(o, logs, s, drains))
		}
		par(fs...)
		mc.WaitIdle() // nobody is starved from here on
		mc.Sleep(903 * time.Millisecond)
		mc.WaitIdle()
		checkMerge(o, logs, wire(), allReturned(logs), "a second later")
		checkDatagrams()
		s.Stop()
		mc.Logf("%d datagrams", len(mc.S.Env.UDP))
	}
}

func init() {
	// ------------------------------------------------------------- C13
	add(&Scn{Prop: "C13", Name: "names", Doc: "every kind x 9 option sets (skips, prefixes, custom sanitization) x pairs of awkward job and event names: exact lines", Cfg: seqCfg, Shards: 4, Body: func() {
		o, real := pickOpt()
		s := newStatsd(real)
		j, e := awkward[mc.Choose(len(awkward))], awkward[mc.Choose(len(awkward))]
		x := []op{ev(j, e), er(j, e), ti(j, e, 2500000), ga(j, e, 1.5), co(j, health.Junk, 12000000)}[mc.Choose(5)]
		x.emit(s)
		s.Drain()
		expectWire(wire(), strings.Join(o.lines(x), ""))
		checkDatagrams()
	}})
	add(&Scn{Prop: "C13", Name: "bytes", Doc: "every byte value 0..255 in event, job and prefix", Cfg: seqCfg, Body: func() {
		c := mc.Choose(256)
		n := "a" + string([]byte{byte(c)}) + "Z"
		o := &statsdOpt{}
		x := op{K: kGauge, Job: "j", Event: "e", Value: 3}
		switch mc.Choose(3) {
		case 0:
			x.Event = n
		case 1:
			x.Job = n
		case 2:
			o.prefix = n
		}
		s := newStatsd(o.real())
		x.emit(s)
		s.Drain()
		expectWire(wire(), strings.Join(o.lines(x), ""))
	}})
	add(&Scn{Prop: "C13", Name: "values", Doc: "boundary timings, completions (all statuses) and gauges", Cfg: seqCfg, Body: func() {
		o, real := pickOpt()
		s := newStatsd(real)
		ns := append(append([]int64{}, int64s...), 4999, 5000, 5001, 14999, 15000, 15001, 994999, 995000, 999994999, 9994999, 9995000, 9995001, 10999999, 19999999, 123456789, 59999999999)
		fs := append(append([]float64{}, floats...), math.NaN(), math.Inf(1), math.Inf(-1), 0.1, -0.1, 0.09999999999999999, 0.10000000000000002, 0.015, 0.995, 999.995, 1e15, -123.456, 3, 1<<53, 0.07, -0.00001)
		var x op
		switch mc.Choose(3) {
		case 0:
			x = ti("j", "e", ns[mc.Choose(len(ns))])
		case 1:
			x = co("j", statuses[mc.Choose(5)], ns[mc.Choose(len(ns))])
		case 2:
			x = ga("j", "e", fs[mc.Choose(len(fs))])
		}
		x.emit(s)
		s.Drain()
		expectWire(wire(), strings.Join(o.lines(x), ""))
	}})
	add(&Scn{Prop: "C13", Name: "sequences", Doc: "all sequences over an alphabet of 21 emissions sharing names and keys: each line unaffected by those before", Cfg: seqCfg, Shards: 8, DeepShards: 32, Body: func() {
		o := []*statsdOpt{{}, {prefix: "p"}}[mc.Choose(2)]
		s := newStatsd(o.real())
		al := statsdAlphabet()
		want := ""
		for i, n := 0, depth(3, 4); i < n; i++ {
			x := al[mc.Choose(len(al))]
			x.emit(s)
			want += strings.Join(o.lines(x), "")
		}
		s.Drain()
		expectWire(wire(), want)
		s.Stop()
	}})
	add(&Scn{Prop: "C13", Name: "neighbours", Doc: "all sequences of 4 (thorough: 5) emissions of 7 that share a sink, with the longest values there are: each line unaffected by those before", Cfg: seqCfg, Shards: 4, DeepShards: 8, Body: func() {
		o := []*statsdOpt{{}, {prefix: "p"}}[mc.Choose(2)]
		s := newStatsd(o.real())
		al := []op{ti("j", "e", math.MinInt64), ti("j", "e", 1), ga("j", "e", math.MaxFloat64), ga("k", "f", -5e-324), ev("j", "g"), co("j", health.Success, math.MinInt64), co("k", health.ValidationError, math.MaxInt64)}
		want := ""
		for i, n := 0, depth(4, 5); i < n; i++ {
			x := al[mc.Choose(len(al))]
			x.emit(s)
			want += strings.Join(o.lines(x), "")
		}
		s.Drain()
		expectWire(wire(), want)
		checkDatagrams()
	}})
	add(&Scn{Prop: "C13", Name: "seams", Doc: "all sequences of two emissions whose job, event and suffix parts run together in the same way (dots at the seams, empty parts, \"error\" as a name, a part equal to the prefix), under 5 option sets", Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: func() {
		o := []*statsdOpt{{}, {prefix: "a"}, {prefix: "a.b"}, {clean: func(s string) string { return "<" + s + ">" }}, {skip: true}}[mc.Choose(5)]
		s := newStatsd(o.real())
		parts := []string{"", "a", "a.", ".a", ".", "a.a", "error", "a.error", "success", "a b", "a$b", "A"}
		want := ""
		for i := 0; i < 2; i++ {
			j, e := parts[mc.Choose(len(parts))], parts[mc.Choose(len(parts))]
			x := []op{ev(j, e), er(j, e), co(j, health.Success, 7000000)}[mc.Choose(3)]
			if x.K == kComplete && e != "" {
				return
			}
			x.emit(s)
			want += strings.Join(o.lines(x), "")
		}
		s.Drain()
		expectWire(wire(), want)
	}})
	add(&Scn{Prop: "C13", Name: "splits", Doc: "names of two emissions through one sink that are made of the same parts, split differently between job, event and suffix around each of 30 separators, in each order and under 4 option sets", Cfg: seqCfg, Body: func() {
		o := []*statsdOpt{{}, {prefix: "a"}, {clean: func(s string) string { return "<" + s + ">" }}, {skipNest: true}}[mc.Choose(4)]
		seps := []string{"", "\x00", "\x01", "\x1f", "\x7f", "\xff", ".", ":", "|", "/", "\\", " ", ",", ";", "\n", "\t", "\r", "-", "_", "$", "#", "@", "+", "=", "&", "%", "\"", "'", "\u0000\u0000", "::"}
		sep := seps[mc.Choose(len(seps))]
		last := []string{"c", "error", "success", ""}[mc.Choose(4)]
		pair := [][2]op{
			{ev("a"+sep+"b", last), ev("a", "b"+sep+last)},
			{er("a"+sep+"b", "c"), ev("a", "b"+sep+"c"+sep+"error")},
			{ev("a", "b"+sep+last), ev("a", "b"+sep+last+sep)},
			{co("a"+sep+"b", health.Success, 7000000), ti("a", "b"+sep+"success", 9000000)},
			{ti("a"+sep+"b", "c", 7000000), ga("a", "b"+sep+"c", 7)},
			{co("a"+sep+last, health.Error, 7000000), co("a", health.Error, 1000000)},
			{ev(sep+"a", last), ev("", sep+"a"+sep+last)},
		}[mc.Choose(7)]
		if mc.Choose(2) == 1 {
			pair[0], pair[1] = pair[1], pair[0]
		}
		s := newStatsd(o.real())
		want := ""
		for r := 0; r < 2; r++ {
			for _, x := range pair {
				x.emit(s)
				want += strings.Join(o.lines(x), "")
			}
		}
		s.Drain()
		expectWire(wire(), want)
	}})
	add(&Scn{Prop: "C13", Name: "value_pairs", Doc: "every ordered pair of 40 gauge values and of 24 durations, one after the other through one sink: how a value is written does not depend on the one before", Cfg: burst, Body: func() {
		o := []*statsdOpt{{}, {prefix: "p", skipNest: true}}[mc.Choose(2)]
		s := newStatsd(o.real())
		var xs []op
		for _, v := range []float64{0, 0.05, 0.0999, 0.1, 0.10001, 0.123456, 0.5, 0.994, 0.995, 0.999, 1, 1.005, 1.5, 2.675, 9.999, 10, 99.994, 100, 12345.678, 1e6, 1e15, 1e21, 1e-3, 1e-9, math.MaxFloat64, math.SmallestNonzeroFloat64} {
			xs = append(xs, ga("j", "e", v))
			if v != 0 && len(xs) < 40 && v < 100 && v > 0.04 {
				xs = append(xs, ga("j", "e", -v))
			}
		}
		for _, n := range []int64{0, 1, 4999, 5000, 5001, 9999, 10000, 99999, 100000, 999999, 1000000, 1005000, 12345678, 999994999, 999995000, 1e9, 1e12, math.MaxInt64} {
			xs = append(xs, ti("j", "e", n))
			if n < 1000001 && n > 0 {
				xs = append(xs, ti("j", "e", -n))
			}
		}
		for _, x := range xs {
			var want strings.Builder
			n0 := len(wire())
			for _, y := range xs {
				for _, z := range []op{x, y} {
					z.emit(s)
					for _, l := range o.lines(z) {
						want.WriteString(l)
					}
				}
			}
			s.Drain()
			expectWire(wire()[n0:], want.String())
		}
	}})
	add(&Scn{Prop: "C13", Name: "reused_options", Doc: "three sinks made from one options struct that is changed after each was made (prefix, skipped events, sanitization), emissions of each kind on all three before, between and after: each sink keeps the options it was made with", Cfg: burst, Body: func() {
		all := []*statsdOpt{{}, {prefix: "p"}, {prefix: "q", skipNest: true}, {skip: true}, {clean: func(s string) string { return "<" + s + ">" }}}
		shared := &health.StatsDSinkOptions{}
		var sinks []*health.StatsDSink
		var used []*statsdOpt
		kind := mc.Choose(5)
		send := func() {
			for i, s := range sinks {
				n0 := len(wire())
				x := []op{ev("j", "e"), er("j", "e"), ti("j", "e", 2500000), ga("j", "e", 1.5), co("j", health.Junk, 12000000)}[kind]
				x.emit(s)
				s.Drain()
				expectWire(wire()[n0:], strings.Join(used[i].lines(x), ""))
			}
		}
		for i := 0; i < 3; i++ {
			o := all[mc.Choose(len(all))]
			*shared = *o.real()
			used = append(used, o)
			sinks = append(sinks, newStatsd(shared))
			if i != 1 {
				send()
			}
		}
		*shared = health.StatsDSinkOptions{Prefix: "after"}
		send()
	}})
	add(&Scn{Prop: "C13", Name: "many_names", Doc: "70000 different names, each twice and in all kinds", Cfg: burst, Body: func() {
		o := &statsdOpt{prefix: "p", skipNest: true}
		s := newStatsd(o.real())
		n := 70000
		for r := 0; r < 2; r++ {
			n0 := len(wire())
			var want strings.Builder
			for i := 0; i < n; i++ {
				e := fmt.Sprint("e ", i)
				x := []op{ev("j", e), er("j", e), ti("j", e, int64(i)), ga("j", e, float64(i)), co(e, statuses[i%5], int64(i)*1000)}[(i/3+r)%5]
				x.emit(s)
				for _, l := range o.lines(x) {
					want.WriteString(l)
				}
			}
			s.Drain()
			expectWire(wire()[n0:], want.String())
		}
	}})
	add(&Scn{Prop: "C13", Name: "long", Doc: "20000 emissions rotating over names and values", Cfg: burst, Body: func() {
		o := &statsdOpt{prefix: "p q"}
		s := newStatsd(o.real())
		var want strings.Builder
		for i, n := 0, depth(20000, 100000); i < n; i++ {
			j, e := fmt.Sprint("j", i%37), fmt.Sprint("e ", i%53)
			x := []op{ev(j, e), er(j, e), ti(j, e, int64(i*i)), ga(j, e, float64(i)/7), co(j, statuses[i%5], int64(i)*1000)}[(i/5)%5]
			x.emit(s)
			for _, l := range o.lines(x) {
				want.WriteString(l)
			}
		}
		s.Drain()
		expectWire(wire(), want.String())
		checkDatagrams()
	}})

	// ------------------------------------------------------------- C14
	lens := []int{6, 100, 480, 713, 714, 715, 719, 720, 721, 1428, 1434, 1435, 1436, 1437, 2000}
	pack := func(skipNest bool, faults bool) func() {
		return func() {
			o := &statsdOpt{skipNest: skipNest}
			if faults {
				mc.S.Env.UDPFault = func(n int) error {
					if mc.Choose(2) == 1 {
						return errors.New("write udp: message lost")
					}
					return nil
				}
			}
			s := newStatsd(o.real())
			p := &packer{}
			n := depth(3, 4)
			for i := 0; i < n; i++ {
				c := mc.Choose(len(lens) + 2)
				if c == len(lens) {
					s.Drain()
					p.flush()
				} else if c == len(lens)+1 {
					mc.Sleep(1030 * time.Millisecond)
					mc.WaitIdle()
					p.flush()
				} else {
					x := ev("j", strings.Repeat(string(rune('a'+i)), lens[c]))
					x.emit(s)
					mc.WaitIdle()
					for _, l := range o.lines(x) {
						p.line(l)
					}
				}
				p.check()
			}
			s.Drain()
			p.flush()
			p.check()
			checkDatagrams()
			s.Stop()
		}
	}
	add(&Scn{Prop: "C14", Name: "packing", Doc: "all sequences of lines with lengths around half of and exactly 1440 bytes (15 lengths), Drain and periodic flush: datagrams equal greedy packing", Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: pack(true, false)})
	add(&Scn{Prop: "C14", Name: "packing_nested", Doc: "the same with two lines per emission", Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: pack(false, false)})
	add(&Scn{Prop: "C14", Name: "faults", Doc: "the same with every pattern of failing UDP writes: each datagram is attempted once, later ones undisturbed", Cfg: seqCfg, Shards: 4, DeepShards: 16, Body: pack(false, true)})
	add(&Scn{Prop: "C14", Name: "fill", Doc: "k equal lines of every length 6..160 until several datagrams are full", Cfg: seqCfg, Body: func() {
		o := &statsdOpt{skipNest: true}
		s := newStatsd(o.real())
		p := &packer{}
		n := 1 + mc.Choose(155)
		x := ev("j", strings.Repeat("x", n))
		for i := 0; i < 4000/(n+5); i++ {
			x.emit(s)
			p.line(o.lines(x)[0])
		}
		s.Drain()
		p.flush()
		p.check()
		checkDatagrams()
	}})
	add(&Scn{Prop: "C14", Name: "kinds", Doc: "datagrams filled with rotating kinds and growing names, faults at every single datagram position", Cfg: seqCfg, Body: func() {
		bad := mc.Choose(8) - 1
		mc.S.Env.UDPFault = func(n int) error {
			if n == bad {
				return errors.New("write failed")
			}
			return nil
		}
		o := &statsdOpt{prefix: "pre"}
		s := newStatsd(o.real())
		p := &packer{}
		for i := 0; i < 160; i++ {
			j, e := strings.Repeat("j", i%23), strings.Repeat("e", 1+i%41)
			x := []op{ev(j, e), er(j, e), ti(j, e, int64(i*i*1000)), ga(j, e, float64(i)/7), co(j, statuses[i%5], int64(i)*1000)}[(i/5)%5]
			x.emit(s)
			for _, l := range o.lines(x) {
				p.line(l)
			}
		}
		s.Drain()
		p.flush()
		p.check()
	}})

	// ------------------------------------------------------------- C15
	add(&Scn{Prop: "C15", Name: "emit_drain", Doc: "2 emitters x 2, 1 drainer x 2, flush ticker: all interleavings within the bound; what returned before Drain is on the wire when it returns, order and atomicity of emissions, everything sent shortly after", Cfg: conc(3), Deep: concP(4), Shards: 8, DeepShards: 32, Body: c15body(2, 2, 1, 2)})
	add(&Scn{Prop: "C15", Name: "two_drainers", Doc: "1 emitter x 2, 2 drainers x 2", Cfg: conc(3), Deep: concP(4), Shards: 8, DeepShards: 32, Body: c15body(1, 2, 2, 2)})
	add(&Scn{Prop: "C15", Name: "three_drainers", Doc: "1 emitter x 1, 3 drainers x 1", Cfg: conc(3), Deep: concP(4), Shards: 8, DeepShards: 32, Body: c15body(1, 1, 3, 1)})
	add(&Scn{Prop: "C15", Name: "no_drain", Doc: "2 emitters x 2, no Drain, timers firing at any point", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 16, Body: c15body(2, 2, 0, 0)})
	add(&Scn{Prop: "C15", Name: "drain_clock", Doc: "1 emitter x 2, 1 drainer x 1, flush ticks at any point", Cfg: clocked(3), Deep: clockedP(4), Shards: 4, DeepShards: 16, Body: c15body(1, 2, 1, 1)})
	stop := func(drainers, stops int) func() {
		return func() {
			s := newStatsd(nil)
			o := &statsdOpt{}
			logs := statsdProgs(1, 2)
			fs := []func(){logs[0].run(s)}
			for i := 0; i < drainers; i++ {
				fs = append(fs, s.Drain)
			}
			for i := 0; i < stops; i++ {
				fs = append(fs, s.Stop)
			}
			par(fs...)
			checkMerge(o, logs, wire(), make([]int, 1), "after Stop")
			checkDatagrams()
		}
	}
	add(&Scn{Prop: "C15", Name: "stop", Doc: "an emitter, Drain and Stop called at the same time: all return", Cfg: conc(3), Deep: concP(5), Shards: 4, DeepShards: 16, Body: stop(1, 1)})
	add(&Scn{Prop: "C15", Name: "stop2", Doc: "an emitter, two Drains and two Stops at the same time: all return", Cfg: conc(2), Deep: concP(4), Shards: 4, DeepShards: 16, Body: stop(2, 2)})
	add(&Scn{Prop: "C15", Name: "stop_clock", Doc: "Drain and Stop with flush ticks at any point", Cfg: clocked(2), Deep: clockedP(4), Shards: 4, DeepShards: 16, Body: stop(1, 1)})
	add(&Scn{Prop: "C15", Name: "drain_after_stop_sequence", Doc: "sequences of emissions, Drains, waits and a final Stop", Cfg: seqCfg, Body: func() {
		s := newStatsd(nil)
		o := &statsdOpt{}
		want := ""
		for i := 0; i < depth(5, 6); i++ {
			switch mc.Choose(4) {
			case 0:
				x := ev("j", fmt.Sprint("e", i))
				x.emit(s)
				want += strings.Join(o.lines(x), "")
			case 1:
				s.Drain()
				expectWire(wire(), want)
			case 2:
				mc.Sleep(501 * time.Millisecond)
				mc.WaitIdle()
				expectWire(wire(), want)
			case 3:
				mc.Sleep(40 * time.Millisecond)
			}
		}
		s.Drain()
		expectWire(wire(), want)
		s.Stop()
		mc.Sleep(time.Second)
		expectWire(wire(), want)
	}})
	add(&Scn{Prop: "C15", Name: "steady", Doc: "all sequences of 7 (thorough: 8) steps (a short or long pause, then an emission or none): what was emitted half a second ago is on the wire, although more is being emitted", Cfg: seqCfg, Shards: 4, Body: func() {
		s := newStatsd(nil)
		o := &statsdOpt{}
		type due struct {
			at   time.Duration
			upto int
		}
		var dues []due
		want := ""
		now := time.Duration(0)
		for i, n := 0, depth(7, 8); i < n; i++ {
			c := mc.Choose(4)
			gap := []time.Duration{40, 90, 130, 130}[c] * time.Millisecond
			mc.Sleep(gap)
			now += gap
			mc.WaitIdle()
			w := wire()
			for _, d := range dues {
				if now >= d.at+500*time.Millisecond && len(w) < d.upto {
					mc.Fail("what was emitted at %v is not sent at %v: %q of %q", d.at, now, w, want)
				}
			}
			if c != 3 {
				x := ev("j", fmt.Sprint("e", i))
				x.emit(s)
				want += strings.Join(o.lines(x), "")
				dues = append(dues, due{now, len(want)})
			}
		}
		s.Drain()
		expectWire(wire(), want)
	}})
	add(&Scn{Prop: "C15", Name: "steady_long", Doc: "emissions in constant distance (12 distances from 1 ms to 0.7 s) over 10 seconds: each is on the wire half a second later", Cfg: burst, Body: func() {
		s := newStatsd(nil)
		o := &statsdOpt{}
		gap := []time.Duration{1, 7, 33, 50, 90, 99, 100, 101, 130, 250, 499, 700}[mc.Choose(12)] * time.Millisecond
		want := ""
		upto := map[time.Duration]int{}
		for now := time.Duration(0); now < 10*time.Second; now += gap {
			x := ev("j", "e")
			x.emit(s)
			want += strings.Join(o.lines(x), "")
			upto[now] = len(want)
			mc.Sleep(gap)
			mc.WaitIdle()
			t := now + gap - 500*time.Millisecond
			t -= (t%gap + gap) % gap
			if n := len(wire()); t >= 0 && n < upto[t] {
				mc.Fail("emitting every %v: what was emitted at %v is not sent at %v", gap, t, now+gap)
			}
		}
		s.Drain()
		if wire() != want {
			mc.Fail("emitting every %v: not all arrived", gap)
		}
	}})
	add(&Scn{Prop: "C15", Name: "busy", Doc: "names whose sanitization takes 1 or 5 ms, 0 to 4 new ones just before and 0 to 4 just after every flush tick: each is on the wire half a second later", Cfg: burst, Body: func() {
		cost := []time.Duration{1, 5}[mc.Choose(2)] * time.Millisecond
		s := newStatsd(&health.StatsDSinkOptions{SanitizationFunc: func(b *bytes.Buffer, x string) {
			mc.Sleep(cost)
			b.WriteString(x)
		}})
		before, after := mc.Choose(5), mc.Choose(5)
		mc.Sleep(95 * time.Millisecond)
		type at struct {
			t time.Duration
			l string
		}
		var due []at
		emit := func(n int) {
			for i := 0; i < n; i++ {
				e := fmt.Sprint("e", mc.VNow(), i)
				s.EmitEvent("", e, nil)
				due = append(due, at{mc.VNow(), e + ":1|c\n"})
			}
		}
		for k := 0; k < 15; k++ {
			emit(before)
			mc.Sleep(10 * time.Millisecond)
			emit(after)
			mc.Sleep(90 * time.Millisecond)
			mc.WaitIdle()
			now, w := mc.VNow(), wire()
			for len(due) > 0 && due[0].t+500*time.Millisecond <= now {
				if !strings.Contains(w, due[0].l) {
					mc.Fail("what was emitted at %v is not sent at %v", due[0].t, now)
				}
				due = due[1:]
			}
		}
	}})
	add(&Scn{Prop: "C15", Name: "beats", Doc: "one or two emitters whose emissions fall on the flush ticks, in any order of what happens at one moment: each is on the wire half a second later", Cfg: mc.Cfg{NoPreempt: true, FreeCost: 1, CaseCost: 1, Bound: 1, Horizon: time.Hour}, Body: func() {
		s := newStatsd(nil)
		o := &statsdOpt{}
		gap := []time.Duration{50, 100, 200, 300}[mc.Choose(4)] * time.Millisecond
		n := 1 + mc.Choose(2)
		type at struct {
			t time.Duration
			l string
		}
		var due []at
		for g := 0; g < n; g++ {
			mc.GoNamed("emitter", func() {
				for i := 0; i < 12; i++ {
					mc.Sleep(gap)
					x := ev("j", fmt.Sprint("e", g, ".", i))
					t := mc.VNow()
					x.emit(s)
					due = append(due, at{t, strings.Join(o.lines(x), "")})
				}
			})
		}
		for mc.VNow() < 12*gap+600*time.Millisecond {
			mc.Sleep(90 * time.Millisecond)
			now, w := mc.VNow(), wire()
			for len(due) > 0 && due[0].t+500*time.Millisecond < now {
				if !strings.Contains(w, due[0].l) {
					mc.Fail("emitting every %v: what was emitted at %v is not sent at %v", gap, due[0].t, now)
				}
				due = due[1:]
			}
		}
	}})
	add(&Scn{Prop: "C15", Name: "stuck", Doc: "one datagram takes 1 to 350 ms to be sent while the queue fills to within 2 of its size or beyond (8192), flush ticks meanwhile; then a Drain, a pause or a Stop", Cfg: burst, Body: func() {
		stuck := []time.Duration{1, 99, 100, 101, 350}[mc.Choose(5)] * time.Millisecond
		mc.S.Env.UDPFault = func(i int) error {
			if i == 0 {
				mc.Sleep(stuck)
			}
			return nil
		}
		s := newStatsd(nil)
		l := &emitterLog{ops: []op{ev("g0", "first")}}
		l.run(s)()
		mc.Sleep(101 * time.Millisecond) // being sent now
		mc.WaitIdle()
		for i, n := 1, 8188+mc.Choose(10); i <= n; i++ {
			j, e := "g0", fmt.Sprint("n", i%500)
			l.ops = append(l.ops, []op{ev(j, e), er(j, e), ti(j, e, int64(i)*1000), ga(j, e, float64(i)), co(j, health.Success, int64(i)*1000)}[i%5])
		}
		logs := []*emitterLog{l}
		mc.GoNamed("emitter", func() {
			for _, o := range l.ops[1:] {
				o.emit(s)
			}
			l.returned = len(l.ops)
		})
		pause := []time.Duration{0, 60, 150, 400}[mc.Choose(4)] * time.Millisecond
		mc.Sleep(pause)
		switch mc.Choose(3) {
		case 0:
			drainer(&statsdOpt{}, logs, s, 1)()
		case 1:
			s.Stop()
			if l.returned == len(l.ops) && pause == 400*time.Millisecond {
				break
			}
			// what was still to be emitted goes nowhere
			return
		}
		mc.Sleep(time.Second)
		mc.WaitIdle()
		checkMerge(&statsdOpt{}, logs, wire(), allReturned(logs), "a second later")
		checkDatagrams()
	}})
	big := func(emitters, each, drains int) func() {
		return func() {
			s := newStatsd(nil)
			o := &statsdOpt{}
			logs := make([]*emitterLog, emitters)
			var fs []func()
			for g := range logs {
				l := &emitterLog{}
				for i := 0; i < each; i++ {
					j, e := fmt.Sprint("g", g), fmt.Sprint("g", g, "n", i)
					l.ops = append(l.ops, []op{ev(j, e), er(j, e), ti(j, e, int64(i)*1000), ga(j, e, float64(i)), co(e, health.Success, int64(i)*1000)}[i%5])
				}
				logs[g] = l
				fs = append(fs, l.run(s))
			}
			for i := 0; i < drains; i++ {
				fs = append(fs, drainer(o, logs, s, 1))
			}
			par(fs...)
			s.Drain()
			checkMerge(o, logs, wire(), allReturned(logs), "after the burst")
			checkDatagrams()
			s.Stop()
		}
	}
	for _, b := range [][3]int{{1, 20000, 0}, {2, 9000, 1}, {3, 4000, 2}, {1, 8192, 1}, {1, 8193, 1}} {
		add(&Scn{Prop: "C15", Name: fmt.Sprintf("burst_%dx%d_%d", b[0], b[1], b[2]), Doc: "more emissions, of all kinds, than the queue holds", Cfg: burst, Body: big(b[0], b[1], b[2])})
	}
}
