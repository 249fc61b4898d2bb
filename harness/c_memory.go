package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"verif/mc"
)

// ----------------------------------------------------------- C33
// Cyclic histories: whatever is repeated, what the library holds does not grow.

// heapMB is the live heap, without what the simulated environment recorded.
func heapMB() float64 {
	mc.S.Env.Calls, mc.S.Env.UDP = nil, nil
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return float64(int(m.HeapAlloc)-mc.OwnBytes()) / (1 << 20)
}

// cycle runs step n times twice as a warm-up and then three times as often,
// and fails if heap or goroutines grew with the number of repetitions. Each
// step handles kb kilobytes of data of its own.
func cycle(what string, n, kb int, step func(i int)) {
	i := 0
	run := func(k int) {
		for end := i + k; i < end; i++ {
			step(i)
			mc.S.Env.Calls, mc.S.Env.UDP = nil, nil
		}
		mc.WaitIdle()
	}
	run(n)
	h0, g0 := heapMB(), mc.Live()
	run(3 * n)
	h1, g1 := heapMB(), mc.Live()
	if g1 > g0+n/4 {
		mc.Fail("%s: %d goroutines after %d repetitions, %d after %d", what, g0, n, g1, 4*n)
	}
	if lim := float64(3*n*kb) / 1024 / 6; h1-h0 > lim+1 {
		// measured once more: is it still growing?
		run(3 * n)
		if h2 := heapMB(); h2-h1 > lim+1 {
			mc.Fail("%s: %.1f MB live after %d repetitions, %.1f MB after %d, %.1f MB after %d", what, h0, n, h1, 4*n, h2, 7*n)
		}
	}
}

type memOp struct {
	name string
	do   func(w *memW, i int)
}

type memW struct {
	st    *health.Stream
	poll  *health.JsonPollingSink
	sd    *health.StatsDSink
	lib   *librato.Sink
	bug   *bugsnag.Sink
	kept  error
	jobs  *health.Job
	shown int
}

// drip runs step often enough to notice a leak of a few bytes per repetition.
func drip(what string, n int, limit float64, step func(i int)) {
	i := 0
	// a leak of one reference per repetition is at least 8 bytes
	run := func(k int) float64 {
		for end := i + k; i < end; i++ {
			step(i)
			mc.S.Env.Calls, mc.S.Env.UDP = nil, nil
		}
		mc.WaitIdle()
		return heapMB()
	}
	h0, g0 := run(n), mc.Live()
	h1, g1 := run(2*n), mc.Live()
	per := func(a, b float64) float64 { return (b - a) * (1 << 20) / float64(2*n) }
	if g1 > g0+n/8 {
		mc.Fail("%s: %d goroutines after %d repetitions, %d after %d", what, g0, n, g1, 3*n)
	}
	if per(h0, h1) > limit {
		// is it still growing?
		if h2 := run(2 * n); per(h1, h2) > limit/2 { // (a slice may have had room left)
			mc.Fail("%s: every repetition leaves %.0f bytes behind (%d repetitions), %.0f over the next %d", what, per(h0, h1), 2*n, per(h1, h2), 2*n)
		}
	}
	if f, err := os.OpenFile(os.Getenv("VERIF_DRIPS"), os.O_APPEND|os.O_WRONLY, 0); err == nil {
		fmt.Fprintf(f, "%s: %.1f bytes\n", what, per(h0, h1))
		f.Close()
	}
}

const memKB = 24

var bulkSize = memKB << 10

func bulk(i int) string { return bulkN(i, bulkSize) }

func bulkN(i, n int) string { return fmt.Sprint(i, ":") + strings.Repeat("x", n) }

var memOps = []memOp{
	{"error", func(w *memW, i int) { w.jobs.EventErr("e", errors.New(bulk(i))) }},
	{"error again", func(w *memW, i int) {
		e := w.st.EventErr("e", errors.New(bulk(i)))
		w.jobs.EventErr("again", e)
	}},
	{"muted error", func(w *memW, i int) { w.st.EventErr("m", health.Mute(errors.New(bulk(i)))) }},
	{"key-values", func(w *memW, i int) {
		w.st.EventKv("kv", health.Kvs{"k": bulk(i)})
		w.jobs.TimingKv("t", int64(i), health.Kvs{"k": bulk(i)})
		w.jobs.CompleteKv(health.Success, health.Kvs{"k": bulk(i)})
	}},
	{"job", func(w *memW, i int) {
		j := w.st.NewJob("job")
		j.KeyValue("k", bulk(i))
		j.Gauge("g", float64(i))
		j.Complete(statuses[i%5])
	}},
	{"panic", func(w *memW, i int) { w.st.Run("run", func() error { panic(bulk(i)) }) }},
	{"snapshot", func(w *memW, i int) { w.shown += len(w.poll.GetMetrics()) }},
	{"request", func(w *memW, i int) { w.shown += httpGet(w.poll, "/health").Code }},
	{"names", func(w *memW, i int) {
		// new names all the time: kept as long as the interval
		n := bulk(i)
		w.poll.EmitEvent(n, "e", nil)
		w.poll.EmitTiming("j", n, 5, nil)
		w.poll.EmitEventErr("j", n, errBoom, nil)
		w.lib.EmitTiming("j", n, 5, nil)
		w.lib.EmitEvent("j", n, nil)
		w.lib.EmitGauge("j", n, 2, nil)
		mc.Sleep(time.Second)
	}},
	{"interval", func(w *memW, i int) { mc.Sleep(2 * time.Second) }},
	{"drain", func(w *memW, i int) { w.sd.Drain() }},
}

// dripOps are the operations whose slow leaks are looked for: all those of
// memOps, and one complete period of the services that are posted to.
var dripOps = append(append([]memOp{}, memOps...), memOp{"period", func(w *memW, i int) {
	w.lib.EmitEvent("j", "e", nil)
	w.lib.EmitTiming("j", "t", int64(i), nil)
	w.lib.EmitGauge("j", "g", float64(i), nil)
	w.lib.EmitComplete("j", health.Success, 7, nil)
	w.bug.EmitEventErr("j", "e", errors.New(bulk(i)), nil)
	mc.Sleep(15 * time.Second)
}}, memOp{"other request", func(w *memW, i int) { w.shown += httpGet(w.poll, "/"+bulk(i)).Code }})

func newMemW(fault int) *memW {
	mc.S.Env.HTTP = func(c *mc.HTTPCall) {
		c.Reply = []byte("OK")
		if fault == 1 {
			c.Status, c.Reply = 503, []byte("no")
		}
	}
	if fault == 1 {
		mc.S.Env.UDPFault = func(int) error { return net.ErrClosed }
	}
	w := &memW{st: health.NewStream(), poll: health.NewJsonPollingSink(2*time.Second, 4*time.Second)}
	var err error
	if w.sd, err = health.NewStatsDSink("127.0.0.1:8125", &health.StatsDSinkOptions{Prefix: "p"}); err != nil {
		mc.Fail("NewStatsDSink: %v", err)
	}
	w.lib = librato.New("u", "k", "p")
	w.bug = bugsnag.NewSink(&bugsnag.Config{APIKey: "k"})
	w.st.AddSink(w.poll).AddSink(w.sd).AddSink(w.lib).AddSink(w.bug).AddSink(&health.WriterSink{Writer: io.Discard}).AddSink(&health.JsonWriterSink{Writer: io.Discard})
	w.jobs = w.st.NewJob("j")
	return w
}

func memBody(max int) func() {
	return func() {
		bulkSize = memKB << 10
		var seq []memOp
		what := ""
		// one number says it all, so that the work can be split evenly
		c, total := 0, 0
		for k, p := 1, 1; k <= max; k++ {
			p *= len(memOps)
			total += p
		}
		c = mc.Choose(2 * total)
		fault := c % 2
		c /= 2
		size, p := 1, len(memOps)
		for c >= p {
			c -= p
			p *= len(memOps)
			size++
		}
		for k := 0; k < size; k++ {
			o := memOps[c%len(memOps)]
			c /= len(memOps)
			seq = append(seq, o)
			what += o.name + "; "
		}
		if fault == 1 {
			what += "(services failing)"
		}
		w := newMemW(fault)
		cycle(what, depth(60, 300), memKB, func(i int) {
			for _, o := range seq {
				o.do(w, i)
			}
			if i%10 == 9 {
				mc.Sleep(time.Second)
			}
			mc.WaitIdle()
		})
		w.stop()
	}
}

func (w *memW) stop() {
	w.lib.Stop()
	w.bug.ShutdownServer()
	if w.sd != nil {
		w.sd.Stop()
		w.poll.ShutdownServer()
	}
}

func init() {
	add(&Scn{Prop: "C33", Name: "drips", Doc: "each of 11 operations, requests for paths that do not exist and a complete period of the posting sinks alone with small data, services answering or failing, 3 x 3000 times (thorough 30000): not even a few bytes per repetition stay", Cfg: burst, Shards: 24, Body: func() {
		c := mc.Choose(2 * len(dripOps))
		bulkSize = 16
		w := newMemW(c % 2)
		o := dripOps[c/2]
		n := depth(3000, 30000)
		if o.name == "period" {
			// the others' tickers would only take time
			w.sd.Stop()
			w.poll.ShutdownServer()
			w.sd, w.poll = nil, nil
			mc.WaitIdle()
			n = depth(1000, 1500)
		}
		drip(o.name+[]string{"", " (services failing)"}[c%2], n, 4, func(i int) {
			o.do(w, i)
			if i%10 == 9 {
				mc.Sleep(time.Second)
			}
			mc.WaitIdle()
		})
		w.stop()
	}})
	add(&Scn{Prop: "C33", Name: "cycles", Doc: "every cycle of 1 or 2 (thorough: 3) of 11 operations (errors, key-values, jobs, panics, snapshots, requests, new names, intervals, drains) over all six sinks at once, services answering or failing, repeated until the live heap and the number of goroutines would show what is not released", Cfg: burst, Shards: 16, DeepShards: 64, Body: func() { memBody(depth(2, 3))() }})
}
