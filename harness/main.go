// Command harness holds the scenarios and oracles for every property and the
// driver that explores them: a master process hands (scenario, shard) jobs to
// worker processes, confirms violations by replay and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc"
)

// Scn is one scenario of a property: a closed program over the code under
// test whose executions are enumerated.
type Scn struct {
	Prop, Name string
	Doc        string  // what is enumerated, and against which oracle
	Cfg        mc.Cfg  // quick bounds
	Deep       *mc.Cfg // thorough bounds (nil: as quick; depths still grow)
	Shards     int     // worker processes in quick (default 1)
	DeepShards int
	Race       bool // needs the -race build
	DeepOnly   bool
	Known      string // identifies a known finding: the expected failure contains this text
	Body       func()
}

var scns []*Scn

func add(s *Scn) *Scn {
	scns = append(scns, s)
	return s
}

var deep bool

// depth picks a bound by tier.
func depth(quick, thorough int) int {
	if deep {
		return thorough
	}
	return quick
}

type workerOut struct {
	Res      *mc.Result
	Hashes   []uint64
	Replayed *mc.Violation
	Passed   bool
}

func main() {
	debug.SetGCPercent(400)
	log.SetOutput(io.Discard)
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	worker := flag.String("worker", "", "scenario to explore (worker mode)")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 1, "")
	budget := flag.Float64("budget", 0, "seconds")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "comma separated choices")
	doReplay := flag.Bool("doreplay", false, "")
	traceFile := flag.String("trace", "", "")
	raceBin := flag.String("racebin", "", "")
	evidence := flag.String("evidence", "", "")
	replays := flag.String("replays", "", "")
	findings := flag.String("findings", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	deep = *tier == "thorough"
	if *list {
		for _, s := range scns {
			c := func(c mc.Cfg) string {
				if c.NoPreempt {
					if c.MapOrder {
						return fmt.Sprintf("inputs, %d map orders", c.Bound)
					}
					return "inputs"
				}
				b := fmt.Sprintf("%d deviations", c.Bound)
				if c.FreeCost == 0 {
					b = fmt.Sprintf("%d preemptions", c.Bound)
				}
				if c.MapOrder {
					b += ", map orders"
				}
				if c.Clock {
					b += ", timers"
				}
				return b
			}
			d := ""
			if s.Deep != nil {
				d = c(*s.Deep)
			}
			if s.DeepOnly {
				d += " (thorough only)"
			}
			fmt.Printf("%s\t%s\t%s\t%s\t%s\n", s.Prop, s.Name, c(s.Cfg), d, s.Doc)
		}
		return
	}
	if *worker != "" {
		runWorker(*worker, *shard, *nshards, *budget, *out, *replay, *doReplay, *traceFile)
		return
	}
	os.Exit(master(*prop, *tier, *budget, *raceBin, *evidence, *replays, *findings))
}

func find(name string) *Scn {
	for _, s := range scns {
		if s.Prop+"/"+s.Name == name {
			return s
		}
	}
	return nil
}

func (s *Scn) cfg() mc.Cfg {
	if deep && s.Deep != nil {
		return *s.Deep
	}
	return s.Cfg
}

func parseChoices(s string) []int {
	var out []int
	for _, f := range strings.Split(s, ",") {
		if f != "" {
			n, _ := strconv.Atoi(f)
			out = append(out, n)
		}
	}
	return out
}

func fmtChoices(c []int) string {
	var b []string
	for _, x := range c {
		b = append(b, strconv.Itoa(x))
	}
	return strings.Join(b, ",")
}

func runWorker(name string, shard, nshards int, budget float64, out, replay string, doReplay bool, traceFile string) {
	s := find(name)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", name)
		os.Exit(2)
	}
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f // the code under test may print
	}
	cfg := s.cfg()
	var wo workerOut
	if doReplay {
		go watchdog(out)
		o := mc.RunOnce(&cfg, parseChoices(replay), s.Body)
		if len(o.Fails) > 0 {
			wo.Replayed = &mc.Violation{Choices: parseChoices(replay), Msgs: o.Fails, Log: o.Log}
		} else {
			wo.Passed = true
		}
	} else {
		var tf *os.File
		if traceFile != "" {
			tf, _ = os.Create(traceFile)
		}
		mc.OnExecution = func(prefix []int) {
			if tf != nil {
				b := fmt.Sprintf("%s\n", fmtChoices(prefix))
				tf.Truncate(0)
				tf.WriteAt([]byte(b), 0)
			}
		}
		go watchdog(out)
		var dl time.Time
		if budget > 0 {
			dl = time.Now().Add(time.Duration(budget * float64(time.Second)))
		}
		r := mc.Explore(cfg, shard, nshards, dl, s.Body)
		for h := range r.Outcomes {
			if len(wo.Hashes) < 50000 {
				wo.Hashes = append(wo.Hashes, h)
			}
		}
		r.Outcomes = nil
		wo.Res = r
	}
	b, _ := json.Marshal(&wo)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		os.Exit(2)
	}
	os.Exit(0)
}

const stuckAfter = 60 * time.Second

// watchdog ends a worker whose current execution does not come back (the code
// under test loops without any operation the scheduler can see).
func watchdog(out string) {
	last := mc.ExecutionCount()
	since := time.Now()
	for {
		time.Sleep(time.Second)
		if n := mc.ExecutionCount(); n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > stuckAfter {
			fmt.Fprintf(os.Stderr, "STUCK: one execution has run for %v without reaching a scheduling point\n", stuckAfter)
			os.Exit(3)
		}
	}
}

type job struct {
	s       *Scn
	shard   int
	nshards int
}

type scnStat struct {
	Name       string  `json:"name"`
	Doc        string  `json:"what"`
	Executions int64   `json:"executions"`
	Points     int64   `json:"choice_points"`
	Steps      int64   `json:"steps"`
	Outcomes   int     `json:"distinct_outcomes"`
	MaxChoices int     `json:"longest_choice_sequence"`
	MaxGs      int     `json:"max_goroutines"`
	Bound      int     `json:"deviation_bound"`
	Exhausted  bool    `json:"exhausted_within_bound"`
	Wall       float64 `json:"worker_seconds"`
	hashes     map[uint64]bool
	shardsLeft int
	samples    []mc.Sample
}

type failure struct {
	s     *Scn
	shard int
	nsh   int
	v     *mc.Violation
	crash string
}

type finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

func master(prop, tier string, budget float64, raceBin, evidence, replays, findingsFile string) int {
	start := time.Now()
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "gomc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var known []finding
	if b, err := os.ReadFile(findingsFile); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			return 2
		}
	}
	var jobs []job
	stats := map[*Scn]*scnStat{}
	var order []*Scn
	for _, s := range scns {
		if s.Prop != prop || s.DeepOnly && !deep {
			continue
		}
		n := max(s.Shards, 1)
		if deep && s.DeepShards > 0 {
			n = s.DeepShards
		}
		stats[s] = &scnStat{Name: s.Name, Doc: s.Doc, Bound: s.cfg().Bound, Exhausted: true, hashes: map[uint64]bool{}, shardsLeft: n}
		order = append(order, s)
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{s, i, n})
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "no scenarios for", prop)
		return 2
	}
	// long sharded scenarios first
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].nshards > jobs[j].nshards })
	if budget == 0 {
		budget = 300
		if deep {
			budget = 3000
		}
	}
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	var mu sync.Mutex
	next := 0
	stop := false
	internal := ""
	var fails []failure
	var wg sync.WaitGroup
	seqno := 0
	runOne := func(s *Scn, args ...string) (*workerOut, string, int) {
		mu.Lock()
		seqno++
		out := filepath.Join(tmp, fmt.Sprintf("o%d.json", seqno))
		mu.Unlock()
		bin := self
		if s.Race {
			bin = raceBin
		}
		c := exec.Command(bin, append([]string{"-worker", s.Prop + "/" + s.Name, "-tier", tier, "-out", out}, args...)...)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3", "GOTRACEBACK=single")
		var stderr limited
		c.Stderr = &stderr
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		done := make(chan error, 1)
		if err := c.Start(); err != nil {
			return nil, err.Error(), -1
		}
		go func() { done <- c.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(time.Until(deadline) + 120*time.Second):
			c.Process.Kill()
			<-done
			return nil, "worker killed: over budget", -2
		}
		code := 0
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		b, rerr := os.ReadFile(out)
		if rerr != nil {
			return nil, stderr.String(), code
		}
		var wo workerOut
		if json.Unmarshal(b, &wo) != nil {
			return nil, stderr.String(), code
		}
		os.Remove(out)
		return &wo, stderr.String(), code
	}
	nw := 8
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				left := time.Until(deadline).Seconds()
				if left < 1 {
					mu.Lock()
					stats[j.s].Exhausted = false
					mu.Unlock()
					continue
				}
				wo, stderr, code := runOne(j.s, "-shard", fmt.Sprint(j.shard), "-nshards", fmt.Sprint(j.nshards), "-budget", fmt.Sprintf("%.1f", left))
				mu.Lock()
				st := stats[j.s]
				if wo == nil {
					st.Exhausted = false
					if code == -2 {
						mu.Unlock()
						continue
					}
					fails = append(fails, failure{s: j.s, shard: j.shard, nsh: j.nshards, crash: fmt.Sprintf("worker process died (exit %d): %s", code, tail(stderr, 3000))})
					if j.s.Known == "" {
						stop = true
					}
					mu.Unlock()
					continue
				}
				r := wo.Res
				st.Executions += r.Executions
				st.Points += r.Points
				st.Steps += r.Steps
				st.Wall += r.Wall.Seconds()
				st.MaxChoices = max(st.MaxChoices, r.MaxTrace)
				st.MaxGs = max(st.MaxGs, r.MaxGs)
				st.Exhausted = st.Exhausted && r.Exhausted
				for _, h := range wo.Hashes {
					st.hashes[h] = true
				}
				if len(st.samples) < 2 {
					st.samples = append(st.samples, r.Samples...)
				}
				for i := range r.Violations {
					v := r.Violations[i]
					if strings.Contains(stderr, "DATA RACE") {
						v.Log = append(v.Log, tail(raceText(stderr), 6000))
					}
					fails = append(fails, failure{s: j.s, shard: j.shard, nsh: j.nshards, v: &v})
					if j.s.Known == "" {
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	// confirm failures by replaying them in fresh processes
	exit := 0
	nviol := 0
	reported := map[*Scn]bool{}
	for _, f := range fails {
		if reported[f.s] {
			continue
		}
		var msgs, logl []string
		var choices []int
		confirmed := false
		if f.v != nil {
			choices, msgs, logl = f.v.Choices, f.v.Msgs, f.v.Log
			for i := 0; i < 3 && !confirmed; i++ {
				wo, stderr, code := runOne(f.s, "-doreplay", "-replay", fmtChoices(choices))
				if wo == nil && code != 0 || wo != nil && wo.Replayed != nil {
					confirmed = true
				}
				_ = stderr
			}
			if !confirmed {
				// not a function of the choices alone: explore once more
				wo, _, _ := runOne(f.s, "-shard", fmt.Sprint(f.shard), "-nshards", fmt.Sprint(f.nsh), "-budget", "60")
				if wo != nil && wo.Res != nil && len(wo.Res.Violations) > 0 {
					confirmed = true
				}
			}
		} else {
			tf := filepath.Join(tmp, "trace")
			os.Remove(tf)
			wo, stderr, code := runOne(f.s, "-shard", fmt.Sprint(f.shard), "-nshards", fmt.Sprint(f.nsh), "-budget", fmt.Sprintf("%.1f", max(time.Until(deadline).Seconds(), 120)), "-trace", tf)
			if wo == nil && code != -2 {
				confirmed = true
				msgs = []string{fmt.Sprintf("process died (exit %d): %s", code, tail(stderr, 3000))}
				if b, err := os.ReadFile(tf); err == nil {
					choices = parseChoices(strings.TrimSpace(string(b)))
				}
			}
		}
		if !confirmed {
			internal = fmt.Sprintf("%s: a failure could not be reproduced: %v %s", f.s.Name, msgs, f.crash)
			fmt.Fprintln(os.Stderr, "WARNING:", internal)
			continue
		}
		reported[f.s] = true
		isKnown := false
		if f.s.Known != "" {
			for _, k := range known {
				if k.Status == "known" && k.Property == prop && k.Scenario == f.s.Name && strings.Contains(strings.Join(msgs, "\n"), k.Match) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					isKnown = true
					break
				}
			}
		}
		if isKnown {
			continue
		}
		nviol++
		os.MkdirAll(replays, 0o755)
		rp := filepath.Join(replays, fmt.Sprintf("%s-%s.txt", prop, f.s.Name))
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\nscenario %s\ntier %s\nchoices %s\nreplay with: bash /verif/replay.sh %s %s %s '%s'\n\n", prop, f.s.Name, tier, fmtChoices(choices), prop, f.s.Name, tier, fmtChoices(choices))
		for _, m := range msgs {
			fmt.Fprintf(&b, "FAIL: %s\n", m)
		}
		fmt.Fprintf(&b, "\nobservations:\n")
		for _, l := range logl {
			fmt.Fprintf(&b, "  %s\n", l)
		}
		os.WriteFile(rp, b.Bytes(), 0o644)
		fmt.Printf("scenario %s: %s\n", f.s.Name, tail(strings.Join(msgs, "\n"), 2500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		exit = 1
	}

	// evidence
	var execs, points, steps int64
	exhausted := internal == ""
	var sl []*scnStat
	var samples []any
	for _, s := range order {
		st := stats[s]
		st.Outcomes = len(st.hashes)
		execs += st.Executions
		points += st.Points
		steps += st.Steps
		exhausted = exhausted && st.Exhausted
		sl = append(sl, st)
		for i, x := range st.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"scenario": s.Name, "choices": x.Choices, "observations": x.Log})
			}
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": points, "transitions": steps, "traces_validated_against_impl": execs,
			"samples": samples, "exhaustive": exhausted, "scenarios": sl,
			"rule": "states: nodes of the choice tree (scheduling, select-case, map-order, fault and input choices) visited; transitions: operations executed under the controlled scheduler; traces: complete executions of the real (instrumented) code, each judged by the oracle. exhaustive: every scenario was enumerated completely within its stated bound.",
		},
		"assumptions": []string{
			"code between two scheduling points runs atomically (justified by the data-race check C30)",
			"computation takes no virtual time; timers fire in order",
			"net, net/http and the web framework are replaced by simulations that deliver what is written and the faults chosen",
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidence), 0o755)
	if err := os.WriteFile(evidence, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d choice points, %d steps, exhaustive=%v, %.1fs\n", prop, tier, len(order), execs, points, steps, exhausted, time.Since(start).Seconds())
	return exit
}

func raceText(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		if j := strings.Index(s, "==================\n"); j > 0 {
			s = s[:j]
		}
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// limited keeps the first and last part of a stream.
type limited struct {
	head, last []byte
}

func (l *limited) Write(p []byte) (int, error) {
	n := len(p)
	if len(l.head) < 1<<16 {
		k := min(len(p), 1<<16-len(l.head))
		l.head = append(l.head, p[:k]...)
		p = p[k:]
	}
	l.last = append(l.last, p...)
	if len(l.last) > 1<<16 {
		l.last = append([]byte{}, l.last[len(l.last)-1<<15:]...)
	}
	return n, nil
}

func (l *limited) String() string { return string(l.head) + string(l.last) }
