//go:build commands

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/buger/goterm"
	"github.com/gocraft/health"
	healthdcmd "github.com/gocraft/health/cmd/zzhealthd"
	healthtop "github.com/gocraft/health/cmd/zzhealthtop"
	"github.com/spf13/cobra"
	"verif/mc"
)

// ------------------------------------------------------------- healthtop

type topJob struct {
	Name                                 string
	Count, OK, Invalid, Panic, Err, Junk int64
	Sum, Min, Max                        int64
	Avg, Dev                             float64
}

func (j *topJob) json() map[string]any {
	return map[string]any{"name": j.Name, "count": j.Count, "count_success": j.OK, "count_validation_error": j.Invalid, "count_panic": j.Panic,
		"count_error": j.Err, "count_junk": j.Junk, "nanos_sum": j.Sum, "nanos_sum_squares": 1.5, "nanos_min": j.Min, "nanos_max": j.Max, "nanos_avg": j.Avg, "nanos_std_dev": j.Dev}
}

// what stands for the colour of a cell in topScreen's result
const red, green = "\x01", "\x02"

func topDur(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprintf("%d ms", n/1000000)
	case n > 1000:
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ns", n)
}

func (j *topJob) cells() []string {
	l := []string{j.Name}
	for i, n := range []int64{j.Count, j.OK, j.Invalid, j.Panic, j.Err, j.Junk} {
		c := ""
		if i < 2 && j.Count == j.OK {
			c = green
		} else if i >= 2 && n > 0 {
			c = red
		}
		l = append(l, c+fmt.Sprint(n))
	}
	for _, n := range []int64{int64(j.Avg), int64(j.Dev), j.Min, j.Max, j.Sum} {
		l = append(l, topDur(n))
	}
	return l
}

type topHost struct {
	HostPort, Err string
	Code          int
	At            time.Time
	Nanos         int64
}

func (h *topHost) json() map[string]any {
	return map[string]any{"host_port": h.HostPort, "last_err": h.Err, "last_code": h.Code, "last_check_time": h.At, "last_nanos": h.Nanos}
}

func (h *topHost) cells() []string {
	st := red + "Failure: " + h.Err
	if h.Code == 200 && h.Err == "" {
		st = green + "Success"
	} else if h.At.IsZero() {
		st = red + "Unknown"
	}
	return []string{h.HostPort, st, h.At.Format(time.RFC1123), topDur(h.Nanos)}
}

// topAnswer is one answer of healthd: rows, or a failure.
type topAnswer struct {
	jobs  []*topJob
	hosts []*topHost
	fail  int // 0: none
	delay time.Duration
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// topScreen splits what is on the screen into its head and the rows under the
// column names (nil: no table).
func topScreen(s string) (head string, cols []string, rows [][]string) {
	s = strings.NewReplacer("\x1b[31m", red, "\x1b[32m", green).Replace(s)
	s = ansi.ReplaceAllString(s, "")
	lines := strings.Split(s, "\n")
	head = lines[0]
	for i, l := range lines[1:] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if !strings.Contains(l, "\t") {
			head += "\n" + l
			continue
		}
		var cells []string
		for _, c := range strings.Split(strings.TrimSuffix(l, "\t"), "\t") {
			cells = append(cells, c)
		}
		if cols == nil {
			cols = cells
		} else {
			rows = append(rows, cells)
		}
		_ = i
	}
	return
}

var topTitles = map[bool][]string{
	false: {"Job", "Total Count", "Success", "ValidationError", "Panic", "Error", "Junk", "Avg Response Time", "Stddev", "Min", "Max", "Total"},
	true:  {"Host:Port", "Status", "Last Checked", "Last Response Time"},
}

// topRun runs healthtop against a healthd that gives the answers in turn, for
// secs seconds, and checks every request and the screen after each.
func topRun(args []string, height int, secs int, answer func(n int) *topAnswer) {
	hostsCmd := false
	sortBy, name, source := "name", "", "localhost:5032"
	for _, a := range args {
		k, v, _ := strings.Cut(a, "=")
		switch k {
		case "hosts":
			hostsCmd = true
		case "--sort":
			sortBy = v
		case "--name":
			name = v
		case "--source":
			source = v
		}
	}
	goterm.Reset(height)
	cobra.Args = args
	screen, shownAt := "", time.Duration(-1)
	goterm.Shown = func(s string) { screen, shownAt = s, mc.VNow() }
	type got struct {
		at time.Duration
		a  *topAnswer
	}
	var answers []got
	n := 0
	mc.S.Env.HTTP = func(c *mc.HTTPCall) {
		u, err := url.Parse(c.URL)
		path := "/healthd/jobs"
		if hostsCmd {
			path = "/healthd/hosts"
		}
		if err != nil || c.Method != "GET" || u.Scheme != "http" || u.Host != source || u.Path != path {
			mc.Fail("healthtop %v made the request %s %s", args, c.Method, c.URL)
		}
		q := u.Query()
		if !hostsCmd {
			if q.Get("sort") != sortBy {
				mc.Fail("healthtop %v asked for %s", args, c.URL)
			}
			lim := ""
			if name == "" {
				lim = fmt.Sprint(max(height-2, 3))
			}
			if q.Get("limit") != lim {
				mc.Fail("healthtop %v asked for limit %q, the terminal has %d rows", args, q.Get("limit"), height)
			}
		}
		if at := time.Duration(n) * time.Second; mc.VNow() < at || mc.VNow() > at+10*time.Millisecond {
			mc.Fail("request %d was made at %v", n, mc.VNow())
		}
		a := answer(n)
		n++
		c.Delay = a.delay
		switch a.fail {
		case 0:
			v := map[string]any{"instance_id": "i", "interval_duration": 60e9}
			if hostsCmd {
				l := []any{}
				for _, h := range a.hosts {
					l = append(l, h.json())
				}
				v["hosts"] = l
			} else {
				l := []any{}
				for _, j := range a.jobs {
					l = append(l, j.json())
				}
				v["jobs"] = l
			}
			c.Reply, _ = json.Marshal(v)
		case 1:
			c.Err = mc.ErrConn
		case 2:
			c.Reply = []byte("<html>")
		case 3:
			c.Reply, c.BodyErr = []byte(`{"jobs":[`), mc.ErrConn
		case 4:
			c.Reply = []byte(`{"jobs":7,"hosts":"x"}`)
		}
		answers = append(answers, got{mc.VNow() + a.delay, a})
	}
	mc.Go(func() { healthtop.Main() })
	mc.Sleep(20 * time.Millisecond)
	mc.WaitIdle()
	for s := 0; s < secs; s++ {
		mc.Sleep(time.Second)
		mc.WaitIdle()
		t := mc.VNow()
		if n < s+2 {
			mc.Fail("%d requests in %v", n, t)
		}
		if shownAt < t-1100*time.Millisecond {
			mc.Fail("the screen is from %v, it is %v", shownAt, t)
		}
		head, cols, rows := topScreen(screen)
		if titles := topTitles[hostsCmd]; cols != nil && fmt.Sprint(cols) != fmt.Sprint(titles) {
			mc.Fail("the columns are %q, want %q", cols, titles)
		}
		// what was received, and when; of answers received at the same time any may be shown
		l := append([]got{}, answers...)
		sort.SliceStable(l, func(i, j int) bool { return l[i].at < l[j].at })
		var lastGood []*topAnswer
		lastAt, lastErr, late := time.Duration(-1), time.Duration(-1), time.Duration(-1)
		for _, g := range l {
			if g.at > t {
				continue
			}
			if g.a.fail == 0 {
				if g.at != lastAt {
					lastGood = nil
				}
				lastGood = append(lastGood, g.a)
				lastAt = g.at
			} else if g.at < shownAt {
				lastErr = g.at
			} else {
				late = max(late, g.at) // shown with the next screen
			}
		}
		switch {
		case lastErr > lastAt:
			// an error is shown at the next second
			if !strings.Contains(head, "error") {
				mc.Fail("healthd failed at %v (last good answer %v), the screen at %v says %q", lastErr, lastAt, shownAt, head)
			}
		case lastAt > lastErr && lastAt > late:
			if !strings.Contains(head, "[success]") {
				mc.Fail("healthd answered at %v, the screen at %v says %q", lastAt, shownAt, head)
			}
		}
		if lastGood == nil {
			if rows != nil || !strings.Contains(head, "no data yet") {
				mc.Fail("without any answer the screen is %q", screen)
			}
		} else {
			ok := false
			var want string
			for _, a := range lastGood {
				var w [][]string
				for _, j := range a.jobs {
					if strings.Contains(j.Name, name) {
						w = append(w, j.cells())
					}
				}
				for _, h := range a.hosts {
					w = append(w, h.cells())
				}
				want = fmt.Sprintf("%q", w)
				ok = ok || want == fmt.Sprintf("%q", rows)
			}
			if !ok {
				mc.Fail("healthtop %v at %v shows\n%q\nwant\n%s\nscreen:\n%s", args, t, rows, want, screen)
			}
		}
	}
}

var topSets = [][]*topJob{
	{},
	{{Name: "a/b", Count: 5, OK: 5, Sum: 2000001, Min: 1001, Max: 2000000, Avg: 1000.9, Dev: 999.5}},
	{{Name: "zz", Count: 6, OK: 1, Invalid: 2, Panic: 3, Err: 4, Junk: 5, Sum: 9223372036854775807, Min: -5, Max: 0, Avg: 2000001, Dev: 0}, {Name: "ab", Count: 1, Err: 1, Sum: 1, Min: 1000, Max: 1500, Avg: 3, Dev: 2500}, {Name: "a%s b", Count: 2, OK: 2}},
}

func init() {
	now := func() time.Time { return time.Date(2020, 3, 4, 5, 6, 7, 0, time.UTC) }
	hostSets := [][]*topHost{
		{},
		{{HostPort: "h1:80", Code: 200, At: now(), Nanos: 5000000}, {HostPort: "h2:80"}, {HostPort: "h3:80", Code: 500, Err: "bad", At: now(), Nanos: 1001}},
		{{HostPort: "h1:80", Code: 200, Err: "decode %d", At: now(), Nanos: 2000}, {HostPort: "h2:80", Code: 0, Err: "refused", At: now().Add(time.Hour)}},
	}
	cmds := [][]string{{"jobs"}, {"jobs", "--sort=count_error"}, {"jobs", "--name=a"}, {"--source=10.0.0.1:99", "jobs", "--name=zz", "--sort=avg"}, {"hosts"}, {"hosts", "--source=h:1"}}
	pick := func(args []string, c int) *topAnswer {
		if args[0] == "hosts" {
			return &topAnswer{hosts: hostSets[c]}
		}
		return &topAnswer{jobs: topSets[c]}
	}
	add(&Scn{Prop: "C29", Name: "answers", Doc: "all sequences of healthd's answers (3 contents, 4 failures) over 4 requests, for 6 command lines: requests and the screen after each", Cfg: burst, Shards: 4, DeepShards: 16, Body: func() {
		args := cmds[mc.Choose(len(cmds))]
		topRun(args, []int{25, 2}[len(args)%2], depth(4, 5), func(n int) *topAnswer {
			if n > depth(4, 5) {
				return &topAnswer{fail: 1}
			}
			c := mc.Choose(7)
			if c < 3 {
				return pick(args, c)
			}
			return &topAnswer{fail: c - 2}
		})
	}})
	add(&Scn{Prop: "C29", Name: "delays", Doc: "answers that take 0 to 3.5 seconds and overtake one another, with failures among them", Cfg: burst, Shards: 2, DeepShards: 16, Body: func() {
		args := cmds[[]int{0, 4}[mc.Choose(2)]]
		topRun(args, 10, 6, func(n int) *topAnswer {
			if n > depth(4, 5) {
				return pick(args, 1)
			}
			c := mc.Choose(6)
			a := pick(args, n%3)
			if c%2 == 1 {
				a = &topAnswer{fail: 1}
			}
			a.delay = []time.Duration{0, 600 * time.Millisecond, 3500 * time.Millisecond}[c/2]
			return a
		})
	}})
	add(&Scn{Prop: "C29", Name: "cells", Doc: "all 729 combinations of count, successes and the four kinds of failure in {0, 1, 2}, and durations around every change of unit in every column: text and colour of every cell", Cfg: burst, Body: func() {
		var jobs []*topJob
		if mc.Choose(2) == 0 {
			for c := int64(0); c < 729; c++ {
				jobs = append(jobs, &topJob{Name: fmt.Sprint("j", c), Count: c % 3, OK: c / 3 % 3, Invalid: c / 9 % 3, Panic: c / 27 % 3, Err: c / 81 % 3, Junk: c / 243 % 3, Sum: 5, Min: 6, Max: 7, Avg: 8, Dev: 9})
			}
		} else {
			for f := 0; f < 5; f++ {
				for _, v := range []int64{0, 1, 2, 999, 1000, 1001, 1999, 2000, 1999999, 2000000, 2000001, 2999999, 3000000, 5e9, 1 << 53} {
					j := &topJob{Name: fmt.Sprint("d", f, v), Count: 1, OK: 1, Sum: 11, Min: 12, Max: 13, Avg: 14, Dev: 15}
					switch f {
					case 0:
						j.Sum = v
					case 1:
						j.Min = v
					case 2:
						j.Max = v
					case 3:
						j.Avg = float64(v)
					case 4:
						j.Dev = float64(v)
					}
					jobs = append(jobs, j)
				}
			}
		}
		topRun([]string{"jobs"}, 800, 1, func(int) *topAnswer { return &topAnswer{jobs: jobs} })
	}})
	add(&Scn{Prop: "C29", Name: "hostcells", Doc: "all combinations of 13 status codes, error text or none, checked or never, 5 durations: text and colour of every host's row", Cfg: burst, Body: func() {
		var hosts []*topHost
		for _, code := range []int{0, 100, 199, 200, 201, 204, 206, 299, 302, 304, 404, 500, 599} {
			for _, e := range []string{"", "failed"} {
				for _, at := range []time.Time{{}, now()} {
					for _, d := range []int64{0, 1000, 1001, 2000000, 2000001} {
						hosts = append(hosts, &topHost{HostPort: fmt.Sprint("h", len(hosts), ":1"), Code: code, Err: e, At: at, Nanos: d})
					}
				}
			}
		}
		topRun([]string{"hosts"}, 800, 1, func(int) *topAnswer { return &topAnswer{hosts: hosts} })
	}})
	add(&Scn{Prop: "C29", Name: "filters", Doc: "all filters of up to 2 characters of an alphabet with special ones over all names of up to 3 of them", Cfg: burst, Body: func() {
		al := []string{"a", "A", ".", "*", "é"}
		f := al[mc.Choose(len(al))]
		if c := mc.Choose(1 + len(al)); c > 0 {
			f += al[c-1]
		}
		var jobs []*topJob
		for c := 0; c < 125; c++ {
			jobs = append(jobs, &topJob{Name: al[c%5] + al[c/5%5] + al[c/25], Count: int64(c)})
		}
		topRun([]string{"jobs", "--name=" + f}, 10, 1, func(int) *topAnswer { return &topAnswer{jobs: jobs} })
	}})
	add(&Scn{Prop: "C29", Name: "rows", Doc: "terminal heights 0 to 60 and name filters over awkward job names", Cfg: burst, Body: func() {
		h := mc.Choose(61)
		nm := append([]string{""}, awkward...)[mc.Choose(1+len(awkward))]
		if strings.ContainsAny(nm, "\t\n\r\x1b") || strings.TrimSpace(nm) != nm {
			return
		}
		args := []string{"jobs"}
		if nm != "" {
			args = append(args, "--name="+nm)
		}
		var jobs []*topJob
		for i, a := range awkward {
			if !strings.ContainsAny(a, "\t\n\r\x1b") && strings.TrimSpace(a) != "" && json.Valid([]byte(jsonOf(a))) {
				jobs = append(jobs, &topJob{Name: "j" + a + "x", Count: int64(i)})
			}
		}
		topRun(args, h, 2, func(int) *topAnswer { return &topAnswer{jobs: jobs} })
	}})
	add(&Scn{Prop: "C29", Name: "options", Doc: "each of 15 strings (blank ones, ones with special meaning in an address, others) as filter or none, with each as sort order: passed on and applied as they are", Cfg: burst, Body: func() {
		ss := []string{"", " ", "  ", "a", "a&limit=1", "x=y", "%41", "50%", "+", "a+b", "#", "?", "/", "\u00e4", "NAME"}
		name, by := ss[mc.Choose(len(ss))], ss[mc.Choose(len(ss))]
		args := []string{"jobs", "--sort=" + by}
		if name != "" {
			args = append(args, "--name="+name)
		}
		var jobs []*topJob
		for i, a := range ss {
			jobs = append(jobs, &topJob{Name: "j" + a + "x", Count: int64(i)})
		}
		topRun(args, 3+mc.Choose(3)*8, 2, func(int) *topAnswer { return &topAnswer{jobs: jobs} })
	}})
	add(&Scn{Prop: "C29", Name: "schedules", Doc: "the order in which the ticker, answers and failures that coincide are handled", Cfg: mc.Cfg{Bound: 2, FreeCost: 1, CaseCost: 1}, Deep: concP(3), Shards: 2, DeepShards: 8, Body: func() {
		args := cmds[mc.Choose(2)*4]
		topRun(args, 10, 4, func(n int) *topAnswer {
			a := pick(args, n%3)
			if n == 2 {
				a = &topAnswer{fail: 1}
			}
			a.delay = []time.Duration{2 * time.Second, 1 * time.Second, 0, time.Second}[n%4]
			return a
		})
	}})

	// ------------------------------------------------------------- the healthd command
	add(&Scn{Prop: "C31", Name: "environment", Doc: "all settings of the environment (6 lists of 1 to 17 hosts, with and without port, own addresses given or default) and answers per host: hosts polled, both servers, what the API shows", Cfg: burst, Body: func() {
		sets := [][]string{{"h1:1"}, {"h1:1", "h2:2"}, {"h2:2", "h1:1", ":9"}, {"bare", "bare.example.org", "h1:1", "h1:11", "H1:1"}, {"[::1]:80", "10.0.0.8:5030", "10.0.0.8:5031"},
			{"n01:1", "n02:1", "n03:1", "n04:1", "n05:1", "n06:1", "n07:1", "n08:1", "n09:1", "n10:1", "n11:1", "n12:1", "n13:1", "n14:1", "n15:1", "n16:1", "n17:1"}}
		hosts := sets[mc.Choose(len(sets))]
		own, api := []string{"", ":7001", "10.0.0.9:7001"}[mc.Choose(3)], []string{"", ":7002"}[mc.Choose(2)]
		bad := mc.Choose(len(hosts) + 1)
		for k, v := range map[string]string{"HEALTHD_MONITORED_HOSTPORTS": strings.Join(hosts, ","), "HEALTH_HOSTPORT": own, "HEALTHD_SERVER_HOSTPORT": api} {
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
		if own == "" {
			own = ":5030"
		}
		if api == "" {
			api = ":5031"
		}
		polled := map[string]int{}
		start := mc.Now().Truncate(time.Minute)
		mc.S.Env.HTTP = func(c *mc.HTTPCall) {
			polled[c.Host]++
			if c.Path != "/health" {
				mc.Fail("healthd asked %s", c.URL)
			}
			for i, h := range hosts {
				if c.Host != h {
					continue
				}
				if i == bad {
					c.Err = mc.ErrConn
					return
				}
				a := newAggM(start)
				a.Serial = 1
				a.Events["ev-"+h] = int64(i + 1)
				a.Events["shared"] = int64(i + 1)
				c.Reply = (&hdResp{inst: "i" + h, dur: time.Minute, aggs: []*aggM{a}}).body()
				return
			}
			if c.Host != own {
				mc.Fail("healthd polls %q; it was told to monitor %v and has %q itself", c.Host, hosts, own)
			}
			h, ok := mc.Server(own).(http.Handler)
			if !ok {
				c.Err = mc.ErrConn
				return
			}
			r := httpGet(h, c.Path)
			c.Status, c.Reply = r.Code, r.Body.Bytes()
		}
		mc.Go(func() { healthdcmd.Main() })
		mc.Sleep(25 * time.Second)
		mc.WaitIdle()
		for _, h := range append(append([]string{}, hosts...), own) {
			if polled[h] < 2 || polled[h] > 4 {
				mc.Fail("%s was polled %d times in 25 s", h, polled[h])
			}
		}
		for _, a := range []string{own, api} {
			if _, ok := mc.Server(a).(http.Handler); !ok {
				mc.Fail("nothing listens at %s", a)
			}
		}
		r := httpGet(mc.Server(api).(http.Handler), "/healthd/aggregations/overall")
		var v struct {
			Overall *health.IntervalAggregation `json:"overall"`
		}
		if err := json.Unmarshal(r.Body.Bytes(), &v); err != nil || r.Code != 200 || v.Overall == nil {
			mc.Fail("overall: %d %v %s", r.Code, err, tail(r.Body.String(), 200))
		}
		sum := int64(0)
		for i, h := range hosts {
			w := int64(i + 1)
			if i == bad {
				w = 0
			}
			sum += w
			if v.Overall.Events["ev-"+h] != w {
				mc.Fail("the API shows %d events of %s, want %d", v.Overall.Events["ev-"+h], h, w)
			}
		}
		if v.Overall.Events["shared"] != sum {
			mc.Fail("the API shows %d shared events, want %d", v.Overall.Events["shared"], sum)
		}
		if v.Overall.Events["starting"] != 1 || len(v.Overall.Jobs) < 2 {
			mc.Fail("healthd's own metrics are not in what it serves: %v", readAgg(v.Overall).dump())
		}
		r = httpGet(mc.Server(api).(http.Handler), "/healthd/hosts")
		var hs struct {
			Hosts []struct {
				HostPort string `json:"host_port"`
				LastCode int    `json:"last_code"`
			} `json:"hosts"`
		}
		json.Unmarshal(r.Body.Bytes(), &hs)
		if len(hs.Hosts) != len(hosts)+1 {
			mc.Fail("the host list is %s", r.Body.String())
		}
		for _, h := range hs.Hosts {
			want := 200
			for i := range hosts {
				if hosts[i] == h.HostPort && i == bad {
					want = 0
				}
			}
			if h.LastCode != want {
				mc.Fail("%s has status %d, want %d", h.HostPort, h.LastCode, want)
			}
		}
	}})
}
