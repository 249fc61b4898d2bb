package main

import (
	"encoding/json"
	"errors"
	"strings"
	"time"

	"github.com/gocraft/health"
	"verif/mc"
)

// processes are those of several hosts.
func processes() []*mc.Process {
	long := strings.Repeat("x", 62)
	hosts := []string{"a", "b", "a.b", "a.b.example.com", "a.c.example.com", "a.1", "a-1", "1", "localhost", "hostname", long + "a", long + "b", strings.Repeat("y.", 126) + "a", strings.Repeat("y.", 126) + "b"}
	pids := []int{1, 2, 11, 12, 257, 999, 1001, 10001, 32769, 65537, 131073, 4194303}
	var l []*mc.Process
	for _, p := range pids {
		for _, h := range hosts {
			l = append(l, &mc.Process{Host: h, Pid: p})
		}
		l = append(l, &mc.Process{HostErr: errors.New("no name"), Pid: p})
	}
	return l
}

// statedID is the id a freshly started process states, some time after its start.
func statedID(p *mc.Process, wait time.Duration) string {
	mc.StartAs(p)
	sink := health.NewJsonPollingSink(time.Minute, time.Hour)
	get := func() string {
		r := httpGet(sink, "/health")
		var v struct {
			Id *string `json:"instance_id"`
		}
		if err := json.Unmarshal(r.Body.Bytes(), &v); r.Code != 200 || err != nil || v.Id == nil || *v.Id == "" {
			mc.Fail("process %d of host %q states no instance id: %d %s", p.Pid, p.Host, r.Code, r.Body.String())
		}
		return *v.Id
	}
	id := get()
	ev("j", "e").emit(sink)
	mc.WaitIdle()
	mc.Sleep(wait)
	if again := get(); again != id {
		mc.Fail("process %d of host %q: instance id %q became %q", p.Pid, p.Host, id, again)
	}
	if health.Identifier != id {
		mc.Fail("process %d of host %q states the instance id %q, the library's is %q", p.Pid, p.Host, id, health.Identifier)
	}
	sink.ShutdownServer()
	return id
}

func init() {
	add(&Scn{Prop: "C34", Name: "pairs", Doc: "all pairs of 180 processes (12 process ids on 14 hosts, and on hosts whose name cannot be found out): each states one instance id throughout, different ones different ids", Cfg: seqCfg, Shards: 8, Body: func() {
		ps := processes()
		i := mc.Choose(len(ps))
		j := mc.Choose(len(ps))
		if j >= i {
			return
		}
		p, q := ps[i], ps[j]
		a := statedID(p, time.Minute)
		b := statedID(q, 0)
		if a == b && !(p.Pid == q.Pid && p.HostErr != nil && q.HostErr != nil) {
			mc.Fail("process %d of host %q and process %d of host %q state the same instance id %q", p.Pid, p.Host, q.Pid, q.Host, a)
		}
	}})
}
