package mc

import (
	"fmt"
	"hash/fnv"
	"sync/atomic"
	"time"
)

// Result summarises an exploration.
type Result struct {
	Executions int64
	Points     int64 // choice points visited (nodes of the choice tree, counted once each)
	Steps      int64 // operations executed
	MaxTrace   int
	MaxGs      int
	Exhausted  bool // the whole bounded space was enumerated
	Diverged   int64
	Outcomes   map[uint64]int64 // distinct observation logs
	Samples    []Sample
	Violations []Violation
	Bound      int
	Wall       time.Duration
}

// Sample is one execution written out.
type Sample struct {
	Choices []int    `json:"choices"`
	Log     []string `json:"log"`
}

// Violation is a failing execution.
type Violation struct {
	Choices []int    `json:"choices"`
	Msgs    []string `json:"messages"`
	Log     []string `json:"log"`
}

func choicesOf(tr []Point) []int {
	out := make([]int, len(tr))
	for i, p := range tr {
		out[i] = p.Chosen
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func hashLog(l []string) uint64 {
	h := fnv.New64a()
	for _, s := range l {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// OnExecution, if set, is told the choices of every execution before it runs.
var OnExecution func(prefix []int)

var executions atomic.Int64

// ExecutionCount changes whenever an execution starts or passes many steps.
func ExecutionCount() int64 { return executions.Load() }

// Explore enumerates every execution of body whose deviation cost is within
// cfg.Bound (depth-first over the choice tree). Shard/nshards split the
// subtrees hanging off the default execution. It stops at the first violation.
func Explore(cfg Cfg, shard, nshards int, deadline time.Time, body func()) *Result {
	start := time.Now()
	r := &Result{Outcomes: map[uint64]int64{}, Bound: cfg.Bound}
	var prefix []int
	counter := 0
	fresh := 0 // first position of the current trace not shared with an earlier execution
	for {
		if OnExecution != nil {
			OnExecution(prefix)
		}
		o := RunOnce(&cfg, prefix, body)
		r.Executions++
		r.Steps += int64(o.Steps)
		if n := len(o.Trace) - fresh; n > 0 {
			r.Points += int64(n)
		}
		if len(o.Trace) > r.MaxTrace {
			r.MaxTrace = len(o.Trace)
		}
		if o.Gs > r.MaxGs {
			r.MaxGs = o.Gs
		}
		if o.Diverged {
			r.Diverged++
		}
		h := hashLog(o.Log)
		if r.Outcomes[h] == 0 && len(r.Samples) < 4 {
			r.Samples = append(r.Samples, Sample{choicesOf(o.Trace), clip(o.Log, 40)})
		}
		r.Outcomes[h]++
		if len(o.Fails) > 0 {
			r.Violations = append(r.Violations, Violation{choicesOf(o.Trace), o.Fails, clip(o.Log, 400)})
			break
		}
		// backtrack
		tr := o.Trace
		next := -1
		for i := len(tr) - 1; i >= 0; i-- {
			p := tr[i]
			if p.Chosen+1 >= p.N {
				continue
			}
			cost := p.Cost
			root := true
			for _, q := range tr[:i] {
				if q.Chosen != 0 {
					cost += q.Cost
					root = false
				}
			}
			if cost > cfg.Bound {
				continue
			}
			if root && nshards > 1 {
				// the alternatives of the default path are dealt out to the shards
				alt := p.Chosen + 1
				for alt < p.N {
					counter++
					if counter%nshards == shard {
						break
					}
					alt++
				}
				if alt >= p.N {
					continue
				}
				tr[i].Chosen = alt - 1
			}
			next = i
			break
		}
		if next < 0 {
			r.Exhausted = r.Diverged == 0
			break
		}
		np := make([]int, next+1)
		for j := 0; j < next; j++ {
			np[j] = tr[j].Chosen
		}
		np[next] = tr[next].Chosen + 1
		prefix = np
		fresh = next + 1
		if !deadline.IsZero() && r.Executions%16 == 0 && time.Now().After(deadline) {
			break
		}
	}
	r.Wall = time.Since(start)
	return r
}

func clip(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), fmt.Sprintf("... (%d more)", len(l)-n))
	}
	return append([]string{}, l...)
}
