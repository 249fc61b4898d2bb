package main

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"

	"github.com/gocraft/health/stack"
	dotted "verif/harness/dotted.v2"
	"verif/mc"
)

// taken is a trace and what the runtime itself says about the same place.
type taken struct {
	t    *stack.Trace
	want []runtime.Frame
}

// take must be called on the line where the trace is taken: skip counts from its caller.
//
//go:noinline
func resolve(t *stack.Trace, pcs []uintptr) *taken {
	r := &taken{t: t}
	if len(pcs) == 0 {
		return r
	}
	fs := runtime.CallersFrames(pcs)
	for {
		f, more := fs.Next()
		r.want = append(r.want, f)
		if !more {
			return r
		}
	}
}

const manyPCs = 400

// splitName is the reference for package path and function name.
func splitName(fn string) (string, string) {
	i := strings.LastIndex(fn, "/") + 1
	if j := strings.Index(fn[i:], "."); j >= 0 {
		return fn[:i+j], fn[i+j+1:]
	}
	return fn[:i], fn[i:]
}

func inGo(file string) bool {
	return runtime.GOROOT() != "" && strings.HasPrefix(file, strings.TrimSuffix(runtime.GOROOT(), "/")+"/")
}

func (r *taken) check(depthMax int) {
	fr := r.t.Frames()
	want := r.want
	if len(want) > depthMax {
		want = want[:depthMax]
	}
	var text strings.Builder
	for i, w := range want {
		if i >= len(fr) {
			mc.Fail("the trace ends after %d frames, before %s (line %d)", len(fr), w.Function, w.Line)
		}
		f := fr[i]
		pkg, name := splitName(w.Function)
		if f.File != w.File || f.LineNumber != w.Line || f.Name != name || f.Package != pkg && f.Package != strings.ReplaceAll(pkg, "%2e", ".") {
			mc.Fail("frame %d is %s:%d %q %q, want %s:%d %q %q", i, f.File, f.LineNumber, f.Package, f.Name, w.File, w.Line, pkg, name)
		}
		if f.IsSystemPackage != inGo(w.File) {
			mc.Fail("frame %d (%s) is marked system=%v", i, w.File, f.IsSystemPackage)
		}
		fmt.Fprintf(&text, "%s:%d %s\n", w.File, w.Line, name)
	}
	if len(fr) > len(want) {
		mc.Fail("%d frames, want %d; the first extra one is %v", len(fr), len(want), fr[len(want)])
	}
	for k := 0; k < 2; k++ {
		if s := string(r.t.Stack()); s != text.String() {
			mc.Fail("rendered as\n%s\nwant\n%s", s, text.String())
		}
		if again := r.t.Frames(); !slices.Equal(again, fr) {
			mc.Fail("Frames differ when asked again")
		}
	}
}

//go:noinline
func takeHere(skip int) *taken {
	pcs := make([]uintptr, manyPCs)
	t, n := stack.NewTrace(skip), runtime.Callers(1+skip, pcs)
	return resolve(t, pcs[:n])
}

func takeInl(skip int) *taken {
	pcs := make([]uintptr, manyPCs)
	t, n := stack.NewTrace(skip), runtime.Callers(1+skip, pcs)
	mark++
	return resolve(t, pcs[:n])
}

var mark int

func takeInl2(skip int) *taken {
	mark++
	r := takeInl(skip)
	mark++
	return r
}

type shapeV struct{ a, b int }

//go:noinline
func (s shapeV) val(skip int) *taken { mark += s.b; return takeHere(skip) }

func (s *shapeV) ptr(skip int) *taken { mark += s.a; r := takeHere(skip); mark++; return r }

type taker interface{ val(skip int) *taken }

type embeds struct{ *shapeV }

func generic[T any](x T, skip int) *taken {
	var r *taken
	func() { r = takeHere(skip) }()
	_ = x
	return r
}

//go:noinline
func genericBig[T any](x []T, f func(T) *taken) (r *taken) {
	for _, y := range x {
		r = f(y)
	}
	return r
}

type lst[T any] struct{ x T }

//go:noinline
func (l *lst[T]) meth(skip int) *taken { r := takeHere(skip); mark++; return r }

//go:noinline
func stkDeferred(skip int) (r *taken) {
	defer func() { r = takeHere(skip) }()
	mark++
	return nil
}

//go:noinline
func stkRecovered(skip int) (r *taken) {
	defer func() {
		recover()
		r = takeHere(skip)
	}()
	var m map[string]int
	m["x"]++
	return nil
}

// stackShapes are ways to reach the point where the trace is taken.
var stackShapes = []struct {
	name string
	f    func(skip int) *taken
}{
	{"direct", takeHere},
	{"inlined", func(s int) *taken { return takeInl2(s) }},
	{"value method", func(s int) *taken { return shapeV{1, 2}.val(s) }},
	{"pointer method", func(s int) *taken { return (&shapeV{1, 2}).ptr(s) }},
	{"interface on pointer", func(s int) *taken { var t taker = &shapeV{1, 2}; return t.val(s) }},
	{"embedded through interface", func(s int) *taken { var t taker = embeds{&shapeV{1, 2}}; return t.val(s) }},
	{"method value", func(s int) *taken { f := shapeV{3, 4}.val; return f(s) }},
	{"method expression", func(s int) *taken { f := (*shapeV).ptr; return f(&shapeV{}, s) }},
	{"generic", func(s int) *taken { return generic("x", s) }},
	{"generic callback", func(s int) *taken { return genericBig([]int{1, 2}, func(int) *taken { return takeHere(s) }) }},
	{"generic method", func(s int) *taken { return (&lst[map[string]error]{}).meth(s) }},
	{"deferred", stkDeferred},
	{"package with a dot", func(s int) (r *taken) { dotted.Call(func() { r = takeHere(s) }); return }},
	{"pointer method in a package with a dot", func(s int) (r *taken) { (&dotted.T{}).Ptr(func() { r = takeHere(s) }); return }},
	{"method and closure in a package with a dot", func(s int) (r *taken) { dotted.T{}.Val(func() { r = takeHere(s) }); return }},
	{"generic function in a package with a dot", func(s int) (r *taken) { dotted.Generic(1, func() { r = takeHere(s) }); return }},
	{"recovered", stkRecovered},
	{"through sort", func(s int) (r *taken) {
		sort.Slice([]int{2, 1}, func(i, j int) bool { r = takeHere(s); return false })
		return r
	}},
	{"through strings", func(s int) (r *taken) {
		strings.Map(func(x rune) rune { r = takeHere(s); return x }, "a")
		return r
	}},
	{"nested closures", func(s int) *taken {
		return func() *taken { return func() *taken { r := takeHere(s); mark++; return r }() }()
	}},
	{"file beside the Go installation", lineBeside},
	{"file named like the Go installation", lineNamed},
	{"file in the Go installation", lineInside},
	{"relative file", lineRel},
	{"blank file with spaces", lineOdd},
	{"the installation's path within", lineWithin},
	{"the installation's path within 2", lineWithin2},
}

func init() {
	add(&Scn{Prop: "C23", Name: "shapes", Doc: "every way of calling (methods, closures, generics, inlined, deferred, recovered, through library callbacks, odd file names) x skip 0..6 x maximum depths: frames equal what the runtime itself reports at that line", Cfg: seqCfg, Shards: 2, Body: func() {
		s := stackShapes[mc.Choose(len(stackShapes))]
		skip := mc.Choose(7)
		d := []int{50, 1, 2, 3, 0, 200}[mc.Choose(6)]
		withDepth(d, func() { s.f(skip).check(d) })
	}})
	add(&Scn{Prop: "C23", Name: "depths", Doc: "recursion depths 0..110 x maximum depth 1..64 and the default x skips: no gaps, no repetition, cut at the maximum", Cfg: seqCfg, Shards: 4, Body: func() {
		n := mc.Choose(depth(80, 110))
		d := 50
		if k := mc.Choose(33); k > 0 {
			d = 2 * k
		}
		skip := []int{0, 1, 5, n, n + 3, n + 60}[mc.Choose(6)]
		withDepth(d, func() {
			var r *taken
			recurse(n, func() { r = takeHere(skip) })
			r.check(d)
		})
	}})
	add(&Scn{Prop: "C23", Name: "deep", Doc: "recursion depths from 100 to 350 x maximum depths from 63 to 1000, around powers of two, x skips, taken as traces and through the stream's errors: cut at the maximum, no sooner", Cfg: seqCfg, Body: func() {
		n := []int{100, 126, 127, 128, 129, 254, 255, 256, 257, 350}[mc.Choose(10)]
		d := []int{63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000}[mc.Choose(14)]
		skip := []int{0, 1, 2, n / 2}[mc.Choose(4)]
		withDepth(d, func() {
			var r *taken
			recurse(n, func() { r = takeHere(skip) })
			r.check(d)
		})
	}})
	add(&Scn{Prop: "C23", Name: "owner", Doc: "all sequences of 4 steps of reading frames, rendering, and changing what was handed out: the rendering a caller got is the caller's, later ones are unaffected", Cfg: seqCfg, Body: func() {
		var r, other *taken
		recurse(2, func() { r = takeHere(0) })
		recurse(3, func() { other = takeHere(0) })
		want := ""
		var kept []byte
		for i := 0; i < 4; i++ {
			switch mc.Choose(4) {
			case 0:
				b := r.t.Stack()
				if want == "" {
					want = string(b)
				} else if want != string(b) {
					mc.Fail("rendered as\n%s\nthough it was rendered before as\n%s", b, want)
				}
				kept = b
			case 1:
				for k := range kept {
					kept[k] = '#'
				}
				kept = append(kept[:0], "mine"...)
				kept = nil
			case 2:
				other.t.Stack()
			case 3:
				r.t.Frames()
			}
			if kept != nil && string(kept) != want {
				mc.Fail("a rendering that was handed out became\n%s\ninstead of\n%s", kept, want)
			}
		}
		r.check(50)
		other.check(50)
	}})
	add(&Scn{Prop: "C23", Name: "many", Doc: "two to four traces in one process whose inner frames are the same while the outer ones differ in line or function (4 ways), behind 0 to 6 common frames and a skip of 0 to 3, rendered at once or at the end", Cfg: seqCfg, Shards: 2, Body: func() {
		n, skip, late := mc.Choose(7), mc.Choose(4), mc.Choose(2) == 1
		var l []*taken
		one := func() {
			var r *taken
			switch mc.Choose(4) {
			case 0:
				recurse(n, func() { r = takeHere(skip) })
			case 1:
				f := func() { r = takeHere(skip) }
				if n%2 == 0 {
					recurse(n, f)
				} else {
					recurse(n, f)
				}
			case 2:
				r = takeVia(n, skip)
			case 3:
				mark++
				r = takeVia(n, skip)
			}
			l = append(l, r)
			if !late {
				r.check(50)
			}
		}
		for i := 0; i < depth(3, 4); i++ {
			one()
		}
		for _, r := range l {
			r.check(50)
		}
	}})
	add(&Scn{Prop: "C23", Name: "goroutine", Doc: "traces taken at the start of goroutines and read elsewhere, later, after the depth limit changed", Cfg: conc(2), Deep: concP(3), Body: func() {
		skip := mc.Choose(4)
		var a, b *taken
		par(func() { a = takeHere(skip) }, func() { recurse(3, func() { b = takeInl2(skip) }) })
		withDepth(2, func() {
			a.check(50)
			b.check(50)
		})
	}})
	add(&Scn{Prop: "C23", Name: "readers", Doc: "interleavings of three goroutines reading frames and rendering one trace: all see the same", Cfg: conc(3), Deep: concP(5), Shards: 2, DeepShards: 8, Body: func() {
		var r *taken
		recurse(2, func() { r = takeHere(0) })
		var out [3]string
		var fr [3][]stack.Frame
		var fs []func()
		for i := 0; i < 3; i++ {
			fs = append(fs, func() {
				if i == 1 {
					fr[i] = append([]stack.Frame{}, r.t.Frames()...)
				}
				out[i] = string(r.t.Stack())
				if i != 1 {
					fr[i] = append([]stack.Frame{}, r.t.Frames()...)
				}
			})
		}
		par(fs...)
		for i := 1; i < 3; i++ {
			if out[i] != out[0] || !slices.Equal(fr[i], fr[0]) {
				mc.Fail("readers disagree:\n%s\nand\n%s", out[0], out[i])
			}
		}
		r.check(50)
		if !strings.Contains(out[0], "recurse") {
			mc.Fail("the trace lacks its callers: %s", out[0])
		}
	}})
}

//go:noinline
func takeVia(n, skip int) *taken {
	if n > 0 {
		r := takeVia(n-1, skip)
		mark++
		return r
	}
	r := takeHere(skip)
	mark++
	return r
}

func withDepth(d int, f func()) {
	old := stack.MaxStackDepth
	stack.MaxStackDepth = d
	defer func() { stack.MaxStackDepth = old }()
	f()
}
