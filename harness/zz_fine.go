package main

// Fine-grained variants: the same scenarios and oracles, but the running
// goroutine can be stopped before every statement of the library, not only
// before its synchronisation. What is properly locked behaves the same; memory
// that is shared by mistake (a buffer handed back too early, say) shows in the
// observable outcome.
func init() {
	fine := func(prop, name string, bound, deepBound int) {
		for _, s := range scns {
			if s.Prop != prop || s.Name != name {
				continue
			}
			c := *s
			c.Name += "_fine"
			c.Doc = "like " + name + ", with a scheduling point before every statement of the library"
			c.Cfg = s.Cfg
			c.Cfg.Stmts, c.Cfg.Bound, c.Cfg.Clock = true, bound, s.Cfg.Clock && prop != "C21"
			d := c.Cfg
			d.Bound = deepBound
			c.Deep = &d
			c.Shards, c.DeepShards = 8, 16
			scns = append(scns, &c)
			return
		}
		panic("no scenario " + prop + " " + name)
	}
	for _, x := range fineList {
		fine(x.prop, x.name, x.bound, x.deep)
	}
}

var fineList = []struct {
	prop, name  string
	bound, deep int
}{
	{"C01", "concurrent2", 2, 3},
	{"C02", "concurrent", 2, 3},
	{"C03", "concurrent", 2, 3},
	{"C04", "concurrent", 2, 3},
	{"C05", "readers", 1, 2},
	{"C05", "alike", 2, 2},
	{"C05", "two_emitters", 2, 3},
	{"C10", "concurrent", 2, 3},
	{"C10", "overtaking", 2, 2},
	{"C15", "emit_drain", 2, 3},
	{"C15", "no_drain", 2, 2},
	{"C16", "concurrent", 2, 3},
	{"C17", "concurrent", 2, 3},
	{"C18", "concurrent", 1, 2},
	{"C19", "reporters2", 2, 2},
	{"C21", "emitters", 2, 2},
	{"C22", "two", 2, 3},
}
