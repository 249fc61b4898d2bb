// Package debug mirrors runtime/debug.
package debug

import (
	"fmt"
	o_ "runtime/debug"
	"time"

	"verif/mc"
)

func ReadGCStats(s *o_.GCStats) {
	if _, ok := mc.MemOverride(""); !ok {
		o_.ReadGCStats(s)
		return
	}
	for i := range s.PauseQuantiles {
		v, _ := mc.MemOverride(fmt.Sprintf("GCStats.Q%d/%d", i, len(s.PauseQuantiles)-1))
		s.PauseQuantiles[i] = time.Duration(v)
	}
	v, _ := mc.MemOverride("GCStats.NumGC")
	s.NumGC = int64(v)
	v, _ = mc.MemOverride("GCStats.PauseTotal")
	s.PauseTotal = time.Duration(v)
}
