//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceDisable()        { runtime.RaceDisable() }
func raceEnable()         { runtime.RaceEnable() }
func raceErrors() int     { return runtime.RaceErrors() }
func raceRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// RaceWrite tells the detector of a write by code compiled without it.
func RaceWrite(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
