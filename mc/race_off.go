//go:build !race

package mc

import "unsafe"

const RaceBuild = false

func raceDisable()        {}
func raceEnable()         {}
func raceErrors() int     { return 0 }
func raceRelease(p *byte) {}
func raceAcquire(p *byte) {}

func RaceWrite(p unsafe.Pointer, n int) {}
