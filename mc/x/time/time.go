// Package time mirrors the standard package, on virtual time.
package time

import "verif/mc"

type Ticker = mc.Ticker
type Timer = mc.Timer

func Now() Time                             { return mc.Now() }
func Since(t Time) Duration                 { return mc.Since(t) }
func Until(t Time) Duration                 { return mc.Until(t) }
func Sleep(d Duration)                      { mc.Sleep(d) }
func NewTicker(d Duration) *Ticker          { return mc.NewTicker(d) }
func NewTimer(d Duration) *Timer            { return mc.NewTimer(d) }
func Tick(d Duration) *mc.Chan[Time]        { return mc.Tick(d) }
func After(d Duration) *mc.Chan[Time]       { return mc.After(d) }
func AfterFunc(d Duration, f func()) *Timer { return mc.AfterFunc(d, f) }
