package main

// Functions that claim to live in files with telling names (see c_stack.go).

//line /opt/veriftools/go1.27.3-extra/pkg/a.go:10
func lineBeside(skip int) *taken { r := takeHere(skip); mark++; return r }

//line /opt/veriftools/go1.27.3.go:20
func lineNamed(skip int) *taken { r := takeHere(skip); mark++; return r }

//line /opt/veriftools/go1.27.3/src/fake/a.go:30
func lineInside(skip int) *taken { r := takeHere(skip); mark++; return r }

//line rel/a.go:40
func lineRel(skip int) *taken { r := takeHere(skip); mark++; return r }

//line /home/u ser/100%d/a.go:50
func lineOdd(skip int) *taken { r := takeHere(skip); mark++; return r }

//line /home/u/opt/veriftools/go1.27.3/src/fake/a.go:60
func lineWithin(skip int) *taken { r := takeHere(skip); mark++; return r }

//line /home/u//opt/veriftools/go1.27.3/src/runtime/a.go:70
func lineWithin2(skip int) *taken { r := takeHere(skip); mark++; return r }
