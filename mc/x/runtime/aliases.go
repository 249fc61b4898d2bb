// Code generated by genmirror. DO NOT EDIT.

package runtime

import o_ "runtime"

var BlockProfile = o_.BlockProfile

type BlockProfileRecord = o_.BlockProfileRecord

var Breakpoint = o_.Breakpoint
var CPUProfile = o_.CPUProfile
var Caller = o_.Caller
var Callers = o_.Callers
var CallersFrames = o_.CallersFrames

type Cleanup = o_.Cleanup

const Compiler = o_.Compiler

type Error = o_.Error
type Frame = o_.Frame
type Frames = o_.Frames
type Func = o_.Func

var FuncForPC = o_.FuncForPC
var GC = o_.GC

const GOARCH = o_.GOARCH

var GOMAXPROCS = o_.GOMAXPROCS

const GOOS = o_.GOOS

var GOROOT = o_.GOROOT
var GoroutineProfile = o_.GoroutineProfile
var KeepAlive = o_.KeepAlive
var LockOSThread = o_.LockOSThread
var MemProfile = o_.MemProfile
var MemProfileRate = o_.MemProfileRate

type MemProfileRecord = o_.MemProfileRecord
type MemStats = o_.MemStats

var MutexProfile = o_.MutexProfile
var NumCPU = o_.NumCPU

type PanicNilError = o_.PanicNilError
type Pinner = o_.Pinner

var ReadTrace = o_.ReadTrace
var SetBlockProfileRate = o_.SetBlockProfileRate
var SetCPUProfileRate = o_.SetCPUProfileRate
var SetCgoTraceback = o_.SetCgoTraceback
var SetDefaultGOMAXPROCS = o_.SetDefaultGOMAXPROCS
var SetFinalizer = o_.SetFinalizer
var SetMutexProfileFraction = o_.SetMutexProfileFraction
var Stack = o_.Stack

type StackRecord = o_.StackRecord

var StartTrace = o_.StartTrace
var StopTrace = o_.StopTrace
var ThreadCreateProfile = o_.ThreadCreateProfile

type TypeAssertionError = o_.TypeAssertionError

var UnlockOSThread = o_.UnlockOSThread
var Version = o_.Version
