// Code generated by genmirror. DO NOT EDIT.

package debug

import o_ "runtime/debug"

type BuildInfo = o_.BuildInfo
type BuildSetting = o_.BuildSetting
type CrashOptions = o_.CrashOptions

var FreeOSMemory = o_.FreeOSMemory

type GCStats = o_.GCStats
type Module = o_.Module

var ParseBuildInfo = o_.ParseBuildInfo
var PrintStack = o_.PrintStack
var ReadBuildInfo = o_.ReadBuildInfo
var SetCrashOutput = o_.SetCrashOutput
var SetGCPercent = o_.SetGCPercent
var SetMaxStack = o_.SetMaxStack
var SetMaxThreads = o_.SetMaxThreads
var SetMemoryLimit = o_.SetMemoryLimit
var SetPanicOnFault = o_.SetPanicOnFault
var SetTraceback = o_.SetTraceback
var Stack = o_.Stack
var WriteHeapDump = o_.WriteHeapDump
