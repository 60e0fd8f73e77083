// Code generated by tools/genshim.py. DO NOT EDIT.
package runtime

import std "runtime"

var BlockProfile = std.BlockProfile
type BlockProfileRecord = std.BlockProfileRecord
var Breakpoint = std.Breakpoint
var CPUProfile = std.CPUProfile
var Caller = std.Caller
var Callers = std.Callers
var CallersFrames = std.CallersFrames
type Cleanup = std.Cleanup
const Compiler = std.Compiler
type Error = std.Error
type Frame = std.Frame
type Frames = std.Frames
type Func = std.Func
var FuncForPC = std.FuncForPC
const GOARCH = std.GOARCH
const GOOS = std.GOOS
var GOROOT = std.GOROOT
var KeepAlive = std.KeepAlive
var MemProfile = std.MemProfile
var MemProfileRate = std.MemProfileRate
type MemProfileRecord = std.MemProfileRecord
type MemStats = std.MemStats
var MutexProfile = std.MutexProfile
var NumCPU = std.NumCPU
var NumCgoCall = std.NumCgoCall
type PanicNilError = std.PanicNilError
type Pinner = std.Pinner
var ReadMemStats = std.ReadMemStats
var ReadTrace = std.ReadTrace
var SetBlockProfileRate = std.SetBlockProfileRate
var SetCPUProfileRate = std.SetCPUProfileRate
var SetCgoTraceback = std.SetCgoTraceback
var SetDefaultGOMAXPROCS = std.SetDefaultGOMAXPROCS
var SetMutexProfileFraction = std.SetMutexProfileFraction
type StackRecord = std.StackRecord
var StartTrace = std.StartTrace
var StopTrace = std.StopTrace
var ThreadCreateProfile = std.ThreadCreateProfile
type TypeAssertionError = std.TypeAssertionError
var Version = std.Version
