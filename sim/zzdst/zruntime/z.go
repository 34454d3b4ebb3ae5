//go:build go1.21

// Package runtime stands in for the standard package under simulation.
package runtime

import (
	"runtime"

	"github.com/wearelumenai/distclus/zzdst"
)

type (
	Error              = runtime.Error
	MemStats           = runtime.MemStats
	Func               = runtime.Func
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	TypeAssertionError = runtime.TypeAssertionError
	PanicNilError      = runtime.PanicNilError
	StackRecord        = runtime.StackRecord
	MemProfileRecord   = runtime.MemProfileRecord
	BlockProfileRecord = runtime.BlockProfileRecord
	Pinner             = runtime.Pinner
	Cleanup            = runtime.Cleanup
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

func NumCPU() int            { return zzdst.NumCPU() }
func GOMAXPROCS(int) int     { return zzdst.NumCPU() }
func Gosched()               { zzdst.Gosched() }
func GC()                    {}
func Goexit()                { zzdst.Goexit() }
func NumGoroutine() int      { return zzdst.LibTasks() + 1 }
func KeepAlive(x any)        { runtime.KeepAlive(x) }
func SetFinalizer(a, b any)  {}
func ReadMemStats(*MemStats) {}
func Version() string        { return runtime.Version() }
func LockOSThread()          {}
func UnlockOSThread()        {}
func Stack(b []byte, all bool) int {
	return 0
}
func Caller(skip int) (pc uintptr, file string, line int, ok bool) { return 0, "?", 0, false }
func Callers(skip int, pc []uintptr) int                           { return 0 }

var MemProfileRate = 0

func CallersFrames(pc []uintptr) *Frames                    { return runtime.CallersFrames(pc) }
func FuncForPC(pc uintptr) *Func                            { return runtime.FuncForPC(pc) }
func GOROOT() string                                        { return "" }
func NumCgoCall() int64                                     { return 0 }
func Breakpoint()                                           {}
func SetBlockProfileRate(int)                               {}
func SetMutexProfileFraction(int) int                       { return 0 }
func SetCPUProfileRate(int)                                 {}
func SetDefaultGOMAXPROCS()                                 {}
func AddCleanup[T, S any](p *T, f func(S), a S) (c Cleanup) { return }
