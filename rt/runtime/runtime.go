// Package runtime replaces the scheduling related parts of the standard package.
package runtime

import "github.com/intel/forGoParallel/zz_verif/mc"

func NumCPU() int          { return mc.NumCPU() }
func GOMAXPROCS(n int) int { return mc.NumCPU() }
func Gosched()             { mc.Yield() }
func NumGoroutine() int    { return mc.NumThreads() }
func LockOSThread()        {}
func UnlockOSThread()      {}
func GC()                  {}
