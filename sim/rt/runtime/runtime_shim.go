// Package runtime replaces the standard package for instrumented code.
package runtime

import "simrt/simrt"

func Gosched()          { simrt.Gosched() }
func NumGoroutine() int { return simrt.S.LibLive + 1 }
func GC()               {}
func GOMAXPROCS(int) int { return 8 }
