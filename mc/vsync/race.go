//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Races is the number of races reported so far.
func Races() int { return runtime.RaceErrors() }
