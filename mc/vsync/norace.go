//go:build !race

package vsync

import "unsafe"

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// Races is the number of races reported so far.
func Races() int { return 0 }
