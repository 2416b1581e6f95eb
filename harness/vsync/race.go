//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the race detector is on.
const RaceEnabled = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Races returns the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
