//go:build !race

package vsync

import "unsafe"

// RaceEnabled tells whether the race detector is on.
const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}

// Races returns the number of data races reported so far.
func Races() int { return 0 }
