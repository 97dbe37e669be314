//go:build !race

package mcrt

import "unsafe"

// Race says whether the race detector is on.
const Race = false

func raceDisable()               {}
func raceEnable()                {}
func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }
