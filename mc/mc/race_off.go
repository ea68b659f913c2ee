//go:build !race

package mc

import "unsafe"

// RaceOn reports a race-detector build.
const RaceOn = false

func newRaces() string { return "" }

func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}
