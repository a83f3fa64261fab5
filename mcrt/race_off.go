//go:build !race

package mcrt

import "unsafe"

const raceOn = false

func raceOff()                          {}
func raceBack()                         {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of reports so far.
func RaceErrors() int { return 0 }
