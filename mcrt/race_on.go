//go:build race

package mcrt

import (
	"runtime"
	"unsafe"
)

const raceOn = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceBack() { runtime.RaceEnable() }

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of reports so far.
func RaceErrors() int { return runtime.RaceErrors() }
