//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceAcquire and RaceRelease are the happens-before edges of modelled locks.
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
