//go:build !race

package vsched

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
