//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild: the library is instrumented by the race detector; the simulator's own hand-overs
// are hidden from it, so that it sees only the synchronisation the library itself performs.
const RaceBuild = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceReports() int             { return runtime.RaceErrors() }
