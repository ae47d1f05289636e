//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

// Race tells whether this is a race-detector build.
const Race = true

// hand-offs of the scheduler must not order the accesses of the program
func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// RaceErrors is the number of reports so far.
func RaceErrors() int { return runtime.RaceErrors() }
