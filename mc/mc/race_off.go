//go:build !race

package mc

// Race tells whether this is a race-detector build.
const Race = false

func raceDisable() {}
func raceEnable()  {}

func raceRelease(*byte) {}
func raceAcquire(*byte) {}

// RaceErrors is the number of reports so far.
func RaceErrors() int { return 0 }
