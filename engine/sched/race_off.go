//go:build !race

package sched

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func raceAcquire(p *byte)      {}
func raceRelease(p *byte)      {}
func raceReleaseMerge(p *byte) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
