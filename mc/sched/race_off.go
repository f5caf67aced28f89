//go:build !race

package sched

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceDisable()                    {}
func raceEnable()                     {}
func raceAcquire(unsafe.Pointer)      {}
func raceRelease(unsafe.Pointer)      {}
func raceReleaseMerge(unsafe.Pointer) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
