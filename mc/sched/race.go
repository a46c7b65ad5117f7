//go:build race

package sched

import "runtime"

// Detecting says whether the race detector is built in.
const Detecting = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// Errors counts the races found so far.
func Errors() int { return runtime.RaceErrors() }
