//go:build !race

package sched

const Detecting = false

func raceOff() {}
func raceOn()  {}

func Errors() int { return 0 }
