//go:build !race

package simrt

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = false

func hideSync() {}
func showSync() {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
