//go:build race

package simrt

import "runtime"

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = true

//go:norace
func hideSync() { runtime.RaceDisable() }

//go:norace
func showSync() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
