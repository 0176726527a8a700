//go:build race

package simrt

import "runtime"

// RaceBuild tells whether the race detector is on
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far
func RaceErrors() int { return runtime.RaceErrors() }
