//go:build !race

package simrt

// RaceBuild tells whether the race detector is on
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of data races reported so far
func RaceErrors() int { return 0 }
