//go:build !race

package vrt

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = false

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
