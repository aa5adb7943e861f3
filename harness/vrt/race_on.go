//go:build race

package vrt

import "runtime"

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = true

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
