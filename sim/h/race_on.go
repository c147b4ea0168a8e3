//go:build race

package h

import "runtime"

const Race = true

func raceErrors() int { return runtime.RaceErrors() }
