//go:build !race

package h

const Race = false

func raceErrors() int { return 0 }
