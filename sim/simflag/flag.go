// Package simflag parses the simulated command line.
package simflag

import (
	"flag"

	"vsim/simos"
)

func Parse() {
	var a []string
	if len(simos.Args) > 1 {
		a = simos.Args[1:]
	}
	flag.CommandLine.Parse(a)
}

// Reset prepares the flags for another run of a program: those defined when
// its packages were initialised get their defaults back.
func Reset() {
	n := 0
	flag.CommandLine.VisitAll(func(f *flag.Flag) {
		n++
		f.Value.Set(f.DefValue)
	})
	if first {
		atInit, first = n, false
	}
	if atInit == 0 {
		flag.CommandLine = flag.NewFlagSet("program", flag.PanicOnError)
	}
	flag.CommandLine.Init("program", flag.PanicOnError)
}

var (
	first  = true
	atInit int
)
