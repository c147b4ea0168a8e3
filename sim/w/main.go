// Command w is the worker: it executes simulated runs for the driver.
package main

import "github.com/flowchartsman/aql/zzsim/h"

func main() { h.Main() }
