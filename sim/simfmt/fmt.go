// Package simfmt has the functions of fmt that write to standard output.
package simfmt

import (
	"fmt"

	"vsim/simos"
	"vsim/simrt"
)

func emit(s string) (int, error) {
	simrt.YS()
	return simos.Emit([]byte(s))
}

func Print(a ...any) (int, error)            { return emit(fmt.Sprint(a...)) }
func Printf(f string, a ...any) (int, error) { return emit(fmt.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return emit(fmt.Sprintln(a...)) }
