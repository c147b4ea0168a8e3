// Package simlog has the functions of log that end the process, and loggers
// that keep the turn while they write: they hold a lock of their own.
package simlog

import (
	"io"
	"log"
	"log/slog"

	"vsim/simos"
	"vsim/simrt"
)

type writer struct{ w io.Writer }

func (q writer) Write(p []byte) (n int, err error) {
	simrt.Still(func() { n, err = q.w.Write(p) })
	return n, err
}

func New(w io.Writer, prefix string, flag int) *log.Logger {
	return log.New(writer{w}, prefix, flag)
}
func SetOutput(w io.Writer) { log.SetOutput(writer{w}) }

func NewTextHandler(w io.Writer, opts *slog.HandlerOptions) *slog.TextHandler {
	return slog.NewTextHandler(writer{w}, opts)
}
func NewJSONHandler(w io.Writer, opts *slog.HandlerOptions) *slog.JSONHandler {
	return slog.NewJSONHandler(writer{w}, opts)
}

func Fatal(v ...any)            { log.Print(v...); simos.Exit(1) }
func Fatalf(f string, v ...any) { log.Printf(f, v...); simos.Exit(1) }
func Fatalln(v ...any)          { log.Println(v...); simos.Exit(1) }

// SimLogger stands for a log.Logger.
type SimLogger struct{ l *log.Logger }

func Logger(l *log.Logger) SimLogger { return SimLogger{l} }

func (s SimLogger) Fatal(v ...any)            { s.l.Print(v...); simos.Exit(1) }
func (s SimLogger) Fatalf(f string, v ...any) { s.l.Printf(f, v...); simos.Exit(1) }
func (s SimLogger) Fatalln(v ...any)          { s.l.Println(v...); simos.Exit(1) }
func (s SimLogger) SetOutput(w io.Writer)     { s.l.SetOutput(writer{w}) }
