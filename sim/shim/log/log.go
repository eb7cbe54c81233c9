// Package log stands in for the standard package in instrumented code.
package log

import (
	"fmt"
	"io"
	std "log"

	"verif.local/sim/rt"
	"verif.local/sim/shim/os"
)

func emit(s string) {
	if rt.W != nil && !rt.Dying() {
		rt.W.Count("log.lines")
	}
	_ = s
}

func Print(a ...interface{})            { emit(fmt.Sprint(a...)) }
func Println(a ...interface{})          { emit(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) { emit(fmt.Sprintf(f, a...)) }
func Output(d int, s string) error      { emit(s); return nil }
func Fatal(a ...interface{})            { emit(fmt.Sprint(a...)); os.Exit(1) }
func Fatalln(a ...interface{})          { emit(fmt.Sprintln(a...)); os.Exit(1) }
func Fatalf(f string, a ...interface{}) { emit(fmt.Sprintf(f, a...)); os.Exit(1) }
func Panic(a ...interface{})            { s := fmt.Sprint(a...); emit(s); panic(s) }
func Panicln(a ...interface{})          { s := fmt.Sprintln(a...); emit(s); panic(s) }
func Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); emit(s); panic(s) }
func SetOutput(w io.Writer)             {}
func SetFlags(f int)                    {}
func SetPrefix(s string)                {}
func Flags() int                        { return 0 }
func Prefix() string                    { return "" }
func Writer() io.Writer                 { return io.Discard }
func Default() *std.Logger              { return std.New(io.Discard, "", 0) }
