// Package flag stands in for the standard package in instrumented code.
package flag

import (
	std "flag"
	"io"
	"time"

	"verif.local/sim/shim/os"
)

// CommandLine is replaced by Reset before every program run.
var CommandLine = std.NewFlagSet("prog", std.ContinueOnError)

// Usage as in the standard package.
var Usage = func() { PrintDefaults() }

// Reset prepares another program run.
func Reset() {
	CommandLine = std.NewFlagSet(os.Args[0], std.ContinueOnError)
	CommandLine.SetOutput(io.Discard)
	Usage = func() { PrintDefaults() }
}

func Parse() {
	CommandLine.Usage = func() { Usage() }
	if err := CommandLine.Parse(os.Args[1:]); err != nil {
		os.Exit(2)
	}
}
func Parsed() bool                                      { return CommandLine.Parsed() }
func Args() []string                                    { return CommandLine.Args() }
func Arg(i int) string                                  { return CommandLine.Arg(i) }
func NArg() int                                         { return CommandLine.NArg() }
func NFlag() int                                        { return CommandLine.NFlag() }
func PrintDefaults()                                    { CommandLine.PrintDefaults() }
func Set(n, v string) error                             { return CommandLine.Set(n, v) }
func Lookup(n string) *std.Flag                         { return CommandLine.Lookup(n) }
func Visit(f func(*std.Flag))                           { CommandLine.Visit(f) }
func VisitAll(f func(*std.Flag))                        { CommandLine.VisitAll(f) }
func Var(v std.Value, n, u string)                      { CommandLine.Var(v, n, u) }
func Bool(n string, v bool, u string) *bool             { return CommandLine.Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)       { CommandLine.BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int                { return CommandLine.Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)          { CommandLine.IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64          { return CommandLine.Int64(n, v, u) }
func Uint(n string, v uint, u string) *uint             { return CommandLine.Uint(n, v, u) }
func Float64(n string, v float64, u string) *float64    { return CommandLine.Float64(n, v, u) }
func String(n string, v string, u string) *string       { return CommandLine.String(n, v, u) }
func StringVar(p *string, n string, v string, u string) { CommandLine.StringVar(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func Func(n, u string, f func(string) error)               { CommandLine.Func(n, u, f) }
func BoolFunc(n, u string, f func(string) error)           { CommandLine.BoolFunc(n, u, f) }
func TextVar()                                             {}
func Int64Var(p *int64, n string, v int64, u string)       { CommandLine.Int64Var(p, n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { CommandLine.UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64          { return CommandLine.Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { CommandLine.Uint64Var(p, n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { CommandLine.Float64Var(p, n, v, u) }
func DurationVar(p *time.Duration, n string, v time.Duration, u string) {
	CommandLine.DurationVar(p, n, v, u)
}
