// Package fmt stands in for the standard package in instrumented code.
package fmt

import (
	std "fmt"

	"verif.local/sim/shim/os"
)

func Print(a ...interface{}) (int, error)            { return std.Fprint(os.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return std.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return std.Fprintf(os.Stdout, f, a...) }
func Scan(a ...interface{}) (int, error)             { return std.Fscan(os.Stdin, a...) }
func Scanln(a ...interface{}) (int, error)           { return std.Fscanln(os.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return std.Fscanf(os.Stdin, f, a...) }
