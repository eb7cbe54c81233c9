// Code generated by cmd/genshim. DO NOT EDIT.

package flag

import std "flag"

const ContinueOnError = std.ContinueOnError

var ErrHelp = std.ErrHelp

type ErrorHandling = std.ErrorHandling

const ExitOnError = std.ExitOnError

type Flag = std.Flag
type FlagSet = std.FlagSet
type Getter = std.Getter

var NewFlagSet = std.NewFlagSet

const PanicOnError = std.PanicOnError

var UnquoteUsage = std.UnquoteUsage

type Value = std.Value
