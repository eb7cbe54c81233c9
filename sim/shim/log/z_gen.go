// Code generated by cmd/genshim. DO NOT EDIT.

package log

import std "log"

const LUTC = std.LUTC
const Ldate = std.Ldate
const Llongfile = std.Llongfile
const Lmicroseconds = std.Lmicroseconds
const Lmsgprefix = std.Lmsgprefix

type Logger = std.Logger

const Lshortfile = std.Lshortfile
const LstdFlags = std.LstdFlags
const Ltime = std.Ltime

var New = std.New
