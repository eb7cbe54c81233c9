// Code generated by cmd/genshim. DO NOT EDIT.

package ioutil

import std "io/ioutil"

var Discard = std.Discard
var NopCloser = std.NopCloser
var ReadAll = std.ReadAll
