// Code generated by cmd/genshim. DO NOT EDIT.

package atomic

import std "sync/atomic"

var AddUintptr = std.AddUintptr
var AndInt32 = std.AndInt32
var AndInt64 = std.AndInt64
var AndUint32 = std.AndUint32
var AndUint64 = std.AndUint64
var AndUintptr = std.AndUintptr
var CompareAndSwapUintptr = std.CompareAndSwapUintptr
var LoadUintptr = std.LoadUintptr
var OrInt32 = std.OrInt32
var OrInt64 = std.OrInt64
var OrUint32 = std.OrUint32
var OrUint64 = std.OrUint64
var OrUintptr = std.OrUintptr
var StoreUintptr = std.StoreUintptr
var SwapPointer = std.SwapPointer
var SwapUint32 = std.SwapUint32
var SwapUint64 = std.SwapUint64
var SwapUintptr = std.SwapUintptr
