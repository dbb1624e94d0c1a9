//go:build mapctl

package main

import _ "unsafe"

// The variables below are added to the runtime by tools/overlay.sh: while
// mapOn is set, the k-th map iteration starts at offset mapOff[k].

//go:linkname mapOn internal/runtime/maps.VerifOn
var mapOn bool

//go:linkname mapN internal/runtime/maps.VerifN
var mapN int

//go:linkname mapOff internal/runtime/maps.VerifOff
var mapOff [256]uint64

//go:linkname mapUsed internal/runtime/maps.VerifUsed
var mapUsed [256]uint64

//go:linkname mapAddr internal/runtime/maps.VerifMap
var mapAddr [256]uintptr

//go:linkname mapKey internal/runtime/maps.VerifKey
var mapKey uintptr

//go:linkname mapKeyOff internal/runtime/maps.VerifKeyOff
var mapKeyOff uint64

const mapControl = true
