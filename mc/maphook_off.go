//go:build !mapctl

package main

var (
	mapOn   bool
	mapN    int
	mapOff  [256]uint64
	mapUsed [256]uint64
	mapAddr [256]uintptr

	mapKey    uintptr
	mapKeyOff uint64
)

const mapControl = false
