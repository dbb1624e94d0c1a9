//go:build !sched

package main

const schedControl = false

func together(first, mask int, plan []int, f, g func()) (counts [2]int, blocked bool) {
	f()
	g()
	return
}
