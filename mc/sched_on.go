//go:build sched

package main

import (
	"runtime"

	"github.com/akm/tparser/verifhook"
)

const schedControl = true

// The scheduler hands the turn from thread to thread with plain memory
// accesses in functions the race detector does not instrument, so that it adds
// no synchronisation between the threads: a pair of conflicting accesses that
// the code itself does not order is reported whatever the schedule.
var (
	schActive bool
	schTurn   int
	schDone   [2]bool
	schMask   int   // which kinds of points count
	schSteps  int   // points passed so far
	schPlan   []int // steps at which the turn changes
	schNext   int
	schFree   bool // a thread blocked: the rest runs freely
	schCount  [2]int
)

//go:norace
func schHook(kind int) {
	if !schActive || schMask>>uint(kind)&1 == 0 {
		return
	}
	me := schTurn
	schSteps++
	schCount[me]++
	if schNext < len(schPlan) && schPlan[schNext] == schSteps {
		schNext++
		if !schDone[1-me] {
			schTurn = 1 - me
			schWait(me)
		}
	}
}

//go:norace
func schWait(me int) {
	last, spins := -1, 0
	for schActive && schTurn != me {
		runtime.Gosched()
		if schSteps == last {
			if spins++; spins > 3000000 { // the other thread is blocked
				schActive, schFree = false, true
			}
		} else {
			last, spins = schSteps, 0
		}
	}
}

//go:norace
func schEnd(me int) {
	schDone[me] = true
	if schActive {
		schTurn = 1 - me
	}
}

//go:norace
func schStart(first, mask int, plan []int) {
	schTurn, schMask, schSteps, schPlan, schNext, schFree = first, mask, 0, plan, 0, false
	schDone, schCount = [2]bool{}, [2]int{}
	schActive = true
	verifhook.Hook = schHook
}

//go:norace
func schStop() ([2]int, bool) {
	schActive = false
	return schCount, schFree
}

// together runs f and g in two threads under a schedule: the first thread
// begins, and the turn changes after each of the steps of the plan.
func together(first, mask int, plan []int, f, g func()) (counts [2]int, blocked bool) {
	schStart(first, mask, plan)
	done := make(chan struct{}, 2)
	for i, h := range []func(){f, g} {
		i, h := i, h
		go func() {
			schWait(i)
			defer func() { schEnd(i); done <- struct{}{} }()
			h()
		}()
	}
	<-done
	<-done
	return schStop()
}
