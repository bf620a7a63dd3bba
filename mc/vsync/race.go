//go:build race && go1.21

package vsync

import (
	"runtime"
	"unsafe"
)

// Race tells that the race detector watches.
const Race = true

// Races counts the races found so far.
func Races() int { return runtime.RaceErrors() }

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
