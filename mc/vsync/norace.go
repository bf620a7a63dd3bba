//go:build !race && go1.21

package vsync

import "unsafe"

// Race tells that the race detector watches.
const Race = false

// Races counts the races found so far.
func Races() int { return 0 }

func raceOff()                 {}
func raceOn()                  {}
func acquire(p unsafe.Pointer) {}
func release(p unsafe.Pointer) {}
