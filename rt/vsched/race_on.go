//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the binary was built with the race detector.
const RaceEnabled = true

// The scheduler's own hand-offs must not create happens-before edges, or the
// race detector would be blind in a controlled execution.

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// Acquire establishes a happens-before edge from earlier releases of p.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release is the source of happens-before edges to later acquires of p.
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
