//go:build !race

package vsched

import "unsafe"

// RaceEnabled reports whether the binary was built with the race detector.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }

// Acquire establishes a happens-before edge from earlier releases of p.
func Acquire(p unsafe.Pointer) {}

// Release is the source of happens-before edges to later acquires of p.
func Release(p unsafe.Pointer) {}
