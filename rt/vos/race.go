package vos

import (
	"unsafe"

	"github.com/yields/ant/zverif/vsched"
)

// hb orders the operations for the race detector: the state of the model file
// system is shared by all goroutines, whose operations it runs one at a time.
// It does nothing outside of the race build.
var hb byte

func in() func() { acquire(); return release }

func acquire() { vsched.Acquire(unsafe.Pointer(&hb)) }

func release() { vsched.Release(unsafe.Pointer(&hb)) }
