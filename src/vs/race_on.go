//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
