//go:build !race

package vs

import "unsafe"

const RaceEnabled = false

func raceOff()                      {}
func raceOn()                       {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return 0 }
