//go:build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func RaceErrors() int              { return 0 }
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
