//go:build !race

package vsched

import "unsafe"

func raceDisable()                 {}
func raceEnable()                  {}
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}

const RaceBuild = false
