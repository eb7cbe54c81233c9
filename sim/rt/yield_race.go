//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

var budget int32 = 1 << 30

// Y is called before every statement of the code under test.
//
//go:noinline
func Y() {
	budget--
	if budget < 0 {
		slow()
	}
}

const RaceBuild = true

// Synchronisation events of the simulator itself are hidden from the race
// detector in every task, so that the only happens-before edges it knows are
// those the code under test makes (task creation, join, locks, channels, atomics).
func raceTaskStart() { runtime.RaceDisable() }

var raceReady bool

func raceAcquire(p *byte) {
	if !raceReady {
		return
	}
	runtime.RaceEnable()
	runtime.RaceAcquire(unsafe.Pointer(p))
	runtime.RaceDisable()
}
func raceRelease(p *byte) {
	if !raceReady {
		return
	}
	runtime.RaceEnable()
	runtime.RaceReleaseMerge(unsafe.Pointer(p))
	runtime.RaceDisable()
}

func RaceErrors() int { return runtime.RaceErrors() }

func RaceAcq(p *byte) { raceAcquire(p) }
func RaceRel(p *byte) { raceRelease(p) }
func RaceOn()         { runtime.RaceEnable() }
func RaceOff()        { runtime.RaceDisable() }

// InitProcess is called once before the first world: the controller's own
// synchronisation is hidden as well.
func InitProcess() {
	runtime.RaceReleaseMerge(unsafe.Pointer(&globalSync)) // package initialisation
	runtime.RaceDisable()
	raceReady = true
}
