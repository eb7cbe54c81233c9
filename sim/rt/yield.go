//go:build !race

package rt

var budget int32 = 1 << 30

// Y is called before every statement of the code under test.
func Y() {
	budget--
	if budget < 0 {
		slow()
	}
}

const RaceBuild = false

func raceTaskStart()      {}
func raceAcquire(p *byte) {}
func raceRelease(p *byte) {}

// RaceErrors counts reported data races.
func RaceErrors() int { return 0 }

func RaceOn()         {}
func RaceOff()        {}
func RaceAcq(p *byte) {}
func RaceRel(p *byte) {}

// InitProcess is called once before the first world.
func InitProcess() {}
