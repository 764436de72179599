package runtime

import "unsafe"

// Simulation support (added by the verification overlay, never shipped).

var simPanicHook func(arg any)

//go:linkname simSetPanicHook
func simSetPanicHook(f func(arg any)) { simPanicHook = f }

//go:linkname simCurrent
//go:nosplit
func simCurrent() unsafe.Pointer { return getg().simproc }

//go:linkname simSetCurrent
func simSetCurrent(p unsafe.Pointer) { getg().simproc = p }

// simWall is the difference between the wall clock simulated processes see and
// the clock of the simulation.
var simWall int64

//go:linkname simSetWall
func simSetWall(d int64) { simWall = d }

//go:linkname simClock
func simClock() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return nanotime()
}

var simInstantHook func(now int64)

//go:linkname simSetInstantHook
func simSetInstantHook(f func(now int64)) { simInstantHook = f }

var simYieldHook func()

//go:linkname simSetYieldHook
func simSetYieldHook(f func()) { simYieldHook = f }

// simYield is where a goroutine of a simulated process may lose the processor.
func simYield() {
	if simYieldHook != nil && getg().simproc != nil {
		simYieldHook()
	}
}

//go:linkname simInitTasks
func simInitTasks() []unsafe.Pointer {
	var r []unsafe.Pointer
	for m := &firstmoduledata; m != nil; m = m.next {
		for _, t := range m.inittasks {
			r = append(r, unsafe.Pointer(t))
		}
	}
	return r
}

// simOn and simState make every choice of the runtime that is normally random
// a function of a seed set by the harness.
var simOn bool
var simState uint64

//go:linkname simSeed
func simSeed(on bool, seed uint64) { simOn, simState = on, seed }

//go:nosplit
func simNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRandn(n uint32) uint32 {
	if !simOn {
		return cheaprandn(n)
	}
	return uint32((uint64(uint32(simNext())) * uint64(n)) >> 32)
}

//go:linkname simRand64 internal/runtime/maps.simRand64
//go:nosplit
func simRand64() uint64 {
	if !simOn {
		return rand()
	}
	return simNext()
}

// simFatal lets the harness learn the text of a panic value.
//
//go:linkname simPanicText
func simPanicText(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case error:
		return v.Error()
	case stringer:
		return v.String()
	case string:
		return v
	}
	return "non-string panic value"
}
