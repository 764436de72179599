package maps

import _ "unsafe"

//go:linkname simRand64
func simRand64() uint64

func simrand() uint64 { return simRand64() }

var simBootState uint64 = 0x5bd1e995

func simBootRand() uint64 {
	simBootState += 0x9e3779b97f4a7c15
	z := simBootState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
