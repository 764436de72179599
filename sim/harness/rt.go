package zzverifsim

import (
	"debug/elf"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Access to the patched runtime (see sim/std/runtime_sim.go).

//go:linkname rtSetPanicHook runtime.simSetPanicHook
func rtSetPanicHook(f func(arg any))

//go:linkname rtSetYieldHook runtime.simSetYieldHook
func rtSetYieldHook(f func())

//go:linkname rtSetInstantHook runtime.simSetInstantHook
func rtSetInstantHook(f func(now int64))

//go:linkname rtSetWall runtime.simSetWall
func rtSetWall(d int64)

//go:linkname rtClock runtime.simClock
func rtClock() int64

// simTime is the time of the simulation, which never jumps.
func simTime() time.Time { return time.Unix(0, rtClock()) }

//go:linkname rtInitTasks runtime.simInitTasks
func rtInitTasks() []unsafe.Pointer

//go:linkname rtCurrent runtime.simCurrent
func rtCurrent() unsafe.Pointer

//go:linkname rtSetCurrent runtime.simSetCurrent
func rtSetCurrent(p unsafe.Pointer)

//go:linkname rtSeed runtime.simSeed
func rtSeed(on bool, seed uint64)

//go:linkname rtPanicText runtime.simPanicText
func rtPanicText(v any) string

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

func curProc() *Proc { return (*Proc)(rtCurrent()) }

const modPath = "github.com/danielleontiev/neojhat"

// A simulated process owns its own copy of the program's package variables.
// `image` knows where they are; a process starts from the values the linker
// laid out and runs the packages' initialisers itself.
type image struct {
	ptrAddr  []uintptr // words that may hold pointers
	ptrInit  []unsafe.Pointer
	byteAddr []byteRange
	tasks    []unsafe.Pointer
	extra    []*unsafe.Pointer
}

type byteRange struct {
	addr uintptr
	n    int
	init []byte
}

type procVars struct {
	ptr   []unsafe.Pointer
	bytes [][]byte
	args  []string
	std   [3]*os.File
}

func ownSymbol(name string) bool {
	if strings.HasSuffix(name, "..inittask") {
		return false
	}
	if strings.HasPrefix(name, modPath+"/") {
		return !strings.HasPrefix(name, modPath+"/internal/zzverifsim.")
	}
	return strings.HasPrefix(name, "main.") || strings.HasPrefix(name, "flag.") || strings.HasPrefix(name, "log.")
}

func loadImage() (*image, error) {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return nil, err
	}
	im := &image{}
	taskOf := map[uintptr]bool{}
	type rng struct {
		addr uintptr
		n    int
		ptr  bool
		init []byte
	}
	var rs []rng
	data := map[string][]byte{}
	for _, s := range syms {
		if strings.HasSuffix(s.Name, "..inittask") {
			n := strings.TrimSuffix(s.Name, "inittask")
			if ownSymbol(strings.TrimSuffix(n, ".") + "x") {
				taskOf[uintptr(s.Value)] = true
			}
			continue
		}
		if !ownSymbol(s.Name) || s.Size == 0 || int(s.Section) >= len(f.Sections) {
			continue
		}
		sec := f.Sections[s.Section]
		var ptr, bss bool
		switch sec.Name {
		case ".data":
			ptr = true
		case ".bss":
			ptr, bss = true, true
		case ".noptrdata":
		case ".noptrbss":
			bss = true
		default:
			continue
		}
		var init []byte
		if bss {
			init = make([]byte, s.Size)
		} else {
			d, ok := data[sec.Name]
			if !ok {
				if d, err = sec.Data(); err != nil {
					return nil, err
				}
				data[sec.Name] = d
			}
			off := s.Value - sec.Addr
			init = append([]byte(nil), d[off:off+s.Size]...)
		}
		if ptr && (s.Value%8 != 0 || s.Size%8 != 0) {
			return nil, fmt.Errorf("symbol %s in %s is not made of words", s.Name, sec.Name)
		}
		rs = append(rs, rng{uintptr(s.Value), int(s.Size), ptr, init})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].addr < rs[j].addr })
	for _, r := range rs {
		if !r.ptr {
			im.byteAddr = append(im.byteAddr, byteRange{r.addr, r.n, r.init})
			continue
		}
		for i := 0; i < r.n; i += 8 {
			im.ptrAddr = append(im.ptrAddr, r.addr+uintptr(i))
			im.ptrInit = append(im.ptrInit, *(*unsafe.Pointer)(unsafe.Pointer(&r.init[i])))
		}
	}
	for _, t := range rtInitTasks() {
		if taskOf[uintptr(t)] {
			im.tasks = append(im.tasks, t)
		}
	}
	if len(im.ptrAddr) == 0 || len(im.tasks) == 0 {
		return nil, fmt.Errorf("no package variables found in the binary")
	}
	return im, nil
}

func word(addr uintptr) *unsafe.Pointer {
	return *(**unsafe.Pointer)(unsafe.Pointer(&addr))
}

func bytesAt(addr uintptr, n int) []byte {
	return unsafe.Slice(*(**byte)(unsafe.Pointer(&addr)), n)
}

// reset puts the variables into their link-time state.
func (im *image) reset() {
	for i, a := range im.ptrAddr {
		*word(a) = im.ptrInit[i]
	}
	for _, r := range im.byteAddr {
		copy(bytesAt(r.addr, r.n), r.init)
	}
}

// initPackages runs the initialisers of the program's packages; called on a
// goroutine of the simulated process.
func (im *image) initPackages() {
	for _, t := range im.tasks {
		n := *(*uint32)(unsafe.Add(t, 4))
		first := unsafe.Add(t, 8)
		for i := uint32(0); i < n; i++ {
			p := unsafe.Add(first, uintptr(i)*8)
			f := *(*func())(unsafe.Pointer(&p))
			f()
		}
	}
}

func (im *image) save(v *procVars) {
	if v.ptr == nil {
		v.ptr = make([]unsafe.Pointer, len(im.ptrAddr))
		v.bytes = make([][]byte, len(im.byteAddr))
		for i, r := range im.byteAddr {
			v.bytes[i] = make([]byte, r.n)
		}
	}
	for i, a := range im.ptrAddr {
		v.ptr[i] = *word(a)
	}
	for i, r := range im.byteAddr {
		copy(v.bytes[i], bytesAt(r.addr, r.n))
	}
	v.args = os.Args
	v.std = [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
}

func (im *image) load(v *procVars) {
	if v.ptr == nil {
		return
	}
	for i, a := range im.ptrAddr {
		*word(a) = v.ptr[i]
	}
	for i, r := range im.byteAddr {
		copy(bytesAt(r.addr, r.n), v.bytes[i])
	}
	os.Args = v.args
	os.Stdin, os.Stdout, os.Stderr = v.std[0], v.std[1], v.std[2]
}

// rng: splitmix64
type Rng struct{ s uint64 }

func newRng(parts ...uint64) *Rng {
	r := &Rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p
		r.s = r.u64()
	}
	return r
}

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a value in [0,n).
func (r *Rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rng) in(lo, hi int) int        { return lo + r.n(hi-lo+1) }
func (r *Rng) chance(permille int) bool { return r.n(1000) < permille }
func pick[T any](r *Rng, v ...T) T      { return v[r.n(len(v))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
