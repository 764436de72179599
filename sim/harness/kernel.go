package zzverifsim

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Op is the kind of a system call.
type Op uint8

const (
	oOpen Op = iota
	oCreate
	oClose
	oRead
	oPread
	oWrite
	oPwrite
	oSeek
	oFstat
	oStat
	oTruncate
	oFsync
	oGetdents
	oMkdir
	oRename
	oUnlink
	oRmdir
	oLink
	oChmod
	oUtimes
	oMisc
	nOps
)

var opNames = [nOps]string{"open", "create", "close", "read", "pread", "write", "pwrite", "lseek", "fstat", "stat", "truncate", "fsync", "getdents", "mkdir", "rename", "unlink", "rmdir", "link", "chmod", "utimes", "misc"}

// target classes of a call
const (
	tDump   = 'd' // the dump file
	tIndex  = 'i' // anything named <dump>.db*
	tStdout = 'o'
	tStderr = 'e'
	tOther  = 'x'
)

type OpRec struct {
	Op  Op
	T   byte
	Len int
}

// Fault makes something happen at one call of a process.
type Fault struct {
	At   int    `json:"at"`             // number of the call of this process (1-based)
	N    int    `json:"n,omitempty"`    // how many calls it lasts for: 0 = one, -1 = for ever
	On   string `json:"on,omitempty"`   // which calls count while it lasts: target classes, e.g. "i" or "di"
	Only string `json:"only,omitempty"` // operations it applies to: "" any, "r" read side, "w" write side
	Kind string `json:"kind"`           // errno name, or kill / short / grow / cut
	Arg  int    `json:"arg,omitempty"`
	// instead of At: the write that brings what was written to the index to
	// more than that many bytes
	After int64 `json:"after,omitempty"`
}

type LatSpec struct {
	Base  int64 `json:"base,omitempty"`  // typical latency of a call, in units of 8 ns
	Tail  int64 `json:"tail,omitempty"`  // rare long latency
	PTail int   `json:"ptail,omitempty"` // permille of calls with the long latency
	Term  int64 `json:"term,omitempty"`  // latency of terminal writes
	PPre  int   `json:"ppre,omitempty"`  // permille of channel operations and writes before which a thread loses the processor
	Pre   int64 `json:"pre,omitempty"`   // for how long, at most
}

type Benign struct {
	Short int `json:"short,omitempty"` // permille of reads and writes cut short
	Eintr int `json:"eintr,omitempty"` // permille of calls interrupted
}

const timeUnit = 8 // ns; the remainder modulo it tells processes apart

type ofd struct {
	n        *inode
	flags    int
	pos      int64
	sink     int // 1, 2: standard streams
	dents    []string
	path     string
	wErr     syscall.Errno // delayed write error
	closed   bool
	tclass   byte
	wroteAny bool
}

type ioEvent struct {
	seq  int
	fd   int
	data string
	dump int64 // how far the dump was read then
}

// Proc is one simulated operating-system process.
type Proc struct {
	k         *Kernel
	id        int
	args      []string
	res       int64 // residue of all its instants
	fds       map[int]*ofd
	stdin     int
	out, err  []byte
	ev        []ioEvent
	dead      bool
	exit      int    // exit status; -1 killed, -2 signal
	how       string // exit, panic, kill, sigpipe
	panicText string
	done      chan struct{}
	started   bool
	startT    time.Time
	endT      time.Time
	ops       int
	maxOps    int
	latSum    time.Duration
	rng       *Rng
	faults    []Fault
	active    []int // remaining calls of lasting faults (-1: for ever)
	lat       LatSpec
	benign    Benign
	trace     []OpRec
	keepTrace bool
	v         procVars
	hung      string

	// what was injected
	hardRead, hardWrite, hardOut, hardErr bool // errors delivered, by side
	otherHard                             bool
	outDead                               bool // an error or a lost byte on stdout
	fired                                 []string
	created                               map[string]bool
	sinkKind                              int
	indexed                               int64 // bytes it has tried to write to the index
	dumpPos                               int64 // how far the dump was read
	cleanupFaulted                        bool
	dumpChanged                           bool // the harness changed the dump while it ran
	peakHeap                              uint64
	heapAt                                int64
	peakOver                              int64 // of the heap, without the disk and what was there before
	allocBase                             uint64
	alloc                                 uint64
	rss                                   bool
	bytesRead                             int64
	eff                                   effort
}

type Kernel struct {
	fs         *FS
	im         *image
	cwd        *inode
	procs      []*Proc
	cur        *Proc // whose package variables are in place
	nextFD     int
	seq        int
	hash       uint64
	schedH     uint64
	rng        *Rng
	base       time.Time
	skew       time.Duration
	capLeft    int64 // bytes left on the disk, -1: unlimited
	bad        [][3]int64
	stats      map[string]int
	viol       []string // invariant violations seen while running
	logf       func(string)
	dumpPath   string // as given to the commands, resolved against cwd
	dumpDirs   []*inode
	dumpName   string
	heapBase   int64                   // live heap before the first process, if it is of interest
	onSwap     func(p *Proc, dump int) // another dump is put in place
	growTo     *sparse
	cutTo      *sparse
	concurrent bool
	lastPid    int
	contained  bool
	readonly   bool
	forgetful  bool // pages whose writing failed are gone at once, not with the process
	unmodelled map[string]int
	hashOut    bool
}

func newKernel(im *image, durable bool, seed uint64) *Kernel {
	k := &Kernel{im: im, rng: newRng(seed, 0x6b), capLeft: -1, stats: map[string]int{}, hash: 14695981039346656037, unmodelled: map[string]int{}}
	k.contained = newRng(seed, 0x9d).n(2) == 0
	k.forgetful = newRng(seed, 0x9e).n(2) == 0
	k.base = simTime()
	k.jump(0)
	k.fs = newFS(durable, func() int64 { return k.clock().UnixNano() })
	k.cwd = k.fs.mkdirAll("/w")
	k.fs.mkdirAll("/tmp")
	return k
}

// clock is the simulated wall clock of the machine.
func (k *Kernel) clock() time.Time {
	return time.Unix(1700000000, 0).Add(simTime().Sub(k.base)).Add(k.skew)
}

// jump sets the wall clock.
func (k *Kernel) jump(d time.Duration) {
	k.skew += d
	rtSetWall(k.clock().UnixNano() - rtClock())
}

func (k *Kernel) violation(format string, a ...any) {
	if len(k.viol) < 20 {
		k.viol = append(k.viol, fmt.Sprintf(format, a...))
	}
}

func (k *Kernel) mix(v uint64) {
	k.hash = (k.hash ^ v) * 1099511628211
	k.hash ^= k.hash >> 29
}

// classOf tells what a path or file is to the program.
func (k *Kernel) classOf(n *inode, name string) byte {
	if n != nil && n.isDump {
		return tDump
	}
	return tOther
}

func (k *Kernel) pathClass(dir *inode, name string, n *inode) byte {
	if n != nil && n.isDump {
		return tDump
	}
	if k.inIndex(dir, name) {
		return tIndex
	}
	if dir != nil && n == nil && name == k.dumpName {
		return tDump
	}
	return tOther
}

// inIndex tells whether dir/name lies inside an entry named <dump>.db* next
// to the dump.
func (k *Kernel) inIndex(dir *inode, name string) bool {
	for i := 0; dir != nil && i < 50; i++ {
		for _, d := range k.dumpDirs {
			if dir == d {
				return strings.HasPrefix(name, k.dumpName+".db")
			}
		}
		if dir.parent == dir {
			return false
		}
		p := dir.parent
		name = ""
		for nm, c := range p.ents {
			if c == dir {
				name = nm
				break
			}
		}
		dir = p
	}
	return false
}

func (k *Kernel) mutates(p *Proc, what string, dir *inode, name string, n *inode) {
	if n != nil && n.isDump {
		k.violation("containment: process %d (%s) did %s on the dump file itself", p.id, strings.Join(p.args, " "), what)
		return
	}
	if !k.inIndex(dir, name) {
		k.violation("containment: process %d (%s) did %s on %q, outside the index of the dump", p.id, strings.Join(p.args, " "), what, name)
	}
}

// die ends the process of the calling goroutine.
func (p *Proc) die(exit int, how string) {
	if !p.dead {
		p.dead = true
		p.exit, p.how = exit, how
		p.endT = simTime()
		p.alloc = heapAllocs() - p.allocBase
		if p.k.concurrent {
			p.k.im.save(&p.v)
		}
		for _, f := range p.fds {
			if f.n != nil {
				delete(f.n.locks, f)
			}
		}
		p.k.event(p, fmt.Sprintf("exit %d (%s)", exit, how))
		close(p.done)
	}
	runtime.Goexit()
}

func (k *Kernel) event(p *Proc, s string) {
	k.seq++
	if k.logf != nil {
		k.logf(fmt.Sprintf("%6d %12dns p%d %s", k.seq, simTime().Sub(k.base).Nanoseconds(), p.id, s))
	}
	k.mix(hashStr(s) + uint64(p.id))
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

var liveSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func heapLive() uint64 {
	metrics.Read(liveSample)
	return liveSample[0].Value.Uint64()
}

// verdict of the fault table for a call
type inj struct {
	err   syscall.Errno
	short int // permille of the data to transfer before stopping, -1: all
	killA bool
	killB bool
	killM int // kill in the middle after this permille of the data, -1 none
	cut   bool
}

func readSide(op Op) bool {
	switch op {
	case oOpen, oRead, oPread, oSeek, oFstat, oStat, oGetdents:
		return true
	}
	return false
}

var errnoByName = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EACCES": syscall.EACCES, "EPERM": syscall.EPERM, "EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "ENOMEM": syscall.ENOMEM, "ESTALE": syscall.ESTALE, "ENOENT": syscall.ENOENT, "EBADF": syscall.EBADF, "EPIPE": syscall.EPIPE, "EINVAL": syscall.EINVAL, "EAGAIN": syscall.EAGAIN, "EFBIG": syscall.EFBIG, "ETIMEDOUT": syscall.ETIMEDOUT, "ENAMETOOLONG": syscall.ENAMETOOLONG}

// enter is the common start of every system call: it ends dead processes,
// passes simulated time, counts the call and consults the fault table.
func (k *Kernel) enter(op Op, t byte, n int) (*Proc, inj) {
	p := curProc()
	r := inj{short: -1, killM: -1}
	if p.dead {
		runtime.Goexit()
	}
	p.ops++
	if p.ops > p.maxOps {
		if p.hung == "" {
			p.hung = fmt.Sprintf("no end after %d system calls", p.ops-1)
		}
		p.die(-1, "hang")
	}
	// latency: who goes next is decided here
	lat := int64(0)
	if p.lat.Base > 0 || k.concurrent {
		lat = 1 + int64(p.rng.n(int(p.lat.Base)+1))
	}
	if p.lat.PTail > 0 && p.rng.chance(p.lat.PTail) {
		lat += int64(p.rng.n(int(p.lat.Tail) + 1))
	}
	if (t == tStdout || t == tStderr) && p.lat.Term > 0 && op == oWrite {
		lat += int64(p.rng.n(int(p.lat.Term) + 1))
	}
	if lat > 0 {
		d := time.Duration(lat * timeUnit)
		p.latSum += d
		time.Sleep(d)
		if p.dead {
			runtime.Goexit()
		}
	}
	at := p.ops
	if p.keepTrace {
		p.trace = append(p.trace, OpRec{op, t, n})
	}
	if p.rss {
		if h := heapLive(); h > p.peakHeap {
			p.peakHeap = h
		}
		// what was allocated during a collection counts as live until the next:
		// taken after one, now and then
		if k.heapBase != 0 && p.dumpPos>>23 != p.heapAt {
			p.heapAt = p.dumpPos >> 23
			runtime.GC()
			p.peakOver = max(p.peakOver, int64(heapLive())-k.fs.bytes(k.fs.root)-k.heapBase)
		}
	}
	if op == oWrite && t == tIndex {
		for i := range p.faults {
			if f := &p.faults[i]; f.At == 0 && f.After > 0 && p.indexed+int64(n) > f.After {
				f.At = at
			}
		}
		p.indexed += int64(n)
	}
	for i := range p.faults {
		f := &p.faults[i]
		if f.At == 0 {
			continue
		}
		hit := f.At == at
		if !hit && p.active[i] != 0 && at > f.At {
			if (f.On == "" || strings.IndexByte(f.On, t) >= 0) &&
				(f.Only == "" || f.Only == "r" && readSide(op) || f.Only == "w" && !readSide(op) && op != oClose || f.Only == "c" && op == oClose) {
				hit = true
				if p.active[i] > 0 {
					p.active[i]--
				}
			}
		} else if hit {
			p.active[i] = f.N
		}
		if !hit {
			continue
		}
		k.stats[f.Kind+"@"+opNames[op]+":"+string(t)]++
		if len(p.fired) < 50 {
			p.fired = append(p.fired, fmt.Sprintf("%s at call %d (%s:%c)", f.Kind, at, opNames[op], t))
		}
		switch f.Kind {
		case "kill":
			switch {
			case f.Arg < 0:
				r.killB = true
			case f.Arg >= 1000:
				r.killA = true
			default:
				if op == oWrite || op == oPwrite {
					r.killM = f.Arg
				} else {
					r.killB = true
				}
			}
		case "short":
			r.short = f.Arg
		case "stall":
			d := time.Duration(f.Arg) * time.Millisecond
			p.latSum += d
			time.Sleep(d)
			if p.dead {
				runtime.Goexit()
			}
		case "grow":
			if k.growTo != nil {
				k.swapDump(k.growTo)
			}
		case "jump":
			k.jump(time.Duration(f.Arg) * time.Second)
		case "swap":
			if k.onSwap != nil {
				k.onSwap(p, f.Arg)
			}
		case "cut":
			if k.cutTo != nil {
				k.swapDump(k.cutTo)
			}
		default:
			e, ok := errnoByName[f.Kind]
			if !ok {
				panic("unknown fault kind " + f.Kind)
			}
			r.err = e
			r.short = -1
			if (op == oWrite || op == oPwrite || op == oRead || op == oPread) && f.Arg > 0 {
				r.short = f.Arg // some data first
			}
		}
	}
	if k.readonly && r.err == 0 && t != tStdout && t != tStderr {
		switch op {
		case oCreate, oWrite, oPwrite, oTruncate, oMkdir, oRename, oUnlink, oRmdir, oLink, oChmod, oUtimes:
			r.err = syscall.EROFS
			k.stats["EROFS@"+opNames[op]]++
			return p, r // no excuse
		}
	}
	if r.killB {
		k.event(p, fmt.Sprintf("KILLED before %s", opNames[op]))
		p.die(-1, "kill")
	}
	if r.err != 0 {
		p.noteErr(op, t)
	} else if r.short < 0 && r.killM < 0 {
		if p.benign.Eintr > 0 && (op == oOpen || op == oRead || op == oPread || op == oWrite || op == oPwrite || op == oFsync || op == oFstat) && p.rng.chance(p.benign.Eintr) {
			r.err = syscall.EINTR
			k.stats["EINTR@"+opNames[op]]++
		} else if p.benign.Short > 0 && n > 1 && p.rng.chance(p.benign.Short) {
			r.short = p.rng.n(1000)
			k.stats["short@"+opNames[op]]++
		}
	}
	return p, r
}

func (p *Proc) noteErr(op Op, t byte) {
	switch {
	case t == tStdout:
		p.hardOut = true
		p.outDead = true
	case t == tStderr:
		p.hardErr = true
	case readSide(op):
		p.hardRead = true
	default:
		p.hardWrite = true
	}
	switch op {
	case oUnlink, oRmdir, oGetdents, oOpen, oStat, oFstat:
		if t != tDump {
			p.cleanupFaulted = true
		}
	}
}

// leave is the common end of every call.
func (k *Kernel) leave(p *Proc, r inj, op Op, detail string, n int, err error) {
	k.seq++
	h := uint64(op)<<56 ^ uint64(p.id)<<48 ^ uint64(uint32(n))
	if err != nil {
		h ^= uint64(err.(syscall.Errno)) << 32
	}
	k.mix(h)
	k.mix(uint64(simTime().Sub(k.base)))
	if k.concurrent {
		k.schedH = (k.schedH ^ uint64(p.id+1)) * 1099511628211
	}
	if k.logf != nil {
		e := ""
		if err != nil {
			e = " -> " + err.Error()
		}
		k.logf(fmt.Sprintf("%6d %12dns p%d #%d %s %s = %d%s", k.seq, simTime().Sub(k.base).Nanoseconds(), p.id, p.ops, opNames[op], detail, n, e))
	}
	if r.killA {
		k.event(p, fmt.Sprintf("KILLED after %s", opNames[op]))
		p.die(-1, "kill")
	}
}

func (k *Kernel) desc(a ...any) string {
	if k.logf == nil {
		return ""
	}
	return fmt.Sprint(a...)
}

func asErr(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func (k *Kernel) swapDump(s *sparse) {
	n := k.dumpInode()
	if n != nil {
		n.sp = s
		n.mtime = k.clock().UnixNano()
	}
	for _, p := range k.procs {
		if !p.dead {
			p.dumpChanged = true
		}
	}
}

func (k *Kernel) dumpInode() *inode {
	_, _, n, e := k.fs.lookup(k.cwd, k.dumpPath, true)
	if e != 0 || n == nil || n.kind != 'f' {
		return nil
	}
	return n
}

func (k *Kernel) dirOf(p *Proc, dirfd int) (*inode, syscall.Errno) {
	if dirfd == atFDCWD {
		return k.cwd, 0
	}
	f := p.fds[dirfd]
	if f == nil || f.n == nil {
		return nil, syscall.EBADF
	}
	if f.n.kind != 'd' {
		return nil, syscall.ENOTDIR
	}
	return f.n, 0
}

const atFDCWD = -0x64

func (k *Kernel) resolve(p *Proc, dirfd int, path string, follow bool) (dir *inode, name string, n *inode, e syscall.Errno) {
	d := k.cwd
	if !strings.HasPrefix(path, "/") {
		if d, e = k.dirOf(p, dirfd); e != 0 {
			return
		}
	}
	return k.fs.lookup(d, path, follow)
}

func (k *Kernel) Openat(dirfd int, path string, flags int, mode uint32) (int, error) {
	p := curProc()
	dir, name, n, e := k.resolve(p, dirfd, path, flags&syscall.O_NOFOLLOW == 0)
	t := k.pathClass(dir, name, n)
	op := oOpen
	if flags&syscall.O_CREAT != 0 || flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		op = oCreate
	}
	p, r := k.enter(op, t, 0)
	// the world may have changed while the call was on its way
	dir, name, n, e = k.resolve(p, dirfd, path, flags&syscall.O_NOFOLLOW == 0)
	t = k.pathClass(dir, name, n)
	fd := -1
	err := r.err
	if err == 0 {
		err = e
	}
	if err == 0 {
		acc := flags & syscall.O_ACCMODE
		switch {
		case n == nil && flags&syscall.O_CREAT == 0:
			err = syscall.ENOENT
		case n == nil && strings.HasSuffix(path, "/"):
			err = syscall.EISDIR
		case n != nil && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
			err = syscall.EEXIST
		case n != nil && n.kind == 'd' && acc != syscall.O_RDONLY:
			err = syscall.EISDIR
		case n != nil && n.kind != 'd' && flags&syscall.O_DIRECTORY != 0:
			err = syscall.ENOTDIR
		case n != nil && n.kind == 'l':
			err = syscall.ELOOP
		case n == nil && k.capLeft == 0:
			err = syscall.ENOSPC
			k.stats["ENOSPC@capacity"]++
			p.noteErr(oCreate, t)
		}
	}
	if err == 0 {
		if n == nil {
			n = k.fs.newInode('f', mode&^022&0777)
			k.mutates(p, "create", dir, name, nil)
			k.fs.link(dirChange{dir, name, n})
			p.created[k.fullPath(dir, name)] = true
		} else if flags&syscall.O_TRUNC != 0 && n.kind == 'f' {
			k.mutates(p, "open with O_TRUNC", dir, name, n)
			k.truncate(n, 0)
		}
		k.nextFD++
		fd = k.nextFD
		f := &ofd{n: n, flags: flags, path: k.fullPath(dir, name), tclass: k.pathClass(dir, name, n)}
		p.fds[fd] = f
	}
	k.leave(p, r, op, path, fd, asErr(err))
	if err != 0 {
		return -1, err
	}
	return fd, nil
}

func (k *Kernel) fullPath(dir *inode, name string) string {
	s := name
	for i := 0; dir != nil && dir.parent != dir && i < 50; i++ {
		for nm, c := range dir.parent.ents {
			if c == dir {
				s = nm + "/" + s
				break
			}
		}
		dir = dir.parent
	}
	return "/" + s
}

func (k *Kernel) truncate(n *inode, sz int64) syscall.Errno {
	if n.sp != nil {
		return syscall.EPERM
	}
	old := int64(len(n.data))
	if sz < old {
		n.data = append([]byte(nil), n.data[:sz]...)
		if k.capLeft >= 0 {
			k.capLeft += old - sz
		}
		for pg := range n.dirty {
			if pg*pageSize >= sz {
				delete(n.dirty, pg)
			}
		}
		n.sizeCh = true
	} else {
		n.data = append(n.data, make([]byte, sz-old)...)
		n.sizeCh = true
	}
	n.mtime = k.clock().UnixNano()
	return 0
}

func (p *Proc) file(fd int) *ofd { return p.fds[fd] }

func (p *Proc) tclass(fd int) byte {
	f := p.fds[fd]
	switch {
	case f == nil:
		return tOther
	case f.sink == 1:
		return tStdout
	case f.sink == 2:
		return tStderr
	}
	return f.tclass
}

func (k *Kernel) Close(fd int) error {
	p := curProc()
	p, r := k.enter(oClose, p.tclass(fd), 0)
	f := p.fds[fd]
	if f == nil {
		k.leave(p, r, oClose, k.desc(fd), 0, syscall.EBADF)
		return syscall.EBADF
	}
	delete(p.fds, fd)
	if f.n != nil {
		delete(f.n.locks, f)
	}
	k.leave(p, r, oClose, f.path, 0, asErr(r.err))
	return asErr(r.err)
}

func cutLen(n, permille int) int {
	if n <= 1 {
		return n
	}
	m := n * permille / 1000
	if m < 1 {
		m = 1
	}
	return m
}

func (k *Kernel) readCommon(op Op, fd int, b []byte, off int64) (int, error) {
	p := curProc()
	p, r := k.enter(op, p.tclass(fd), len(b))
	f := p.fds[fd]
	var err syscall.Errno
	n := 0
	name := ""
	switch {
	case f == nil:
		err = syscall.EBADF
	case r.err != 0 && r.short < 0:
		err = r.err
		name = f.path
	case f.sink != 0:
		// standard input: empty
	case f.n.kind == 'd':
		err = syscall.EISDIR
	case f.flags&syscall.O_ACCMODE == syscall.O_WRONLY:
		err = syscall.EBADF
	default:
		name = f.path
		pos := f.pos
		if op == oPread {
			pos = off
		}
		if pos < 0 {
			err = syscall.EINVAL
			break
		}
		want := b
		if r.short >= 0 {
			want = b[:cutLen(len(b), r.short)]
		}
		if f.n.isDump {
			for i, bs := range k.bad {
				if pos < bs[1] && pos+int64(len(want)) > bs[0] {
					if pos >= bs[0] {
						err = syscall.EIO
						want = nil
						k.stats["badsector"]++
						if bs[2] != 0 {
							k.bad[i] = [3]int64{-1, -1, 0}
						}
						p.noteErr(oRead, tDump)
					} else {
						want = want[:bs[0]-pos]
					}
				}
			}
		}
		if err != 0 {
			break
		}
		if f.n.sp != nil {
			n = f.n.sp.readAt(want, pos)
		} else if pos < int64(len(f.n.data)) {
			n = copy(want, f.n.data[pos:])
		}
		if op == oRead {
			f.pos += int64(n)
		}
		p.bytesRead += int64(n)
		switch f.tclass {
		case tDump:
			p.dumpPos = max(p.dumpPos, pos+int64(n))
			p.eff.dumpReads++
			p.eff.dumpBytes += int64(n)
		case tIndex:
			p.eff.idxReads++
			p.eff.idxBytes += int64(n)
		}
		if r.err != 0 && n == 0 {
			err = r.err
		} else if r.err != 0 { // short read now, the error comes with the next call
			p.faults = append(p.faults, Fault{At: p.ops + 1, Kind: errnoName(r.err)})
			p.active = append(p.active, 0)
		}
	}
	k.leave(p, r, op, name, n, asErr(err))
	if err != 0 {
		return -1, err
	}
	return n, nil
}

func errnoName(e syscall.Errno) string {
	for n, x := range errnoByName {
		if x == e {
			return n
		}
	}
	return "EIO"
}

func (k *Kernel) Read(fd int, b []byte) (int, error) { return k.readCommon(oRead, fd, b, 0) }
func (k *Kernel) Pread(fd int, b []byte, off int64) (int, error) {
	return k.readCommon(oPread, fd, b, off)
}

func (k *Kernel) writeCommon(op Op, fd int, b []byte, off int64) (int, error) {
	p := curProc()
	t := p.tclass(fd)
	p, r := k.enter(op, t, len(b))
	f := p.fds[fd]
	var err syscall.Errno
	n := 0
	name := ""
	want := b
	if r.short >= 0 {
		want = b[:cutLen(len(b), r.short)]
	}
	if r.killM >= 0 {
		want = b[:len(b)*r.killM/1000]
	}
	switch {
	case f == nil:
		err = syscall.EBADF
	case f.wErr != 0:
		err = f.wErr
		f.wErr = 0
		p.noteErr(op, t)
	case r.err != 0 && r.short < 0:
		err = r.err
	case f.sink != 0:
		name = "std" + []string{"in", "out", "err"}[f.sink]
		n = len(want)
		if f.sink == 1 {
			p.out = append(p.out, want...)
		} else {
			p.err = append(p.err, want...)
		}
		if len(p.ev) < 100000 {
			p.ev = append(p.ev, ioEvent{k.seq, f.sink, string(want[:min(n, 256)]), p.dumpPos})
		}
	case f.n.kind == 'd' || f.flags&syscall.O_ACCMODE == syscall.O_RDONLY:
		err = syscall.EBADF
	default:
		name = f.path
		pos := f.pos
		if op == oPwrite {
			pos = off
		}
		if f.flags&syscall.O_APPEND != 0 {
			pos = f.n.size()
		}
		if f.n.isDump || f.n.sp != nil {
			k.violation("containment: process %d (%s) wrote to the dump file", p.id, strings.Join(p.args, " "))
			err = syscall.EPERM
			break
		}
		if f.tclass != tIndex {
			k.violation("containment: process %d (%s) wrote to %q, outside the index of the dump", p.id, strings.Join(p.args, " "), f.path)
		}
		if k.capLeft >= 0 {
			grow := pos + int64(len(want)) - f.n.size()
			if grow > k.capLeft {
				k.stats["ENOSPC@capacity"]++
				p.noteErr(op, t)
				want = want[:max(0, int64(len(want))-(grow-k.capLeft))]
				if len(want) == 0 && len(b) > 0 {
					err = syscall.ENOSPC
					break
				}
				grow = k.capLeft
			}
			if grow > 0 {
				k.capLeft -= grow
			}
		}
		n = len(want)
		end := pos + int64(n)
		if end > int64(len(f.n.data)) {
			if end > int64(cap(f.n.data)) {
				nd := make([]byte, len(f.n.data), max(int(end), 2*len(f.n.data)))
				copy(nd, f.n.data)
				f.n.data = nd
			}
			old := len(f.n.data)
			f.n.data = f.n.data[:end]
			if int64(old) < pos {
				clear(f.n.data[old:pos])
			}
			k.fs.markDirty(f.n, int64(old), end)
		}
		copy(f.n.data[pos:end], want)
		if f.tclass == tIndex {
			p.eff.idxWritten += int64(n)
			p.eff.idxWrites++
		}
		k.fs.markDirty(f.n, pos, end)
		f.n.mtime = k.clock().UnixNano()
		if op == oWrite {
			f.pos = end
		}
	}
	if r.killM >= 0 {
		k.event(p, fmt.Sprintf("KILLED in the middle of %s after %d bytes", opNames[op], n))
		p.die(-1, "kill")
	}
	if r.err != 0 && r.short >= 0 && err == 0 && f != nil {
		f.wErr = r.err // part of the data went through, the next write fails
		if n == len(b) {
			f.wErr = 0
			err = r.err
		}
	}
	k.leave(p, r, op, name, n, asErr(err))
	if k.hashOut && f != nil && f.sink != 0 {
		k.mix(hashStr(string(want[:n])))
	}
	if err != 0 {
		return -1, err
	}
	return n, nil
}

func (k *Kernel) Write(fd int, b []byte) (int, error) { return k.writeCommon(oWrite, fd, b, 0) }
func (k *Kernel) Pwrite(fd int, b []byte, off int64) (int, error) {
	return k.writeCommon(oPwrite, fd, b, off)
}

func (k *Kernel) Seek(fd int, off int64, whence int) (int64, error) {
	p := curProc()
	p, r := k.enter(oSeek, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil {
		err = syscall.EBADF
	} else if f.sink != 0 {
		err = syscall.ESPIPE
	}
	pos := int64(-1)
	if err == 0 {
		switch whence {
		case 0:
			pos = off
		case 1:
			pos = f.pos + off
		case 2:
			pos = f.n.size() + off
		}
		if pos < 0 {
			err = syscall.EINVAL
		} else {
			f.pos = pos
			f.dents = nil
			if f.tclass == tDump {
				p.dumpPos = max(p.dumpPos, pos)
			}
		}
	}
	k.leave(p, r, oSeek, k.desc(fd, off), int(pos), asErr(err))
	if err != 0 {
		return -1, err
	}
	return pos, nil
}

func (k *Kernel) fill(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Dev: 7, Ino: n.ino, Nlink: uint64(n.nlink), Mode: n.mode, Size: n.size(), Blksize: 4096, Blocks: (n.size() + 511) / 512}
	switch n.kind {
	case 'f':
		st.Mode |= syscall.S_IFREG
	case 'd':
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case 'l':
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.target))
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) error {
	p := curProc()
	p, r := k.enter(oFstat, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil {
		err = syscall.EBADF
	}
	if err == 0 {
		if f.sink != 0 {
			*st = syscall.Stat_t{Dev: 9, Ino: uint64(f.sink), Nlink: 1, Mode: [...]uint32{syscall.S_IFCHR, syscall.S_IFIFO, syscall.S_IFREG}[p.sinkKind%3] | 0620}
		} else {
			k.fill(f.n, st)
		}
	}
	k.leave(p, r, oFstat, k.desc(fd), 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Fstatat(dirfd int, path string, st *syscall.Stat_t, flags int) error {
	p := curProc()
	if path == "" && flags&0x1000 != 0 {
		return k.Fstat(dirfd, st)
	}
	dir, name, n, _ := k.resolve(p, dirfd, path, flags&0x100 == 0)
	p, r := k.enter(oStat, k.pathClass(dir, name, n), 0)
	err := r.err
	if err == 0 {
		_, _, n, err = k.resolve(p, dirfd, path, flags&0x100 == 0)
		if err == 0 && n == nil {
			err = syscall.ENOENT
		}
	}
	if err == 0 {
		k.fill(n, st)
	}
	k.leave(p, r, oStat, path, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Ftruncate(fd int, sz int64) error {
	p := curProc()
	p, r := k.enter(oTruncate, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil || f.sink != 0 || f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		err = syscall.EINVAL
	}
	if err == 0 {
		if f.n.isDump || f.tclass != tIndex {
			k.violation("containment: process %d truncated %q", p.id, f.path)
		}
		err = k.truncate(f.n, sz)
	}
	k.leave(p, r, oTruncate, k.desc(fd, sz), 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Truncate(path string, sz int64) error {
	p := curProc()
	dir, name, n, _ := k.resolve(p, atFDCWD, path, true)
	p, r := k.enter(oTruncate, k.pathClass(dir, name, n), 0)
	dir, name, n, e := k.resolve(p, atFDCWD, path, true)
	err := r.err
	if err == 0 {
		err = e
	}
	if err == 0 && n == nil {
		err = syscall.ENOENT
	}
	if err == 0 {
		k.mutates(p, "truncate", dir, name, n)
		err = k.truncate(n, sz)
	}
	k.leave(p, r, oTruncate, path, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Fsync(fd int) error {
	p := curProc()
	p, r := k.enter(oFsync, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil {
		err = syscall.EBADF
	} else if f.sink != 0 {
		err = syscall.EINVAL
	}
	if err == 0 {
		k.fs.sync(f.n)
	} else if f != nil && f.n != nil && err != syscall.EINTR {
		k.fs.failSync(f.n)
		if k.forgetful {
			k.fs.evict()
		}
	}
	k.leave(p, r, oFsync, k.desc(fd), 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Fdatasync(fd int) error { return k.Fsync(fd) }
func (k *Kernel) Sync() {
	p, r := k.enter(oFsync, tOther, 0)
	k.fs.commit()
	k.fs.walk(func(_ string, n *inode) {
		if n.kind == 'f' && n.sp == nil {
			n.syncData()
		}
	})
	k.leave(p, r, oFsync, "sync", 0, nil)
}

func (k *Kernel) Getdents(fd int, buf []byte) (int, error) {
	p := curProc()
	p, r := k.enter(oGetdents, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil || f.n == nil {
		err = syscall.EBADF
	} else if err == 0 && f.n.kind != 'd' {
		err = syscall.ENOTDIR
	}
	n := 0
	if err == 0 {
		if f.dents == nil {
			f.dents = []string{}
			for nm := range f.n.ents {
				f.dents = append(f.dents, nm)
			}
			sort.Strings(f.dents)
			for i := range f.dents {
				j := i + p.rng.n(len(f.dents)-i)
				f.dents[i], f.dents[j] = f.dents[j], f.dents[i]
			}
		}
		for len(f.dents) > 0 {
			nm := f.dents[0]
			c := f.n.ents[nm]
			rl := (19 + len(nm) + 1 + 7) &^ 7
			if n+rl > len(buf) {
				break
			}
			f.dents = f.dents[1:]
			if c == nil {
				continue
			}
			b := buf[n : n+rl]
			clear(b)
			*(*uint64)(unsafe.Pointer(&b[0])) = c.ino
			*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rl)
			b[18] = map[byte]byte{'f': 8, 'd': 4, 'l': 10}[c.kind]
			copy(b[19:], nm)
			n += rl
		}
		if n == 0 {
			f.dents = []string{}
		}
	}
	k.leave(p, r, oGetdents, k.desc(fd), n, asErr(err))
	if err != 0 {
		return -1, err
	}
	return n, nil
}

func (k *Kernel) Mkdirat(dirfd int, path string, mode uint32) error {
	p := curProc()
	dir, name, n, _ := k.resolve(p, dirfd, strings.TrimRight(path, "/"), false)
	p, r := k.enter(oMkdir, k.pathClass(dir, name, n), 0)
	dir, name, n, e := k.resolve(p, dirfd, strings.TrimRight(path, "/"), false)
	err := r.err
	if err == 0 {
		err = e
	}
	if err == 0 && n != nil {
		err = syscall.EEXIST
	}
	if err == 0 && k.capLeft == 0 {
		err = syscall.ENOSPC
		k.stats["ENOSPC@capacity"]++
		p.noteErr(oMkdir, tIndex)
	}
	if err == 0 {
		k.mutates(p, "mkdir", dir, name, nil)
		d := k.fs.newInode('d', mode&^022&0777)
		d.parent = dir
		k.fs.link(dirChange{dir, name, d})
		p.created[k.fullPath(dir, name)] = true
	}
	k.leave(p, r, oMkdir, path, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Renameat(od int, op string, nd int, np string) error {
	p := curProc()
	d1, n1, a, _ := k.resolve(p, od, strings.TrimRight(op, "/"), false)
	p, r := k.enter(oRename, k.pathClass(d1, n1, a), 0)
	d1, n1, a, e1 := k.resolve(p, od, strings.TrimRight(op, "/"), false)
	d2, n2, b, e2 := k.resolve(p, nd, strings.TrimRight(np, "/"), false)
	err := r.err
	if err == 0 {
		err = e1
	}
	if err == 0 {
		err = e2
	}
	switch {
	case err != 0:
	case a == nil:
		err = syscall.ENOENT
	case a == b:
	case b != nil && b.kind == 'd' && a.kind != 'd':
		err = syscall.EISDIR
	case b != nil && b.kind != 'd' && a.kind == 'd':
		err = syscall.ENOTDIR
	case b != nil && b.kind == 'd' && len(b.ents) > 0:
		err = pick(k.rng, syscall.ENOTEMPTY, syscall.EEXIST)
	default:
		k.mutates(p, "rename", d1, n1, a)
		k.mutates(p, "rename", d2, n2, b)
		k.fs.link(dirChange{d1, n1, nil}, dirChange{d2, n2, a})
		p.created[k.fullPath(d2, n2)] = true
		if a.kind == 'd' {
			a.parent = d2
		}
	}
	k.leave(p, r, oRename, op+" -> "+np, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Unlinkat(dirfd int, path string, flags int) error {
	p := curProc()
	op := oUnlink
	if flags&0x200 != 0 {
		op = oRmdir
	}
	dir, name, n, _ := k.resolve(p, dirfd, strings.TrimRight(path, "/"), false)
	p, r := k.enter(op, k.pathClass(dir, name, n), 0)
	dir, name, n, e := k.resolve(p, dirfd, strings.TrimRight(path, "/"), false)
	err := r.err
	if err == 0 {
		err = e
	}
	switch {
	case err != 0:
	case n == nil:
		err = syscall.ENOENT
	case op == oUnlink && n.kind == 'd':
		err = syscall.EISDIR
	case op == oRmdir && n.kind != 'd':
		err = syscall.ENOTDIR
	case op == oRmdir && len(n.ents) > 0:
		err = syscall.ENOTEMPTY
	default:
		k.mutates(p, opNames[op], dir, name, n)
		if k.capLeft >= 0 && n.kind == 'f' {
			k.capLeft += n.size()
		}
		k.fs.link(dirChange{dir, name, nil})
	}
	k.leave(p, r, op, path, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Linkat(od int, op string, nd int, np string, flags int) error {
	p := curProc()
	d1, n1, a, _ := k.resolve(p, od, op, false)
	p, r := k.enter(oLink, k.pathClass(d1, n1, a), 0)
	_, _, a, e1 := k.resolve(p, od, op, false)
	d2, n2, b, e2 := k.resolve(p, nd, np, false)
	err := r.err
	if err == 0 {
		err = e1
	}
	if err == 0 {
		err = e2
	}
	switch {
	case err != 0:
	case a == nil:
		err = syscall.ENOENT
	case b != nil:
		err = syscall.EEXIST
	case a.kind == 'd':
		err = syscall.EPERM
	default:
		k.mutates(p, "link", d2, n2, nil)
		a.nlink++
		k.fs.link(dirChange{d2, n2, a})
		p.created[k.fullPath(d2, n2)] = true
	}
	k.leave(p, r, oLink, op+" -> "+np, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Symlinkat(target string, nd int, np string) error {
	p, r := k.enter(oLink, tOther, 0)
	d2, n2, b, e := k.resolve(p, nd, np, false)
	err := r.err
	if err == 0 {
		err = e
	}
	switch {
	case err != 0:
	case b != nil:
		err = syscall.EEXIST
	default:
		k.mutates(p, "symlink", d2, n2, nil)
		l := k.fs.newInode('l', 0777)
		l.target = target
		k.fs.link(dirChange{d2, n2, l})
		p.created[k.fullPath(d2, n2)] = true
	}
	k.leave(p, r, oLink, np, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Readlinkat(dirfd int, path string, buf []byte) (int, error) {
	p, r := k.enter(oStat, tOther, 0)
	_, _, n, e := k.resolve(p, dirfd, path, false)
	err := r.err
	if err == 0 {
		err = e
	}
	if err == 0 && n == nil {
		err = syscall.ENOENT
	}
	if err == 0 && n.kind != 'l' {
		err = syscall.EINVAL
	}
	k.leave(p, r, oStat, "readlink "+path, 0, asErr(err))
	if err != 0 {
		return -1, err
	}
	return copy(buf, n.target), nil
}

func (k *Kernel) attr(op Op, dirfd int, path string, f func(n *inode)) error {
	p := curProc()
	dir, name, n, _ := k.resolve(p, dirfd, path, true)
	p, r := k.enter(op, k.pathClass(dir, name, n), 0)
	dir, name, n, e := k.resolve(p, dirfd, path, true)
	err := r.err
	if err == 0 {
		err = e
	}
	if err == 0 && n == nil {
		err = syscall.ENOENT
	}
	if err == 0 {
		k.mutates(p, opNames[op], dir, name, n)
		f(n)
	}
	k.leave(p, r, op, path, 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Fchmodat(dirfd int, path string, mode uint32) error {
	return k.attr(oChmod, dirfd, path, func(n *inode) { n.mode = mode & 0777 })
}

func (k *Kernel) Utimensat(dirfd int, path string, ts *[2]syscall.Timespec, flags int) error {
	return k.attr(oUtimes, dirfd, path, func(n *inode) {
		if ts == nil {
			n.mtime = k.clock().UnixNano()
		} else if ts[1].Nsec != 0x3ffffffe {
			n.mtime = ts[1].Nano()
		}
	})
}

func (k *Kernel) Fchownat(dirfd int, path string) error {
	return k.attr(oChmod, dirfd, path, func(*inode) {})
}

func (k *Kernel) Fchmod(fd int, mode uint32) error {
	p := curProc()
	p, r := k.enter(oChmod, p.tclass(fd), 0)
	f := p.fds[fd]
	err := r.err
	if f == nil || f.n == nil {
		err = syscall.EBADF
	}
	if err == 0 {
		if f.tclass != tIndex {
			k.violation("containment: process %d changed the mode of %q", p.id, f.path)
		}
		f.n.mode = mode & 0777
	}
	k.leave(p, r, oChmod, k.desc(fd), 0, asErr(err))
	return asErr(err)
}

func (k *Kernel) Faccessat(dirfd int, path string, mode uint32) error {
	var st syscall.Stat_t
	return k.Fstatat(dirfd, path, &st, 0)
}

func (k *Kernel) Fcntl(fd, cmd, arg int) (int, error) {
	// Neither blocking mode nor record locks are modelled; a descriptor that
	// refuses O_NONBLOCK is used like a regular file by package os.
	p := curProc()
	if p.dead {
		runtime.Goexit()
	}
	switch cmd {
	case syscall.F_SETFD, syscall.F_GETFD:
		return 0, nil
	case syscall.F_GETFL, syscall.F_SETFL:
		return -1, syscall.EINVAL
	}
	k.unmodelled[fmt.Sprintf("fcntl %d", cmd)]++
	return -1, syscall.EINVAL
}

func (k *Kernel) Flock(fd, how int) error {
	p := curProc()
	p, r := k.enter(oMisc, p.tclass(fd), 0)
	if r.err != 0 {
		k.leave(p, r, oMisc, "flock", 0, r.err)
		return r.err
	}
	f := p.fds[fd]
	if f == nil || f.n == nil {
		return syscall.EBADF
	}
	if how&syscall.LOCK_UN != 0 {
		delete(f.n.locks, f)
		k.leave(p, r, oMisc, "unlock", 0, nil)
		return nil
	}
	for {
		ok := true
		for o, m := range f.n.locks {
			if o != f && (m == syscall.LOCK_EX || how&syscall.LOCK_EX != 0) {
				ok = false
			}
		}
		if ok {
			break
		}
		if how&syscall.LOCK_NB != 0 {
			k.leave(p, r, oMisc, "flock", 0, syscall.EWOULDBLOCK)
			return syscall.EWOULDBLOCK
		}
		d := time.Duration(1+p.rng.n(1000)) * 1000 * timeUnit
		p.latSum += d
		time.Sleep(d)
		if p.dead {
			runtime.Goexit()
		}
	}
	if f.n.locks == nil {
		f.n.locks = map[*ofd]int{}
	}
	m := syscall.LOCK_SH
	if how&syscall.LOCK_EX != 0 {
		m = syscall.LOCK_EX
	}
	f.n.locks[f] = m
	k.leave(p, r, oMisc, "flock", 0, nil)
	return nil
}

func (k *Kernel) Getcwd(buf []byte) (int, error) {
	s := "/w\x00"
	if len(buf) < len(s) {
		return -1, syscall.ERANGE
	}
	return copy(buf, s), nil
}

func (k *Kernel) Chdir(path string) error {
	k.unmodelled["chdir"]++
	return syscall.ENOSYS
}

// Getpid: in a container every process is the first one, containers may share
// the directory of the dump.
func (k *Kernel) Getpid() int {
	if k.contained {
		return 1
	}
	return 1000 + curProc().id
}

func (k *Kernel) Exit(code int) {
	p := curProc()
	if p.dead {
		runtime.Goexit()
	}
	p.die(code&0xff, "exit")
}

func (k *Kernel) Sigpipe() { curProc().die(-2, "sigpipe") }

func (k *Kernel) Rand() uint64 { return curProc().rng.u64() }

// Yield is called before channel operations and writes: the thread may be
// preempted for a while.
func (k *Kernel) Yield() {
	p := curProc()
	if p == nil || p.lat.PPre == 0 || p.dead || !p.rng.chance(p.lat.PPre) {
		return
	}
	d := time.Duration((1 + int64(p.rng.n(int(p.lat.Pre)+1))) * timeUnit)
	p.latSum += d
	k.stats["preempted"]++
	time.Sleep(d)
	if p.dead {
		runtime.Goexit()
	}
}

func (k *Kernel) onPanic(v any) {
	p := curProc()
	if p.dead {
		return
	}
	p.panicText = rtPanicText(v)
	p.dead = true
	p.exit, p.how = 2, "panic"
	p.endT = simTime()
	p.alloc = heapAllocs() - p.allocBase
	if k.concurrent {
		k.im.save(&p.v)
	}
	for _, f := range p.fds {
		if f.n != nil {
			delete(f.n.locks, f)
		}
	}
	p.err = append(p.err, "panic: "+p.panicText...)
	k.event(p, "PANIC "+p.panicText)
	close(p.done)
}

// instant is called whenever simulated time moves on: it puts the package
// variables of the process that owns the new instant in place.
func (k *Kernel) instant(now int64) {
	if !k.concurrent {
		return
	}
	res := (now - k.base.UnixNano()) % timeUnit
	for _, p := range k.procs {
		if p.res == res && p.started && !p.dead {
			k.switchTo(p)
			return
		}
	}
}

func (k *Kernel) switchTo(p *Proc) {
	if k.cur == p {
		return
	}
	if k.cur != nil && !k.cur.dead {
		k.im.save(&k.cur.v)
	}
	k.im.load(&p.v)
	k.cur = p
}

// spawn starts a process. mainFn is the program's main function.
func (k *Kernel) spawn(args []string, start time.Duration, res int64, seed uint64, mainFn func(), setup func(p *Proc)) *Proc {
	k.lastPid++
	k.fs.evict()
	p := &Proc{k: k, id: k.lastPid, args: args, res: res, fds: map[int]*ofd{}, done: make(chan struct{}), rng: newRng(seed, uint64(k.lastPid), 0x70), maxOps: 1 << 30, created: map[string]bool{}}
	p.fds[0] = &ofd{sink: 0, path: "stdin"}
	p.fds[0].sink = 3
	p.fds[1] = &ofd{sink: 1, path: "stdout"}
	p.fds[2] = &ofd{sink: 2, path: "stderr"}
	setup(p)
	for range p.faults {
		p.active = append(p.active, 0)
	}
	k.procs = append(k.procs, p)
	go func() {
		d := start - start%timeUnit + time.Duration(res)
		if d > 0 {
			time.Sleep(d)
		}
		if k.cur != nil && k.cur != p && !k.cur.dead {
			k.im.save(&k.cur.v)
		}
		k.cur = p
		p.started = true
		p.startT = simTime()
		rtSetCurrent(unsafe.Pointer(p))
		p.allocBase = heapAllocs()
		k.im.reset()
		os.Args = append([]string{"neojhat"}, args...)
		os.Stdin = os.NewFile(0, "/dev/stdin")
		os.Stdout = os.NewFile(1, "/dev/stdout")
		os.Stderr = os.NewFile(2, "/dev/stderr")
		k.im.initPackages()
		mainFn()
		if p.dead {
			return
		}
		p.die(0, "exit")
	}()
	return p
}
