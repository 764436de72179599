package zzverifsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
)

// A Plan is one simulated history: everything that happens in it is a
// function of the plan.
type Plan struct {
	Prop    string     `json:"prop"`
	Seed    uint64     `json:"seed"`
	Label   string     `json:"label,omitempty"`
	Dumps   []DumpSpec `json:"dumps"`
	Path    int        `json:"path,omitempty"` // layout of the paths, see layouts
	Steps   []Step     `json:"steps"`
	Durable bool       `json:"durable,omitempty"` // keep track of what reaches the disk
	Loose   bool       `json:"loose,omitempty"`   // directories reach the disk in any order
	GC      bool       `json:"gc,omitempty"`      // collect garbage while it runs and watch the memory in use
	MaxHeap int64      `json:"max_heap,omitempty"`
	MaxOver int64      `json:"max_over,omitempty"` // live heap of a process
	Bytes   bool       `json:"bytes,omitempty"`    // reports must equal the reference run byte for byte
	Strange int        `json:"strange,omitempty"`  // files of the user in the place of the index, see setup
	TagRef  *DumpSpec  `json:"tag_ref,omitempty"`  // the same dump with harmless texts: HTML must have the same tags
}

// Step ops: run, put (dump file in place), rm (remove it), power (power loss),
// skew (clock jump in seconds), cap (free bytes on the disk, -1 unlimited),
// bad (bad sector on the dump: N..N+M), ro (nothing can be written any more),
// heal (no bad sectors, enough space), sleep (seconds).
type Step struct {
	Op    string     `json:"op"`
	Dump  int        `json:"dump,omitempty"`
	N     int64      `json:"n,omitempty"`
	M     int64      `json:"m,omitempty"`
	Once  bool       `json:"once,omitempty"` // the bad sector can be read at the next attempt
	Procs []ProcPlan `json:"procs,omitempty"`
	Swaps []Swap     `json:"swaps,omitempty"`
}

// Swap puts another dump in place while processes run.
type Swap struct {
	At   int64 `json:"at"`
	Dump int   `json:"dump"`
}

type ProcPlan struct {
	Args   []string `json:"args"`
	Start  int64    `json:"start,omitempty"` // ns
	Faults []Fault  `json:"faults,omitempty"`
	Lat    LatSpec  `json:"lat,omitzero"`
	Benign Benign   `json:"benign,omitzero"`
	Env    []string `json:"env,omitempty"`     // environment variables it starts with
	Sink   int      `json:"sink,omitempty"`    // what its output goes to: 0 terminal, 1 pipe, 2 file
	GrowTo int      `json:"grow_to,omitempty"` // dump (1-based) the file becomes on "grow" and "cut" faults
}

// layouts of the path given to --hprof, the directory the dump is in and, for
// links, where the real file is.
type layout struct{ arg, dir, name, linkTo string }

var layouts = []layout{
	{"d.hprof", "/w", "d.hprof", ""},
	{"./d.hprof", "/w", "d.hprof", ""},
	{"/data/app/heap.hprof", "/data/app", "heap.hprof", ""},
	{"sub/../dump", "/w", "dump", ""},
	{"a b/é%s$x.hprof", "/w/a b", "é%s$x.hprof", ""},
	{"x.db", "/w", "x.db", ""},
	{"link/d.hprof", "/w/link", "d.hprof", "/data/d.hprof"},
	{"/tmp/d", "/tmp", "d", ""},
	{"-dump", "/w", "-dump", ""},
	{".hidden.hprof.gz", "/w", ".hidden.hprof.gz", ""},
	{"../w//d.hprof", "/w", "d.hprof", ""},
	{"real/d.hprof", "/w/real", "d.hprof", ""}, // the directory is a link, see setup
	{strings.Repeat("long", 50) + ".hprof", "/w", strings.Repeat("long", 50) + ".hprof", ""},
	{"d.hprof ", "/w", "d.hprof ", ""},
	{"\t d.HPROF", "/w", "\t d.HPROF", ""},
	{"~/[ab]*?.hprof", "/w/~", "[ab]*?.hprof", ""},
	{"file:%2e\xff\"'\\", "/w", "file:%2e\xff\"'\\", ""},
	{"heap.hprof.", "/w", "heap.hprof.", ""},
}

// Violation of a property.
type Violation struct {
	Class string `json:"class"` // kind of violation, kept while minimising
	Msg   string `json:"msg"`
}

type Result struct {
	Viol       *Violation
	Hash       uint64
	SchedHash  uint64
	Stats      map[string]int
	Unmodelled map[string]int
	Ops        int
	Procs      int
	SimTime    time.Duration
	Trace      [][]OpRec // of every process, if asked for
	Outs       []procOut
	Files      int // in the index directory at the end
	Log        []string
}

type procOut struct {
	args  []string
	out   []byte
	exit  int
	how   string
	ops   int
	bytes int64
	peak  uint64
	alloc uint64
}

type golden struct {
	out   []byte
	exit  int
	ops   int
	bad   *Violation
	trace []OpRec
	files int // in the index directory
}

type Sim struct {
	im      *image
	main    func()
	goldens map[string]*golden
	gorder  []string
	dumps   map[string]*Dump
	dorder  []string
	keepLog bool
	traces  bool
	runs    int
	mute    bool
}

func newSim(mainFn func()) (*Sim, error) {
	im, err := loadImage()
	if err != nil {
		return nil, err
	}
	return &Sim{im: im, main: mainFn, goldens: map[string]*golden{}, dumps: map[string]*Dump{}}, nil
}

func (s *Sim) dump(spec DumpSpec) *Dump {
	b, _ := json.Marshal(spec)
	key := string(b)
	if d := s.dumps[key]; d != nil {
		return d
	}
	d := buildDump(spec)
	if len(s.dorder) >= 6 {
		delete(s.dumps, s.dorder[0])
		s.dorder = s.dorder[1:]
	}
	s.dumps[key] = d
	s.dorder = append(s.dorder, key)
	return d
}

func stripInteractive(args []string) []string {
	var r []string
	for _, a := range args {
		if a != "--non-interactive" && a != "-non-interactive" {
			r = append(r, a)
		}
	}
	return r
}

// golden is the report of a run without faults on a fresh copy of the dump.
func (s *Sim) golden(spec DumpSpec, args []string) *golden {
	spec.Mtime = 0
	a := canonical(args)
	key := goldenKey(spec, args)
	if g := s.goldens[key]; g != nil {
		return g
	}
	p := &Plan{Prop: "golden", Seed: 1, Dumps: []DumpSpec{spec}, Steps: []Step{{Op: "put"}, {Op: "run", Procs: []ProcPlan{{Args: a}}}}}
	old := s.traces
	s.traces = true
	res := s.exec(p)
	s.traces = old
	o := res.Outs[0]
	g := &golden{out: o.out, exit: o.exit, ops: o.ops, bad: res.Viol}
	g.trace = res.Trace[0]
	g.files = res.Files
	if len(s.gorder) >= 60 {
		delete(s.goldens, s.gorder[0])
		s.gorder = s.gorder[1:]
	}
	s.goldens[key] = g
	s.gorder = append(s.gorder, key)
	return g
}

// run state
type runner struct {
	s       *Sim
	plan    *Plan
	k       *Kernel
	lay     layout
	dumps   []*Dump
	curDump int // -1: none
	indexed bool
	res     *Result
	n       int
	swaps   []swapped
	keep    []kept
	tree    string // the file system before the command (C22)
	base    int    // files in the index directory when last something odd happened
	settled int    // files there after a command without faults on this dump, -1: none yet
}

type swapped struct {
	t    time.Time
	dump int
}

// dumpsOf lists the dumps that were in place while the process ran.
func (r *runner) dumpsOf(p *Proc) []int {
	if len(r.swaps) == 0 {
		return []int{r.curDump}
	}
	var l []int
	for i, s := range r.swaps {
		if i+1 < len(r.swaps) && r.swaps[i+1].t.Before(p.startT) || !p.endT.IsZero() && s.t.After(p.endT) {
			continue
		}
		l = append(l, s.dump)
	}
	return l
}

func (r *runner) fail(class, format string, a ...any) {
	if r.res.Viol == nil {
		r.res.Viol = &Violation{class, fmt.Sprintf(format, a...)}
	}
}

// Run executes a plan and judges it.
func (s *Sim) Run(p *Plan) *Result {
	// reference runs first: they are runs of their own
	if p.Prop != "golden" && !p.GC {
		for _, st := range p.Steps {
			for _, pp := range st.Procs {
				if m := parseArgs(fixArgs(pp.Args, 0)); m.usage || m.hprof != layouts[0].arg {
					continue
				}
				if p.TagRef != nil {
					s.golden(*p.TagRef, fixArgs(pp.Args, 0))
				}
				for _, d := range p.Dumps {
					if s.dump(d).class == "valid" {
						if g := s.golden(d, fixArgs(pp.Args, 0)); g.bad != nil {
							return &Result{Viol: &Violation{g.bad.Class, "in a run without faults: " + g.bad.Msg}, Stats: map[string]int{}}
						}
					}
				}
			}
		}
	}
	return s.exec(p)
}

// fixArgs puts the path of the layout in place of "@".
func fixArgs(args []string, lay int) []string {
	r := append([]string(nil), args...)
	for i, a := range r {
		if strings.Contains(a, "@") {
			r[i] = strings.Replace(a, "@", layouts[lay].arg, 1)
		}
	}
	return r
}

func (s *Sim) exec(p *Plan) (res *Result) {
	res = &Result{Stats: map[string]int{}}
	r := &runner{s: s, plan: p, lay: layouts[p.Path%len(layouts)], curDump: -1, res: res}
	for _, d := range p.Dumps {
		r.dumps = append(r.dumps, s.dump(d))
	}
	s.runs++
	if p.GC {
		debug.SetGCPercent(50)
	} else {
		debug.SetGCPercent(-1)
	}
	runtime.GC()
	rtSeed(true, p.Seed*0x9e3779b97f4a7c15+77)
	clear(syscall.SimUnmodelled[:])
	synctestRun(func() {
		k := newKernel(s.im, p.Durable, p.Seed)
		k.fs.loose = p.Loose
		r.k = k
		k.nextFD = syscall.SimFDBase
		if s.keepLog {
			k.hashOut = true
			k.logf = func(l string) {
				if len(res.Log) < 20000 {
					res.Log = append(res.Log, l)
				}
			}
		}
		k.hashOut = true
		rtSetPanicHook(k.onPanic)
		rtSetInstantHook(k.instant)
		rtSetYieldHook(k.Yield)
		if p.MaxOver > 0 {
			k.heapBase = int64(heapLive())
		}
		syscall.SimInstall(k)
		r.setup()
		for i := range p.Steps {
			r.step(i, &p.Steps[i])
			if res.Viol != nil {
				break
			}
		}
		// let what the last processes left behind come to its end
		time.Sleep(2 * time.Second)
		if len(k.viol) > 0 && res.Viol == nil {
			r.fail("containment", "%s", k.viol[0])
		}
		res.Files = r.indexFiles()
		res.Hash = k.hash
		res.SchedHash = k.schedH
		for n, c := range k.stats {
			res.Stats[n] += c
		}
		res.Unmodelled = k.unmodelled
		for _, q := range k.procs {
			res.Ops += q.ops
		}
		res.Procs = len(k.procs)
		res.SimTime = simTime().Sub(k.base)
	})
	syscall.SimInstall(nil)
	os.Stdin, os.Stdout, os.Stderr = realStd[0], realStd[1], realStd[2]
	rtSetInstantHook(nil)
	rtSetYieldHook(nil)
	rtSetPanicHook(nil)
	rtSeed(false, 0)
	for n, c := range syscall.SimUnmodelled {
		if c > 0 {
			res.Unmodelled[fmt.Sprintf("syscall %d", n)] += c
		}
	}
	s.im.reset()
	return res
}

func (r *runner) setup() {
	k := r.k
	k.cwd = k.fs.mkdirAll("/w")
	k.fs.mkdirAll("/w/sub")
	d := k.fs.mkdirAll(r.lay.dir)
	k.dumpName = r.lay.name
	k.dumpPath = r.lay.arg
	k.dumpDirs = []*inode{d}
	if r.lay.linkTo != "" {
		i := strings.LastIndexByte(r.lay.linkTo, '/')
		k.dumpDirs = append(k.dumpDirs, k.fs.mkdirAll(r.lay.linkTo[:i]))
		l := k.fs.newInode('l', 0777)
		l.target = r.lay.linkTo
		k.fs.install(d, r.lay.name, l)
	}
	if r.lay.arg == "real/d.hprof" {
		// a directory reached through a link
		real := k.fs.mkdirAll("/data/store")
		k.fs.uninstall(k.cwd, "real")
		l := k.fs.newInode('l', 0777)
		l.target = "/data/store"
		k.fs.install(k.cwd, "real", l)
		k.dumpDirs = []*inode{real}
	}
	// innocent bystanders
	other := k.fs.newInode('f', 0644)
	other.data = []byte("keep me")
	other.dur = other.data
	k.fs.install(k.dumpDirs[0], "other.hprof", other)
	k.fs.install(k.dumpDirs[0], r.lay.name+"2", other)
	file := func(dir *inode, name string) {
		n := k.fs.newInode('f', 0644)
		n.data = []byte("keep " + name)
		n.dur = n.data
		k.fs.install(dir, name, n)
		r.keep = append(r.keep, kept{dir, name, n})
	}
	if r.plan.Strange&1 != 0 { // the directory is there and has files of the user
		d := k.fs.mkdirAll(strings.TrimSuffix(k.fullPath(k.dumpDirs[0], r.lay.name+".db"), "/"))
		file(d, "notes.txt")
		file(d, "2-")
		file(d, "1-2-3")
		file(d, "0x10-5")
		sub := k.fs.newInode('d', 0755)
		sub.ents = map[string]*inode{}
		k.fs.install(d, "saved", sub)
		file(sub, "meta.bin")
		file(sub, "17-18")
	}
	if r.plan.Strange&2 != 0 { // index of an older version
		d := k.fs.mkdirAll(k.fullPath(k.dumpDirs[0], r.lay.name+".db"))
		for _, name := range []string{"instance-dump.idx.bin", "small-records.bin", "meta.bin"} {
			n := k.fs.newInode('f', 0600)
			n.data = []byte("old")
			n.dur = n.data
			k.fs.install(d, name, n)
		}
	}
	if r.plan.Strange&8 != 0 { // a directory in the place of the dump
		d := k.fs.mkdirAll(k.fullPath(k.dumpDirs[len(k.dumpDirs)-1], r.lay.name))
		file(d, "inside")
	}
	if r.plan.Strange&16 != 0 { // a link to nothing
		l := k.fs.newInode('l', 0777)
		l.target = "/nowhere/dump"
		k.fs.install(k.dumpDirs[0], r.lay.name, l)
	}
	if r.plan.Strange&4 != 0 { // something else has the name of the index
		file(k.dumpDirs[0], r.lay.name+".db")
	}
}

type kept struct {
	dir  *inode
	name string
	n    *inode
}

func (r *runner) dumpPlace() (*inode, string) {
	d := r.k.dumpDirs[len(r.k.dumpDirs)-1]
	return d, r.k.dumpName
}

func (r *runner) put(i int, st *Step) {
	k := r.k
	d := r.dumps[i]
	n := k.fs.newInode('f', 0644)
	n.isDump = true
	n.sp = d.file
	n.mtime = time.Unix(1600000000, 0).Add(time.Duration(d.spec.Mtime) * time.Second).UnixNano()
	if st.N != 0 {
		n.mtime = time.Unix(1600000000, 0).UnixNano() + st.N
	}
	dir, name := r.dumpPlace()
	// the same file may be put back in place: then it is the same in all respects
	k.fs.install(dir, name, n)
	r.curDump = i
	r.indexed = false
	r.base, r.settled = r.indexFiles(), -1
}

func (r *runner) step(i int, st *Step) {
	k := r.k
	switch st.Op {
	case "put":
		r.put(st.Dump, st)
	case "rm":
		dir, name := r.dumpPlace()
		k.fs.uninstall(dir, name)
		r.curDump = -1
	case "power":
		lo, lp := k.fs.powerLoss(newRng(r.plan.Seed, uint64(i), 0x9077))
		r.indexed = false // what is left is judged by the reports
		k.stats["power loss"]++
		k.stats["power loss: directory operations lost"] += lo
		k.stats["power loss: pages lost"] += lp
		k.seq++
		k.mix(uint64(lo)<<32 + uint64(lp))
	case "skew":
		k.jump(time.Duration(st.N) * time.Second)
		k.stats["clock jump"]++
	case "cap":
		k.capLeft = st.N
	case "bad":
		once := int64(0)
		if st.Once {
			once = 1
		}
		k.bad = append(k.bad, [3]int64{st.N, st.N + st.M, once})
	case "heal":
		k.bad = nil
		k.capLeft = -1
		k.readonly = false
	case "ro":
		k.readonly = true
	case "sleep":
		time.Sleep(time.Duration(st.N) * time.Second)
	case "run":
		r.run(i, st)
	default:
		panic("unknown step " + st.Op)
	}
}

func (r *runner) indexState() string {
	var sb strings.Builder
	dir := r.k.dumpDirs[0]
	n := dir.ents[r.k.dumpName+".db"]
	if n == nil || n.kind != 'd' {
		return ""
	}
	var list func(n *inode, path string)
	list = func(n *inode, path string) {
		var names []string
		for nm := range n.ents {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			c := n.ents[nm]
			if c.kind == 'd' {
				fmt.Fprintf(&sb, "%s%s/\n", path, nm)
				list(c, path+nm+"/")
				continue
			}
			fmt.Fprintf(&sb, "%s%s %o %d %d %x\n", path, nm, c.mode, c.mtime, c.size(), hashBytes(c.data))
		}
	}
	list(n, "")
	return sb.String()
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h = (h ^ (uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56)) * 1099511628211
		h ^= h >> 31
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func (r *runner) run(i int, st *Step) {
	k := r.k
	k.concurrent = len(st.Procs) > 1
	before := r.indexState()
	if r.plan.Prop == "C22" {
		r.tree = k.fs.listing(r.maybe())
	}
	var ps []*Proc
	r.swaps = nil
	swapping := len(st.Swaps) > 0
	for _, pp := range st.Procs {
		for _, f := range pp.Faults {
			swapping = swapping || f.Kind == "swap"
		}
	}
	if swapping {
		// the time of the first one does not matter
		r.swaps = []swapped{{dump: r.curDump}}
	}
	k.onSwap = func(p *Proc, i int) {
		if i < 0 || i >= len(r.dumps) {
			return
		}
		r.put(i, &Step{})
		p.maxOps += int(64 * r.dumps[i].size)
		r.swaps = append(r.swaps, swapped{simTime(), i})
		k.stats["dump replaced at a call"]++
		k.mix(uint64(i) + 0x5aa)
	}
	timed := 0
	if len(st.Swaps) > 0 {
		go func() {
			t0 := simTime()
			for _, x := range st.Swaps {
				time.Sleep(t0.Add(time.Duration(x.At/timeUnit*timeUnit + timeUnit - 1)).Sub(simTime()))
				r.put(x.Dump, &Step{})
				r.swaps = append(r.swaps, swapped{simTime(), x.Dump})
				k.stats["dump replaced while processes run"]++
				k.mix(uint64(x.Dump) + 0x5a9)
				timed++
			}
		}()
	}
	for j := range st.Procs {
		pp := &st.Procs[j]
		if pp.GrowTo > 0 {
			k.growTo, k.cutTo = r.dumps[pp.GrowTo-1].file, r.dumps[pp.GrowTo-1].file
		}
		args := fixArgs(pp.Args, r.plan.Path%len(layouts))
		for _, e := range pp.Env {
			name, val, _ := strings.Cut(e, "=")
			if old, ok := os.LookupEnv(name); ok {
				defer os.Setenv(name, old)
			} else {
				defer os.Unsetenv(name)
			}
			os.Setenv(name, val)
		}
		p := k.spawn(args, time.Duration(pp.Start), int64(j%timeUnit), r.plan.Seed+uint64(i)*1000, r.s.main, func(p *Proc) {
			p.faults = append([]Fault(nil), pp.Faults...)
			p.lat = pp.Lat
			p.benign = pp.Benign
			p.sinkKind = pp.Sink
			p.keepTrace = r.s.traces
			p.rss = r.plan.GC
			p.maxOps = 20000
			if r.curDump >= 0 {
				sz := r.dumps[r.curDump].size
				if len(r.dumps[r.curDump].spec.Giant)+len(r.dumps[r.curDump].spec.GiantObj) > 0 && r.dumps[r.curDump].spec.Crowd == [3]int{} {
					p.maxOps += int(sz / 64)
				} else {
					p.maxOps += int(64 * sz)
				}
			}
		})
		ps = append(ps, p)
	}
	// a stalled simulation is one where simulated hours pass
	for _, p := range ps {
	wait:
		t := time.NewTimer(12 * time.Hour)
		slept := p.latSum
		select {
		case <-p.done:
		case <-t.C:
			if p.latSum-slept > 11*time.Hour && p.hung == "" && !p.dead {
				goto wait // it is the simulated machine that is slow
			}
			if p.hung == "" {
				p.hung = "no end after twelve hours"
			}
			p.dead = true
			p.exit, p.how = -1, "hang"
			p.endT = simTime()
		}
		t.Stop()
	}
	// stragglers of ended processes get the time to notice
	time.Sleep(1500 * time.Millisecond)
	for timed < len(st.Swaps) {
		time.Sleep(time.Second)
	}
	k.cur = nil
	k.onSwap = nil
	k.concurrent = false
	if len(k.viol) > 0 {
		class, _, _ := strings.Cut(k.viol[0], ":")
		r.fail(class, "%s", k.viol[0])
	}
	clean := true
	for j, p := range ps {
		if r.s.traces {
			r.res.Trace = append(r.res.Trace, p.trace)
		}
		r.res.Outs = append(r.res.Outs, procOut{p.args, p.out, p.exit, p.how, p.ops, p.bytesRead, p.peakHeap, p.alloc})
		r.res.Stats["exit: "+p.how]++
		if r.res.Viol == nil {
			r.judge(p, &st.Procs[j], len(ps))
		}
		if p.exit != 0 || p.hardWrite || p.hardRead || p.dumpChanged {
			clean = false
		}
		k.mix(uint64(p.exit) + uint64(len(p.out))<<8)
		k.mix(hashBytes(p.out))
	}
	if swapping {
		clean = false
		r.indexed = false
	}
	if r.res.Viol == nil && r.indexed && len(ps) > 0 {
		if after := r.indexState(); after != before && before != "" {
			ok := false
			for _, p := range ps {
				if p.hardRead || p.dumpChanged || p.how == "kill" {
					ok = true
				}
			}
			if !ok {
				r.fail("index changed", "the complete index was changed by a later command (%s):\n%s--- became\n%s", strings.Join(ps[0].args, " "), before, after)
			}
		}
	}
	if clean {
		r.indexed = true
	} else if st.Op == "run" {
		for _, p := range ps {
			if p.hardRead || p.hardWrite || p.dumpChanged || p.how == "kill" {
				r.indexed = false
			}
		}
	}
	if r.res.Viol == nil {
		r.leftovers(ps)
	}
	if r.res.Viol == nil {
		r.piledUp(ps, st)
	}
	for _, x := range r.keep {
		if r.res.Viol == nil && (x.dir.ents[x.name] != x.n || string(x.n.data) != "keep "+x.name) {
			r.fail("file of the user", "after `neojhat %s`: the file %q, which was there before, is gone or changed", strings.Join(ps[0].args, " "), x.name)
		}
	}
}

func commonPrefix(a, b []byte) int {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// maybe is what may be created although there is no dump: the directory for
// the index if there is something that can be opened.
func (r *runner) maybe() string {
	if r.plan.Strange&8 == 0 {
		return ""
	}
	return strings.TrimSuffix(r.k.fullPath(r.k.dumpDirs[len(r.k.dumpDirs)-1], r.lay.name+".db"), "/")
}

// judge decides whether a finished process behaved as the properties say.
func (r *runner) judge(p *Proc, pp *ProcPlan, group int) {
	cmd := strings.Join(p.args, " ")
	ctx := func() string {
		s := fmt.Sprintf("`neojhat %s` (process %d, exit %d, %s)", clip(cmd, 200), p.id, p.exit, p.how)
		if len(p.fired) > 0 {
			s += " with " + clip(strings.Join(p.fired, ", "), 300)
		}
		return s
	}
	switch {
	case p.how == "panic":
		r.fail("panic", "%s: panic: %s", ctx(), clip(p.panicText, 300))
		return
	case p.how == "hang":
		r.fail("hang", "%s: %s", ctx(), p.hung)
		return
	}
	meant := parseArgs(p.args)
	told := strings.TrimSpace(string(p.out)) != "" || strings.TrimSpace(termLast(p.err)) != "" || p.hardErr || p.outDead
	if meant.usage || r.curDump < 0 || meant.hprof != r.lay.arg {
		switch {
		case looksLikeReport(p.out):
			r.fail("report without dump", "%s: there is no dump to report on, yet: %q", ctx(), clip(string(p.out), 200))
		case p.how == "exit" && p.exit == 0 && !p.outDead && (!meant.usage || meant.bad):
			r.fail("success without report", "%s: it cannot be done, yet the exit status is 0; output %q", ctx(), clip(string(p.out), 200))
		case p.how == "exit" && !told:
			r.fail("no message", "%s: exit status %d without any message", ctx(), p.exit)
		case p.how == "exit" && meant.usage && !strings.Contains(string(p.out)+string(p.err), "-hprof") && !p.hardErr && !p.outDead:
			r.fail("no usage", "%s: the options are not shown: %q", ctx(), clip(string(p.out), 200))
		case r.plan.Prop == "C22":
			if t := r.k.fs.listing(r.maybe()); t != r.tree {
				r.fail("effect without report", "%s: nothing was to be done, yet the file system changed from\n%sto\n%s", ctx(), r.tree, t)
			}
			if meant.usage {
				r.k.stats["judged: usage"]++
			} else {
				r.k.stats["judged: no dump"]++
			}
		}
		return
	}
	ds := r.dumpsOf(p)
	d := r.dumps[ds[len(ds)-1]]
	r.progress(p, pp, ctx)
	if r.res.Viol != nil {
		return
	}
	if p.how == "exit" {
		if over := p.endT.Sub(p.startT) - p.latSum; over > 5*time.Second {
			r.fail("outlives its work", "%s: ended %v after its work was done", ctx(), over)
			return
		}
	}
	if r.plan.MaxHeap > 0 && int64(p.peakHeap) > r.plan.MaxHeap {
		r.fail("memory", "%s: %d MB of live heap for %d MB of dump", ctx(), p.peakHeap>>20, d.size>>20)
		return
	}
	if r.plan.MaxOver > 0 && p.peakOver > r.plan.MaxOver {
		r.fail("memory", "%s: %d MB of memory for a dump with %d objects", ctx(), p.peakOver>>20, d.nObj[0]+d.nObj[1]+d.nObj[2])
		return
	}
	if !r.plan.GC && p.alloc > 128<<20+uint64(d.size)*600 {
		r.fail("memory", "%s: allocated %d MB for a dump of %d bytes", ctx(), p.alloc>>20, d.size)
		return
	}
	var g *golden
	if d.class == "valid" && !r.plan.GC && r.plan.Prop != "golden" && !p.dumpChanged {
		g = r.s.goldens[goldenKey(d.spec, fixArgs(pp.Args, 0))]
	}
	if len(ds) > 1 && p.how == "exit" && !p.outDead && !p.hardRead && !p.hardWrite && !p.otherHard {
		// the dump was replaced while it ran: the report of one of them, or an error
		if p.exit != 0 {
			if looksLikeReport(p.out) {
				r.fail("report after an error", "%s: failed but printed a report: %q", ctx(), clip(string(p.out), 200))
			} else if strings.TrimSpace(string(p.out)) == "" && strings.TrimSpace(termLast(p.err)) == "" {
				r.fail("no message", "%s: exit status %d without any message", ctx(), p.exit)
			}
			return
		}
		msg := ""
		for _, i := range ds {
			if r.dumps[i].class != "valid" {
				continue
			}
			w := r.dumps[i].model.check(p.args, p.out)
			if w == "" {
				return
			}
			msg += "; " + w
		}
		r.fail("wrong report", "%s: the dump was replaced meanwhile and the report is that of neither%s", ctx(), clip(msg, 1000))
		return
	}
	if len(ds) > 1 {
		return
	}
	wrong := func() string { return d.model.check(p.args, p.out) }
	correct := func() bool {
		if g != nil {
			if bytes.Equal(g.out, p.out) {
				return true
			}
			if r.plan.Bytes {
				return false
			}
		}
		return d.model != nil && wrong() == ""
	}
	prefix := func() bool {
		if g != nil {
			return bytes.HasPrefix(g.out, p.out)
		}
		return true
	}
	message := func() bool {
		return strings.TrimSpace(string(p.out)) != "" || strings.TrimSpace(termLast(p.err)) != "" || p.hardErr || p.outDead
	}
	refused := func(why string) {
		switch {
		case looksLikeReport(p.out):
			r.fail("report on a bad dump", "%s: %s, yet a report was printed: %q", ctx(), why, clip(string(p.out), 200))
		case p.exit == 0:
			r.fail("success on a bad dump", "%s: %s, yet the exit status is 0; output %q", ctx(), why, clip(string(p.out), 200))
		case !message():
			r.fail("no message", "%s: %s, exit status %d without any message", ctx(), why, p.exit)
		}
	}
	switch {
	case p.how == "kill" || p.how == "sigpipe" && !p.outDead: // the signal came for the terminal
		if (d.class == "cut" || d.class == "empty") && looksLikeReport(p.out) {
			r.fail("report on a bad dump", "%s: the dump is cut short, yet a report was started: %q", ctx(), clip(string(p.out), 200))
		} else if d.class == "valid" && len(p.out) > 0 && !prefix() && !p.dumpChanged && !p.hardRead && !p.hardWrite && r.plan.Strange&4 == 0 {
			r.fail("wrong output before the kill", "%s: output is not the start of the report: %s", ctx(), r.diff(g, p))
		}
		return
	case p.dumpChanged:
		return // anything but a crash
	case d.class == "corrupt":
		if p.exit != 0 && !message() {
			r.fail("no message", "%s: exit status %d without any message", ctx(), p.exit)
		}
		if p.exit == 0 && !looksLikeReport(p.out) && len(p.out) == 0 && len(p.fired) == 0 && parseArgs(p.args).cmd != "threads" {
			r.fail("silent success", "%s: no report, no message, exit status 0", ctx())
		}
		return
	case d.class == "cut":
		if p.hardErr || p.outDead {
			if looksLikeReport(p.out) {
				refused("the dump is cut short")
			}
			return
		}
		refused(fmt.Sprintf("the dump is cut short at byte %d of %d", d.size, d.endOff+9))
		return
	case d.class == "unsup" || d.class == "absent":
		if p.exit == 0 && !p.outDead {
			if d.model == nil || wrong() != "" {
				w := ""
				if d.model != nil {
					w = ": " + wrong()
				}
				r.fail("wrong report", "%s: the dump contains something unsupported (%s) and the report is wrong%s", ctx(), d.spec.Unsup, w)
			}
			return
		}
		if p.outDead {
			return
		}
		refused("the dump contains something unsupported (" + d.spec.Unsup + d.class + ")")
		return
	}
	// a valid dump
	if p.outDead {
		if p.how == "exit" && p.exit == 0 && !(g != nil && bytes.Equal(g.out, p.out)) {
			r.fail("success although the report was lost", "%s: standard output failed after %d bytes, exit status 0", ctx(), len(p.out))
			return
		}
		if !p.hardRead && !p.hardWrite && !prefix() {
			// an error message may follow the part of the report that got through
			n := commonPrefix(g.out, p.out)
			rest := string(p.out[n:])
			if looksLikeReport(p.out[n:]) || !strings.Contains(rest, "rror") && (len(rest) > 8 || p.how == "exit" && p.exit == 0) {
				r.fail("wrong output", "%s: what reached standard output is not the start of the report: %s", ctx(), r.diff(g, p))
			}
		}
		return
	}
	if p.hardRead || p.hardWrite || p.otherHard || r.plan.Strange&4 != 0 {
		if p.how == "exit" && p.exit == 0 {
			if !correct() {
				r.fail("wrong report after an error", "%s: exit status 0 but the report is wrong: %s %s", ctx(), wrong(), r.diff(g, p))
			}
			return
		}
		if looksLikeReport(p.out) {
			n := 0
			if g != nil {
				n = commonPrefix(g.out, p.out)
			}
			if p.hardRead && !p.hardWrite || looksLikeReport(p.out[n:]) {
				r.fail("report after an error", "%s: failed but printed a report: %q", ctx(), clip(string(p.out), 200))
			}
			return
		}
		if !message() {
			r.fail("no message", "%s: exit status %d without any message", ctx(), p.exit)
		}
		return
	}
	if p.exit != 0 {
		r.fail("failure", "%s: failed on a good dump: %q", ctx(), clip(lastLines(p.out)+lastLines(p.err), 300))
		return
	}
	if r.plan.TagRef != nil && parseArgs(p.args).html {
		if g := r.s.goldens[goldenKey(*r.plan.TagRef, fixArgs(pp.Args, 0))]; g != nil && g.bad == nil {
			_, a, _ := htmlChunks(string(g.out))
			_, b, e := htmlChunks(string(p.out))
			for i := 0; i < max(len(a), len(b)); i++ {
				if e != "" || i >= len(a) || i >= len(b) || a[i] != b[i] {
					x, y := "(none)", "(none)"
					if i < len(a) {
						x = a[i]
					}
					if i < len(b) {
						y = b[i]
					}
					r.fail("markup", "%s: text of the dump changes the HTML elements: element %d is %s instead of %s %s", ctx(), i, clip(y, 100), clip(x, 100), e)
					return
				}
			}
		}
	}
	if r.effort(p, d, ctx); r.res.Viol != nil {
		return
	}
	if !correct() {
		w := wrong()
		if w == "" {
			w = "differs from the report on a fresh copy: " + r.diff(g, p)
		}
		r.fail("wrong report", "%s: %s", ctx(), w)
	}
}

func lastLines(b []byte) string {
	s := string(b)
	if len(s) > 300 {
		s = "…" + s[len(s)-300:]
	}
	return s
}

func goldenKey(spec DumpSpec, args []string) string {
	spec.Mtime = 0
	b, _ := json.Marshal(spec)
	return string(b) + "\x00" + strings.Join(canonical(args), "\x00")
}

func (r *runner) diff(g *golden, p *Proc) string {
	if g == nil {
		return ""
	}
	n := commonPrefix(g.out, p.out)
	a, b := g.out[n:], p.out[n:]
	return fmt.Sprintf("at byte %d: %q instead of %q", n, clip(string(b), 80), clip(string(a), 80))
}

// leftovers: what a process that ended by itself leaves in the file system.
func (r *runner) leftovers(ps []*Proc) {
	k := r.k
	for _, p := range ps {
		if p.how != "exit" || p.cleanupFaulted || p.hardWrite && p.hardWriteLasting() {
			continue
		}
		var names []string
		for path := range p.created {
			names = append(names, path)
		}
		sort.Strings(names)
		for _, path := range names {
			if k.fs.find(path) == nil {
				continue
			}
			ok := false
			for _, d := range k.dumpDirs {
				base := k.fullPath(d, k.dumpName+".db")
				if path == base || strings.HasPrefix(path, base+"/") {
					ok = true
				}
			}
			if !ok {
				r.fail("leftover", "`neojhat %s` (exit %d) left %s behind", clip(strings.Join(p.args, " "), 200), p.exit, path)
				return
			}
		}
	}
}

// indexFiles counts what is in the index directory, and it itself.
func (r *runner) indexFiles() int {
	n := 0
	for _, d := range r.k.dumpDirs {
		top := r.k.fullPath(d, r.k.dumpName+".db")
		r.k.fs.walk(func(path string, _ *inode) {
			if path == top || strings.HasPrefix(path, top+"/") {
				n++
			}
		})
	}
	return n
}

// piledUp: commands that end by themselves do not fill the index directory.
func (r *runner) piledUp(ps []*Proc, st *Step) {
	now := r.indexFiles()
	p := ps[0]
	if len(ps) > 1 || len(r.swaps) > 0 || r.curDump < 0 || r.plan.Durable || p.dumpChanged ||
		p.how != "exit" || p.cleanupFaulted || p.hardWrite && p.hardWriteLasting() {
		r.base, r.settled = now, -1
		return
	}
	if a := parseArgs(p.args); a.usage || a.hprof != r.lay.arg {
		return // it does not get to the dump, and what it may change is checked elsewhere
	}
	cmd := strings.Join(p.args, " ")
	d := r.dumps[r.curDump]
	if p.exit == 0 && d.class == "valid" && !p.hardRead && !p.hardWrite {
		if g := r.s.goldens[goldenKey(d.spec, p.args)]; g != nil && g.bad == nil && g.exit == 0 && now > r.base+g.files {
			r.fail("index directory fills up", "`neojhat %s`: there are %d entries in the index directory, %d before the last kill or replacement, and an index has %d", cmd, now, r.base, g.files)
			return
		}
	}
	if p.hardRead || p.hardWrite {
		r.settled = -1
		return
	}
	if r.settled >= 0 && now > r.settled {
		r.fail("index directory fills up", "`neojhat %s` (exit %d): there are %d entries in the index directory, %d after the command before it on the same dump", cmd, p.exit, now, r.settled)
		return
	}
	r.settled = now
}

func (p *Proc) hardWriteLasting() bool {
	for _, f := range p.faults {
		if f.N != 0 {
			return true
		}
	}
	return false
}

var pctRe = regexp.MustCompile(`([^\s%:]+)% ?\[([^\]]*)\]`)

// progress checks the progress display.
func (r *runner) progress(p *Proc, pp *ProcPlan, ctx func() string) {
	if len(p.err) == 0 {
		return
	}
	inter := !parseArgs(p.args).quiet
	lossy := p.hardErr || p.how == "kill" || pp.Benign.Short > 0
	for _, f := range pp.Faults {
		if f.Kind == "short" {
			lossy = true
		}
	}
	if !inter && strings.Contains(string(p.err), "▮") {
		r.fail("progress not asked for", "%s: progress display in non-interactive mode", ctx())
		return
	}
	if lossy {
		// What arrived is not what was written: digits and cells of
		// different lines may have run together.
		return
	}
	last := -1.0
	width := -1
	for _, m := range pctRe.FindAllStringSubmatch(string(p.err), -1) {
		v, err := strconv.ParseFloat(m[1], 64)
		if err != nil || !(v >= 0 && v <= 100) {
			r.fail("progress out of range", "%s: progress display shows %q", ctx(), clip(m[0], 100))
			return
		}
		if v < last {
			r.fail("progress goes backwards", "%s: progress display shows %v%% after %v%%", ctx(), v, last)
			return
		}
		last = v
		full, n := strings.Count(m[2], "▮"), len([]rune(m[2]))
		if width >= 0 && n != width {
			r.fail("progress bar length", "%s: the progress bar is %d and then %d cells long", ctx(), width, n)
			return
		}
		width = n
		// the percentage may be rounded, the bar too
		if want := v / 100 * float64(n); float64(full) > want+1.6 || float64(full) < want-1.6 {
			r.fail("progress bar", "%s: %d of %d cells at %v%%", ctx(), full, n, v)
			return
		}
		if !inter {
			r.fail("progress not asked for", "%s: progress display in non-interactive mode", ctx())
			return
		}
	}
	if d := r.dumps[max(0, r.curDump)]; d.class == "valid" && !p.dumpChanged && len(r.swaps) == 0 {
		// what is shown is the part of the dump that has been read; it may differ
		// by a record or buffer
		slack := int64(256 << 10)
		for _, n := range append(d.spec.Giant, d.spec.GiantObj...) {
			slack = max(slack, n+256<<10)
		}
		before := int64(0)
		for _, e := range p.ev {
			if e.fd != 2 {
				continue
			}
			m := pctRe.FindStringSubmatch(e.data)
			if m == nil {
				continue
			}
			v, _ := strconv.ParseFloat(m[1], 64)
			share := func(n int64) float64 { return 100 * float64(n) / float64(d.size) }
			if v > share(e.dump+slack)+1.01 {
				r.fail("progress ahead of the work", "%s: progress display shows %v%% when %d of %d bytes have been read", ctx(), v, e.dump, d.size)
				return
			}
			if v < share(before-slack)-1.01 {
				r.fail("progress behind the work", "%s: progress display shows %v%% when %d of %d bytes have been read", ctx(), v, before, d.size)
				return
			}
			before = e.dump
			r.k.stats["judged: progress line"]++
		}
	}
	if p.how == "exit" {
		if l := termLast(p.err); strings.Contains(l, "%") || strings.Contains(l, "▯") {
			r.fail("progress not erased", "%s: the last progress line stays on the terminal: %q", ctx(), clip(l, 100))
			return
		}
	}
	out := false
	for _, e := range p.ev {
		if e.fd == 1 && len(e.data) > 0 {
			out = true
		}
		if e.fd == 2 && out && strings.Contains(e.data, "%") && p.how == "exit" {
			r.fail("progress after the report", "%s: the progress display goes on after the report has begun", ctx())
			return
		}
	}
}

// termLast is what a terminal shows on the line of the cursor.
func termLast(b []byte) string {
	var line []rune
	cur := 0
	s := string(b)
	for len(s) > 0 {
		switch {
		case strings.HasPrefix(s, "\x1b[2K"):
			line = nil
			s = s[4:]
			continue
		case strings.HasPrefix(s, "\x1b[K"):
			line = line[:min(cur, len(line))]
			s = s[3:]
			continue
		case s[0] == '\r':
			cur = 0
			s = s[1:]
			continue
		case s[0] == '\n':
			line, cur = nil, 0
			s = s[1:]
			continue
		}
		c, n := utf8.DecodeRuneInString(s)
		for len(line) <= cur {
			line = append(line, ' ')
		}
		line[cur] = c
		cur++
		s = s[n:]
	}
	return string(line)
}
