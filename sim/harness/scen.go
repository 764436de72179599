package zzverifsim

import (
	"fmt"
	"sort"
	"strings"
)

// Scenarios: for each property, how histories and faults are drawn. A batch
// is a small family of plans around the same dumps; batch n of property P and
// seed S is a pure function of (P, S, n).

type batch struct {
	s        *Sim
	r        *Rng
	prop     string
	seed     uint64
	n        int
	thorough bool
	emit     func(*Plan) *Result // nil result: stop
	stop     bool
}

func newBatch(s *Sim, prop string, seed uint64, n int, thorough bool) *batch {
	return &batch{s: s, r: newRng(seed, hashStr(prop), uint64(n)), prop: prop, seed: seed, n: n, thorough: thorough}
}

func (b *batch) run(p *Plan) *Result {
	if b.stop {
		return nil
	}
	p.Prop = b.prop
	if p.Seed == 0 {
		p.Seed = b.r.u64()>>1 | 1
	}
	res := b.emit(p)
	if res == nil || res.Viol != nil {
		b.stop = true
		return nil
	}
	return res
}

// ---- building blocks --------------------------------------------------------

func (b *batch) spec(size int) DumpSpec {
	r := b.r
	s := DumpSpec{Seed: r.u64() >> 1, IdSize: pick(r, 4, 8, 8), IDBase: r.n(5)}
	m := []int{1, 4, 12}[size]
	s.Threads = r.n(2*m + 2)
	s.Frames = r.n(3 + m)
	s.Locals = r.n(3 + m)
	s.Classes = 1 + r.n(4*m)
	s.Depth = r.n(3 + m)
	s.Objs = r.n(6*m + 1)
	s.ObjArrs = r.n(3*m + 1)
	s.PrimArrs = r.n(3*m + 1)
	s.ElemMax = pick(r, 0, 3, 20*m)
	s.Props = r.n(4*m + 1)
	s.Table = pick(r, 1, 2, 16, 64)
	s.Tree = r.chance(300)
	s.Fwd = r.chance(200)
	s.Segs = 1 + r.n(1+2*m)
	s.ZeroLen = r.chance(150)
	s.Late = r.chance(250)
	s.Mixed = r.chance(350)
	s.Grouped = r.chance(200)
	s.Text = pick(r, 0, 0, 1, 2, 3)
	s.Ties = r.chance(150)
	s.Shadow = r.chance(150)
	s.FileSz = r.chance(300)
	s.AllLocal = r.chance(100)
	s.UnsupAt = r.n(2)
	s.Wild = r.chance(300)
	s.Same = r.chance(300)
	if r.chance(200) {
		s.IDBase = 3
	}
	if r.chance(250) {
		s.Tids = 1
	}
	s.Mtime = int64(r.n(1000000))
	if r.chance(250) {
		s.Traces = r.in(1, 6)
	}
	s.Shared = r.chance(200)
	return s
}

func (b *batch) small() DumpSpec { return b.spec(0) }

func (b *batch) path() int {
	if b.r.chance(150) {
		return b.r.n(len(layouts))
	}
	return 0
}

func (b *batch) cmd(which string) []string {
	r := b.r
	if which == "" {
		which = pick(r, "threads", "summary", "objects")
	}
	a := []string{which}
	if r.chance(500) {
		a = append(a, "--hprof=@")
	} else {
		a = append(a, "--hprof", "@")
	}
	switch which {
	case "threads":
		if r.chance(700) {
			a = append(a, "--local-vars")
		}
	case "summary":
		if r.chance(600) {
			a = append(a, "--all-props")
		}
	case "objects":
		if r.chance(600) {
			a = append(a, "--sort-by", pick(r, "count", "size"))
		}
	}
	switch r.n(3) {
	case 0:
		a = append(a, "--output", "html")
	case 1:
		a = append(a, "--no-color")
	}
	if r.chance(500) {
		a = append(a, "--non-interactive")
	}
	return a
}

func quiet(a []string) []string {
	for _, x := range a {
		if x == "--non-interactive" {
			return a
		}
	}
	return append(append([]string(nil), a...), "--non-interactive")
}

func interactiveArgs(a []string) []string { return stripInteractive(a) }

func (b *batch) benign(p *ProcPlan) {
	r := b.r
	switch r.n(4) {
	case 0:
		p.Benign.Short = r.n(400)
	case 1:
		p.Benign.Short = r.n(1000)
		p.Benign.Eintr = r.n(300)
	case 2:
		p.Benign.Eintr = r.n(300)
	}
	b.latency(p)
	if r.chance(100) { // the wall clock jumps
		p.Faults = append(p.Faults, Fault{At: r.in(1, 400), Kind: "jump", Arg: r.in(1, 100000000) * pick(r, -1, 1)})
	}
}

func (b *batch) latency(p *ProcPlan) {
	r := b.r
	if r.chance(400) {
		p.Lat.Base = pick(r, int64(100), 10000, 1000000, 20000000)
		if r.chance(300) {
			p.Lat.PTail = r.n(50)
			p.Lat.Tail = int64(r.n(500000000))
		}
		if r.chance(300) {
			p.Lat.Term = pick(r, int64(100000), 50000000, 300000000)
		}
	}
	if r.chance(200) {
		b.preempt(p)
	}
}

// preempt makes threads lose the processor between system calls too.
func (b *batch) preempt(p *ProcPlan) {
	r := b.r
	p.Lat.PPre = pick(r, 30, 200, 600)
	p.Lat.Pre = pick(r, int64(1000), 1000000, 40000000)
}

func run1(p ProcPlan) Step       { return Step{Op: "run", Procs: []ProcPlan{p}} }
func clean(a []string) Step      { return run1(ProcPlan{Args: quiet(a)}) }
func put(i int) Step             { return Step{Op: "put", Dump: i} }
func putAt(i int, ns int64) Step { return Step{Op: "put", Dump: i, N: ns} }

// trace runs steps without faults and returns the calls of the last process.
func (b *batch) trace(dumps []DumpSpec, path int, steps ...Step) []OpRec {
	old := b.s.traces
	b.s.traces = true
	defer func() { b.s.traces = old }()
	res := b.s.Run(&Plan{Prop: b.prop, Seed: 7, Dumps: dumps, Path: path, Steps: steps})
	if res.Viol != nil || len(res.Trace) == 0 {
		// report it as a plan of its own
		b.run(&Plan{Seed: 7, Label: "without faults", Dumps: dumps, Path: path, Steps: steps})
		b.stop = true
		return nil
	}
	return res.Trace[len(res.Trace)-1]
}

// positions picks up to n calls of a trace that satisfy f, in random order.
func (b *batch) positions(tr []OpRec, n int, f func(OpRec) bool) []int {
	var ix []int
	for i, o := range tr {
		if f(o) {
			ix = append(ix, i+1)
		}
	}
	for i := range ix {
		j := i + b.r.n(len(ix)-i)
		ix[i], ix[j] = ix[j], ix[i]
	}
	if len(ix) > n {
		ix = ix[:n]
	}
	sort.Ints(ix)
	return ix
}

func (b *batch) scale(quick, thorough int) int {
	if b.thorough {
		return thorough
	}
	return quick
}

// ---- the properties ---------------------------------------------------------

func (b *batch) exec() {
	switch b.prop {
	case "C01":
		b.fidelity("threads")
	case "C02":
		b.fidelity("objects")
	case "C03":
		b.fidelity("summary")
	case "C04":
		b.lookup()
	case "C05":
		b.histories()
	case "C06":
		b.truncated()
	case "C07":
		b.kills()
	case "C08":
		b.powerLoss()
	case "C09":
		b.writeFaults()
	case "C10":
		b.readFaults()
	case "C11":
		b.stdoutFaults()
	case "C12":
		b.progressDisplay()
	case "C13":
		b.concurrent()
	case "C14":
		b.corrupted()
	case "C15":
		b.containment()
	case "C16":
		b.unsupported()
	case "C17":
		b.replaced()
	case "C18":
		b.presentation()
	case "C19":
		b.huge()
	case "C21":
		b.work()
	case "C22":
		b.commandLine()
	default:
		panic("no scenario for " + b.prop)
	}
}

func (b *batch) fidelity(which string) {
	r := b.r
	s := b.spec(pick(r, 0, 1, 1, 2))
	switch which {
	case "threads":
		s.Threads = max(s.Threads, r.n(5))
		s.Props = r.n(3)
		if r.chance(50) {
			s.Threads = 0
		}
		if r.chance(60) { // deep stacks
			s.Threads = 1
			s.Frames = pick(r, r.in(200, 800), r.in(200, 800), r.in(1000, 2500))
			s.Locals = r.in(1, 40)
			s.Tids = 0
		}
		if r.chance(80) {
			s.Threads, s.Frames = r.in(20, 120), r.n(3)
		} else if r.chance(80) { // thread ids that are not unique
			s.Tids = 2
			s.Threads = r.in(2, 5)
		}
	case "objects":
		s.Threads = r.n(3)
		s.Props = r.n(3)
		s.Bare = r.chance(300)
		s.Ties = r.chance(350)
		s.Objs += r.n(30)
		if r.chance(250) { // shares that are whole percentages
			s.Exact = pick(r, 100, 100, 200, 50, 1000, r.in(1, 300))
			s.Classes = r.in(2, 12)
			s.Bare = true
			if r.chance(700) {
				s.ObjArrs, s.PrimArrs = 0, 0
			}
		}
		if r.chance(40) {
			s.Classes = r.in(50, 250)
		}
	case "summary":
		s.Threads = r.n(3)
		s.Props = r.n(40)
		if r.chance(60) {
			s.Props, s.Table = r.in(200, 1500), pick(r, 16, 64, 512)
		}
		s.Tree = r.chance(500)
		s.Fwd = r.chance(400)
		s.Text = pick(r, 0, 1, 2, 2, 3)
	}
	if r.chance(100) {
		s.ElemMax = 3000
	}
	for i := 0; i < 3 && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), Steps: []Step{put(0)}}
		n := r.in(1, 3)
		for j := 0; j < n; j++ {
			w := which
			if j == 0 && n > 1 && !s.Bare && r.chance(300) {
				w = ""
			}
			pp := ProcPlan{Args: b.cmd(w)}
			b.benign(&pp)
			p.Steps = append(p.Steps, run1(pp))
		}
		b.run(p)
	}
}

func (b *batch) lookup() {
	r := b.r
	if b.n%8 == 0 || b.thorough && b.n%3 == 0 {
		// around the boundaries of the index batches
		s := DumpSpec{Seed: r.u64() >> 1, IdSize: pick(r, 4, 8), IDBase: r.n(6), Threads: 2, Frames: 3, Locals: 2, Classes: 2, Segs: r.in(1, 4), Grouped: r.chance(500)}
		n := pick(r, 999990, 999999, 1000000, 1000001, 1000010, 1100000)
		if b.thorough && r.chance(400) {
			n = pick(r, 2000000, 2000001, 2000002, 2000003, 3000010)
		}
		kind := b.n / 8 % 3
		s.Many[kind] = n
		for k := 0; k < 3; k++ {
			if k != kind {
				s.Many[k] = r.n(30)
			}
		}
		s.ManyAt = []int{0, 1, n / 2, n - 1, n - 2, r.n(n), r.n(n)}
		for _, base := range []int{1000000, 2000000, 3000000} {
			for d := -60; d <= 2; d++ {
				if base+d >= 0 && base+d < n {
					s.ManyAt = append(s.ManyAt, base+d)
				}
			}
		}
		pp := ProcPlan{Args: []string{"threads", "--hprof=@", "--local-vars", "--no-color", "--non-interactive"}}
		if r.chance(300) {
			pp.Benign.Short = 50
		}
		b.run(&Plan{Dumps: []DumpSpec{s}, GC: true, Steps: []Step{put(0), run1(pp)}})
		return
	}
	if b.n%32 == 12 {
		// records behind the first 4 GiB
		s := b.spec(0)
		s.ZeroLen = r.chance(500)
		s.Giant = []int64{pick(r, int64(4)<<30-4096, 4<<30+64, 3<<30)}
		s.GiantObj = []int64{pick(r, int64(1)<<30, 2<<30+8)}
		s.Threads, s.Frames, s.AllLocal = r.in(1, 3), r.in(1, 4), true
		pp := ProcPlan{Args: []string{"threads", "--hprof=@", "--local-vars", "--no-color", "--non-interactive"}}
		b.run(&Plan{Dumps: []DumpSpec{s}, GC: true, Steps: []Step{put(0), run1(pp)}})
		return
	}
	if b.n%5 == 1 {
		// indexes of some thousand records
		s := DumpSpec{Seed: r.u64() >> 1, IdSize: pick(r, 4, 8), IDBase: r.n(6), Threads: 2, Frames: 3, Locals: 2, Classes: 2, Segs: r.in(1, 4), Grouped: r.chance(500), ZeroLen: r.chance(200)}
		for k := 0; k < 3; k++ {
			s.Many[k] = pick(r, r.n(20), r.in(200, 5000), r.in(-3, 3)+pick(r, 256, 512, 1024, 2048, 4096, 8192))
		}
		for i := 0; i < 60; i++ {
			s.ManyAt = append(s.ManyAt, r.n(3*8200))
		}
		for k := 0; k < 3; k++ { // the first and the last ones
			for d := -3; d < 3; d++ {
				s.ManyAt = append(s.ManyAt, -1-k-3*(d+3))
			}
		}
		s.Absent = r.chance(200)
		s.AbsentAt = r.n(40000)
		pp := ProcPlan{Args: []string{"threads", "--hprof=@", "--local-vars", "--no-color", "--non-interactive"}}
		b.benign(&pp)
		b.run(&Plan{Dumps: []DumpSpec{s}, Steps: []Step{put(0), run1(pp)}})
		return
	}
	s := b.spec(pick(r, 0, 0, 1, 2))
	s.Bare = false
	s.Threads = r.in(1, 3)
	s.Frames = r.in(1, 4)
	s.AllLocal = r.chance(800)
	switch r.n(6) { // some kinds missing or nearly so
	case 0:
		s.Objs, s.ObjArrs, s.PrimArrs = 0, 0, 0
	case 1:
		s.ObjArrs = r.n(2)
	case 2:
		s.ObjArrs = 60
	}
	s.Absent = r.chance(300)
	s.AbsentAt = r.n(64)
	p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), Steps: []Step{put(0)}}
	for i := 0; i < 2; i++ {
		pp := ProcPlan{Args: []string{"threads", "--hprof=@", "--local-vars"}}
		if r.chance(500) {
			pp.Args = append(pp.Args, "--no-color", "--non-interactive")
		}
		b.benign(&pp)
		p.Steps = append(p.Steps, run1(pp))
	}
	b.run(p)
}

func (b *batch) histories() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	s.Ties = r.chance(500)
	if r.chance(300) { // thread ids that are not unique
		s.Tids = 2
		s.Threads = max(2, min(s.Threads, 5))
	}
	for i := 0; i < 3 && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), Bytes: true, Steps: []Step{put(0)}}
		ro := r.in(1, 12) // from then on nothing can be written
		var seen [][]string
		for j := r.in(2, 7); j > 0; j-- {
			a := b.cmd("")
			if len(seen) > 0 && r.chance(400) {
				a = seen[r.n(len(seen))]
			}
			seen = append(seen, a)
			pp := ProcPlan{Args: a}
			b.latency(&pp)
			if r.chance(200) {
				b.benign(&pp)
			}
			p.Steps = append(p.Steps, run1(pp))
			if ro--; ro == 0 {
				p.Steps = append(p.Steps, Step{Op: "ro"})
			}
			if r.chance(150) {
				p.Steps = append(p.Steps, Step{Op: "skew", N: int64(r.in(-100000, 100000))})
			}
			if r.chance(150) {
				p.Steps = append(p.Steps, Step{Op: "sleep", N: int64(r.n(100000))})
			}
		}
		b.run(p)
	}
}

// cutPoints picks places to cut a dump at.
func (b *batch) cutPoint(d *Dump) int64 {
	r := b.r
	var off int64
	switch r.n(6) {
	case 0:
		off = int64(r.n(40))
	case 1:
		off = d.endOff - int64(r.n(30)) + 1
	case 2, 3:
		off = int64(r.u64() % uint64(d.endOff+1))
	default:
		m := d.marks[r.n(len(d.marks))]
		off = m.off + int64(r.in(-2, m.n+9))
		if r.chance(100) { // whole blocks of the disk
			off = off / 4096 * 4096
		}
	}
	return min(max(0, off), d.endOff)
}

func (b *batch) truncated() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	d := b.s.dump(s)
	n := 12
	for i := 0; i < n && !b.stop; i++ {
		c := s
		c.Edits = []Edit{{Op: "cut", Off: b.cutPoint(d)}}
		if i == 0 {
			c.Edits[0].Off = d.endOff
		}
		p := &Plan{Dumps: []DumpSpec{c, s}, Path: b.path()}
		add := func() {
			pp := ProcPlan{Args: b.cmd("")}
			if r.chance(300) {
				b.benign(&pp)
			}
			p.Steps = append(p.Steps, run1(pp))
		}
		if r.chance(250) { // the whole dump was indexed before
			p.Steps = append(p.Steps, put(1))
			add()
		}
		p.Steps = append(p.Steps, put(0))
		for k := r.in(1, 3); k > 0; k-- {
			add()
		}
		if r.chance(100) {
			p.Steps = append(p.Steps, put(0))
			add()
		}
		if r.chance(800) {
			p.Steps = append(p.Steps, put(1))
			for k := r.in(1, 2); k > 0; k-- {
				add()
			}
		}
		b.run(p)
	}
}

func (b *batch) killFault(at int) Fault {
	f := Fault{At: at, Kind: "kill"}
	switch b.r.n(3) {
	case 0:
		f.Arg = -1
	case 1:
		f.Arg = 1000
	case 2:
		f.Arg = b.r.n(1000)
	}
	return f
}

func (b *batch) kills() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 0, 1))
	path := b.path()
	first := b.cmd("")
	tr := b.trace([]DumpSpec{s}, path, put(0), clean(first))
	if tr == nil {
		return
	}
	idx := func(o OpRec) bool { return o.T == tIndex || o.Op != oPread && o.Op != oRead && o.Op != oSeek }
	var at []int
	at = append(at, b.positions(tr, b.scale(14, 60), func(o OpRec) bool { return o.T == tIndex && o.Op != oPread && o.Op != oRead })...)
	at = append(at, b.positions(tr, b.scale(4, 12), idx)...)
	at = append(at, b.positions(tr, b.scale(3, 10), func(OpRec) bool { return true })...)
	for _, k := range at {
		if b.stop {
			return
		}
		for _, f := range b.killVariants(k, tr[k-1]) {
			p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: []Step{put(0)}}
			if r.chance(100) { // not the first run
				p.Steps = append(p.Steps, clean(b.cmd("")))
			}
			pp := ProcPlan{Args: quiet(first), Faults: []Fault{f}}
			if r.chance(200) {
				pp.Args = interactiveArgs(first)
				b.latency(&pp)
			}
			p.Steps = append(p.Steps, run1(pp))
			for r.chance(250) { // again and again
				p.Steps = append(p.Steps, run1(ProcPlan{Args: quiet(b.cmd("")), Faults: []Fault{b.killFault(r.in(1, len(tr)))}}))
			}
			if r.chance(200) {
				p.Steps = append(p.Steps, Step{Op: "skew", N: int64(r.in(-100000, 100000))})
			}
			for j := r.in(1, 2); j > 0; j-- {
				p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}))
			}
			b.run(p)
		}
	}
}

func (b *batch) killVariants(at int, o OpRec) []Fault {
	v := []Fault{{At: at, Kind: "kill", Arg: -1}}
	if o.Op == oWrite || o.Op == oPwrite {
		v = append(v, Fault{At: at, Kind: "kill", Arg: b.r.n(1000)})
	}
	if b.r.chance(400) {
		v = append(v, Fault{At: at, Kind: "kill", Arg: 1000})
	}
	return v
}

func (b *batch) powerLoss() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	path := b.path()
	first := quiet(b.cmd(""))
	tr := b.trace([]DumpSpec{s}, path, put(0), clean(first))
	if tr == nil {
		return
	}
	var at []int
	at = append(at, b.positions(tr, b.scale(8, 40), func(o OpRec) bool { return o.T == tIndex && o.Op != oPread && o.Op != oRead })...)
	at = append(at, b.positions(tr, 3, func(OpRec) bool { return true })...)
	for i := 0; i < b.scale(8, 24); i++ {
		at = append(at, 0)
	}
	for _, k := range at {
		if b.stop {
			return
		}
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Durable: true, Loose: r.chance(500), Steps: []Step{put(0)}}
		if r.chance(200) { // the index of another dump, which comes back at the end
			o := s
			o.Seed, o.Mtime = r.u64()>>1, s.Mtime+1+int64(r.n(1000))
			p.Dumps = append(p.Dumps, o)
			p.Steps = []Step{put(1), clean(b.cmd("")), put(0)}
		}
		pp := ProcPlan{Args: first}
		if k > 0 {
			pp.Faults = b.killVariants(k, tr[k-1])[:1]
			if r.chance(500) {
				pp.Faults = []Fault{b.killFault(k)}
			}
		}
		p.Steps = append(p.Steps, run1(pp))
		if k == 0 && r.chance(300) {
			p.Steps = append(p.Steps, clean(b.cmd("")))
		}
		p.Steps = append(p.Steps, Step{Op: "power"})
		for r.chance(350) {
			q := ProcPlan{Args: quiet(b.cmd(""))}
			if r.chance(700) {
				q.Faults = []Fault{b.killFault(r.in(1, len(tr)))}
			}
			p.Steps = append(p.Steps, run1(q), Step{Op: "power"})
		}
		for j := r.in(1, 3); j > 0; j-- {
			p.Steps = append(p.Steps, clean(b.cmd("")))
		}
		if r.chance(200) {
			p.Steps = append(p.Steps, Step{Op: "power"}, clean(b.cmd("")))
		}
		if len(p.Dumps) > 1 {
			p.Steps = append(p.Steps, put(1), clean(b.cmd("")))
		}
		b.run(p)
	}
}

func isWriteOp(o OpRec) bool {
	switch o.Op {
	case oCreate, oWrite, oPwrite, oFsync, oTruncate, oMkdir, oRename, oUnlink, oRmdir, oLink, oChmod, oUtimes:
		return o.T != tDump && o.T != tStdout && o.T != tStderr
	case oClose:
		return o.T == tIndex
	}
	return false
}

func (b *batch) writeErrno(o OpRec) string {
	switch o.Op {
	case oMkdir, oCreate, oRename, oUnlink, oRmdir, oLink:
		return pick(b.r, "ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE", "ENOMEM", "EPERM")
	}
	return pick(b.r, "ENOSPC", "EIO", "EDQUOT", "ENOSPC", "EFBIG")
}

func (b *batch) writeFaults() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	path := b.path()
	first := b.cmd("")
	tr := b.trace([]DumpSpec{s}, path, put(0), clean(first))
	if tr == nil {
		return
	}
	at := b.positions(tr, b.scale(20, 80), isWriteOp)
	for _, k := range at {
		for v := 0; v < 2 && !b.stop; v++ {
			f := Fault{At: k, Kind: b.writeErrno(tr[k-1])}
			if tr[k-1].Op == oWrite && r.chance(500) {
				f.Arg = r.in(1, 999)
			}
			switch r.n(4) {
			case 0:
				f.N, f.On, f.Only = -1, "ix", "w"
			case 1:
				f.N, f.On, f.Only = r.in(1, 4), "ix", pick(r, "w", "c")
			}
			// pages that could not be written get lost
			p := &Plan{Dumps: []DumpSpec{s}, Path: path, Durable: tr[k-1].Op == oFsync || r.chance(200), Steps: []Step{put(0)}}
			pp := ProcPlan{Args: quiet(first), Faults: []Fault{f}}
			if r.chance(300) {
				pp.Args = interactiveArgs(first)
				b.latency(&pp)
			}
			if r.chance(150) {
				pp.Faults = append(pp.Faults, Fault{At: k + r.in(1, 6), Kind: b.writeErrno(tr[k-1])})
			}
			if r.chance(100) {
				pp.Benign.Short = 500
			}
			p.Steps = append(p.Steps, run1(pp))
			if r.chance(200) {
				p.Steps = append(p.Steps, run1(pp))
			}
			for j := r.in(1, 2); j > 0; j-- {
				p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}))
			}
			b.run(p)
		}
	}
	if b.stop {
		return
	}
	if b.n%100 == 13 {
		b.bigBatches()
	}
	// a disk that is full after so many bytes
	total := int64(0)
	for _, o := range tr {
		if o.T == tIndex && o.Op == oWrite {
			total += int64(o.Len)
		}
	}
	for i := 0; i < 4 && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: []Step{put(0), {Op: "cap", N: int64(r.n(int(total) + 1))}}}
		p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}))
		if r.chance(400) {
			p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}))
		}
		p.Steps = append(p.Steps, Step{Op: "heal"}, run1(ProcPlan{Args: b.cmd("")}), clean(b.cmd("")))
		b.run(p)
	}
}

// bigBatches: an index of more than one batch, which is written in the middle
// of reading the dump.
func (b *batch) bigBatches() {
	r := b.r
	s := DumpSpec{Seed: r.u64() >> 1, IdSize: pick(r, 4, 8), IDBase: r.n(3), Threads: 1, Frames: 2, Locals: 2, Classes: 2, Segs: r.in(1, 4)}
	kind := r.n(3)
	n := pick(r, 1000001, 1000010, 1100000)
	s.Many[kind] = n
	s.ManyAt = []int{0, 1, n - 1, n - 2, 999999, 1000000, r.n(n), r.n(n)}
	s.Grouped = r.chance(500)
	a := []string{"threads", "--hprof=@", "--local-vars", "--no-color", "--non-interactive"}
	f := Fault{After: int64(pick(r, 1, 8000000, 15990000, 16000020, 17000000)), Kind: pick(r, "ENOSPC", "EIO", "EDQUOT", "EFBIG", "kill"), Arg: r.n(2) * r.n(1000)}
	p := &Plan{Dumps: []DumpSpec{s}, GC: true, Steps: []Step{put(0), run1(ProcPlan{Args: a, Faults: []Fault{f}}), run1(ProcPlan{Args: a})}}
	b.run(p)
}

func isReadOp(o OpRec) bool {
	if o.T == tStdout || o.T == tStderr {
		return false
	}
	switch o.Op {
	case oOpen, oRead, oPread, oSeek, oFstat, oStat, oGetdents:
		return true
	}
	return false
}

func (b *batch) readErrno(o OpRec) string {
	switch o.Op {
	case oOpen:
		return pick(b.r, "EIO", "EMFILE", "ENFILE", "EACCES", "ENOMEM", "ESTALE")
	case oStat, oFstat:
		return pick(b.r, "EIO", "EACCES", "ENOMEM", "ESTALE")
	}
	return pick(b.r, "EIO", "EIO", "ESTALE", "ENOMEM", "ETIMEDOUT", "EAGAIN")
}

func (b *batch) readFaults() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	if r.chance(400) {
		s.AllLocal = true
		s.Threads = max(1, s.Threads)
		s.Frames = max(1, s.Frames)
	}
	path := b.path()
	first := b.cmd("")
	if r.chance(400) {
		first = []string{"threads", "--hprof=@", "--local-vars", "--no-color"}
	}
	later := r.chance(500)
	pre := []Step{put(0)}
	if later {
		pre = append(pre, clean(b.cmd("")))
	}
	tr := b.trace([]DumpSpec{s}, path, append(append([]Step(nil), pre...), clean(first))...)
	if tr == nil {
		return
	}
	at := b.positions(tr, b.scale(20, 100), isReadOp)
	for _, k := range at {
		if b.stop {
			return
		}
		f := Fault{At: k, Kind: b.readErrno(tr[k-1])}
		if (tr[k-1].Op == oRead || tr[k-1].Op == oPread) && r.chance(400) {
			f.Arg = r.in(1, 999)
		}
		switch r.n(4) {
		case 0:
			f.N, f.On, f.Only = -1, pick(r, "d", "i", "di"), "r"
		case 1:
			f.N, f.On, f.Only = r.in(1, 5), pick(r, "d", "i", "di"), "r"
		}
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: append([]Step(nil), pre...)}
		pp := ProcPlan{Args: quiet(first), Faults: []Fault{f}}
		if r.chance(200) {
			pp.Args = interactiveArgs(first)
			b.latency(&pp)
		}
		p.Steps = append(p.Steps, run1(pp))
		for j := r.in(1, 2); j > 0; j-- {
			p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}))
		}
		b.run(p)
	}
	// a sector that cannot be read once, in every field of the dump
	d := b.s.dump(s)
	for i := b.scale(10, 60); i > 0 && !b.stop; i-- {
		m := d.marks[r.n(len(d.marks))]
		off := max(0, m.off+int64(r.n(m.n+9)))
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: append(append([]Step(nil), pre...), Step{Op: "bad", N: off, M: 1, Once: true})}
		p.Steps = append(p.Steps, run1(ProcPlan{Args: first}), run1(ProcPlan{Args: first}))
		b.run(p)
	}
	// bad sectors in the dump
	for i := 0; i < 3 && !b.stop; i++ {
		off := int64(r.u64() % uint64(d.size))
		if r.chance(500) {
			off = off / 512 * 512
		}
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: append(append([]Step(nil), pre...), Step{Op: "bad", N: off, M: int64(pick(r, 1, 512, 4096))})}
		p.Steps = append(p.Steps, run1(ProcPlan{Args: b.cmd("")}), run1(ProcPlan{Args: b.cmd("")}), Step{Op: "heal"}, clean(b.cmd("")), clean(b.cmd("")))
		b.run(p)
	}
}

func (b *batch) stdoutFaults() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1, 2))
	s.Bare = false
	path := b.path()
	a := b.cmd("")
	pre := []Step{put(0), clean(b.cmd(""))}
	tr := b.trace([]DumpSpec{s}, path, append(append([]Step(nil), pre...), clean(a))...)
	if tr == nil {
		return
	}
	isOut := func(o OpRec) bool { return o.Op == oWrite && o.T == tStdout }
	at := b.positions(tr, b.scale(12, 60), isOut)
	if all := b.positions(tr, 1<<30, isOut); len(all) > 0 {
		at = append(at, all[0], all[len(all)-1])
	}
	for _, k := range at {
		if b.stop {
			return
		}
		f := Fault{At: k, Kind: pick(r, "ENOSPC", "ENOSPC", "EIO", "EPIPE", "EDQUOT", "EFBIG")}
		if r.chance(500) {
			f.Arg = r.in(1, 999)
		}
		if r.chance(500) {
			f.N, f.On = pick(r, -1, -1, 1, 3), "o"
		}
		if r.chance(200) {
			f = Fault{At: k, Kind: "short", Arg: r.n(1000), N: pick(r, 0, -1), On: "o"}
		}
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: append([]Step(nil), pre...)}
		pp := ProcPlan{Args: quiet(a), Faults: []Fault{f}}
		if r.chance(100) {
			pp.Args = interactiveArgs(a)
		}
		p.Steps = append(p.Steps, run1(pp))
		if r.chance(150) {
			p.Steps = append(p.Steps, clean(b.cmd("")))
		}
		b.run(p)
	}
	// the first run writes its report to a bad output as well
	tr2 := b.trace([]DumpSpec{s}, path, put(0), clean(a))
	for _, k := range b.positions(tr2, 3, isOut) {
		if b.stop {
			return
		}
		f := Fault{At: k, Kind: pick(r, "ENOSPC", "EIO", "EPIPE"), Arg: r.n(1000), N: -1, On: "o"}
		b.run(&Plan{Dumps: []DumpSpec{s}, Path: path, Steps: []Step{put(0), run1(ProcPlan{Args: quiet(a), Faults: []Fault{f}}), clean(a)}})
	}
}

func (b *batch) progressDisplay() {
	r := b.r
	s := b.spec(pick(r, 1, 1, 2, 0))
	s.PrimArrs += 5
	s.ElemMax = pick(r, 500, 3000, 6000)
	if r.chance(200) { // a few megabytes
		s.Bare = false
		s.AllLocal = false
		s.Many[2], s.ManyLen = r.in(1500, 9000), 400
	}
	d := b.s.dump(s)
	for i := 0; i < 6 && !b.stop; i++ {
		dumps := []DumpSpec{s}
		pp := ProcPlan{Args: interactiveArgs(b.cmd(""))}
		// the whole run takes from nothing to a minute
		pp.Lat.Base = pick(r, int64(0), 100000, 5000000, 30000000, 125000000)
		if r.chance(400) {
			pp.Lat.Term = pick(r, int64(1000000), 100000000, 400000000)
		}
		if r.chance(300) {
			pp.Lat.PTail = r.n(100)
			pp.Lat.Tail = int64(r.n(400000000))
		}
		if r.chance(300) {
			pp.Benign.Short = r.n(500)
			pp.Benign.Eintr = r.n(200)
		}
		if r.chance(500) {
			b.preempt(&pp)
		}
		for k := r.n(3); k > 0; k-- {
			pp.Faults = append(pp.Faults, Fault{At: r.in(1, 40), Kind: "stall", Arg: r.n(5000)})
		}
		var after []Step
		switch r.n(8) {
		case 0: // cut short
			dumps[0].Edits = []Edit{{Op: "cut", Off: b.cutPoint(d)}}
		case 1: // nothing at all
			dumps[0].Edits = []Edit{{Op: "cut", Off: int64(r.n(2) * r.n(31))}}
		case 2: // a corrupted length
			dumps[0].Edits = b.corruption(d, 1)
		case 3: // still being written
			dumps[0].Edits = []Edit{{Op: "cut", Off: b.cutPoint(d)}}
			dumps = append(dumps, s)
			pp.GrowTo = 2
			pp.Faults = append(pp.Faults, Fault{At: r.in(2, 30), Kind: "grow"})
			after = []Step{put(1), clean(b.cmd(""))}
		case 4: // a bad terminal
			pp.Faults = append(pp.Faults, Fault{At: r.in(8, 40), N: pick(r, 1, 5, -1), On: "e", Kind: pick(r, "EIO", "ENOSPC", "EPIPE", "EAGAIN")})
		case 5: // fails
			pp.Faults = append(pp.Faults, Fault{At: r.in(5, 60), N: pick(r, 0, 3), On: "di", Kind: "EIO"})
		}
		p := &Plan{Dumps: dumps, Path: b.path(), Steps: append([]Step{put(0), run1(pp)}, after...)}
		if r.chance(200) {
			p.Steps = append(p.Steps, run1(ProcPlan{Args: interactiveArgs(b.cmd("")), Lat: pp.Lat}))
		}
		b.run(p)
	}
}

func (b *batch) concurrent() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 0, 1))
	first := quiet(b.cmd(""))
	path := b.path()
	tr := b.trace([]DumpSpec{s}, path, put(0), clean(first))
	if tr == nil {
		return
	}
	for i := 0; i < b.scale(10, 20) && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: []Step{put(0)}}
		if r.chance(150) {
			p.Steps = append(p.Steps, clean(b.cmd("")))
		}
		if r.chance(150) { // what a killed first run left behind
			p.Steps = append(p.Steps, run1(ProcPlan{Args: first, Faults: []Fault{b.killFault(r.in(1, len(tr)))}}))
		}
		n := r.in(2, 4)
		base := pick(r, int64(50), 1000, 100000)
		var ps []ProcPlan
		window := int(base) * len(tr) * timeUnit / 2
		for j := 0; j < n; j++ {
			pp := ProcPlan{Args: b.cmd("")}
			pp.Lat.Base = base
			if r.chance(300) {
				pp.Lat.Base = base * int64(r.in(1, 6))
			}
			switch r.n(3) {
			case 0:
				pp.Start = int64(r.n(window + 1))
			case 1:
				pp.Start = int64(r.n(window/8 + 1))
			}
			if r.chance(400) {
				pp.Lat.PTail = r.n(100)
				pp.Lat.Tail = base * int64(r.in(1, 100))
			}
			if r.chance(250) {
				pp.Faults = append(pp.Faults, Fault{At: r.in(1, len(tr)), Kind: "stall", Arg: r.n(3000)})
			}
			if r.chance(120) && j < n-1 {
				pp.Faults = append(pp.Faults, b.killFault(r.in(1, len(tr))))
			}
			if r.chance(100) {
				pp.Benign.Short = 200
			}
			if r.chance(200) {
				b.preempt(&pp)
			}
			ps = append(ps, pp)
		}
		p.Steps = append(p.Steps, Step{Op: "run", Procs: ps}, clean(b.cmd("")))
		if r.chance(300) {
			p.Steps = append(p.Steps, clean(b.cmd("")))
		}
		b.run(p)
	}
}

// corruption draws n changes of the bytes of a dump.
func (b *batch) corruption(d *Dump, n int) []Edit {
	r := b.r
	var ed []Edit
	for i := 0; i < n; i++ {
		off := int64(r.u64() % uint64(d.size))
		var m mark
		if r.chance(700) && len(d.marks) > 0 {
			m = d.marks[r.n(len(d.marks))]
			off = m.off
		}
		switch r.n(9) {
		case 0: // flip a bit
			ed = append(ed, Edit{Op: "xor", Off: off, Data: []byte{1 << r.n(8)}})
		case 1, 2, 3: // another value in a field
			w := m.n
			if w == 0 {
				w = pick(r, 1, 2, 4, 8)
			}
			v := make([]byte, w)
			switch r.n(6) {
			case 0:
				for j := range v {
					v[j] = 0xff
				}
			case 1:
				v[0] = 0x7f
				for j := 1; j < w; j++ {
					v[j] = 0xff
				}
			case 2:
				v[w-1] = byte(r.n(256))
			case 3:
				for j := range v {
					v[j] = byte(r.u64())
				}
			case 4: // as another field of the kind
				for t := 0; t < 50; t++ {
					x := d.marks[r.n(len(d.marks))]
					if x.kind == m.kind && x.n == w && x.off != m.off {
						d.file.readAt(v, x.off)
						break
					}
				}
			}
			ed = append(ed, Edit{Op: "set", Off: off, Data: v})
		case 4: // lost bytes
			ed = append(ed, Edit{Op: "del", Off: off, Len: int64(pick(r, 1, 2, 4, 8, 16, 512))})
		case 5: // extra bytes
			v := make([]byte, pick(r, 1, 4, 16, 512))
			for j := range v {
				v[j] = byte(r.u64())
			}
			ed = append(ed, Edit{Op: "ins", Off: off, Data: v})
		case 6: // a sector of zeros
			ed = append(ed, Edit{Op: "set", Off: off / 512 * 512, Data: make([]byte, pick(r, 512, 4096))})
		case 7: // something twice
			ed = append(ed, Edit{Op: "dup", Off: off, Len: int64(r.in(1, 600))})
		case 8: // a sector of something else
			v := make([]byte, 512)
			d.file.readAt(v, int64(r.u64()%uint64(d.size)))
			ed = append(ed, Edit{Op: "set", Off: off / 512 * 512, Data: v})
		}
	}
	return ed
}

func (b *batch) corrupted() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	d := b.s.dump(s)
	for i := 0; i < 12 && !b.stop; i++ {
		c := s
		c.Edits = b.corruption(d, pick(r, 1, 1, 1, 2, 5))
		if r.chance(50) {
			v := make([]byte, r.n(300))
			for j := range v {
				v[j] = byte(r.u64())
			}
			h := []byte("JAVA PROFILE 1.0.2\x00\x00\x00\x00\x08\x00\x00\x01\x80\x00\x00\x00\x00")
			if r.chance(700) {
				v = append(h, v...)
			}
			c.Edits = []Edit{{Op: "raw", Data: v}}
		} else if r.chance(150) {
			c.Odd = pick(r, 50, 200, 1000)
			if r.chance(700) {
				c.Edits = nil
			}
		}
		p := &Plan{Dumps: []DumpSpec{c, s}, Path: b.path(), Steps: []Step{put(0)}}
		if r.chance(250) { // bits rot after the dump was indexed: neither size nor time tells
			var ed []Edit
			for _, e := range b.corruption(d, pick(r, 1, 2, 5, 30)) {
				if (e.Op == "set" || e.Op == "xor") && e.Off+int64(len(e.Data)) <= d.size {
					ed = append(ed, e)
				}
			}
			if len(ed) > 0 {
				c.Edits = ed
				p.Dumps[0] = c
				p.Steps = []Step{put(1), clean(b.cmd("")), put(0)}
			}
		}
		for _, w := range []string{"threads", "summary", "objects"} {
			if r.chance(800) {
				p.Steps = append(p.Steps, clean(b.cmd(w)))
			}
		}
		if r.chance(300) {
			pp := ProcPlan{Args: interactiveArgs(b.cmd(""))}
			b.benign(&pp)
			p.Steps = append(p.Steps, run1(pp))
		}
		if r.chance(300) {
			p.Steps = append(p.Steps, putAt(1, int64(r.in(1, 1<<40))), clean(b.cmd("")))
		}
		b.run(p)
	}
}

func (b *batch) containment() {
	r := b.r
	s := b.small()
	path := r.n(len(layouts))
	first := b.cmd("")
	tr := b.trace([]DumpSpec{s}, path, put(0), clean(first))
	if tr == nil {
		return
	}
	d := b.s.dump(s)
	for i := 0; i < 20 && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: path, Steps: []Step{put(0)}}
		for j := r.in(1, 3); j > 0; j-- {
			pp := ProcPlan{Args: b.cmd("")}
			if j == 1 {
				pp.Args = first
			}
			switch r.n(6) {
			case 0, 1:
				k := r.in(1, len(tr))
				kind := b.readErrno(tr[k-1])
				if isWriteOp(tr[k-1]) {
					kind = b.writeErrno(tr[k-1])
				}
				pp.Faults = []Fault{{At: k, Kind: kind, Arg: r.n(2) * r.n(1000)}}
			case 2:
				pp.Faults = []Fault{b.killFault(r.in(1, len(tr)))}
			case 3:
				if at := b.positions(tr, 1, isWriteOp); len(at) > 0 {
					pp.Faults = []Fault{{At: at[0], Kind: b.writeErrno(tr[at[0]-1]), Arg: r.n(2) * r.n(1000)}}
				}
			case 4:
				b.benign(&pp)
			}
			p.Steps = append(p.Steps, run1(pp))
		}
		switch r.n(6) {
		case 0:
			c := s
			c.Edits = []Edit{{Op: "cut", Off: b.cutPoint(d)}}
			p.Dumps = append(p.Dumps, c)
			p.Steps = append(p.Steps, put(1), clean(b.cmd("")), clean(b.cmd("")))
		case 1:
			c := s
			c.Edits = b.corruption(d, 1)
			p.Dumps = append(p.Dumps, c)
			p.Steps = append([]Step{put(1), clean(b.cmd("")), clean(b.cmd(""))}, putAt(0, int64(r.in(1, 1<<40))))
			p.Steps = append(p.Steps, clean(b.cmd("")))
		case 2:
			p.Steps = append(p.Steps, Step{Op: "cap", N: int64(r.n(3000))}, clean(b.cmd("")))
		case 3:
			p.Steps = append(p.Steps, Step{Op: "rm"}, clean(b.cmd("")))
		case 4:
			p.Steps = append(p.Steps, Step{Op: "run", Procs: []ProcPlan{{Args: b.cmd(""), Lat: LatSpec{Base: 1000}}, {Args: b.cmd(""), Lat: LatSpec{Base: 1000}}}})
		}
		if r.chance(300) {
			p.Strange = r.in(1, 4)
		}
		b.run(p)
	}
}

func (b *batch) unsupported() {
	r := b.r
	if b.n%3000 == 7 || b.thorough && b.n%200 == 7 {
		// out of order where one batch of the index ends and another begins
		s := DumpSpec{Seed: r.u64() >> 1, IdSize: pick(r, 4, 8), IDBase: r.n(3), Threads: 1, Frames: 1, Classes: 2, Segs: r.in(1, 4), Grouped: r.chance(500)}
		kind := r.n(3)
		s.Many[kind] = pick(r, 1000010, 1000500, 1100000)
		s.Unsup = "orderat"
		s.UnsupAt = kind + 3*pick(r, 999999, 1000000, 1000001, 1000001, 1000002)
		if r.chance(300) {
			s.UnsupAt = kind + 3*r.in(2, s.Many[kind]-2)
		}
		b.run(&Plan{Dumps: []DumpSpec{s}, GC: true, Steps: []Step{put(0), clean([]string{"objects", "--hprof=@"})}})
		return
	}
	for i := 0; i < 6 && !b.stop; i++ {
		s := b.spec(pick(r, 0, 0, 1))
		s.UnsupAt = r.n(100000)
		switch r.n(8) {
		case 7:
			s.Unsup = pick(r, "heapdump", "fieldtype", "fieldtype")
		case 0:
			s.Unsup = pick(r, "version", "idsize")
		case 1:
			s.Unsup = "tag"
		case 2:
			s.Unsup = "primtype"
		case 3:
			s.Unsup = "order"
			s.Objs += 4
			s.ObjArrs += 3
			s.PrimArrs += 3
		default:
			s.Unsup = "sub:" + unsupSubKinds[r.n(len(unsupSubKinds))].name
		}
		p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), Steps: []Step{put(0)}}
		for j := r.in(1, 4); j > 0; j-- {
			pp := ProcPlan{Args: b.cmd("")}
			if r.chance(300) {
				b.benign(&pp)
			}
			p.Steps = append(p.Steps, run1(pp))
		}
		b.run(p)
	}
}

// sameSize pads the smaller of two dumps so that both files have one size, or
// sizes that differ by more.
func (b *batch) sameSize(x, y *DumpSpec, more int64) {
	dx, dy := b.s.dump(*x), b.s.dump(*y)
	if dx.size > dy.size {
		x, y, dx, dy = y, x, dy, dx
	}
	id := int64(8)
	if x.IdSize == 4 {
		id = 4
	}
	if n := dy.size - dx.size - 9 - id + more; n > 0 {
		x.Pad = int(n)
	}
}

func (b *batch) replaced() {
	r := b.r
	if b.n%48 == 9 { // sizes that differ by 4 GiB, of the same second
		x := b.small()
		x.Late, x.Pad = false, 0
		y := x
		y.Objs++
		y.GiantObj = []int64{2<<30 + 32<<10, 2<<30 + 32<<10}
		b.sameSize(&x, &y, -4<<30)
		specs := []DumpSpec{x, y}
		first := r.n(2)
		p := &Plan{Dumps: specs, GC: true, Steps: []Step{put(first), clean(b.cmd("")), put(1 - first), clean(b.cmd("")), clean(b.cmd("objects"))}}
		b.run(p)
		return
	}
	for i := 0; i < 4 && !b.stop; i++ {
		x, y := b.small(), b.small()
		if r.chance(400) { // the same process, a little later
			y = x
			y.Objs++
			y.Text = r.n(4)
			y.Seed = x.Seed ^ uint64(r.n(2))
		}
		twins := r.chance(250)
		if twins { // only the letters of its texts tell
			y = x
			y.Vary = r.in(1, 25)
		}
		switch {
		case twins:
		case r.chance(500):
			b.sameSize(&x, &y, 0)
		case r.chance(250): // sizes that differ by whole blocks
			b.sameSize(&x, &y, 4096*int64(r.in(1, 16)))
		}
		specs := []DumpSpec{x, y}
		dx, dy := b.s.dump(x), b.s.dump(y)
		if dx.size != dy.size && r.chance(200) {
			y.Mtime = x.Mtime // only the size tells
		} else {
			y.Mtime = x.Mtime + int64(pick(r, -1000, -1, 1, 1000, -1000000, 1000000))
		}
		specs[1] = y
		if r.chance(200) {
			z := b.small()
			z.Mtime = x.Mtime + 7
			specs = append(specs, z)
		}
		if r.chance(200) { // one that cannot be read
			c := y
			c.Mtime = x.Mtime + 3
			c.Edits = []Edit{{Op: "cut", Off: b.cutPoint(dy)}}
			specs = append(specs, c)
		}
		path := b.path()
		tr := b.trace(specs, path, put(0), clean(b.cmd("")))
		if tr == nil {
			return
		}
		for v := 0; v < 3 && !b.stop; v++ {
			b.replacedMeanwhile(specs, path, len(tr))
		}
		for v := 0; v < 4 && !b.stop; v++ {
			p := &Plan{Dumps: specs, Path: path, Durable: r.chance(300)}
			p.Loose = p.Durable && r.chance(500)
			cur := -1
			// times that are all different, by fractions of a second
			near := r.chance(350)
			stamp := specs[0].Mtime * 1e9
			used := map[int64]bool{0: true}
			for _, s := range specs {
				used[s.Mtime*1e9] = true
			}
			for j := r.in(2, 4); j > 0; j-- {
				k := r.n(len(specs))
				for k == cur {
					k = r.n(len(specs))
				}
				cur = k
				st := put(k)
				if near {
					for used[stamp] {
						stamp += int64(pick(r, -1, 1) * pick(r, 1, 100, 999, 1000, 20000, 999999, 1000000, 250000000))
					}
					used[stamp] = true
					st.N = stamp
				}
				p.Steps = append(p.Steps, st)
				if r.chance(100) {
					p.Steps = append(p.Steps, Step{Op: "skew", N: int64(r.in(-1000000000, 1000000000))})
				}
				for q := r.n(3); q > 0; q-- {
					pp := ProcPlan{Args: quiet(b.cmd(""))}
					switch r.n(6) {
					case 0:
						pp.Faults = []Fault{b.killFault(r.in(1, len(tr)))}
					case 1:
						a := r.in(1, len(tr))
						kind := b.readErrno(tr[a-1])
						if isWriteOp(tr[a-1]) {
							kind = b.writeErrno(tr[a-1])
						}
						pp.Faults = []Fault{{At: a, Kind: kind}}
					}
					p.Steps = append(p.Steps, run1(pp))
					if p.Durable && r.chance(500) {
						p.Steps = append(p.Steps, Step{Op: "power"})
					}
				}
			}
			p.Steps = append(p.Steps, clean(b.cmd("")), clean(b.cmd("")))
			b.run(p)
		}
	}
}

// replacedMeanwhile puts the next dump in place while commands run.
func (b *batch) replacedMeanwhile(specs []DumpSpec, path, ops int) {
	r := b.r
	p := &Plan{Dumps: specs, Path: path, Steps: []Step{put(0)}}
	if r.chance(500) {
		p.Steps = append(p.Steps, clean(b.cmd("")))
	}
	if r.chance(500) { // at one call or another of a command
		n := 1
		for j := r.in(1, 3); j > 0; j-- {
			pp := ProcPlan{Args: b.cmd("")}
			for at := 0; n < len(specs) && (at == 0 || r.chance(300)); n++ {
				at += pick(r, r.in(1, 60), r.in(1, ops), max(1, ops-r.n(60)))
				pp.Faults = append(pp.Faults, Fault{At: at, Kind: "swap", Arg: n})
			}
			p.Steps = append(p.Steps, run1(pp))
			if n == len(specs) {
				break
			}
		}
		p.Steps = append(p.Steps, clean(b.cmd("")), clean(b.cmd("")))
		b.run(p)
		return
	}
	base := pick(r, int64(50), 1000, 100000)
	window := int(base) * ops * timeUnit / 2
	st := Step{Op: "run"}
	for j := r.in(1, 4); j > 0; j-- {
		pp := ProcPlan{Args: b.cmd("")}
		pp.Lat.Base = base * int64(r.in(1, 4))
		if r.chance(700) {
			pp.Start = int64(r.n(2*window + 1))
		}
		if r.chance(200) {
			pp.Lat.PTail = r.n(100)
			pp.Lat.Tail = base * int64(r.in(1, 100))
		}
		if r.chance(250) {
			pp.Faults = append(pp.Faults, Fault{At: r.in(1, ops), Kind: "stall", Arg: r.n(3000)})
		}
		if r.chance(100) {
			pp.Faults = append(pp.Faults, b.killFault(r.in(1, ops)))
		}
		st.Procs = append(st.Procs, pp)
	}
	at := int64(0)
	for i := 1; i < len(specs); i++ {
		at += int64(r.n(2*window) + 1)
		st.Swaps = append(st.Swaps, Swap{at, i})
	}
	p.Steps = append(p.Steps, st, clean(b.cmd("")), clean(b.cmd("")))
	b.run(p)
}

func (b *batch) presentation() {
	r := b.r
	s := b.spec(pick(r, 0, 1))
	s.Text = 3
	ref := s
	ref.Text = 0
	which := pick(r, "threads", "summary", "objects")
	base := []string{which, "--hprof=@"}
	if r.chance(600) {
		switch which {
		case "threads":
			base = append(base, "--local-vars")
		case "summary":
			base = append(base, "--all-props")
		case "objects":
			base = append(base, "--sort-by=size")
		}
	}
	for i := 0; i < 3 && !b.stop; i++ {
		p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), TagRef: &ref, Steps: []Step{put(0)}}
		forms := [][]string{nil, {"--no-color"}, {"--output=html"}, {"--output", "plain"}, {"--output=html", "--no-color"}}
		for j := r.in(3, 5); j > 0; j-- {
			a := append(append([]string(nil), base...), forms[r.n(len(forms))]...)
			if r.chance(500) {
				a = append(a, "--non-interactive")
			}
			pp := ProcPlan{Args: a}
			b.benign(&pp)
			p.Steps = append(p.Steps, run1(pp))
		}
		b.run(p)
	}
}

func (b *batch) huge() {
	r := b.r
	s := b.spec(pick(r, 0, 1))
	s.ZeroLen = false
	if b.n%4 == 3 {
		b.crowd(s)
		return
	}
	const G = int64(1) << 30
	total := int64(0)
	limit := pick(r, 5*G/2, 5*G, 6*G)
	if b.thorough {
		limit = pick(r, 5*G/2, 5*G, 9*G, 17*G)
	}
	for total < limit {
		n := pick(r, G-8, 2*G-24, 2*G+8, 3*G, G/2, 4*G-4096, 4*G+64, 9*G/2)
		if r.chance(700) {
			s.Giant = append(s.Giant, n)
		} else {
			s.GiantObj = append(s.GiantObj, n)
		}
		total += n
	}
	if r.chance(250) { // instances that add up
		s.Herd = [2]int{r.in(5000, 60000), 0}
		s.Herd[1] = int(pick(r, 9*G/4, 5*G) / int64(8*s.Herd[0]))
		if r.chance(500) {
			s.Giant, s.GiantObj, total = nil, nil, 0
		}
		total += int64(8 * s.Herd[0] * s.Herd[1])
	}
	pp := ProcPlan{Args: interactiveArgs(b.cmd(pick(r, "threads", "threads", "summary", "objects")))}
	if pp.Args[0] == "threads" {
		pp.Args = append(pp.Args, "--local-vars")
	}
	// reading takes minutes
	pp.Lat.Base = pick(r, int64(0), 100, 2000)
	q := ProcPlan{Args: quiet(b.cmd(""))}
	b.run(&Plan{Dumps: []DumpSpec{s}, GC: true, MaxHeap: 256 << 20, Path: b.path(), Label: fmt.Sprintf("%d MiB", total>>20), Steps: []Step{put(0), run1(pp), run1(q), clean([]string{"objects", "--hprof=@"})}})
}

// crowd: so many objects that what is kept of every one adds up.
func (b *batch) crowd(s DumpSpec) {
	r := b.r
	n := pick(r, 8, 9) * 1000000
	if b.thorough {
		n = pick(r, 8, 12, 20, 30) * 1000000
	}
	s.IDBase = r.n(3)
	k := r.n(3)
	s.Crowd[k] = n
	s.Crowd[r.n(3)] += r.n(1000)
	a := ProcPlan{Args: quiet(b.cmd(""))}
	q := ProcPlan{Args: quiet(b.cmd(""))}
	b.run(&Plan{Dumps: []DumpSpec{s}, GC: true, MaxOver: 72 << 20, Path: b.path(), Label: fmt.Sprintf("%d objects", n), Steps: []Step{put(0), run1(a), run1(q)}})
}

// work: dumps with many objects or large payloads, of which a report needs
// few or many.
func (b *batch) work() {
	r := b.r
	s := b.spec(pick(r, 0, 0, 1))
	s.Bare = false
	s.Threads = r.in(1, 4)
	s.Frames = r.in(1, 4)
	s.Grouped = r.chance(400)
	s.IDBase = r.n(6)
	s.AllLocal = false
	switch r.n(5) {
	case 0:
		s = b.spec(2)
	case 1, 2: // many objects
		n := pick(r, 2000, 20000, 60000, 150000, 400000)
		for k := 0; k < 3; k++ {
			s.Many[k] = pick(r, 0, r.n(30), r.n(n), n, n)
		}
		for i := pick(r, 2, 40, 300); i > 0; i-- {
			s.ManyAt = append(s.ManyAt, pick(r, r.n(3*n), -1-r.n(50), r.n(50)))
		}
		s.Absent = r.chance(200)
		s.AbsentAt = r.n(40000)
		if r.chance(400) {
			s.ManyLen = pick(r, 16, 100, 400)
		}
	case 3: // large payloads
		for i := r.in(1, 4); i > 0; i-- {
			n := int64(r.in(8, 120)) << 20
			if r.chance(600) {
				s.Giant = append(s.Giant, n)
			} else {
				s.GiantObj = append(s.GiantObj, n)
			}
		}
		for k := 0; k < 3; k++ {
			s.Many[k] = r.n(3000)
		}
		s.ManyAt = []int{0, 1, 2, r.n(9000), r.n(9000), -1}
	case 4: // many properties, threads or classes
		s.Props = pick(r, 0, 300, 1500)
		s.Table = pick(r, 16, 1024, 4096)
		s.Threads = pick(r, 1, 60, 200)
		s.Classes = pick(r, 2, 200)
		s.Many[r.n(3)] = 20000
	}
	p := &Plan{Dumps: []DumpSpec{s}, Path: b.path(), Steps: []Step{put(0)}}
	for i := r.in(2, 4); i > 0; i-- {
		if len(p.Steps) > 1 && r.chance(200) { // the index is as good as new after a year
			p.Steps = append(p.Steps, Step{Op: "skew", N: pick(r, int64(r.in(1, 200000000)), int64(-r.in(1, 200000000)))})
		}
		pp := ProcPlan{Args: quiet(b.cmd(""))}
		if r.chance(400) {
			b.benign(&pp)
			pp.Lat = LatSpec{} // millions of calls
		}
		p.Steps = append(p.Steps, run1(pp))
	}
	b.run(p)
}

// option spells a command line with the meaning of the one given by cmd: in
// any order, with one dash or two, with = or without, with values that later
// ones replace.
func (b *batch) spelled(which string) []string {
	r := b.r
	if which == "" {
		which = pick(r, "threads", "summary", "objects")
	}
	var opts [][]string // groups whose own order matters
	flag := func(name, val string) []string {
		d := pick(r, "-", "--")
		if r.chance(500) {
			return []string{d + name + "=" + val}
		}
		return []string{d + name, val}
	}
	yes := func(name string) string {
		d := pick(r, "-", "--")
		if r.chance(600) {
			return d + name
		}
		return d + name + "=" + pick(r, "1", "t", "T", "true", "TRUE", "True")
	}
	no := func(name string) string {
		return pick(r, "-", "--") + name + "=" + pick(r, "0", "f", "F", "false", "FALSE", "False")
	}
	bools := []string{"no-color", "non-interactive"}
	vals := [][]string{{"output", "plain", "html", ""}}
	switch which {
	case "threads":
		bools = append(bools, "local-vars")
	case "summary":
		bools = append(bools, "all-props")
	case "objects":
		vals = append(vals, []string{"sort-by", "count", "size", ""})
	}
	for _, x := range bools {
		var g []string
		for n := pick(r, 0, 1, 1, 1, 2, 3); n > 0; n-- {
			if r.chance(650) {
				g = append(g, yes(x))
			} else {
				g = append(g, no(x))
			}
		}
		opts = append(opts, g)
	}
	for _, x := range vals {
		var g []string
		for n := pick(r, 0, 1, 1, 1, 2, 3); n > 0; n-- {
			g = append(g, flag(x[0], x[1+r.n(len(x)-1)])...)
		}
		opts = append(opts, g)
	}
	var g []string
	if r.chance(200) {
		g = append(g, flag("hprof", pick(r, "nothing.hprof", "", "other.hprof"))...)
	}
	opts = append(opts, append(g, flag("hprof", "@")...))
	// merge
	a := []string{which}
	for len(opts) > 0 {
		i := r.n(len(opts))
		g := opts[i]
		if len(g) == 0 {
			opts = append(opts[:i], opts[i+1:]...)
			continue
		}
		n := 1
		if len(g) > 1 && !(len(g[1]) > 1 && g[1][0] == '-') {
			n = 2 // the value of it
		}
		if g[0][0] == '-' && strings.Contains(g[0], "=") {
			n = 1
		}
		a = append(a, g[:n]...)
		opts[i] = g[n:]
	}
	if r.chance(100) {
		a = append(a, "--")
	}
	if r.chance(100) { // nothing behind the options counts
		a = append(a, pick(r, "@", "other.hprof", "extra", "html", ""))
		for r.chance(500) {
			a = append(a, pick(r, "@", "--output=html", "--hprof=nothing.hprof", "--help", "--no-color", "threads", "--unknown"))
		}
	}
	return a
}

// misspelled is a command line that asks for no report.
func (b *batch) misspelled() []string {
	r := b.r
	a := b.spelled("")
	insert := func(x ...string) []string {
		return append(a[:1:1], append(x, a[1:]...)...)
	}
	switch r.n(10) {
	case 0:
		return []string{}
	case 8: // the path is there, its option is not
		a = a[:1]
		if r.chance(300) {
			a = append(a, pick(r, "--no-color", "--output=html", "--hprof="))
		}
		return append(a, pick(r, [][]string{{"@"}, {"@", "--no-color"}, {"--", "@"}, {"hprof=@"}, {"hprof", "@"}, {"@", "--hprof=@"}}...)...)
	case 1:
		a[0] = pick(r, "thread", "Threads", "", "help", "-h", "--help", "--version", "summary ", "object", "all", "--hprof=@")
	case 2:
		return insert(pick(r, "-h", "--help", "-help", "--h"))
	case 3:
		bad := []string{"--local-vars", "--sort-by=size", "--all-props"}
		switch a[0] {
		case "threads":
			bad = bad[1:]
		case "objects":
			bad[1] = "--local-vars=false"
		case "summary":
			bad = bad[:2]
		}
		return insert(bad[r.n(len(bad))])
	case 4:
		return insert(pick(r, "--hproff=@", "--colour", "--no-colour", "---no-color", "-=x", "--output-type=html", "--json", "-o"))
	case 5:
		return insert(pick(r, "--output=HTML", "--output=json", "--output=html ", "--output=text", "--no-color=yes", "--non-interactive=2", "--no-color=tRUE", "--output=colour", "--non-interactive="))
	case 6:
		if a[0] == "objects" {
			return insert("--sort-by", pick(r, "name", "Size", "sizes", "COUNT", "count,size"))
		}
		return insert("--output", pick(r, "pdf", "Html", "html,plain"))
	case 7:
		return []string{a[0], pick(r, "--no-color", "--output=html", "--non-interactive", "--")}
	}
	return []string{a[0], pick(r, "--no-color", "--output=html"), pick(r, "--hprof", "--hprof=", "-hprof=", "-hprof")}
}

// commandLine: spelled in every way, with mistakes, without a dump, in any
// environment.
func (b *batch) commandLine() {
	r := b.r
	dumps := []DumpSpec{b.small()}
	dumps[0].Threads = r.in(1, 4)
	for i := 0; i < 4 && !b.stop; i++ {
		p := &Plan{Dumps: dumps, Path: b.path(), Bytes: true}
		here := r.chance(800)
		if here {
			p.Steps = append(p.Steps, put(0))
		} else {
			p.Strange = pick(r, 0, 8, 16)
			if p.Strange == 16 {
				p.Path = pick(r, 0, 1, 2, 4)
			}
			if p.Path%len(layouts) == 6 || p.Path%len(layouts) == 11 {
				p.Path = 0
			}
		}
		for n := r.in(2, 6); n > 0; n-- {
			pp := ProcPlan{Args: b.spelled("")}
			switch {
			case r.chance(300):
				pp.Args = b.misspelled()
			case r.chance(60):
				pp.Args = []string{pp.Args[0], "--hprof", pick(r, "nowhere/d.hprof", "/nowhere", "./nothing", "nothing.db", "d.hprof/x")}
			}
			if r.chance(300) {
				b.benign(&pp)
			}
			if r.chance(300) {
				pp.Sink = r.n(3)
				for j := r.in(0, 3); j > 0; j-- {
					pp.Env = append(pp.Env, pick(r, "NO_COLOR=1", "TERM=dumb", "TERM=xterm-256color", "COLUMNS=20", "LANG=C", "LC_ALL=tr_TR.UTF-8", "CLICOLOR=0", "CLICOLOR_FORCE=1", "FORCE_COLOR=3", "CI=true", "HOME=", "TMPDIR=/nowhere", "PWD=/nowhere", "HPROF=other.hprof", "USER=root"))
				}
			}
			p.Steps = append(p.Steps, run1(pp))
			if here && r.chance(80) {
				p.Steps = append(p.Steps, Step{Op: "rm"}, run1(ProcPlan{Args: b.spelled("")}), put(0))
			}
		}
		b.run(p)
	}
}
