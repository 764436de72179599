package zzverifsim

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// TakeOver is called before the program's main function. Without VERIFSIM in
// the environment the program is what it always was.
func TakeOver(mainFn func()) {
	mode := os.Getenv("VERIFSIM")
	if mode == "" || curProc() != nil {
		return
	}
	code := 3
	switch mode {
	case "drive":
		code = drive()
	case "worker":
		code = worker(mainFn)
	case "replay":
		code = replay(mainFn)
	case "batch":
		code = oneBatch(mainFn)
	}
	os.Exit(code)
}

// ---- messages ---------------------------------------------------------------

type request struct {
	Batch    int   `json:"batch"`
	Plan     *Plan `json:"plan,omitempty"` // run this one
	Minimise *Plan `json:"minimise,omitempty"`
	Class    string
	Seconds  int
}

type reply struct {
	Batch      int
	Runs       int
	Refs       int // reference runs
	Procs      int
	Ops        int
	Sim        time.Duration
	Hashes     []uint64
	Scheds     []uint64
	Stats      map[string]int
	Unmodelled map[string]int
	NonDet     *Plan
	Sample     string
	Viol       *Violation
	Plan       *Plan
	Hash       uint64
	Log        []string
	Known      map[string]int
	Bytes      int64
}

type config struct {
	Prop     string
	Seed     uint64
	Thorough bool
	Scratch  string
	Known    []knownFinding
}

type knownFinding struct {
	Class, Match, What string
}

func (c *config) known(v *Violation) string {
	for _, k := range c.Known {
		if k.Class == v.Class {
			if m, err := regexp.MatchString(k.Match, v.Msg); err == nil && m {
				return k.What
			}
		}
	}
	return ""
}

// ---- worker -----------------------------------------------------------------

// the real standard files: a simulated process has its own
var realStd [3]*os.File

func startSim(mainFn func()) *Sim {
	realStd = [3]*os.File{os.Stdin, os.Stdout, os.Stderr}
	os.Unsetenv("VERIFSIM")
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	lim := syscall.Rlimit{Cur: 14 << 30, Max: 14 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	_ = time.Now().Local().String()
	s, err := newSim(mainFn)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simulator:", err)
		os.Exit(3)
	}
	// what the standard library sets up once is set up before the first plan
	spec := DumpSpec{Seed: 5, IdSize: 8, Threads: 2, Frames: 2, Locals: 2, Classes: 3, Objs: 5, ObjArrs: 2, PrimArrs: 2, ElemMax: 3, Props: 3, Segs: 2, Text: 3}
	p := &Plan{Prop: "warmup", Seed: 3, Dumps: []DumpSpec{spec}, Steps: []Step{put(0)}}
	for _, c := range []string{"threads", "summary", "objects"} {
		for _, o := range []string{"plain", "html"} {
			p.Steps = append(p.Steps, Step{Op: "run", Procs: []ProcPlan{{Args: []string{c, "--hprof=@", "--output", o}}}})
		}
	}
	s.exec(p)
	clear(s.goldens)
	s.gorder = nil
	return s
}

func worker(mainFn func()) int {
	var cfg config
	if err := json.Unmarshal([]byte(os.Getenv("VERIFCFG")), &cfg); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	s := startSim(mainFn)
	scratch := filepath.Join(cfg.Scratch, fmt.Sprintf("plan-%d.json", os.Getpid()))
	note := func(p *Plan) {
		b, _ := json.Marshal(p)
		os.WriteFile(scratch, b, 0600)
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	out.Encode(&reply{Batch: -1})
	for {
		var q request
		if err := in.Decode(&q); err != nil {
			return 0
		}
		switch {
		case q.Plan != nil:
			note(q.Plan)
			s.keepLog = true
			res := s.Run(q.Plan)
			s.keepLog = false
			out.Encode(&reply{Viol: res.Viol, Hash: res.Hash, Log: res.Log, Unmodelled: res.Unmodelled})
		case q.Minimise != nil:
			p, v := minimise(s, q.Minimise, q.Class, time.Duration(q.Seconds)*time.Second, note)
			out.Encode(&reply{Plan: p, Viol: v})
		default:
			out.Encode(runBatch(s, &cfg, q.Batch, note))
		}
	}
}

func nontrivial(p *Plan, res *Result) bool {
	switch p.Prop {
	case "C01", "C02", "C03", "C04", "C05", "C14", "C16", "C18", "C19", "C06", "C21", "C22":
		return true // the dump itself is the case
	}
	for n := range res.Stats {
		if !strings.HasPrefix(n, "exit: exit") && !strings.HasPrefix(n, "judged: ") {
			return true
		}
	}
	return res.SchedHash != 0
}

func runBatch(s *Sim, cfg *config, n int, note func(*Plan)) *reply {
	rep := &reply{Batch: n, Stats: map[string]int{}, Unmodelled: map[string]int{}, Known: map[string]int{}}
	b := newBatch(s, cfg.Prop, cfg.Seed, n, cfg.Thorough)
	before := s.runs
	b.emit = func(p *Plan) *Result {
		note(p)
		res := s.Run(p)
		rep.Runs++
		rep.Procs += res.Procs
		rep.Ops += res.Ops
		rep.Sim += res.SimTime
		for k, c := range res.Stats {
			rep.Stats[k] += c
		}
		for k, c := range res.Unmodelled {
			rep.Unmodelled[k] += c
		}
		for _, o := range res.Outs {
			rep.Bytes += o.bytes
		}
		if nontrivial(p, res) {
			rep.Hashes = append(rep.Hashes, res.Hash)
		}
		if res.SchedHash != 0 {
			rep.Scheds = append(rep.Scheds, res.SchedHash)
		}
		if rep.Sample == "" && (rep.Runs == 2 || n < 3) {
			j, _ := json.Marshal(p)
			rep.Sample = clip(string(j), 3000)
		}
		if res.Viol != nil {
			if w := cfg.known(res.Viol); w != "" {
				rep.Known[w]++
				res.Viol = nil
				return res
			}
			rep.Viol, rep.Plan, rep.Hash = res.Viol, p, res.Hash
			return res
		}
		if rep.Runs%40 == 7 && !p.GC {
			again := s.Run(p)
			if again.Hash != res.Hash && rep.NonDet == nil {
				rep.NonDet = p
			}
		}
		return res
	}
	b.exec()
	rep.Refs = s.runs - before - rep.Runs
	if s.runs > 4000 {
		rep.Stats["restart"] = 1
	}
	return rep
}

// ---- minimising -------------------------------------------------------------

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	json.Unmarshal(b, q)
	return q
}

// candidates are plans that are simpler than p.
func candidates(p *Plan) []*Plan {
	var c []*Plan
	add := func(f func(q *Plan) bool) {
		q := clonePlan(p)
		if f(q) {
			c = append(c, q)
		}
	}
	for i := len(p.Steps) - 1; i >= 0; i-- {
		add(func(q *Plan) bool { q.Steps = append(q.Steps[:i], q.Steps[i+1:]...); return true })
	}
	for i := range p.Steps {
		for j := range p.Steps[i].Procs {
			pp := p.Steps[i].Procs[j]
			if len(p.Steps[i].Procs) > 1 {
				add(func(q *Plan) bool {
					s := &q.Steps[i]
					s.Procs = append(s.Procs[:j], s.Procs[j+1:]...)
					return true
				})
			}
			for k := range pp.Faults {
				add(func(q *Plan) bool {
					f := &q.Steps[i].Procs[j].Faults
					*f = append((*f)[:k], (*f)[k+1:]...)
					return true
				})
				if pp.Faults[k].N != 0 {
					add(func(q *Plan) bool { q.Steps[i].Procs[j].Faults[k].N = 0; return true })
				}
				if pp.Faults[k].Arg > 0 && pp.Faults[k].Kind != "stall" && pp.Faults[k].Kind != "short" {
					add(func(q *Plan) bool { q.Steps[i].Procs[j].Faults[k].Arg = 0; return true })
				}
			}
			if pp.Lat != (LatSpec{}) {
				add(func(q *Plan) bool { q.Steps[i].Procs[j].Lat = LatSpec{}; return true })
			}
			if pp.Benign != (Benign{}) {
				add(func(q *Plan) bool { q.Steps[i].Procs[j].Benign = Benign{}; return true })
			}
			if pp.Start != 0 {
				add(func(q *Plan) bool { q.Steps[i].Procs[j].Start = 0; return true })
			}
			for k := range pp.Args {
				a := pp.Args[k]
				if k == 0 || strings.Contains(a, "@") || a == "--hprof" || !strings.HasPrefix(a, "-") {
					continue
				}
				n := 1
				if a == "--output" || a == "--sort-by" {
					n = 2
				}
				add(func(q *Plan) bool {
					x := &q.Steps[i].Procs[j].Args
					*x = append((*x)[:k], (*x)[k+n:]...)
					return true
				})
			}
			quieter := quiet(pp.Args)
			if len(quieter) != len(pp.Args) {
				add(func(q *Plan) bool { q.Steps[i].Procs[j].Args = quieter; return true })
			}
		}
	}
	if p.Path != 0 {
		add(func(q *Plan) bool { q.Path = 0; return true })
	}
	if p.Durable {
		add(func(q *Plan) bool { q.Durable = false; return true })
	}
	if p.Loose {
		add(func(q *Plan) bool { q.Loose = false; return true })
	}
	for i := range p.Dumps {
		d := func(f func(s *DumpSpec)) {
			add(func(q *Plan) bool {
				b, _ := json.Marshal(q.Dumps[i])
				f(&q.Dumps[i])
				a, _ := json.Marshal(q.Dumps[i])
				if p.TagRef != nil && i == 0 {
					f(q.TagRef)
				}
				return string(a) != string(b)
			})
		}
		ints := []func(s *DumpSpec) *int{
			func(s *DumpSpec) *int { return &s.Threads }, func(s *DumpSpec) *int { return &s.Frames }, func(s *DumpSpec) *int { return &s.Locals },
			func(s *DumpSpec) *int { return &s.Classes }, func(s *DumpSpec) *int { return &s.Depth }, func(s *DumpSpec) *int { return &s.Objs },
			func(s *DumpSpec) *int { return &s.ObjArrs }, func(s *DumpSpec) *int { return &s.PrimArrs }, func(s *DumpSpec) *int { return &s.ElemMax },
			func(s *DumpSpec) *int { return &s.Props }, func(s *DumpSpec) *int { return &s.Segs }, func(s *DumpSpec) *int { return &s.IDBase },
		}
		for _, f := range ints {
			d(func(s *DumpSpec) { *f(s) = 0 })
			d(func(s *DumpSpec) { *f(s) /= 2 })
			d(func(s *DumpSpec) { *f(s) = max(0, *f(s)-1) })
		}
		for _, f := range []func(s *DumpSpec) *bool{
			func(s *DumpSpec) *bool { return &s.Tree }, func(s *DumpSpec) *bool { return &s.Fwd }, func(s *DumpSpec) *bool { return &s.ZeroLen },
			func(s *DumpSpec) *bool { return &s.Late }, func(s *DumpSpec) *bool { return &s.Mixed }, func(s *DumpSpec) *bool { return &s.Grouped },
			func(s *DumpSpec) *bool { return &s.Ties }, func(s *DumpSpec) *bool { return &s.Shadow }, func(s *DumpSpec) *bool { return &s.AllLocal },
			func(s *DumpSpec) *bool { return &s.FileSz },
		} {
			d(func(s *DumpSpec) { *f(s) = false })
		}
		if p.TagRef == nil {
			d(func(s *DumpSpec) { s.Text = 0 })
		}
		for k := range p.Dumps[i].Edits {
			if len(p.Dumps[i].Edits) > 1 {
				d(func(s *DumpSpec) { s.Edits = append(s.Edits[:k:k], s.Edits[k+1:]...) })
			}
		}
		for k := range p.Dumps[i].Giant {
			d(func(s *DumpSpec) { s.Giant = append(s.Giant[:k:k], s.Giant[k+1:]...) })
		}
	}
	return c
}

func minimise(s *Sim, p *Plan, class string, limit time.Duration, note func(*Plan)) (*Plan, *Violation) {
	end := time.Now().Add(limit)
	best, bv := p, (*Violation)(nil)
	for {
		better := false
		for _, c := range candidates(best) {
			if time.Now().After(end) {
				return best, bv
			}
			note(c)
			if v := s.Run(c).Viol; v != nil && v.Class == class {
				best, bv, better = c, v, true
				break
			}
		}
		if !better {
			return best, bv
		}
	}
}

// ---- replay -----------------------------------------------------------------

type replayFile struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	Seed      uint64    `json:"seed"`
	Batch     int       `json:"batch"`
	Hash      string    `json:"hash"`
	Plan      *Plan     `json:"plan"`
	Log       []string  `json:"log,omitempty"`
}

func replay(mainFn func()) int {
	b, err := os.ReadFile(os.Getenv("VERIFREPLAY"))
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil || f.Plan == nil {
		fmt.Println("not a replay file", err)
		return 3
	}
	s := startSim(mainFn)
	s.keepLog = true
	res := s.Run(f.Plan)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	for _, o := range res.Outs {
		fmt.Printf("neojhat %s -> %d (%s), output:\n%s\n", strings.Join(o.args, " "), o.exit, o.how, o.out)
	}
	fmt.Printf("hash %x, recorded %s\n", res.Hash, f.Hash)
	if res.Viol == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("VIOLATION property=%s %s: %s\n", f.Property, res.Viol.Class, res.Viol.Msg)
	return 1
}

// oneBatch runs one batch in this process (for development).
func oneBatch(mainFn func()) int {
	var cfg config
	json.Unmarshal([]byte(os.Getenv("VERIFCFG")), &cfg)
	n, _ := strconv.Atoi(os.Getenv("VERIFBATCH"))
	m, _ := strconv.Atoi(os.Getenv("VERIFBATCHES"))
	s := startSim(mainFn)
	t := time.Now()
	runs := 0
	for i := n; i < n+max(1, m); i++ {
		rep := runBatch(s, &cfg, i, func(*Plan) {})
		runs += rep.Runs
		rep.Hashes, rep.Scheds = nil, nil
		if rep.Viol != nil || m == 0 {
			j, _ := json.MarshalIndent(rep, "", " ")
			fmt.Printf("%s\n", clip(string(j), 8000))
		}
	}
	fmt.Printf("%d runs, %d in all, %v\n", runs, s.runs, time.Since(t))
	return 0
}

// ---- driver -----------------------------------------------------------------

type proc struct {
	cmd    *exec.Cmd
	in     *json.Encoder
	stdin  io.WriteCloser
	out    *json.Decoder
	errBuf *tail
	cfg    *config
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<13:1<<13], t.b[len(t.b)-1<<13:]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(cfg *config) (*proc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	j, _ := json.Marshal(cfg)
	c := exec.Command(self)
	c.Env = append(os.Environ(), "VERIFSIM=worker", "VERIFCFG="+string(j), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1,invalidptr=0", "GOTRACEBACK=single")
	w := &proc{cmd: c, cfg: cfg, errBuf: &tail{}}
	c.Stderr = w.errBuf
	if w.stdin, err = c.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	w.in = json.NewEncoder(w.stdin)
	w.out = json.NewDecoder(bufio.NewReader(o))
	var hello reply
	if err := w.out.Decode(&hello); err != nil {
		w.kill()
		return nil, fmt.Errorf("worker does not start: %v\n%s", err, w.errBuf)
	}
	return w, nil
}

func (w *proc) kill() {
	w.stdin.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	os.Remove(w.scratch())
}

func (w *proc) scratch() string {
	return filepath.Join(w.cfg.Scratch, fmt.Sprintf("plan-%d.json", w.cmd.Process.Pid))
}

func (w *proc) cpu() float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

// ask sends a request; it fails with class "crash" if the worker dies and
// with class "cpu" if one plan uses too much processor time.
func (w *proc) ask(q *request, quit <-chan struct{}) (*reply, string) {
	if err := w.in.Encode(q); err != nil {
		return nil, "crash"
	}
	ch := make(chan *reply, 1)
	go func() {
		var r reply
		if err := w.out.Decode(&r); err != nil {
			ch <- nil
			return
		}
		ch <- &r
	}()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var stamp time.Time
	cpu := w.cpu()
	for {
		select {
		case r := <-ch:
			if r == nil {
				return nil, "crash"
			}
			return r, ""
		case <-quit:
			return nil, "quit"
		case <-tick.C:
			if st, err := os.Stat(w.scratch()); err == nil && st.ModTime() != stamp {
				stamp = st.ModTime()
				cpu = w.cpu()
			}
			limit := 25.0
			if w.cfg.Prop == "C04" || w.cfg.Prop == "C19" || w.cfg.Prop == "C21" {
				limit = 300
			}
			if w.cpu()-cpu > limit {
				return nil, "cpu"
			}
		}
	}
}

func (w *proc) lastPlan() *Plan {
	b, err := os.ReadFile(w.scratch())
	if err != nil {
		return nil
	}
	p := &Plan{}
	if json.Unmarshal(b, p) != nil {
		return nil
	}
	return p
}

// dies tells whether a plan, run alone in a fresh worker, kills it or never ends.
func dies(cfg *config, p *Plan) (string, string) {
	w, err := startWorker(cfg)
	if err != nil {
		return "", err.Error()
	}
	defer w.kill()
	_, how := w.ask(&request{Plan: p}, nil)
	if how == "" {
		return "", ""
	}
	time.Sleep(50 * time.Millisecond)
	return how, w.errBuf.String()
}

func deathMsg(how, stderr string) *Violation {
	if how == "cpu" {
		return &Violation{"hang", "the program runs on and on without a system call"}
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") && strings.Contains(l, "exceeds") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected fault") || strings.Contains(l, "SIGSEGV") {
			return &Violation{"crash", "the program dies: " + l}
		}
	}
	return nil
}

type totals struct {
	reply
	batches  int
	hashes   map[uint64]bool
	scheds   map[uint64]bool
	samples  []string
	nondet   int
	restarts int
}

func drive() int {
	os.Unsetenv("VERIFSIM")
	prop := os.Getenv("VERIF_PROP")
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	thorough := tier == "thorough"
	if !thorough {
		tier = "quick"
	}
	// A quick check makes the same runs for the same seed on any machine:
	// their number is fixed, the time only limited.
	secs, batches := 300, quickBatches[prop]
	if thorough {
		secs, batches = 600, 1<<60
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil && v > 0 {
		secs, batches = v, 1<<60
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BATCHES")); err == nil && v > 0 {
		batches = v
	}
	root := os.Getenv("VERIF_ROOT")
	scratch, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	cfg := &config{Prop: prop, Seed: seed, Thorough: thorough, Scratch: scratch}
	cfg.Known = loadKnown(filepath.Join(root, "known-findings.txt"), prop)
	nw := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		nw = v
	}
	start := time.Now()
	end := start.Add(time.Duration(secs) * time.Second)
	t := &totals{hashes: map[uint64]bool{}, scheds: map[uint64]bool{}}
	t.Stats, t.Unmodelled, t.Known = map[string]int{}, map[string]int{}, map[string]int{}

	var mu sync.Mutex
	next := 0
	var found *replayFile
	var trouble string
	quit := make(chan struct{})
	stop := func() {
		select {
		case <-quit:
		default:
			close(quit)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *proc
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				mu.Lock()
				n := next
				next++
				mu.Unlock()
				if n >= batches || time.Now().After(end) {
					return
				}
				select {
				case <-quit:
					return
				default:
				}
				if w == nil {
					var err error
					if w, err = startWorker(cfg); err != nil {
						mu.Lock()
						trouble = err.Error()
						mu.Unlock()
						stop()
						return
					}
				}
				r, how := w.ask(&request{Batch: n}, quit)
				if how == "quit" {
					return
				}
				if how != "" {
					p := w.lastPlan()
					time.Sleep(50 * time.Millisecond)
					msg := w.errBuf.String()
					w.kill()
					w = nil
					h1, m1 := "", ""
					if p != nil {
						if h1, m1 = dies(cfg, p); h1 != "" {
							h1, m1 = dies(cfg, p)
						}
					}
					v := deathMsg(h1, m1)
					mu.Lock()
					if p != nil && h1 != "" && v != nil {
						if found == nil {
							found = &replayFile{Property: prop, Violation: *v, Seed: seed, Batch: n, Plan: p}
						}
					} else if trouble == "" {
						trouble = fmt.Sprintf("a worker was lost (%s) and the plan does not explain it: %s", how, clip(msg, 3000))
					}
					mu.Unlock()
					stop()
					return
				}
				mu.Lock()
				t.add(r)
				if r.Viol != nil && found == nil {
					found = &replayFile{Property: prop, Violation: *r.Viol, Seed: seed, Batch: n, Plan: r.Plan, Hash: fmt.Sprintf("%x", r.Hash)}
				}
				mu.Unlock()
				if r.Viol != nil {
					stop()
					return
				}
				if r.Stats["restart"] > 0 {
					w.kill()
					w = nil
					t.restarts++
				}
			}
		}()
	}
	wg.Wait()
	wall := time.Since(start)

	code := 0
	for w, n := range t.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", prop, w, n)
	}
	replayPath := ""
	if found != nil {
		replayPath, code = conclude(cfg, root, found)
		if code == 3 {
			trouble = "a violation was found but could not be reproduced: " + found.Violation.Msg
		}
	}
	if trouble != "" && code == 0 {
		fmt.Println("TROUBLE:", trouble)
		code = 3
	}
	if code == 3 && trouble != "" {
		fmt.Println("TROUBLE:", trouble)
	}
	if t.nondet > 0 {
		fmt.Printf("note: %d plans did not repeat exactly\n", t.nondet)
	}
	if len(t.Unmodelled) > 0 {
		fmt.Println("note: system calls without a model:", t.Unmodelled)
	}
	writeEvidence(root, cfg, tier, t, wall, found, replayPath, nw)
	fmt.Printf("%s %s seed %d: %d runs (%d distinct), %d processes, %d system calls, %v simulated, %.1f s\n", prop, tier, seed, t.Runs, len(t.hashes), t.Procs, t.Ops, t.Sim.Round(time.Second), wall.Seconds())
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
	}
	return code
}

func (t *totals) add(r *reply) {
	t.batches++
	t.Runs += r.Runs
	t.Refs += r.Refs
	t.Procs += r.Procs
	t.Ops += r.Ops
	t.Sim += r.Sim
	t.Bytes += r.Bytes
	for k, c := range r.Stats {
		if k != "restart" {
			t.Stats[k] += c
		}
	}
	for k, c := range r.Unmodelled {
		t.Unmodelled[k] += c
	}
	for k, c := range r.Known {
		t.Known[k] += c
	}
	for _, h := range r.Hashes {
		t.hashes[h] = true
	}
	for _, h := range r.Scheds {
		t.scheds[h] = true
	}
	if r.Sample != "" && len(t.samples) < 3 {
		t.samples = append(t.samples, r.Sample)
	}
	if r.NonDet != nil {
		t.nondet++
	}
}

// conclude minimises a violation, checks that it replays and writes the
// replay file.
func conclude(cfg *config, root string, f *replayFile) (string, int) {
	crash := f.Violation.Class == "crash" || f.Violation.Class == "hang" && strings.Contains(f.Violation.Msg, "on and on")
	if crash {
		end := time.Now().Add(40 * time.Second)
		for better := true; better && time.Now().Before(end); {
			better = false
			for _, c := range candidates(f.Plan) {
				if time.Now().After(end) {
					break
				}
				if f.Violation.Class == "hang" {
					break
				}
				if h, m := dies(cfg, c); h != "" {
					if v := deathMsg(h, m); v != nil && v.Class == f.Violation.Class {
						f.Plan, f.Violation, better = c, *v, true
						break
					}
				}
			}
		}
	} else {
		if w, err := startWorker(cfg); err == nil {
			r, how := w.ask(&request{Minimise: f.Plan, Class: f.Violation.Class, Seconds: 30}, nil)
			if how == "" && r.Viol != nil {
				f.Plan, f.Violation = r.Plan, *r.Viol
			}
			w.kill()
		}
		ok := false
		hash := uint64(0)
		for i := 0; i < 2; i++ {
			w, err := startWorker(cfg)
			if err != nil {
				fmt.Println(err)
				return "", 3
			}
			r, how := w.ask(&request{Plan: f.Plan}, nil)
			w.kill()
			if how == "" && r.Viol != nil && r.Viol.Class == f.Violation.Class {
				if i == 0 {
					hash = r.Hash
					ok = true
				} else if r.Hash != hash {
					fmt.Println("note: the replay takes another course each time")
				}
				f.Violation, f.Log, f.Hash = *r.Viol, r.Log, fmt.Sprintf("%x", r.Hash)
				if len(f.Log) > 400 {
					f.Log = append(append(f.Log[:200:200], "..."), f.Log[len(f.Log)-200:]...)
				}
				if len(r.Unmodelled) > 0 {
					fmt.Println("the failing run made system calls without a model:", r.Unmodelled)
				}
			}
		}
		if !ok {
			return "", 3
		}
	}
	dir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", cfg.Prop, cfg.Seed, f.Batch))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0644)
	fmt.Printf("%s: %s: %s\n", cfg.Prop, f.Violation.Class, f.Violation.Msg)
	j, _ := json.Marshal(f.Plan)
	fmt.Printf("minimised plan: %s\n", clip(string(j), 3000))
	return path, 1
}

func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var k []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" ")
		if !ok {
			continue
		}
		var f knownFinding
		if json.Unmarshal([]byte(rest), &f) == nil && f.Class != "" {
			k = append(k, f)
		}
	}
	return k
}

func writeEvidence(root string, cfg *config, tier string, t *totals, wall time.Duration, found *replayFile, replayPath string, nw int) {
	faults := map[string]int{}
	exits := map[string]int{}
	kinds := map[string]int{}
	judged := map[string]int{}
	for k, n := range t.Stats {
		if s, ok := strings.CutPrefix(k, "judged: "); ok {
			judged[s] += n
			continue
		}
		if strings.HasPrefix(k, "exit: ") {
			exits[strings.TrimPrefix(k, "exit: ")] += n
			continue
		}
		faults[k] += n
		kind, _, _ := strings.Cut(k, "@")
		kinds[kind] += n
	}
	samples := []any{}
	for _, s := range t.samples {
		var v any
		if json.Unmarshal([]byte(s), &v) != nil {
			v = s
		}
		samples = append(samples, v)
	}
	h := wall.Hours()
	cov := map[string]any{
		"evaluations":                       t.Runs,
		"distinct_nontrivial":               len(t.hashes),
		"rule":                              ruleText[cfg.Prop] + " Two runs are distinct if the hash over every system call, its result, its instant and all output differs.",
		"samples":                           samples,
		"seeds":                             t.batches,
		"reference_runs":                    t.Refs,
		"simulated_processes":               t.Procs,
		"simulated_system_calls":            t.Ops,
		"simulated_seconds":                 t.Sim.Seconds(),
		"runs_per_hour":                     int(float64(t.Runs) / h),
		"seeds_per_hour":                    int(float64(t.batches) / h),
		"faults_injected":                   kinds,
		"faults_injected_by_call":           faults,
		"process_ends":                      exits,
		"processes_judged":                  judged,
		"distinct_interleavings":            len(t.scheds),
		"plans_that_did_not_repeat":         t.nondet,
		"system_calls_without_model":        t.Unmodelled,
		"workers":                           nw,
		"real_code":                         "all of neojhat (cmd/neojhat, internal/...), the Go standard library above the system-call layer, the Go scheduler inside a synctest bubble",
		"stubs":                             "system calls, file system, page cache and disk, terminal and pipes, clock, random numbers (simulated); JVM (independent dump writer)",
		"bytes_read_by_simulated_processes": t.Bytes,
	}
	ev := map[string]any{"property": cfg.Prop, "tier": tier, "seed": cfg.Seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds()}
	if found != nil {
		ev["violation"] = found.Violation.Msg
		ev["replay"] = replayPath
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", cfg.Prop+".json"), b, 0644)
}
