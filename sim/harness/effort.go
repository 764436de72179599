package zzverifsim

import (
	"fmt"
	"math/bits"
	"os"
)

// effort is the work of a process as the disk sees it.
type effort struct {
	dumpReads, dumpBytes int64
	idxReads, idxBytes   int64
	idxWritten           int64
	idxWrites            int64
}

// effort checks that the work of a command stays within what the dump and the
// report make necessary. The bounds leave a factor of several to other ways of
// doing the same (read-ahead, caches, another index format), a scan where a
// search is promised, or a second pass, exceeds them.
func (r *runner) effort(p *Proc, d *Dump, ctx func() string) {
	if r.plan.Prop != "C21" && !effLogOn || d.model == nil {
		return
	}
	m := d.model
	e := p.eff
	objects := int64(d.nObj[0] + d.nObj[1] + d.nObj[2])
	text := int64(0) // of the properties
	for _, kv := range m.props {
		text += 2 * int64(len(kv.k)+len(kv.v))
	}
	// everything but the objects: what an index holds besides offsets
	rest := d.size - d.bulk
	idxSize := 24*objects + 4*rest + 64<<10

	// objects a report has to look at
	looks := int64(20)
	switch parseArgs(p.args).cmd {
	case "threads":
		looks += int64(8 * len(m.threads))
		for _, t := range m.threads {
			for _, f := range t.frames {
				looks += int64(3 * len(f.locals))
			}
		}
	case "summary":
		looks += int64(8*len(m.props) + 8*d.spec.Table)
	}
	probes := looks * int64(bits.Len64(uint64(objects))+2)

	type bound struct {
		what       string
		value, max int64
	}
	var bs []bound
	short := int64(1)
	if r.shortReads(p) {
		short = 64 // every call may be cut into many
	}
	indexing := e.idxWritten > 0
	if indexing && r.indexed && !r.k.concurrent {
		r.fail("effort", "%s: wrote %d bytes to the index, which was complete before", ctx(), e.idxWritten)
		return
	}
	if indexing {
		bs = []bound{
			{"bytes of the dump read while indexing", e.dumpBytes, d.size*3/2 + 1<<20 + 8<<10*looks},
			{"reads of the dump while indexing", e.dumpReads, short * (d.size/256 + 40*looks + 5000)},
			{"bytes of the index written", e.idxWritten, 2 * idxSize},
			{"writes to the index", e.idxWrites, short * (1000 + idxSize/1024)},
		}
	} else {
		bs = []bound{
			{"bytes of the dump read although it is indexed", e.dumpBytes, 8<<10*looks + 2*text + 1<<20},
			{"reads of the dump although it is indexed", e.dumpReads, short * (40*looks + text/64 + 5000)},
		}
	}
	bs = append(bs,
		// the offsets of the objects are looked up, everything else may be read at a stretch
		bound{"bytes of the index read", e.idxBytes, 2*(4*rest+64<<10) + 4096*probes},
		bound{"reads of the index", e.idxReads, short * (2*probes + (4*rest+64<<10)/256 + 4*rest + 5000)},
	)
	for _, x := range bs {
		if effLogOn {
			fmt.Fprintf(realStd[2], "EFF %s|%s|%d|%d|%.4f|N=%d size=%d looks=%d\n", parseArgs(p.args).cmd, x.what, x.value, x.max, float64(x.value)/float64(x.max), objects, d.size, looks)
		}
		if x.value > x.max && r.plan.Prop == "C21" {
			r.fail("effort", "%s: %d %s, more than %d (dump of %d bytes with %d objects, %d of them to look at)", ctx(), x.value, x.what, x.max, d.size, objects, looks)
			return
		}
	}
	r.k.stats["judged: effort"]++
	if indexing {
		r.k.stats["judged: effort of building an index"]++
	}
}

func (r *runner) shortReads(p *Proc) bool {
	if p.benign.Short > 0 || p.benign.Eintr > 0 {
		return true
	}
	for _, f := range p.faults {
		if f.Kind == "short" || f.Kind == "EINTR" {
			return true
		}
	}
	return false
}

var effLogOn = os.Getenv("VERIFEFF") != ""
