package zzverifsim

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

// The simulated disk: one file system with a volatile state (what running
// processes see) and a durable state (what a power loss leaves behind).

const pageSize = 4096

type extent struct {
	off  int64
	data []byte
}

// content of an immutable file made of extents, zero in between
type sparse struct {
	ext  []extent
	runs []idRun
	size int64
}

// idRun is a stretch of records that differ in their identifier only.
type idRun struct {
	off      int64
	n        int64
	rec      []byte
	idAt, id int
	base     uint64
	step     uint64
}

// fill writes the part of the run that p, which starts at off, covers.
func (x *idRun) fill(p []byte, off int64) {
	l := int64(len(x.rec))
	i := max(0, (off-x.off)/l)
	buf := make([]byte, l)
	for ; i < x.n && x.off+i*l < off+int64(len(p)); i++ {
		copy(buf, x.rec)
		v := x.base + uint64(i)*x.step
		for k := x.id - 1; k >= 0; k-- {
			buf[x.idAt+k] = byte(v)
			v >>= 8
		}
		if at := x.off + i*l - off; at >= 0 {
			copy(p[at:], buf)
		} else {
			copy(p, buf[-at:])
		}
	}
}

func (s *sparse) readAt(p []byte, off int64) int {
	if off >= s.size {
		return 0
	}
	if int64(len(p)) > s.size-off {
		p = p[:s.size-off]
	}
	n := s.readExt(p, off)
	for i := range s.runs {
		s.runs[i].fill(p[:n], off)
	}
	return n
}

func (s *sparse) readExt(p []byte, off int64) int {
	i := sort.Search(len(s.ext), func(i int) bool { return s.ext[i].off+int64(len(s.ext[i].data)) > off })
	pos, n := off, 0
	for n < len(p) {
		if i >= len(s.ext) || s.ext[i].off >= off+int64(len(p)) {
			clear(p[n:])
			return len(p)
		}
		e := s.ext[i]
		if pos < e.off {
			k := int(e.off - pos)
			clear(p[n : n+k])
			n += k
			pos += int64(k)
		}
		k := copy(p[n:], e.data[pos-e.off:])
		n += k
		pos += int64(k)
		i++
	}
	return n
}

func sparseOf(b []byte) *sparse {
	return &sparse{ext: []extent{{0, b}}, size: int64(len(b))}
}

func (s *sparse) bytes() []byte {
	b := make([]byte, s.size)
	for _, e := range s.ext {
		copy(b[e.off:], e.data)
	}
	for i := range s.runs {
		s.runs[i].fill(b, 0)
	}
	return b
}

type inode struct {
	ino    uint64
	kind   byte // 'f', 'd', 'l'
	mode   uint32
	mtime  int64
	nlink  int
	data   []byte
	sp     *sparse
	target string
	ents   map[string]*inode
	parent *inode
	isDump bool

	// durable state
	dur     []byte
	dirty   map[int64]bool // pages of data not known to be durable
	dropped map[int64]bool // pages whose writing failed
	sizeCh  bool
	dents   map[string]*inode
	locks   map[*ofd]int
}

func (n *inode) size() int64 {
	if n.sp != nil {
		return n.sp.size
	}
	return int64(len(n.data))
}

type dirChange struct {
	dir  *inode
	name string
	to   *inode // nil: entry removed
}

type FS struct {
	root    *inode
	nextIno uint64
	journal [][]dirChange
	durable bool     // keep track of durability
	loose   bool     // no order between the changes of one directory and those of another
	failed  []*inode // files with dropped pages
	now     func() int64
}

// bytes of memory the files below a directory take.
func (fs *FS) bytes(n *inode) int64 {
	t := int64(cap(n.data))
	for _, c := range n.ents {
		if c.kind != 'l' {
			t += fs.bytes(c)
		}
	}
	return t
}

func newFS(durable bool, now func() int64) *FS {
	fs := &FS{durable: durable, now: now}
	fs.root = fs.newInode('d', 0755)
	fs.root.parent = fs.root
	return fs
}

func (fs *FS) newInode(kind byte, mode uint32) *inode {
	fs.nextIno++
	n := &inode{ino: fs.nextIno, kind: kind, mode: mode, mtime: fs.now(), nlink: 1}
	if kind == 'd' {
		n.ents = map[string]*inode{}
		n.dents = map[string]*inode{}
	}
	return n
}

func (fs *FS) link(ch ...dirChange) {
	for _, c := range ch {
		c.dir.mtime = fs.now()
		if c.to == nil {
			delete(c.dir.ents, c.name)
		} else {
			c.dir.ents[c.name] = c.to
			if c.to.kind == 'd' {
				c.to.parent = c.dir
			}
		}
	}
	if fs.durable {
		fs.journal = append(fs.journal, ch)
	} else {
		fs.applyDurable(ch)
	}
}

func (fs *FS) applyDurable(ch []dirChange) {
	for _, c := range ch {
		if c.to == nil {
			delete(c.dir.dents, c.name)
		} else {
			c.dir.dents[c.name] = c.to
		}
	}
}

// commit makes every directory change so far durable (an ordered journal).
func (fs *FS) commit() {
	for _, ch := range fs.journal {
		fs.applyDurable(ch)
	}
	fs.journal = nil
}

func (fs *FS) markDirty(n *inode, off, end int64) {
	if !fs.durable {
		return
	}
	if n.dirty == nil {
		n.dirty = map[int64]bool{}
	}
	for p := off / pageSize; p*pageSize < end; p++ {
		n.dirty[p] = true
		delete(n.dropped, p)
	}
}

func (fs *FS) sync(n *inode) {
	if !fs.durable {
		return
	}
	if !fs.loose {
		fs.commit()
	} else if n.kind == 'd' {
		fs.commitDir(n)
	}
	if n.kind == 'f' && n.sp == nil {
		n.syncData()
	}
}

// commitDir makes the changes of one directory durable.
func (fs *FS) commitDir(d *inode) {
	var rest [][]dirChange
	for _, ch := range fs.journal {
		if touches(ch, d) {
			fs.applyDurable(ch)
		} else {
			rest = append(rest, ch)
		}
	}
	fs.journal = rest
}

func touches(ch []dirChange, d *inode) bool {
	for _, c := range ch {
		if c.dir == d {
			return true
		}
	}
	return false
}

func (n *inode) syncData() {
	// pages dropped by an earlier failed sync stay lost
	nd := make([]byte, len(n.data))
	copy(nd, n.dur)
	for p := range n.dirty {
		a, b := p*pageSize, (p+1)*pageSize
		if a >= int64(len(nd)) {
			continue
		}
		if b > int64(len(nd)) {
			b = int64(len(nd))
		}
		copy(nd[a:b], n.data[a:b])
	}
	n.dur, n.dirty, n.sizeCh = nd, nil, false
}

// failSync models a failed fsync: the dirty pages are dropped from the list
// of pages to write although they never reached the disk.
func (fs *FS) failSync(n *inode) {
	if !fs.durable || n.kind != 'f' {
		return
	}
	if n.dropped == nil {
		n.dropped = map[int64]bool{}
		fs.failed = append(fs.failed, n)
	}
	for p := range n.dirty {
		n.dropped[p] = true
	}
	n.dirty = nil
	n.sizeCh = true
}

// evict takes the pages whose writing failed out of the memory of the machine:
// whoever reads them next gets what is on the disk.
func (fs *FS) evict() {
	for _, n := range fs.failed {
		for p := range n.dropped {
			a, b := p*pageSize, min((p+1)*pageSize, int64(len(n.data)))
			if a < b {
				clear(n.data[a:b])
				if a < int64(len(n.dur)) {
					copy(n.data[a:b], n.dur[a:])
				}
			}
		}
		n.dropped = nil
	}
	fs.failed = nil
}

// install puts a file in place durably (done by the harness, not by a process).
func (fs *FS) install(dir *inode, name string, n *inode) {
	fs.commit()
	dir.ents[name] = n
	dir.dents[name] = n
	if n.kind == 'd' {
		n.parent = dir
	}
}

func (fs *FS) uninstall(dir *inode, name string) {
	fs.commit()
	delete(dir.ents, name)
	delete(dir.dents, name)
}

func (fs *FS) mkdirAll(path string) *inode {
	d := fs.root
	for _, c := range strings.Split(path, "/") {
		if c == "" {
			continue
		}
		n := d.ents[c]
		if n == nil {
			n = fs.newInode('d', 0755)
			fs.install(d, c, n)
		}
		d = n
	}
	return d
}

// looseEnds keeps the oldest changes of every directory, of each another number.
func (fs *FS) looseEnds(r *Rng) (lost int) {
	cut := map[*inode]bool{} // what changed later in this directory is lost
	kept := map[*inode]bool{}
	rate := pick(r, 50, 200, 500)
	for _, ch := range fs.journal {
		gone := false
		for _, c := range ch {
			if !cut[c.dir] && !kept[c.dir] {
				switch r.n(4) {
				case 0:
					cut[c.dir] = true
				case 1:
					kept[c.dir] = true
				}
			}
			if !kept[c.dir] && r.chance(rate) {
				cut[c.dir] = true
			}
			gone = gone || cut[c.dir]
		}
		if !gone {
			fs.applyDurable(ch)
			continue
		}
		for _, c := range ch {
			cut[c.dir] = true
			kept[c.dir] = false
		}
		lost++
	}
	return
}

// powerLoss reduces the file system to what survived. The choices come from r.
func (fs *FS) powerLoss(r *Rng) (lostOps, lostPages int) {
	keep := r.n(len(fs.journal) + 1)
	switch r.n(4) {
	case 0:
		keep = 0
	case 1:
		keep = len(fs.journal)
	}
	lostOps = len(fs.journal) - keep
	if fs.loose && keep < len(fs.journal) {
		lostOps = fs.looseEnds(r)
	} else {
		for _, ch := range fs.journal[:keep] {
			fs.applyDurable(ch)
		}
	}
	fs.journal = nil
	mode := r.n(4)
	seen := map[*inode]bool{}
	var walk func(n *inode)
	walk = func(n *inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		n.locks = nil
		switch n.kind {
		case 'd':
			n.ents = map[string]*inode{}
			var names []string
			for k := range n.dents {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				c := n.dents[k]
				n.ents[k] = c
				if c.kind == 'd' {
					c.parent = n
				}
				walk(c)
			}
		case 'f':
			if n.sp != nil || len(n.dirty) == 0 && !n.sizeCh && len(n.dur) == len(n.data) {
				if n.sp == nil {
					n.data = append([]byte(nil), n.dur...)
				}
				return
			}
			sz := len(n.data)
			if mode == 1 || mode > 1 && r.n(2) == 0 {
				sz = len(n.dur)
			}
			if mode == 3 && sz > 0 && r.n(2) == 0 && len(n.data) > len(n.dur) {
				sz = len(n.dur) + r.n(len(n.data)-len(n.dur)+1)
			}
			nd := make([]byte, sz)
			copy(nd, n.dur)
			for p := int64(0); p*pageSize < int64(sz); p++ {
				if !n.dirty[p] {
					continue
				}
				a, b := p*pageSize, min((p+1)*pageSize, int64(sz))
				if mode == 0 || r.n(2) == 0 { // the new page made it
					if a < int64(len(n.data)) {
						copy(nd[a:b], n.data[a:min(b, int64(len(n.data)))])
					}
				} else {
					lostPages++
				}
			}
			n.data, n.dur, n.dirty, n.sizeCh = nd, append([]byte(nil), nd...), nil, false
		}
	}
	walk(fs.root)
	return
}

// lookup resolves a path. With follow, a final symbolic link is followed.
// It returns the directory and last component as well; n is nil if the last
// component does not exist.
func (fs *FS) lookup(base *inode, path string, follow bool) (dir *inode, name string, n *inode, err syscall.Errno) {
	return fs.lookupDepth(base, path, follow, 0)
}

func (fs *FS) lookupDepth(base *inode, path string, follow bool, depth int) (dir *inode, name string, n *inode, err syscall.Errno) {
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if len(path) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	d := base
	if path[0] == '/' {
		d = fs.root
	}
	slash := strings.HasSuffix(path, "/")
	var parts []string
	for _, c := range strings.Split(path, "/") {
		if c != "" && c != "." {
			parts = append(parts, c)
		}
	}
	if len(parts) == 0 {
		return d.parent, "", d, 0
	}
	for i, c := range parts {
		if d.kind != 'd' {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		var x *inode
		if c == ".." {
			x = d.parent
		} else {
			x = d.ents[c]
		}
		last := i == len(parts)-1
		if x == nil {
			if last {
				return d, c, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if x.kind == 'l' && (!last || follow || slash) {
			rest := x.target
			if !last {
				rest += "/" + strings.Join(parts[i+1:], "/")
			}
			if slash {
				rest += "/"
			}
			return fs.lookupDepth(d, rest, follow, depth+1)
		}
		if last {
			if slash && x.kind != 'd' {
				return d, c, nil, syscall.ENOTDIR
			}
			return d, c, x, 0
		}
		d = x
	}
	return nil, "", nil, syscall.ENOENT
}

// snapshot lists every path with its kind and content identity.
func (fs *FS) walk(f func(path string, n *inode)) {
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if n.kind != 'd' {
			return
		}
		var names []string
		for k := range n.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			f(p+"/"+k, n.ents[k])
			rec(p+"/"+k, n.ents[k])
		}
	}
	rec("", fs.root)
}

// listing is the whole file system as text, without an empty directory of
// that path.
func (fs *FS) listing(but string) string {
	var sb strings.Builder
	fs.walk(func(path string, n *inode) {
		if n.kind == 'd' && len(n.ents) == 0 && path == but {
			return
		}
		fmt.Fprintf(&sb, "%s %c %d %x\n", path, n.kind, n.size(), hashBytes(n.data))
	})
	return sb.String()
}

func (fs *FS) find(path string) *inode {
	_, _, n, e := fs.lookup(fs.root, path, true)
	if e != 0 {
		return nil
	}
	return n
}
