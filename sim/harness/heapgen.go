package zzverifsim

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"
	"unicode/utf16"
)

// An independent writer of HotSpot heap dumps. It builds a little JVM heap,
// writes it in HPROF 1.0.2 and derives what each report must say from the
// heap it built, not from the bytes it wrote.

type DumpSpec struct {
	Seed     uint64 `json:"seed"`
	IdSize   int    `json:"id_size"`
	IDBase   int    `json:"id_base,omitempty"` // 0 small, 1 usual, 2 high bit set, 3 across the sign bit, scattered, 4 dense, 5 dense with gaps
	Threads  int    `json:"threads,omitempty"`
	Frames   int    `json:"frames,omitempty"` // at most, per thread
	Locals   int    `json:"locals,omitempty"` // at most, per thread
	Classes  int    `json:"classes,omitempty"`
	Depth    int    `json:"depth,omitempty"`
	Objs     int    `json:"objs,omitempty"`
	ObjArrs  int    `json:"obj_arrs,omitempty"`
	PrimArrs int    `json:"prim_arrs,omitempty"`
	ElemMax  int    `json:"elem_max,omitempty"`
	Props    int    `json:"props,omitempty"`
	Table    int    `json:"table,omitempty"` // size of the properties hash table
	Tree     bool   `json:"tree,omitempty"`  // long buckets are trees
	Fwd      bool   `json:"fwd,omitempty"`   // the table is being resized
	Segs     int    `json:"segs,omitempty"`
	ZeroLen  bool   `json:"zero_len,omitempty"` // segments declare length 0
	Late     bool   `json:"late,omitempty"`     // other records between the segments
	Mixed    bool   `json:"mixed,omitempty"`    // sub-records in no particular order
	Grouped  bool   `json:"grouped,omitempty"`  // objects grouped by kind
	Text     int    `json:"text,omitempty"`     // 0 ASCII 1 Latin-1 2 any 3 markup
	Ties     bool   `json:"ties,omitempty"`     // many rows with equal keys
	Shadow   bool   `json:"shadow,omitempty"`   // subclasses of Thread redeclare its fields
	Bare     bool   `json:"bare,omitempty"`     // no threads, no properties: objects only
	AllLocal bool   `json:"all_local,omitempty"`
	Absent   bool   `json:"absent,omitempty"` // one local refers to an object that is not in the dump
	AbsentAt int    `json:"absent_at,omitempty"`
	FileSz   bool   `json:"file_sz,omitempty"` // instance sizes are sums of field sizes
	Wild     bool   `json:"wild,omitempty"`    // serial numbers, frame and text identifiers in no order
	Tids     int    `json:"tids,omitempty"`    // 1 thread ids far apart, 2 several with the same id
	Vary     int    `json:"vary,omitempty"`    // letters of texts are others, everything else is the same
	Odd      int    `json:"odd,omitempty"`     // permille of names and descriptors that no JVM would write
	Shared   bool   `json:"shared,omitempty"`  // stacks have frame records in common
	Same     bool   `json:"same,omitempty"`    // the same object is referred to by many locals
	Traces   int    `json:"traces,omitempty"`  // stack traces that are not those of the threads
	Exact    int    `json:"exact,omitempty"`   // total number of objects, all of one size

	// big dumps
	Many     [3]int  `json:"many,omitempty"`      // extra instances, object arrays, primitive arrays
	ManyLen  int     `json:"many_len,omitempty"`  // their payload, at most
	ManyAt   []int   `json:"many_at,omitempty"`   // ordinals that get a local
	Herd     [2]int  `json:"herd,omitempty"`      // fields of a class, its instances
	Crowd    [3]int  `json:"crowd,omitempty"`     // many more of them, alike, at the end
	Giant    []int64 `json:"giant,omitempty"`     // payload sizes of giant arrays
	GiantObj []int64 `json:"giant_obj,omitempty"` // the same, object arrays

	Unsup   string `json:"unsup,omitempty"` // something neojhat does not support
	UnsupAt int    `json:"unsup_at,omitempty"`
	Edits   []Edit `json:"edits,omitempty"`
	Mtime   int64  `json:"mtime,omitempty"` // seconds after the start of time
	Pad     int    `json:"pad,omitempty"`   // length of an unused string
}

// Edit changes the finished file.
type Edit struct {
	Op   string `json:"op"` // cut, set, del, ins, raw
	Off  int64  `json:"off"`
	Len  int64  `json:"len,omitempty"`
	Data []byte `json:"data,omitempty"`
}

type gField struct {
	name string
	t    byte
}
type gStatic struct {
	name string
	t    byte
	ref  *gObj
	bits uint64
}
type gClass struct {
	id      uint64
	name    string
	super   *gClass
	fields  []gField
	statics []gStatic
	cp      []gStatic
	size    int
	serial  uint32
	noDump  bool
	count   int
	elems   int64
}
type gVal struct {
	t    byte
	ref  *gObj
	cref *gClass
	bits uint64
}
type gObj struct {
	kind byte // i o p
	id   uint64
	cls  *gClass
	vals []gVal
	refs []*gObj
	et   byte
	data []byte
	n    int64
	zero int64
}

type mFrame struct {
	ret, cls, method, args, loc string
	locals                      []string
}
type mThread struct {
	name   string
	id     int64
	prio   int32
	daemon bool
	status string
	frames []mFrame
}
type mRow struct {
	name  string
	count int64
	size  int64
}
type mKv struct{ k, v string }

// Model is what the reports on a dump must say.
type Model struct {
	threads []mThread
	rows    []mRow
	count   int64
	size    int64
	classes int
	roots   int
	rootsHi int // with those of kinds neojhat does not know
	props   []mKv
	prop    map[string]string
	uptime  string
}

type mark struct {
	off  int64
	n    int
	kind string
}

type Dump struct {
	spec    DumpSpec
	file    *sparse
	model   *Model
	class   string // valid, cut, unsup, corrupt
	endOff  int64  // offset of the end-of-dump record
	marks   []mark
	size    int64
	nObj    [3]int
	bulk    int64 // bytes of objects
	nothing bool
}

var primTypes = []byte{4, 5, 6, 7, 8, 9, 10, 11}
var typeSize = map[byte]int{4: 1, 5: 2, 6: 4, 7: 8, 8: 1, 9: 2, 10: 4, 11: 8}
var typeName = map[byte]string{4: "boolean", 5: "char", 6: "float", 7: "double", 8: "byte", 9: "short", 10: "int", 11: "long"}
var typeSig = map[byte]string{4: "Z", 5: "C", 6: "F", 7: "D", 8: "B", 9: "S", 10: "I", 11: "J"}

type heapBuilder struct {
	s       DumpSpec
	r       *Rng // structure
	t       *Rng // text
	classes []*gClass
	objs    []*gObj
	byName  map[string]*gClass
	m       *Model
	str     *gClass
	object  *gClass
	used    map[string]bool
	seq     int
	marks   []mark
}

// ---- text ------------------------------------------------------------------

var asciiWords = []string{"alpha", "Beta", "main", "Worker", "pool", "data", "Cache", "x", "io", "Node", "Entry", "run", "get", "handle", "zeta", "Omega", "q", "Lambda", "Long", "Ljava", "Izzy", "Void"}
var latinWords = []string{"größe", "été", "ñandú", "Ångström", "ÿ", "§1"}
var uniWords = []string{"クラス", "имя", "Ω", "名前", "ﷺ", "‮x", "é", "中文"}
var astral = []string{"😀", "𝔘𝔫𝔦", "🧵"}

// characters that code may drop, fold or take for the end of something
var strange = []string{"a\ufeffb", "x\u200by", "p\u00a0q", "r\u2028s", "t\u0085u", "v\ufffdw", "m\ufffd\ufffdn", "A\u030a", "ı", "ſ", "\u007fz", "k\u001bl", "e\u0301", "\U0010ffff", "\uffff.", "z\x00o"}
var markup = []string{"<b>", "</p>", "<script>alert(1)</script>", "&amp;", "&", "\"", "'", "</td><td>", "<!--", "-->", "{{.}}", "`", "</style>", "<init>", "$", "%s", "%!d(", "\\", "<img src=x onerror=y>", "]]>", "&lt;", "=", "><"}

// real texts, which code may take for something it knows
var real = []string{"http://", "https://x/", "file:/", "jar:file:/a.jar!/", "javascript:", "mailto:", "/usr/lib", "C:\\dir", "true", "null", "17.0.1", "0", "-1", "1.5e3", "UTF-8", "java.", "sun.", "http-nio-8080-exec-", "pool-1-thread-", "GC task thread#", "[", "@", "+", "=", "\t", "--", "100%", "Thread[main]", "java.lang.String", "(", ";"}

// word makes a text that is a good Java identifier unless the spec asks for more.
func (b *heapBuilder) word(free bool) string {
	b.seq++
	var sb strings.Builder
	n := b.t.in(1, 3)
	if free && b.t.chance(250) {
		sb.WriteString(pick(b.t, real...))
	}
	for i := 0; i < n; i++ {
		pool := asciiWords
		if b.s.Text >= 1 && b.t.chance(300) {
			pool = latinWords
		}
		if b.s.Text >= 2 && b.t.chance(300) {
			pool = uniWords
			if free && b.t.chance(300) {
				pool = astral
			} else if free && b.t.chance(300) {
				pool = strange
			}
		}
		if b.s.Text >= 3 && b.t.chance(500) {
			pool = markup
		}
		w := pick(b.t, pool...)
		if !free {
			w = strings.NewReplacer("/", "", ";", "", "[", "", "(", "", ")", "", ".", "", "\x00", "").Replace(w)
		}
		sb.WriteString(w)
		if free && b.t.chance(250) {
			sb.WriteString(pick(b.t, " ", "-", ", ", "  ", "/", ".", ":", "#", "; "))
		}
	}
	if b.s.Vary > 0 {
		return strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' {
				return 'a' + (c-'a'+rune(b.s.Vary))%26
			}
			return c
		}, sb.String())
	}
	return sb.String()
}

// ident makes a text that is unique in the dump.
func (b *heapBuilder) ident() string {
	for {
		w := b.word(false)
		if w == "" {
			w = "w"
		}
		for i := 0; b.used[w] && i < 3; i++ {
			w = fmt.Sprintf("%s%d", w, b.t.n(1000))
		}
		if !b.used[w] {
			b.used[w] = true
			return w
		}
	}
}

func (b *heapBuilder) className() string {
	n := b.t.n(3)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, pick(b.t, "com", "org", "a", "java", "util", "x", "net"))
	}
	w := b.ident()
	if b.t.chance(200) {
		w += pick(b.t, "$1", "$Inner", "$$Lambda$14", "$$Lambda$14/0x0000000800066840", "$$Lambda/2088051243", "_$$_javassist_1", "$Proxy7")
	}
	if b.t.chance(100) {
		w += fmt.Sprintf("+0x%x", b.t.n(1<<30))
	}
	return strings.Join(append(parts, w), "/")
}

// ---- heap construction -----------------------------------------------------

func (b *heapBuilder) class(name string, super *gClass, fields ...gField) *gClass {
	c := &gClass{name: name, super: super, fields: fields, serial: uint32(len(b.classes) + 1)}
	b.classes = append(b.classes, c)
	if b.byName[name] == nil {
		b.byName[name] = c
	}
	return c
}

func (b *heapBuilder) randField() gField {
	t := byte(2)
	if b.r.chance(600) {
		t = pick(b.r, primTypes...)
	}
	return gField{b.fieldName(), t}
}

func (b *heapBuilder) fieldName() string {
	return fmt.Sprintf("f%d", b.r.n(40))
}

// addNoise mixes unrelated fields among those of a class.
func (b *heapBuilder) addNoise(c *gClass) {
	k := b.r.n(4)
	for i := 0; i < k; i++ {
		f := b.randField()
		dup := false
		for _, x := range c.fields {
			if x.name == f.name {
				dup = true
			}
		}
		if dup {
			continue
		}
		p := b.r.n(len(c.fields) + 1)
		c.fields = append(c.fields[:p:p], append([]gField{f}, c.fields[p:]...)...)
	}
}

// steep is how many more classes there are between a class and what it extends.
func (b *heapBuilder) steep() int {
	switch b.r.n(12) {
	case 0:
		return b.r.in(1, 4)
	case 1:
		return b.r.in(5, 40)
	}
	return 0
}

func (b *heapBuilder) newObj(c *gClass) *gObj {
	o := &gObj{kind: 'i', cls: c}
	for k := c; k != nil; k = k.super {
		for _, f := range k.fields {
			v := gVal{t: f.t}
			if f.t == 4 {
				v.bits = uint64(b.r.n(2))
			} else if f.t != 2 {
				v.bits = b.r.u64()
			}
			o.vals = append(o.vals, v)
		}
	}
	b.objs = append(b.objs, o)
	return o
}

// set gives a field declared by class `origin` its value.
func (b *heapBuilder) set(o *gObj, origin *gClass, name string, v gVal) {
	i := 0
	for k := o.cls; k != nil; k = k.super {
		for _, f := range k.fields {
			if k == origin && f.name == name {
				v.t = f.t
				o.vals[i] = v
				return
			}
			i++
		}
	}
	panic("no field " + name)
}

func (b *heapBuilder) primArr(et byte, data []byte) *gObj {
	o := &gObj{kind: 'p', et: et, data: data, n: int64(len(data) / typeSize[et])}
	b.objs = append(b.objs, o)
	return o
}

func (b *heapBuilder) objArr(c *gClass, refs []*gObj) *gObj {
	o := &gObj{kind: 'o', cls: c, refs: refs, n: int64(len(refs))}
	b.objs = append(b.objs, o)
	return o
}

func (b *heapBuilder) javaString(s string) *gObj {
	coder := uint64(0)
	var data []byte
	for _, c := range s {
		if c > 255 {
			coder = 1
		}
	}
	if b.t.chance(60) {
		coder = 1 // as -XX:-CompactStrings does
	}
	if coder == 0 {
		for _, c := range s {
			data = append(data, byte(c))
		}
	} else {
		for _, u := range utf16.Encode([]rune(s)) {
			if u == 0xfffd && b.t.chance(500) {
				u = 0xdc00 + uint16(b.t.n(0x400)) // half of a pair
			}
			data = append(data, byte(u), byte(u>>8))
		}
	}
	o := b.newObj(b.str)
	b.set(o, b.str, "value", gVal{ref: b.primArr(8, data)})
	b.set(o, b.str, "coder", gVal{bits: coder})
	return o
}

func (b *heapBuilder) arrClass(name string) *gClass {
	if c := b.byName[name]; c != nil {
		return c
	}
	return b.class(name, b.object)
}

var threadStates = []struct {
	v uint64
	s string
}{
	{0x0000, "NEW"},
	{0x0001 | 0x0004, "RUNNABLE"},
	{0x0001 | 0x0400, "BLOCKED"},
	{0x0001 | 0x0080 | 0x0010 | 0x0100, "WAITING"},
	{0x0001 | 0x0080 | 0x0010 | 0x0200, "WAITING"},
	{0x0001 | 0x0080 | 0x0020 | 0x0100, "TIMED_WAITING"},
	{0x0001 | 0x0080 | 0x0020 | 0x0040, "TIMED_WAITING"},
	{0x0001 | 0x0080 | 0x0020 | 0x0200, "TIMED_WAITING"},
	{0x0002, "TERMINATED"},
	{0x0001 | 0x0004 | 0x400000, "RUNNABLE"},
	{0x0001 | 0x0004 | 0x200000, "RUNNABLE"},
	{0x0001 | 0x0080 | 0x0010 | 0x0200 | 0x100000, "WAITING"},
}

func internalToDot(s string) string { return strings.ReplaceAll(s, "/", ".") }

// descType renders one descriptor type in Java notation.
func descType(s string) string {
	d := 0
	for strings.HasPrefix(s, "[") {
		d++
		s = s[1:]
	}
	n := ""
	if strings.HasPrefix(s, "L") {
		n = internalToDot(strings.TrimSuffix(s[1:], ";"))
	} else if s == "V" {
		n = "void"
	} else {
		for t, c := range typeSig {
			if c == s {
				n = typeName[t]
			}
		}
	}
	return n + strings.Repeat("[]", d)
}

func (b *heapBuilder) randDesc() string {
	s := strings.Repeat("[", max(0, b.r.n(6)-3))
	if b.r.chance(400) {
		c := b.classes[b.r.n(len(b.classes))]
		if !strings.HasPrefix(c.name, "[") {
			return s + "L" + c.name + ";"
		}
	}
	return s + typeSig[pick(b.r, primTypes...)]
}

func ownFieldBytes(c *gClass, id int) int {
	n := 0
	for _, f := range c.fields {
		if f.t == 2 {
			n += id
		} else {
			n += typeSize[f.t]
		}
	}
	return n
}

func fieldBytes(c *gClass, id int) int {
	n := 0
	for ; c != nil; c = c.super {
		n += ownFieldBytes(c, id)
	}
	return n
}

type rec struct {
	tag  byte
	body []byte
	mk   []mark
}

type enc struct {
	b  []byte
	id int
	mk []mark
}

func (e *enc) m(kind string, n int) { e.mk = append(e.mk, mark{int64(len(e.b)), n, kind}) }
func (e *enc) u1(v byte)            { e.b = append(e.b, v) }
func (e *enc) u2(v int)             { e.b = binary.BigEndian.AppendUint16(e.b, uint16(v)) }
func (e *enc) u4(v uint32)          { e.b = binary.BigEndian.AppendUint32(e.b, v) }
func (e *enc) u8(v uint64)          { e.b = binary.BigEndian.AppendUint64(e.b, v) }
func (e *enc) ident(v uint64) {
	if e.id == 4 {
		e.u4(uint32(v))
	} else {
		e.u8(v)
	}
}
func (e *enc) val(t byte, v gVal) {
	switch t {
	case 2:
		e.m("ref", e.id)
		switch {
		case v.ref != nil:
			e.ident(v.ref.id)
		case v.cref != nil:
			e.ident(v.cref.id)
		default:
			e.ident(0)
		}
	case 4, 8:
		e.u1(byte(v.bits))
	case 5, 9:
		e.u2(int(uint16(v.bits)))
	case 6, 10:
		e.u4(uint32(v.bits))
	default:
		e.u8(v.bits)
	}
}

// a piece of a heap segment; zero is a run of zero bytes after body
type sub struct {
	body []byte
	zero int64
	mk   []mark
	obj  *gObj
}

func (b *heapBuilder) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := b.r.n(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// buildDump is a pure function of the spec.
func buildDump(s DumpSpec) *Dump {
	b := &heapBuilder{s: s, r: newRng(s.Seed, 1), t: newRng(s.Seed, 2, uint64(s.Text)), byName: map[string]*gClass{}, used: map[string]bool{}, m: &Model{prop: map[string]string{}}}
	if s.Text == 0 || s.Text == 3 {
		b.t = newRng(s.Seed, 2, 0)
	}
	if b.s.Table <= 0 {
		b.s.Table = 16
	}
	long := false // payloads that no segment of known length can hold
	for _, n := range append(append([]int64(nil), s.Giant...), s.GiantObj...) {
		long = long || n > 0xfffffe00
	}
	if b.s.ZeroLen || long {
		b.s.Late = false // nothing but another segment can follow a segment of unknown length
	}
	d := b.build()
	d.spec = s
	return d
}

func (b *heapBuilder) build() *Dump {
	s, r := b.s, b.r
	id := s.IdSize
	if id != 4 {
		id = 8
	}

	// -- classes of the JDK that the reports read
	b.object = b.class("java/lang/Object", nil)
	b.str = b.class("java/lang/String", b.object, gField{"value", 2}, gField{"coder", 8}, gField{"hash", 10})
	var thread, system, props, chm, node, treeBin, treeNode, fwd, mfh, rti *gClass
	var vmSupport *gClass
	b.class("java/lang/Class", b.object)
	if !s.Bare {
		thread = b.class("java/lang/Thread", b.object, gField{"name", 2}, gField{"priority", 10}, gField{"daemon", 4}, gField{"tid", 11}, gField{"threadStatus", 10})
		p := r.n(len(thread.fields))
		thread.fields[0], thread.fields[p] = thread.fields[p], thread.fields[0]
		b.addNoise(thread)
		system = b.class("java/lang/System", b.object)
		hashtable := b.class("java/util/Hashtable", b.object, gField{"table", 2}, gField{"count", 10})
		props = b.class("java/util/Properties", hashtable, gField{"defaults", 2}, gField{"map", 2})
		absMap := b.class("java/util/AbstractMap", b.object, gField{"keySet", 2}, gField{"values", 2})
		chm = b.class("java/util/concurrent/ConcurrentHashMap", absMap, gField{"table", 2}, gField{"nextTable", 2}, gField{"baseCount", 11})
		node = b.class("java/util/concurrent/ConcurrentHashMap$Node", b.object, gField{"hash", 10}, gField{"key", 2}, gField{"val", 2}, gField{"next", 2})
		treeBin = b.class("java/util/concurrent/ConcurrentHashMap$TreeBin", node, gField{"root", 2}, gField{"first", 2}, gField{"waiter", 2}, gField{"lockState", 10})
		treeNode = b.class("java/util/concurrent/ConcurrentHashMap$TreeNode", node, gField{"parent", 2}, gField{"left", 2}, gField{"right", 2}, gField{"prev", 2}, gField{"red", 4})
		fwd = b.class("java/util/concurrent/ConcurrentHashMap$ForwardingNode", node, gField{"nextTable", 2})
		mfh = b.class("sun/management/ManagementFactoryHelper", b.object)
		vmSupport = b.class("sun/management/VMManagementImpl", b.object, gField{"vmVersion", 2})
		rti = b.class("sun/management/RuntimeImpl", b.object, gField{"jvm", 2}, gField{"vmStartupTime", 11})
		b.addNoise(rti)
	}
	for _, n := range []string{"[B", "[I", "[J", "[C", "[Z", "[F", "[D", "[S"} {
		if r.chance(700) {
			b.arrClass(n)
		}
	}

	// -- application classes
	firstApp := len(b.classes)
	level := map[*gClass]int{b.object: 0}
	for i := 0; i < s.Classes; i++ {
		super := b.object
		if i > 0 && r.chance(600) {
			c := b.classes[firstApp+r.n(len(b.classes)-firstApp)]
			if level[c] < s.Depth {
				super = c
			}
		}
		name := b.className()
		if i > 0 && r.chance(120) { // the same class from another loader
			name = b.classes[firstApp+r.n(len(b.classes)-firstApp)].name
		}
		c := b.class(name, super)
		level[c] = level[super] + 1
		for k := r.n(5); k > 0; k-- {
			f := b.randField()
			c.fields = append(c.fields, f)
		}
		if s.Ties {
			c.fields = nil
			c.super = b.object
		}
		for k := r.n(3); k > 0; k-- {
			f := b.randField()
			st := gStatic{name: f.name, t: f.t, bits: r.u64()}
			if f.t == 4 {
				st.bits &= 1
			}
			c.statics = append(c.statics, st)
		}
		if r.chance(100) {
			for k := r.in(1, 3); k > 0; k-- {
				t := pick(r, primTypes...)
				v := r.u64()
				if t == 4 {
					v &= 1
				}
				c.cp = append(c.cp, gStatic{t: t, bits: v})
			}
		}
	}
	app := b.classes[firstApp:]
	appOr := func() *gClass {
		if len(app) == 0 {
			return b.object
		}
		return app[r.n(len(app))]
	}

	// -- plain objects
	var plain []*gObj
	if s.Exact > 0 {
		for _, c := range app {
			c.fields, c.super = nil, b.object
		}
		at := []int{0, s.Exact}
		for i := 1; i < len(app); i++ {
			at = append(at, r.n(s.Exact+1))
		}
		sort.Ints(at)
		for i, c := range app {
			for k := at[i]; k < at[i+1]; k++ {
				plain = append(plain, b.newObj(c))
			}
		}
	} else if s.Ties {
		per := max(1, s.Objs/max(1, len(app)))
		for _, c := range app {
			for k := 0; k < per; k++ {
				plain = append(plain, b.newObj(c))
			}
		}
	} else {
		for i := 0; i < s.Objs; i++ {
			plain = append(plain, b.newObj(appOr()))
		}
	}
	elems := func() int {
		switch {
		case s.ElemMax == 0 || r.chance(200):
			return 0
		case r.chance(500):
			return r.n(min(4, s.ElemMax) + 1)
		}
		return r.n(s.ElemMax + 1)
	}
	for i := 0; i < s.PrimArrs; i++ {
		t := pick(r, primTypes...)
		data := make([]byte, elems()*typeSize[t])
		for j := range data {
			data[j] = byte(r.u64())
		}
		plain = append(plain, b.primArr(t, data))
	}
	for i := 0; i < s.ObjArrs; i++ {
		var name string
		if r.chance(200) {
			name = "[[" + typeSig[pick(r, primTypes...)]
		} else {
			name = strings.Repeat("[", 1+max(0, r.n(5)-3)) + "L" + appOr().name + ";"
		}
		c := b.arrClass(name)
		if r.chance(100) { // the same array class from another loader
			c = b.class(name, b.object)
		}
		var refs []*gObj
		for k := elems(); k > 0; k-- {
			if r.chance(300) || len(plain) == 0 {
				refs = append(refs, nil)
			} else {
				refs = append(refs, plain[r.n(len(plain))])
			}
		}
		plain = append(plain, b.objArr(c, refs))
	}
	// references between them
	for _, o := range plain {
		for i := range o.vals {
			if o.vals[i].t == 2 && r.chance(600) {
				o.vals[i].ref = plain[r.n(len(plain))]
			}
		}
	}

	// -- system properties
	startMs := int64(1500000000000) + int64(r.n(1<<30))*1000 + int64(r.n(1000))
	upMs := []int64{0, 1, 999, 1000, 61000, 3599999, 3600000, int64(r.n(1 << 40)), -5000, int64(r.n(100000000))}[r.n(10)]
	stamp := startMs + upMs
	b.m.uptime = (time.Duration(upMs) * time.Millisecond).String()
	if !s.Bare {
		b.buildProps(system, props, chm, node, treeBin, treeNode, fwd)
		impl := b.newObj(rti)
		b.set(impl, rti, "vmStartupTime", gVal{bits: uint64(startMs)})
		vm := b.newObj(vmSupport)
		b.set(impl, rti, "jvm", gVal{ref: vm})
		mfh.statics = append(mfh.statics, gStatic{name: "jvm", t: 2, ref: vm}, gStatic{name: "runtimeMBean", t: 2, ref: impl}, gStatic{name: "useless", t: 10, bits: 7})
		if r.chance(500) {
			mfh.statics[0], mfh.statics[1] = mfh.statics[1], mfh.statics[0]
		}
	}

	// -- threads
	type gFrame struct {
		cls               *gClass
		method, sig, file string
		noFile            bool
		line              int32
		mf                mFrame
		key               int
	}
	type gThread struct {
		o      *gObj
		frames []gFrame
		mt     mThread
		serial uint32
	}
	var threads []*gThread
	var allFrames []gFrame
	if !s.Bare {
		var subs []*gClass
		for i := 0; i < 2; i++ {
			up := thread
			for k := b.steep(); k > 0; k-- {
				up = b.class(b.className(), up)
				b.addNoise(up)
			}
			c := b.class(b.className(), up)
			if s.Shadow {
				c.fields = append(c.fields, gField{"name", 2}, gField{"tid", 10}, gField{"daemon", 8})
				if r.chance(500) {
					c.fields = append(c.fields, gField{"priority", 11}, gField{"threadStatus", 2})
				}
			}
			b.addNoise(c)
			subs = append(subs, c)
		}
		tids := map[int64]bool{}
		for i := 0; i < s.Threads; i++ {
			sub := thread
			if r.chance(400) {
				sub = subs[r.n(2)]
			}
			o := b.newObj(sub)
			name := b.word(true)
			if b.t.chance(60) {
				name = ""
			}
			tid := int64(i + 1)
			switch r.n(6) {
			case 0:
				tid = int64(r.n(1 << 40))
			case 1:
				tid = int64(r.n(100))
			}
			if s.Tids == 1 {
				tid = int64(r.u64() >> (1 + uint(r.n(34))))
			}
			if s.Tids == 1 && r.chance(100) {
				tid = -tid
			}
			if s.Tids == 2 && i > 0 && r.chance(600) {
				tid = threads[r.n(i)].mt.id
			}
			for tids[tid] && s.Tids != 2 {
				tid++
			}
			tids[tid] = true
			st := threadStates[r.n(len(threadStates))]
			if r.chance(200) { // suspended, interrupted, in native code, of the vendor
				st.v |= pick(r, uint64(0x100000), 0x200000, 0x400000, 0x700000, 0x10000000, 0x40000000)
			}
			mt := mThread{name: name, id: tid, prio: int32(r.in(1, 10)), daemon: r.chance(500), status: st.s}
			if r.chance(30) {
				mt.prio = pick(r, int32(0), -1, 127, 1<<31-1, -1<<31)
			}
			b.set(o, thread, "name", gVal{ref: b.javaString(name)})
			b.set(o, thread, "tid", gVal{bits: uint64(tid)})
			b.set(o, thread, "priority", gVal{bits: uint64(uint32(mt.prio))})
			dm := uint64(0)
			if mt.daemon {
				dm = 1
			}
			b.set(o, thread, "daemon", gVal{bits: dm})
			b.set(o, thread, "threadStatus", gVal{bits: st.v})
			t := &gThread{o: o, mt: mt, serial: uint32(i + 1)}
			nf := r.n(s.Frames + 1)
			if s.AllLocal || s.Absent || len(s.ManyAt) > 0 {
				nf = max(1, s.Frames)
			}
			for k := 0; k < nf; k++ {
				if s.Shared && len(allFrames) > 0 && r.chance(600) {
					t.frames = append(t.frames, allFrames[r.n(len(allFrames))])
					continue
				}
				f := gFrame{cls: appOr(), method: b.word(false), file: b.word(false) + ".java"}
				if f.method == "" {
					f.method = "m"
				}
				var args []string
				f.sig = "("
				for a := r.n(4); a > 0; a-- {
					dsc := b.randDesc()
					f.sig += dsc
					args = append(args, descType(dsc))
				}
				ret := "V"
				if r.chance(500) {
					ret = b.randDesc()
				}
				f.sig += ")" + ret
				f.line = int32(r.in(1, 5000))
				if r.chance(60) {
					f.line = pick(r, int32(1), 255, 256, 32767, 32768, 65534, 65535, int32(r.in(1, 65535)))
				}
				lineS := fmt.Sprint(f.line)
				switch r.n(8) {
				case 0:
					f.line, lineS = -1, ""
				case 1:
					f.line, lineS = -2, "CompiledMethod"
				case 2:
					f.line, lineS = -3, "NativeMethod"
				}
				f.noFile = r.chance(100)
				loc := f.file
				if lineS != "" {
					loc += ":" + lineS
				}
				if f.noFile {
					loc = ""
				}
				f.mf = mFrame{ret: descType(ret), cls: internalToDot(f.cls.name), method: f.method, args: strings.Join(args, ", "), loc: loc}
				f.key = len(allFrames)
				allFrames = append(allFrames, f)
				t.frames = append(t.frames, f)
			}
			threads = append(threads, t)
		}
	}

	// -- objects in great numbers
	var many []*gObj
	if s.Many != [3]int{} {
		var mc []*gClass
		for i := 0; i < 24; i++ {
			c := b.class(fmt.Sprintf("many/C%02d", i), b.object)
			if i%3 != 0 {
				c.fields = append(c.fields, gField{"v", 10})
			}
			for j := r.n(s.ManyLen/8 + 1); s.ManyLen > 0 && j > 0; j-- {
				c.fields = append(c.fields, gField{fmt.Sprintf("w%d", j), 11})
			}
			mc = append(mc, c)
		}
		var ac []*gClass
		for i := 0; i < 24; i++ {
			ac = append(ac, b.arrClass("[L"+mc[i].name+";"))
		}
		left := s.Many
		for left[0]+left[1]+left[2] > 0 {
			k := r.n(left[0] + left[1] + left[2])
			var o *gObj
			switch {
			case k < left[0]:
				o = &gObj{kind: 'i', cls: mc[r.n(24)]}
				if len(o.cls.fields) > 0 {
					o.vals = []gVal{{t: 10, bits: uint64(k)}}
					for _, f := range o.cls.fields[1:] {
						o.vals = append(o.vals, gVal{t: f.t, bits: uint64(k)})
					}
					o.vals = o.vals[:len(o.cls.fields)]
					if o.cls.fields[0].t != 10 {
						o.vals[0].t = o.cls.fields[0].t
					}
				}
				left[0]--
			case k < left[0]+left[1]:
				o = &gObj{kind: 'o', cls: ac[r.n(24)]}
				if s.ManyLen > 0 {
					o.n = int64(r.n(s.ManyLen/id + 1))
					o.refs = make([]*gObj, o.n)
				}
				left[1]--
			default:
				t := primTypes[r.n(8)]
				o = &gObj{kind: 'p', et: t}
				if s.ManyLen > 0 {
					o.n = int64(r.n(s.ManyLen/typeSize[t] + 1))
					o.data = make([]byte, int(o.n)*typeSize[t])
				}
				left[2]--
			}
			many = append(many, o)
		}
		b.objs = append(b.objs, many...)
	}
	var crowd [2]*gClass
	if s.Crowd != [3]int{} {
		crowd[0] = b.class("crowd/Member", b.object)
		crowd[0].fields = append(crowd[0].fields, gField{"v", 10})
		crowd[1] = b.arrClass("[Lcrowd/Member;")
	}
	if s.Herd[1] > 0 {
		c := b.class("herd/Animal", b.object)
		for i := 0; i < s.Herd[0]; i++ {
			c.fields = append(c.fields, gField{fmt.Sprintf("f%d", i%40), 11})
		}
		for i := 0; i < s.Herd[1]; i++ {
			o := &gObj{kind: 'i', cls: c, zero: int64(8 * s.Herd[0])}
			b.objs = append(b.objs, o)
			if i%1000 == 0 {
				plain = append(plain, o)
			}
		}
	}
	for _, z := range s.Giant {
		t := pick(r, byte(8), 8, 11, 10, 5)
		n := z / int64(typeSize[t])
		if n > 0xffffffff {
			n = 0xffffffff
		}
		o := &gObj{kind: 'p', et: t, n: n, zero: n * int64(typeSize[t])}
		b.objs = append(b.objs, o)
		plain = append(plain, o)
	}
	for _, z := range s.GiantObj {
		o := &gObj{kind: 'o', cls: b.arrClass("[Lgiant/Thing;"), n: z / int64(id), zero: z / int64(id) * int64(id)}
		b.objs = append(b.objs, o)
		plain = append(plain, o)
	}

	// -- addresses
	var step, base uint64
	switch {
	case id == 4 && s.IDBase == 3:
		base, step = 0x7ffffe00, 8
	case s.IDBase == 3:
		base, step = 0x7ffffffc00001000, 8
	case id == 4 && s.IDBase == 2:
		base, step = 0xa0000000, 8
	case s.IDBase == 4, s.IDBase == 5:
		base, step = pick(r, uint64(1), 7, 0x1000, 0x12345), 1
	case id == 4:
		base, step = 0x10000, 8
	case s.IDBase == 2:
		base, step = 0x8000000000000000, 8
	case s.IDBase == 1:
		base, step = 0x00000007c0000000, 8
	default:
		base, step = 0x1000, 8
	}
	next := base
	// objects end up in the dump in random order of creation, rising addresses
	order := b.perm(len(b.objs))
	sorted := make([]*gObj, len(b.objs))
	for i, k := range order {
		sorted[i] = b.objs[k]
	}
	b.objs = sorted
	cp := b.perm(len(b.classes))
	ci := 0
	scattered := s.IDBase == 3 && id == 8 && len(b.objs) < 1<<20
	for _, o := range b.objs {
		for ci < len(cp) && r.n(len(b.objs)+1) < len(cp) {
			b.classes[cp[ci]].id = next
			next += step
			ci++
		}
		o.id = next
		if step > 1 {
			next += step * uint64(1+r.n(4))
		} else if next++; s.IDBase == 5 && r.n(len(b.objs)) < 5 { // a handful of gaps
			next += r.u64() >> uint(8*(8-id)+8+r.n(24))
		} else if r.chance(20) {
			next += uint64(r.n(12))
		}
		if scattered && r.chance(300) { // the same lower half
			next = o.id + uint64(r.in(1, 4))<<32
		}
	}
	for ; ci < len(cp); ci++ {
		b.classes[cp[ci]].id = next
		next += step
	}
	crowdID := next + step
	absentID := next + 8*uint64(r.n(100))
	for _, n := range s.Crowd {
		absentID += uint64(n) * step
	}
	if s.Absent {
		switch s.AbsentAt % 4 {
		case 0:
			absentID = base - 1
		case 1, 2: // between two objects
			o := b.objs[s.AbsentAt/4%len(b.objs)]
			absentID = o.id + min(4, step)
		}
		if step == 1 {
			used := map[uint64]bool{0: true}
			for _, o := range b.objs {
				used[o.id] = true
			}
			for _, c := range b.classes {
				used[c.id] = true
			}
			for used[absentID] {
				absentID++
			}
		}
	}
	if s.Grouped {
		rank := map[byte]int{'i': r.n(9), 'o': r.n(9), 'p': r.n(9)}
		sort.SliceStable(b.objs, func(i, j int) bool { return rank[b.objs[i].kind] < rank[b.objs[j].kind] })
	}

	// -- serial numbers
	traceSerial := map[*gThread]uint32{}
	for _, t := range threads {
		traceSerial[t] = t.serial + 1
	}
	if s.Wild {
		seen := map[uint32]bool{0: true, 1: true}
		serial := func() uint32 {
			for {
				v := uint32(r.u64())
				if r.chance(600) {
					v = uint32(r.n(4*len(b.classes) + 8))
				}
				if !seen[v] {
					seen[v] = true
					return v
				}
			}
		}
		for _, c := range b.classes {
			c.serial = serial()
		}
		clear(seen)
		seen[0] = true
		for _, t := range threads {
			t.serial = serial()
			if o := threads[r.n(len(threads))]; o != t && o.serial != 0 && r.chance(200) { // alike in their lower bits
				if v := o.serial ^ 1<<pick(r, 8, 16, 24, 31); !seen[v] {
					seen[v] = true
					t.serial = v
				}
			}
		}
		clear(seen)
		seen[0], seen[1] = true, true
		for _, t := range threads {
			traceSerial[t] = serial()
		}
	}

	// -- locals
	type gRoot struct {
		tag    byte
		id     uint64
		serial uint32
		frame  uint32
		trace  uint32
	}
	var roots []gRoot
	var localTargets []*gObj
	if s.AllLocal {
		localTargets = append(localTargets, b.objs...)
	}
	if len(s.ManyAt) > 0 {
		byKind := map[byte][]*gObj{}
		for _, o := range b.objs {
			byKind[o.kind] = append(byKind[o.kind], o)
		}
		for _, at := range s.ManyAt {
			if at < 0 { // counted from the end, and on from the beginning
				at = -1 - at
				if l := byKind["iop"[at%3]]; len(l) > 2 {
					localTargets = append(localTargets, l[(at/3+len(l)-3)%len(l)])
				}
				continue
			}
			l := byKind["iop"[at%3]]
			if len(l) > 0 {
				localTargets = append(localTargets, l[at/3%len(l)])
			}
		}
	}
	typeOf := func(o *gObj) string {
		switch o.kind {
		case 'i':
			return internalToDot(o.cls.name)
		case 'o':
			return descType(o.cls.name)
		}
		return typeName[o.et] + "[]"
	}
	addLocal := func(t *gThread, fi int, jni bool, id uint64, name string) {
		g := gRoot{tag: 3, id: id, serial: t.serial, frame: uint32(fi)}
		if jni {
			g.tag = 2
		}
		roots = append(roots, g)
		if fi >= 0 && fi < len(t.frames) && name != "" {
			t.frames[fi].mf.locals = append(t.frames[fi].mf.locals, name)
		}
	}
	for _, t := range threads {
		nl := r.n(s.Locals + 1)
		var prev *gObj
		prevFrame := 0
		for k := 0; k < nl; k++ {
			fi := r.n(len(t.frames)+1) - 1 // -1: no frame
			if s.Same && prev != nil && r.chance(400) {
				fi = prevFrame
			}
			if fi >= 0 && len(t.frames) > 256 && r.chance(300) { // frames 256 apart
				fi = (fi + 256) % len(t.frames)
			}
			jni := fi < 0 || r.chance(400)
			if r.chance(150) && len(app) > 0 {
				c := appOr()
				addLocal(t, fi, jni, c.id, "class "+internalToDot(c.name))
			} else if len(b.objs) > 0 {
				o := b.objs[r.n(len(b.objs))]
				if s.Same && prev != nil && r.chance(600) {
					o = prev
				}
				prev, prevFrame = o, fi
				addLocal(t, fi, jni, o.id, typeOf(o))
			}
		}
	}
	if len(localTargets) > 0 && len(threads) > 0 {
		for i, o := range localTargets {
			t := threads[i%len(threads)]
			if len(t.frames) == 0 {
				continue
			}
			addLocal(t, r.n(len(t.frames)), r.chance(300), o.id, typeOf(o))
		}
	}
	if s.Absent && len(threads) > 0 {
		addLocal(threads[0], 0, true, absentID, "")
	}
	for _, t := range threads {
		roots = append(roots, gRoot{tag: 8, id: t.o.id, serial: t.serial, trace: traceSerial[t]})
		for _, f := range t.frames {
			t.mt.frames = append(t.mt.frames, f.mf)
		}
		b.m.threads = append(b.m.threads, t.mt)
	}
	sort.SliceStable(b.m.threads, func(i, j int) bool { return b.m.threads[i].id < b.m.threads[j].id })
	for k := r.n(6); k > 0; k-- {
		if len(b.objs) > 0 {
			roots = append(roots, gRoot{tag: 1, id: b.objs[r.n(len(b.objs))].id})
		}
	}
	for _, c := range b.classes {
		if r.chance(300) {
			roots = append(roots, gRoot{tag: 5, id: c.id})
		}
	}
	b.m.roots = len(roots)
	b.m.rootsHi = b.m.roots
	b.m.classes = len(b.classes)

	// -- sizes and counts
	for _, c := range b.classes {
		if strings.HasPrefix(c.name, "[") {
			c.size = 0
			continue
		}
		c.size = fieldBytes(c, id)
		if !s.FileSz {
			c.size = (c.size + 12 + 7) &^ 7
		}
	}
	type pc struct{ n, e int64 }
	prim := map[byte]*pc{}
	for _, o := range b.objs {
		b.m.count++
		switch o.kind {
		case 'i':
			o.cls.count++
		case 'o':
			o.cls.count++
			o.cls.elems += o.n
		case 'p':
			if prim[o.et] == nil {
				prim[o.et] = &pc{}
			}
			prim[o.et].n++
			prim[o.et].e += o.n
		}
	}
	for k, n := range s.Crowd {
		b.m.count += int64(n)
		if k < 2 && n > 0 {
			crowd[k].count += n
		} else if n > 0 {
			if prim[10] == nil {
				prim[10] = &pc{}
			}
			prim[10].n += int64(n)
		}
	}
	for _, t := range primTypes {
		if p := prim[t]; p != nil {
			b.m.rows = append(b.m.rows, mRow{typeName[t] + "[]", p.n, p.e * int64(typeSize[t])})
		}
	}
	for _, c := range b.classes {
		if c.count == 0 {
			continue
		}
		if strings.HasPrefix(c.name, "[") {
			b.m.rows = append(b.m.rows, mRow{descType(c.name), int64(c.count), c.elems * int64(id)})
		} else {
			b.m.rows = append(b.m.rows, mRow{internalToDot(c.name), int64(c.count), int64(c.count) * int64(c.size)})
		}
	}
	for _, x := range b.m.rows {
		b.m.size += x.size
	}

	// -- top level records
	symID := map[string]uint64{}
	symUsed := map[uint64]bool{0: true, 0xfffffff3: true}
	symBase := uint64(0x7f0000000000)
	if id == 4 {
		symBase = 0x40000000
	}
	var utfs []rec
	sym := func(name string) uint64 {
		if v, ok := symID[name]; ok {
			return v
		}
		v := symBase + 8*uint64(len(symID)) + 8
		for s.Wild {
			v = r.u64()
			if r.chance(500) { // equal in the lower half
				v = v<<32 | 8
			}
			if id == 4 {
				v = uint64(uint32(r.u64()))
			}
			if !symUsed[v] {
				break
			}
		}
		symUsed[v] = true
		symID[name] = v
		e := enc{id: id}
		e.m("symid", id)
		e.ident(v)
		text := name
		if r.chance(s.Odd) {
			text = oddText(r, name)
		}
		e.b = append(e.b, text...)
		utfs = append(utfs, rec{1, e.b, e.mk})
		return v
	}
	var loads, frames []rec
	for _, c := range b.classes {
		e := enc{id: id}
		e.u4(c.serial)
		e.m("classid", id)
		e.ident(c.id)
		e.u4(1)
		e.m("symref", id)
		e.ident(sym(c.name))
		loads = append(loads, rec{2, e.b, e.mk})
	}
	e := enc{id: id}
	e.u4(1)
	e.u4(0)
	e.u4(0)
	frames = append(frames, rec{5, e.b, nil})
	frameID := uint64(0)
	frameUsed := map[uint64]bool{0: true}
	frameOf := map[int]uint64{}
	for _, t := range threads {
		te := enc{id: id}
		te.u4(traceSerial[t])
		te.u4(t.serial)
		te.m("count", 4)
		te.u4(uint32(len(t.frames)))
		for _, f := range t.frames {
			if old, ok := frameOf[f.key]; ok {
				te.m("frameref", id)
				te.ident(old)
				continue
			}
			frameID++
			for s.Wild {
				frameID = uint64(uint32(r.u64()))
				if id == 8 && r.chance(500) {
					frameID = r.u64()<<32 | 5
				}
				if !frameUsed[frameID] {
					break
				}
			}
			frameUsed[frameID] = true
			frameOf[f.key] = frameID
			e := enc{id: id}
			e.ident(frameID)
			e.ident(sym(f.method))
			e.ident(sym(f.sig))
			if f.noFile {
				e.ident(0)
			} else {
				e.ident(sym(f.file))
			}
			e.m("serial", 4)
			e.u4(f.cls.serial)
			e.u4(uint32(f.line))
			frames = append(frames, rec{4, e.b, e.mk})
			te.m("frameref", id)
			te.ident(frameID)
		}
		frames = append(frames, rec{5, te.b, te.mk})
	}

	if s.Traces > 0 {
		// of earlier moments, of threads that have ended, of nothing
		taken := map[uint32]bool{0: true, 1: true}
		for _, t := range threads {
			taken[traceSerial[t]] = true
		}
		var ids []uint64
		for f := range frameUsed {
			ids = append(ids, f)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for i := 0; i < s.Traces; i++ {
			serial := uint32(r.n(4*len(threads) + 2*s.Traces + 8))
			for taken[serial] {
				serial++
			}
			taken[serial] = true
			of := uint32(0)
			switch r.n(4) {
			case 0:
				of = uint32(r.u64())
			case 1, 2:
				if len(threads) > 0 {
					of = threads[r.n(len(threads))].serial
				}
			}
			e := enc{id: id}
			e.u4(serial)
			e.u4(of)
			var fs []uint64
			for k := r.n(4); k > 0; k-- {
				if f := ids[r.n(len(ids))]; f != 0 {
					fs = append(fs, f)
				}
			}
			e.u4(uint32(len(fs)))
			for _, f := range fs {
				e.ident(f)
			}
			at := r.n(len(frames) + 1)
			frames = append(frames[:at], append([]rec{{5, e.b, nil}}, frames[at:]...)...)
		}
	}

	// -- heap sub-records
	var clsSubs, rootSubs, objSubs []sub
	badType, badAt, badByte := "", -1, byte(0)
	if s.Unsup == "fieldtype" {
		badAt = (s.UnsupAt / 9) % len(b.classes)
		badType = []string{"pool", "static", "field"}[s.UnsupAt%3]
		badByte = []byte{0, 1, 3, 12, 13, 0x7f, 0xff, 0x82, 0x0e}[s.UnsupAt/3%9]
	}
	for ci, c := range b.classes {
		if c.noDump {
			continue
		}
		extra := func(what string) int {
			if ci == badAt && what == badType {
				return 1
			}
			return 0
		}
		e := enc{id: id}
		e.u1(0x20)
		e.m("classid", id)
		e.ident(c.id)
		e.u4(1)
		e.m("super", id)
		if c.super != nil {
			e.ident(c.super.id)
		} else {
			e.ident(0)
		}
		for i := 0; i < 5; i++ {
			e.ident(0)
		}
		e.m("isize", 4)
		e.u4(uint32(c.size))
		e.m("count", 2)
		e.u2(len(c.cp) + extra("pool"))
		if extra("pool") > 0 {
			e.u2(9)
			e.u1(badByte)
			e.b = append(e.b, make([]byte, s.UnsupAt%5*2)...)
		}
		for i, x := range c.cp {
			e.u2(i + 1)
			e.m("type", 1)
			e.u1(x.t)
			e.val(x.t, gVal{bits: x.bits})
		}
		e.m("count", 2)
		e.u2(len(c.statics) + extra("static"))
		if extra("static") > 0 {
			e.ident(sym("strange"))
			e.u1(badByte)
			e.b = append(e.b, make([]byte, s.UnsupAt%5*2)...)
		}
		for _, x := range c.statics {
			e.m("symref", id)
			e.ident(sym(x.name))
			e.m("type", 1)
			e.u1(x.t)
			e.val(x.t, gVal{bits: x.bits, ref: x.ref})
		}
		e.m("count", 2)
		e.u2(len(c.fields) + extra("field"))
		if extra("field") > 0 {
			e.ident(sym("strange"))
			e.u1(badByte)
		}
		for _, f := range c.fields {
			e.ident(sym(f.name))
			e.m("type", 1)
			e.u1(f.t)
		}
		clsSubs = append(clsSubs, sub{body: e.b, mk: e.mk})
	}
	arena := enc{id: id}
	if len(b.objs) > 100000 {
		arena.b = make([]byte, 0, len(b.objs)*40)
	}
	objSubs = make([]sub, 0, len(b.objs))
	var nk [3]int
	for _, o := range b.objs {
		// one arena for the bytes of all objects
		start := len(arena.b)
		arena.mk = nil
		e := &arena
		switch o.kind {
		case 'i':
			nk[0]++
			e.u1(0x21)
			e.ident(o.id)
			e.u4(1)
			e.m("classref", id)
			e.ident(o.cls.id)
			e.m("len", 4)
			e.u4(uint32(fieldBytes(o.cls, id)))
			for _, v := range o.vals {
				e.val(v.t, v)
			}
		case 'o':
			nk[1]++
			e.u1(0x22)
			e.ident(o.id)
			e.u4(1)
			e.m("count", 4)
			e.u4(uint32(o.n))
			e.m("classref", id)
			e.ident(o.cls.id)
			for _, x := range o.refs {
				if x == nil {
					e.ident(0)
				} else {
					e.ident(x.id)
				}
			}
		case 'p':
			nk[2]++
			e.u1(0x23)
			e.ident(o.id)
			e.u4(1)
			e.m("count", 4)
			e.u4(uint32(o.n))
			e.m("type", 1)
			e.u1(o.et)
			e.b = append(e.b, o.data...)
		}
		x := sub{body: e.b[start:len(e.b):len(e.b)], zero: o.zero, obj: o}
		if len(b.objs) <= 100000 {
			for _, m := range e.mk {
				m.off -= int64(start)
				x.mk = append(x.mk, m)
			}
		}
		objSubs = append(objSubs, x)
	}
	for _, g := range roots {
		e := enc{id: id}
		e.u1(g.tag)
		e.m("rootref", id)
		e.ident(g.id)
		switch g.tag {
		case 1:
			e.ident(g.id + 1)
		case 2, 3:
			e.m("serial", 4)
			e.u4(g.serial)
			e.m("frame", 4)
			e.u4(g.frame)
		case 8:
			e.m("serial", 4)
			e.u4(g.serial)
			e.u4(g.trace)
		}
		rootSubs = append(rootSubs, sub{body: e.b, mk: e.mk})
	}
	unsupRoot := b.unsupSubs(&objSubs, &clsSubs, &rootSubs, id)
	b.m.rootsHi += unsupRoot

	var subs []sub
	if s.Mixed {
		ps := b.perm(len(clsSubs))
		pr := b.perm(len(rootSubs))
		i, j, k := 0, 0, 0
		for i < len(ps) || j < len(pr) || k < len(objSubs) {
			x := r.n(len(ps) - i + len(pr) - j + len(objSubs) - k)
			switch {
			case x < len(ps)-i:
				subs = append(subs, clsSubs[ps[i]])
				i++
			case x < len(ps)-i+len(pr)-j:
				subs = append(subs, rootSubs[pr[j]])
				j++
			default:
				subs = append(subs, objSubs[k])
				k++
			}
		}
	} else {
		subs = append(append(append(subs, clsSubs...), objSubs...), rootSubs...)
		if s.UnsupAt%2 == 1 && s.Unsup == "" {
			subs = append(append(append(subs[:0], rootSubs...), clsSubs...), objSubs...)
		}
	}

	// -- the file
	top := append(append(append([]rec(nil), utfs...), loads...), frames...)
	if s.Mixed {
		p := b.perm(len(top))
		t2 := make([]rec, len(top))
		for i, k := range p {
			t2[i] = top[k]
		}
		top = t2
	}
	var late []rec
	if s.Late {
		var early []rec
		for _, x := range top {
			if r.chance(250) {
				late = append(late, x)
			} else {
				early = append(early, x)
			}
		}
		top = early
	}
	w := &fileWriter{id: id}
	version := "JAVA PROFILE 1.0.2"
	if s.Unsup == "version" {
		version = []string{"JAVA PROFILE 1.0.1", "JAVA PROFILE 1.0", "JAVA PROFILE 1.0.3", "HPROF 1.0.2", "java profile 1.0.2"}[s.UnsupAt%5]
	}
	w.put([]byte(version + "\x00"))
	w.marks = append(w.marks, mark{0, len(version), "version"}, mark{w.off, 4, "idsize"})
	ids := uint32(id)
	if s.Unsup == "idsize" {
		ids = []uint32{0, 1, 2, 16, 5, 0x80000004, 12}[s.UnsupAt%7]
	}
	w.u4(ids)
	w.u4(uint32(uint64(stamp) >> 32))
	w.u4(uint32(stamp))
	utag := -1
	if s.Unsup == "tag" {
		utag = s.UnsupAt % (len(top) + 1)
	}
	for i, x := range top {
		if i == utag {
			w.rec(b.unsupRec())
		}
		w.rec(x)
	}
	if utag == len(top) {
		w.rec(b.unsupRec())
	}
	if s.Pad > 0 {
		e := enc{id: id}
		e.ident(0xfffffff3)
		for i := 0; i < s.Pad; i++ {
			e.u1('p')
		}
		w.rec(rec{1, e.b, nil})
	}
	nseg := max(1, s.Segs)
	cuts := map[int]bool{}
	for i := 1; i < nseg; i++ {
		cuts[r.n(len(subs)+1)] = true
	}
	lateAt := func() {
		for k := r.n(len(late) + 1); k > 0 && len(late) > 0; k-- {
			w.rec(late[0])
			late = late[1:]
		}
	}
	i := 0
	for {
		j := i
		var total int64
		for j < len(subs) {
			n := int64(len(subs[j].body)) + subs[j].zero
			if j > i && (cuts[j] || total+n > 0xffffff00) {
				break
			}
			total += n
			j++
		}
		ln := total
		if s.ZeroLen || ln > 0xffffffff {
			ln = 0
		}
		w.marks = append(w.marks, mark{w.off, 1, "tag"}, mark{w.off + 5, 4, "seglen"})
		tag := byte(0x1c)
		if s.Unsup == "heapdump" && (s.UnsupAt%3 == 0 || s.UnsupAt%3 == 1 && i == 0 || s.UnsupAt%3 == 2 && j >= len(subs)) {
			tag = 0x0c
		}
		w.put([]byte{tag})
		w.u4(0)
		w.u4(uint32(ln))
		for _, x := range subs[i:j] {
			w.marks = append(w.marks, mark{w.off, 1, "subtag"})
			for _, m := range x.mk {
				m.off += w.off
				w.marks = append(w.marks, m)
			}
			w.put(x.body)
			w.skip(x.zero)
		}
		i = j
		if !s.ZeroLen {
			lateAt()
		}
		if i >= len(subs) {
			break
		}
	}
	for _, x := range late {
		w.rec(x)
	}
	var runs []idRun
	crowdBytes := int64(0)
	for k, n := range s.Crowd {
		if n == 0 {
			continue
		}
		e := enc{id: id}
		e.u1([]byte{0x21, 0x22, 0x23}[k])
		e.ident(0)
		e.u4(1)
		switch k {
		case 0:
			e.ident(crowd[0].id)
			e.u4(4)
			e.u4(7)
		case 1:
			e.u4(0)
			e.ident(crowd[1].id)
		case 2:
			e.u4(0)
			e.u1(10)
		}
		z := int64(n) * int64(len(e.b))
		w.put([]byte{0x1c})
		w.u4(0)
		w.u4(uint32(z))
		w.flush()
		runs = append(runs, idRun{off: w.off, n: int64(n), rec: e.b, idAt: 1, id: id, base: crowdID, step: step})
		crowdID += uint64(n) * step
		w.off += z
		w.bufAt = w.off
		nk[k] += n
		crowdBytes += z
	}
	end := w.off
	w.marks = append(w.marks, mark{w.off, 1, "tag"})
	w.put([]byte{0x2c, 0, 0, 0, 0, 0, 0, 0, 0})
	w.flush()
	d := &Dump{file: &sparse{ext: w.ext, runs: runs, size: w.off}, model: b.m, class: "valid", bulk: crowdBytes, endOff: end, marks: w.marks, size: w.off, nObj: nk}
	for _, x := range objSubs {
		d.bulk += int64(len(x.body)) + x.zero
	}
	if s.Unsup != "" {
		d.class = "unsup"
	}
	if s.Absent {
		d.class = "absent"
	}
	if s.Odd > 0 {
		d.class = "corrupt"
	}
	if len(s.Edits) > 0 {
		d.edit(s.Edits)
	}
	return d
}

var oddTexts = []string{"", "(", ")", "()", "()V", "()VV", "()[", "()L", "()L;", "()Lx", "())", ")(", "(()", "(()V", "V()", "(I)(I)", "(I", "I)", "(L", "(Lx", "(Lx;", "([", "([)V", "([[[[",
	"(LLL;;;)V", "(;)V", ";", ";;", "L", "L;", "Lx", "LL;;", "[", "[[", "[L", "[L;", "[Lx", "[;", "[[[[[[[I", "[Q", "[\x00", "[]", "x[]", "/", "//", "/x", "x/", "..", "\x00", "\xff\xfe", "\xed\xa0\x80", "\xc0\x80", "%s%d%n",
	" ", "\n", "\r\n", "\x1b[31m", "<b>", "{{.}}", "V", "B", "Z", "(\xe2\x82\xac)\xe2\x82\xac", "Q", "()Q", "value", "name", "java/lang/String", "java/lang/Thread", "java/util/Properties"}

// oddText is a name or descriptor that no JVM would write.
func oddText(r *Rng, name string) string {
	switch r.n(8) {
	case 0: // cut
		return name[:r.n(len(name)+1)]
	case 1:
		return name[r.n(len(name)+1):]
	case 2: // one byte else
		if name != "" {
			c := []byte(name)
			c[r.n(len(c))] = pick(r, byte('('), ')', '[', 'L', ';', 'V', '/', 0, 0xff)
			return string(c)
		}
	case 3:
		return name + pick(r, oddTexts...)
	case 4:
		return strings.Repeat(pick(r, "[", "(", "I", "L", ";", "()", "/", "\xf0\x9f"), r.in(1, 3000))
	}
	return pick(r, oddTexts...)
}

type fileWriter struct {
	id    int
	off   int64
	buf   []byte
	bufAt int64
	ext   []extent
	marks []mark
}

func (w *fileWriter) put(b []byte) {
	w.buf = append(w.buf, b...)
	w.off += int64(len(b))
}
func (w *fileWriter) u4(v uint32) { w.put(binary.BigEndian.AppendUint32(nil, v)) }
func (w *fileWriter) flush() {
	if len(w.buf) > 0 {
		w.ext = append(w.ext, extent{w.bufAt, w.buf})
	}
	w.buf = nil
	w.bufAt = w.off
}
func (w *fileWriter) skip(n int64) {
	if n == 0 {
		return
	}
	if n < 65536 {
		w.put(make([]byte, n))
		return
	}
	w.flush()
	w.off += n
	w.bufAt = w.off
}
func (w *fileWriter) rec(x rec) {
	w.marks = append(w.marks, mark{w.off, 1, "tag"}, mark{w.off + 5, 4, "reclen"})
	w.put([]byte{x.tag})
	w.u4(0)
	w.u4(uint32(len(x.body)))
	for _, m := range x.mk {
		m.off += w.off
		w.marks = append(w.marks, m)
	}
	w.put(x.body)
}

func (b *heapBuilder) buildProps(system, props, chm, node, treeBin, treeNode, fwd *gClass) {
	r, s := b.r, b.s
	std := []string{"os.name", "os.arch", "java.home", "java.version", "java.vm.name", "java.vm.version", "java.vm.info", "java.vm.vendor"}
	vals := map[string]string{}
	var keys []string
	for _, k := range std {
		if r.chance(30) {
			continue // the JVM was started without it
		}
		keys = append(keys, k)
		vals[k] = b.word(true)
	}
	for i := 0; i < s.Props; i++ {
		k := fmt.Sprintf("%s.%s", b.word(true), b.ident())
		if i == 0 && b.r.chance(200) {
			k = ""
		} else if b.t.chance(80) {
			k = "line.separator" + fmt.Sprint(i)
		}
		v := b.word(true)
		switch b.t.n(10) {
		case 0:
			v = ""
		case 1:
			v = "\n"
		case 2:
			v = strings.Repeat(v+":", 1+b.t.n(40))
		case 3:
			v = "  " + v + "\t"
		case 4:
			v = v + "\nline two\r\n" + b.word(true)
		case 5:
			if b.t.chance(200) { // a long class path
				v = strings.Repeat(v+b.ident()+".jar:", b.t.in(40, 1500))
			}
		}
		keys = append(keys, k)
		vals[k] = v
	}
	for _, k := range keys {
		b.m.prop[k] = vals[k]
		b.m.props = append(b.m.props, mKv{k, vals[k]})
	}
	sort.Slice(b.m.props, func(i, j int) bool { return b.m.props[i].k < b.m.props[j].k })

	nodeArr := b.arrClass("[Ljava/util/concurrent/ConcurrentHashMap$Node;")
	size := s.Table
	table := make([]*gObj, size)
	var nextTable []*gObj
	if s.Fwd {
		nextTable = make([]*gObj, 2*size)
	}
	buckets := make([][]string, size)
	for _, i := range b.perm(len(keys)) {
		h := r.n(size)
		buckets[h] = append(buckets[h], keys[i])
	}
	chain := func(ks []string, cls *gClass) *gObj {
		var first, prev *gObj
		for _, k := range ks {
			o := b.newObj(cls)
			for i := range o.vals {
				o.vals[i].ref = nil
			}
			b.set(o, node, "hash", gVal{bits: r.u64() & 0x7fffffff})
			b.set(o, node, "key", gVal{ref: b.javaString(k)})
			b.set(o, node, "val", gVal{ref: b.javaString(vals[k])})
			if prev == nil {
				first = o
			} else {
				b.set(prev, node, "next", gVal{ref: o})
				if cls == treeNode {
					b.set(o, treeNode, "prev", gVal{ref: prev})
					b.set(o, treeNode, "parent", gVal{ref: first})
				}
			}
			prev = o
		}
		return first
	}
	bucket := func(ks []string) *gObj {
		if len(ks) == 0 {
			return nil
		}
		if s.Tree && len(ks) >= 3 {
			o := b.newObj(treeBin)
			b.set(o, node, "hash", gVal{bits: 0xfffffffe})
			f := chain(ks, treeNode)
			b.set(o, treeBin, "first", gVal{ref: f})
			b.set(o, treeBin, "root", gVal{ref: f})
			return o
		}
		return chain(ks, node)
	}
	var fnode *gObj
	for i, ks := range buckets {
		if s.Fwd && i%2 == 0 && len(ks) > 0 {
			h := len(ks) / 2
			nextTable[i] = bucket(ks[:h])
			nextTable[i+size] = bucket(ks[h:])
			if fnode == nil {
				fnode = b.newObj(fwd)
				b.set(fnode, node, "hash", gVal{bits: 0xffffffff})
			}
			table[i] = fnode
			continue
		}
		table[i] = bucket(ks)
	}
	p := b.newObj(props)
	m := b.newObj(chm)
	ta := b.objArr(nodeArr, table)
	if fnode != nil {
		na := b.objArr(nodeArr, nextTable)
		b.set(fnode, fwd, "nextTable", gVal{ref: na})
		b.set(m, chm, "nextTable", gVal{ref: na})
	}
	b.set(p, props, "map", gVal{ref: m})
	b.set(m, chm, "table", gVal{ref: ta})
	system.statics = append(system.statics, gStatic{name: "in", t: 2, ref: p}, gStatic{name: "props", t: 2, ref: p}, gStatic{name: "lineSeparator", t: 2, ref: nil})
	system.statics[0].ref = m
}

// ---- things neojhat does not support ---------------------------------------

var unsupSubKinds = []struct {
	name string
	tag  byte
	body int // 1 id, 2 id+u4, 3 u4+id, 4 id+u4+u4+u1
	root bool
}{
	{"monitor", 0x07, 1, true},
	{"native-stack", 0x04, 2, true},
	{"thread-block", 0x06, 2, true},
	{"unknown-root", 0xff, 1, true},
	{"interned", 0x89, 1, true},
	{"finalizing", 0x8a, 1, true},
	{"jni-monitor", 0x8e, 4, true},
	{"heap-info", 0xfe, 3, false},
	{"nodata", 0xc3, 5, false},
	{"zero", 0x00, 1, false},
}

func (b *heapBuilder) unsupSubs(objs, classes, roots *[]sub, id int) (extra int) {
	s, r := b.s, b.r
	at := func(l *[]sub, x sub) {
		p := 0
		if len(*l) > 0 {
			p = (s.UnsupAt / 16) % (len(*l) + 1)
		}
		*l = append((*l)[:p:p], append([]sub{x}, (*l)[p:]...)...)
	}
	kind, arg, _ := strings.Cut(s.Unsup, ":")
	switch kind {
	case "sub":
		for _, k := range unsupSubKinds {
			if k.name != arg {
				continue
			}
			n := 1 + s.UnsupAt%3
			for i := 0; i < n; i++ {
				e := enc{id: id}
				e.u1(k.tag)
				oid := uint64(0x1234)
				if len(b.objs) > 0 {
					oid = b.objs[r.n(len(b.objs))].id
				}
				switch k.body {
				case 1:
					e.ident(oid)
				case 2:
					e.ident(oid)
					e.u4(1)
				case 3:
					e.u4(1)
					e.ident(oid)
				case 4:
					e.ident(oid)
					e.u4(1)
					e.u4(2)
				case 5:
					e.ident(oid + 1)
					e.u4(1)
					e.u4(77)
					e.u1(8)
				}
				l := pick(r, objs, classes, roots)
				at(l, sub{body: e.b})
				if k.root {
					extra++
				}
			}
		}
	case "primtype":
		e := enc{id: id}
		e.u1(0x23)
		// keep the order of identifiers
		var last uint64
		p := len(*objs)
		for i := range *objs {
			if (*objs)[i].obj != nil && (*objs)[i].obj.kind == 'p' {
				last = (*objs)[i].obj.id
				p = i + 1
			}
		}
		e.ident(last + 1)
		e.u4(1)
		e.u4(uint32(s.UnsupAt % 3))
		e.u1([]byte{0, 1, 3, 12, 99, 255, 0x84, 13}[s.UnsupAt/3%8])
		for i := 0; i < s.UnsupAt%3*(1+s.UnsupAt/18%8); i++ {
			e.u1(0)
		}
		*objs = append((*objs)[:p:p], append([]sub{{body: e.b}}, (*objs)[p:]...)...)
	case "orderat":
		n := 0
		for i, last := 0, -1; i < len(*objs); i++ {
			if (*objs)[i].obj.kind != "iop"[s.UnsupAt%3] {
				continue
			}
			if n == s.UnsupAt/3 && last >= 0 {
				(*objs)[i], (*objs)[last] = (*objs)[last], (*objs)[i]
				break
			}
			last = i
			n++
		}
	case "order":
		// exchange two objects of one kind
		want := "iop"[s.UnsupAt%3]
		var idx []int
		for i := range *objs {
			if (*objs)[i].obj.kind == want {
				idx = append(idx, i)
			}
		}
		if len(idx) >= 2 {
			a := (s.UnsupAt / 3) % (len(idx) - 1)
			c := a + 1 + (s.UnsupAt/97)%(len(idx)-1-a)
			(*objs)[idx[a]], (*objs)[idx[c]] = (*objs)[idx[c]], (*objs)[idx[a]]
		}
	}
	return
}

func (b *heapBuilder) unsupRec() rec {
	k := b.s.UnsupAt
	tag := []byte{0x03, 0x06, 0x07, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x00, 0xff, 0x08, 0x1d, 0x2b}[k/7%13]
	body := make([]byte, []int{0, 4, 8, 24, 100}[k%5])
	for i := range body {
		body[i] = byte(k >> (i % 3))
	}
	return rec{tag, body, nil}
}

// ---- edits ------------------------------------------------------------------

func (d *Dump) edit(ed []Edit) {
	for _, e := range ed {
		switch e.Op {
		case "cut":
			if e.Off < d.file.size {
				n := &sparse{size: max(0, e.Off)}
				for _, x := range d.file.ext {
					if x.off >= n.size {
						break
					}
					if x.off+int64(len(x.data)) > n.size {
						x.data = x.data[:n.size-x.off]
					}
					n.ext = append(n.ext, x)
				}
				d.file = n
			}
			if d.class == "valid" {
				d.class = "cut"
			}
			continue
		}
		b := d.file.bytes()
		off := min(max(0, e.Off), int64(len(b)))
		switch e.Op {
		case "set":
			copy(b[off:], e.Data)
		case "xor":
			for i, c := range e.Data {
				if off+int64(i) < int64(len(b)) {
					b[off+int64(i)] ^= c
				}
			}
		case "del":
			l := min(e.Len, int64(len(b))-off)
			b = append(b[:off:off], b[off+l:]...)
		case "ins":
			b = append(b[:off:off], append(append([]byte(nil), e.Data...), b[off:]...)...)
		case "dup":
			l := min(e.Len, int64(len(b))-off)
			b = append(b[:off+l:off+l], b[off:]...)
		case "raw":
			b = append([]byte(nil), e.Data...)
		}
		d.file = sparseOf(b)
		d.class = "corrupt"
	}
	d.size = d.file.size
}
