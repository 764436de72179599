package zzverifsim

import (
	"bytes"
	"fmt"
	"html"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---- what a report must say -------------------------------------------------

// An item is a piece of text that must come next in a report, white space
// aside; a group of locals may come in any order.
type item struct {
	text string
	any  []string // a multiset of "local X"
	dash bool     // a line of dashes
	alt  func(s string) bool
}

func javaSize(n int64) string {
	switch {
	case n < 1<<10:
		return fmt.Sprintf("%dB", n)
	case n < 1<<20:
		return fmt.Sprintf("%dK", n>>10)
	case n < 1<<30:
		return fmt.Sprintf("%dM", n>>20)
	}
	return fmt.Sprintf("%dG", n>>30)
}

func pct(a, b int64) int64 {
	if b == 0 {
		return 0
	}
	return 100 * a / b
}

type report struct {
	cmd      string // threads, summary, objects
	html     bool
	color    bool
	locals   bool
	allProps bool
	bySize   bool
	quiet    bool // not interactive
	hprof    string
	usage    bool // no report is asked for
	bad      bool // by mistake
}

// parseArgs reads a command line the way a user of the program may rely on.
func parseArgs(args []string) (r report) {
	r = report{color: true}
	defer func() {
		if r.html {
			r.color = false
		}
		if r.hprof == "" {
			r.usage = true
		}
	}()
	if len(args) == 0 || args[0] != "threads" && args[0] != "summary" && args[0] != "objects" {
		r.usage = true
		return
	}
	r.cmd = args[0]
	for i := 1; i < len(args); i++ {
		a := args[i]
		if a == "--" || len(a) < 2 || a[0] != '-' {
			return // the options end here
		}
		a = strings.TrimPrefix(a[1:], "-")
		name, val, has := strings.Cut(a, "=")
		bad := func() { r.usage, r.bad = true, true }
		truth := func(old bool) bool {
			switch {
			case !has, strings.Contains(" 1 t T true TRUE True ", " "+val+" "):
				return true
			case strings.Contains(" 0 f F false FALSE False ", " "+val+" "):
				return false
			}
			bad()
			return old
		}
		switch {
		case name == "no-color":
			r.color = !truth(!r.color)
		case name == "non-interactive":
			r.quiet = truth(r.quiet)
		case name == "local-vars" && r.cmd == "threads":
			r.locals = truth(r.locals)
		case name == "all-props" && r.cmd == "summary":
			r.allProps = truth(r.allProps)
		case name == "hprof", name == "output", name == "sort-by" && r.cmd == "objects":
			if !has {
				if i++; i >= len(args) {
					bad()
					return
				}
				val = args[i]
			}
			switch {
			case name == "hprof":
				r.hprof = val
			case name == "output":
				r.html = val == "html"
				if val != "html" && val != "plain" && val != "" {
					bad()
				}
			default:
				r.bySize = val == "size"
				if val != "size" && val != "count" && val != "" {
					bad()
				}
			}
		default:
			r.usage = true
			r.bad = !(name == "h" || name == "help")
			return
		}
		if r.bad {
			return
		}
	}
	return
}

// canonical is the command line with the same meaning that all of them are
// compared with; it is never interactive.
func canonical(args []string) []string {
	r := parseArgs(args)
	if r.usage {
		return args
	}
	c := []string{r.cmd, "--hprof=" + r.hprof}
	for _, x := range []struct {
		on bool
		s  string
	}{{r.locals, "--local-vars"}, {r.allProps, "--all-props"}, {r.bySize, "--sort-by=size"}, {r.html, "--output=html"}, {!r.color, "--no-color"}, {true, "--non-interactive"}} {
		if x.on {
			c = append(c, x.s)
		}
	}
	return c
}

func (m *Model) sortedRows(bySize bool) []mRow {
	rows := append([]mRow(nil), m.rows...)
	sort.SliceStable(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		ka, kb := a.count, b.count
		oa, ob := a.size, b.size
		if bySize {
			ka, kb, oa, ob = oa, ob, ka, kb
		}
		if ka != kb {
			return ka > kb
		}
		if a.name != b.name {
			return a.name < b.name
		}
		return oa > ob
	})
	return rows
}

func (m *Model) javaName() string {
	return fmt.Sprintf("%s (%s, %s)", m.prop["java.vm.name"], m.prop["java.vm.version"], m.prop["java.vm.info"])
}

func (m *Model) expect(r report) []item {
	var it []item
	add := func(s ...string) {
		for _, x := range s {
			it = append(it, item{text: x})
		}
	}
	title := map[string]string{"threads": "Thread Dump", "objects": "Heap Objects", "summary": "Heap Summary"}[r.cmd]
	if r.html {
		add(title, title)
	}
	switch r.cmd {
	case "threads":
		for _, t := range m.threads {
			d := ""
			if t.daemon {
				d = " (daemon)"
			}
			add(fmt.Sprintf("\"%s\", ID=%d, prio=%d, status=%s%s", t.name, t.id, t.prio, t.status, d))
			for _, f := range t.frames {
				if r.html {
					add(f.ret, f.cls+".", f.method, "("+f.args+")", f.loc)
				} else {
					add(f.ret, f.cls+"."+f.method+"("+f.args+")", f.loc)
				}
				if r.locals && len(f.locals) > 0 {
					it = append(it, item{any: f.locals})
				}
			}
		}
	case "objects":
		ch, sh := "Count ↓", "Size"
		if r.bySize {
			ch, sh = "Count", "Size ↓"
		}
		rows := m.sortedRows(r.bySize)
		if r.html {
			add("Instances", fmt.Sprint(m.count), "Total Size", javaSize(m.size), "Class Name", ch, sh)
		} else {
			add("Instances: "+fmt.Sprint(m.count), "Total Size: "+javaSize(m.size), "Class Name", "|", ch, "|", sh, "|")
			it = append(it, item{dash: true})
		}
		for _, x := range rows {
			c := fmt.Sprintf("%d (%d%%)", x.count, pct(x.count, m.count))
			s := fmt.Sprintf("%s (%d%%)", javaSize(x.size), pct(x.size, m.size))
			if r.html {
				add(x.name, c, s)
			} else {
				add(x.name, "|", c, "|", s, "|")
			}
		}
	case "summary":
		kv := func(k, v string) {
			if r.html {
				add(k, v)
			} else {
				add(k+":", v)
			}
		}
		sec := func(s string) {
			if r.html {
				add(s)
			} else {
				add("- " + s)
			}
		}
		if r.html {
			add("Property", "Value")
		}
		sec("Environment")
		kv("Architecture", m.prop["os.arch"])
		kv("JavaHome", m.prop["java.home"])
		kv("JavaName", m.javaName())
		kv("JavaVendor", m.prop["java.vm.vendor"])
		kv("JavaVersion", m.prop["java.version"])
		kv("System", m.prop["os.name"])
		sec("Heap")
		kv("Classes", fmt.Sprint(m.classes))
		kv("GC Roots", fmt.Sprint(m.rootsHi))
		kv("Instances", fmt.Sprint(m.count))
		kv("Heap Size", javaSize(m.size))
		sec("System")
		kv("JVM Uptime", m.uptime)
		if r.allProps {
			if len(m.props) > 0 {
				sec("Properties")
			}
			for _, p := range m.props {
				kv(p.k, p.v)
			}
		}
	}
	return it
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// check compares a report with the model; "" means it is right.
func (m *Model) check(args []string, out []byte) string {
	// threads with the same id may come in any order
	first := ""
	for n := 0; n < 720; n++ {
		x := m
		if n > 0 {
			if x = m.reorder(n); x == nil {
				break
			}
		}
		msg := x.check1(args, out)
		if msg == "" {
			return ""
		}
		if first == "" {
			first = msg
		}
	}
	return first
}

// reorder makes another order of threads with the same id; nil: no more orders
func (m *Model) reorder(n int) *Model {
	c := *m
	c.threads = append([]mThread(nil), m.threads...)
	for i := 0; i < len(c.threads); {
		j := i + 1
		for j < len(c.threads) && c.threads[j].id == c.threads[i].id {
			j++
		}
		for k := i; k < j; k++ {
			d := j - k
			x := k + n%d
			n /= d
			t := c.threads[x]
			copy(c.threads[k+1:x+1], c.threads[k:x])
			c.threads[k] = t
		}
		i = j
	}
	if n > 0 {
		return nil
	}
	return &c
}

func (m *Model) check1(args []string, out []byte) string {
	r := parseArgs(args)
	it := m.expect(r)
	if r.html {
		ch, _, err := htmlChunks(string(out))
		if err != "" {
			return err
		}
		return matchChunks(it, ch)
	}
	s := string(out)
	if r.color {
		if len(s) > 0 && !strings.Contains(s, "\x1b[") {
			return "no colour codes in colour output"
		}
		s = ansi.ReplaceAllString(s, "")
	} else if strings.Contains(s, "\x1b[") {
		return "terminal codes in plain output"
	}
	return matchText(it, s)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func matchText(it []item, s string) string {
	pos := 0
	skip := func() {
		t := strings.TrimLeftFunc(s[pos:], unicode.IsSpace)
		pos = len(s) - len(t)
	}
	eat := func(w string) bool {
		if strings.HasPrefix(s[pos:], w) {
			pos += len(w)
			return true
		}
		return false
	}
	fail := func(w string) string {
		return fmt.Sprintf("expected %q, found %q (at byte %d)", clip(w, 200), clip(s[pos:], 200), pos)
	}
	for i := range it {
		x := &it[i]
		skip()
		switch {
		case x.dash:
			n := pos
			for pos < len(s) && s[pos] == '-' {
				pos++
			}
			if pos-n < 5 {
				return fail("-----")
			}
		case x.any != nil:
			left := map[string]int{}
			for _, w := range x.any {
				left[w]++
			}
			for n := 0; n < len(x.any); n++ {
				skip()
				end := strings.IndexByte(s[pos:], '\n')
				if end < 0 {
					end = len(s) - pos
				}
				line := strings.TrimSpace(s[pos : pos+end])
				w, ok := strings.CutPrefix(line, "local ")
				if !ok || left[w] == 0 {
					return fail("local " + firstKey(left))
				}
				left[w]--
				pos += end
			}
		default:
			w := strings.TrimSpace(x.text)
			if w == "" {
				continue
			}
			if !eat(w) {
				ok := false
				if x.alt != nil {
					e := pos
					for e < len(s) && !unicode.IsSpace(rune(s[e])) {
						e++
					}
					if x.alt(s[pos:e]) {
						pos = e
						ok = true
					}
				}
				if !ok {
					return fail(w)
				}
			}
		}
	}
	skip()
	if pos < len(s) {
		return fmt.Sprintf("unexpected text after the report: %q", clip(s[pos:], 200))
	}
	return ""
}

func firstKey(m map[string]int) string {
	best := ""
	for k, n := range m {
		if n > 0 && (best == "" || k < best) {
			best = k
		}
	}
	return best
}

// htmlChunks splits a document into the texts between tags (blank ones left
// out) and the tags.
func htmlChunks(s string) (chunks, tags []string, err string) {
	if !strings.HasPrefix(strings.TrimSpace(s), "<!DOCTYPE html>") {
		return nil, nil, fmt.Sprintf("not an HTML document: %q", clip(s, 100))
	}
	if !strings.HasSuffix(strings.TrimSpace(s), "</html>") {
		return nil, nil, "the HTML document is cut short"
	}
	i := 0
	text := func(t string) {
		t = strings.TrimSpace(html.UnescapeString(t))
		if t != "" {
			chunks = append(chunks, t)
		}
	}
	start := 0
	for i < len(s) {
		if s[i] == '<' && i+1 < len(s) && (s[i+1] == '/' || s[i+1] == '!' || s[i+1] >= 'a' && s[i+1] <= 'z' || s[i+1] >= 'A' && s[i+1] <= 'Z' || s[i+1] == '?') {
			text(s[start:i])
			e := strings.IndexByte(s[i:], '>')
			if e < 0 {
				return nil, nil, "a tag never ends"
			}
			tag := s[i : i+e+1]
			if strings.HasPrefix(tag, "<!--") {
				e2 := strings.Index(s[i:], "-->")
				if e2 < 0 {
					return nil, nil, "a comment never ends"
				}
				i += e2 + 3
				start = i
				continue
			}
			tags = append(tags, tag)
			i += e + 1
			if strings.HasPrefix(tag, "<style") {
				e := strings.Index(s[i:], "</style")
				if e < 0 {
					return nil, nil, "<style> never ends"
				}
				i += e
			}
			start = i
			continue
		}
		i++
	}
	text(s[start:])
	return
}

func matchChunks(it []item, ch []string) string {
	i := 0
	at := func() string {
		if i < len(ch) {
			return ch[i]
		}
		return "the end"
	}
	for _, x := range it {
		if x.any != nil {
			left := map[string]int{}
			for _, w := range x.any {
				left[w]++
			}
			for range x.any {
				if i+1 >= len(ch) || ch[i] != "local" || left[strings.ReplaceAll(ch[i+1], "\ufffd", "\x00")] == 0 {
					g := at()
					if i+1 < len(ch) {
						g += " " + ch[i+1]
					}
					return fmt.Sprintf("HTML: expected local %q, found %q", firstKey(left), g)
				}
				left[ch[i+1]]--
				i += 2
			}
			continue
		}
		// HTML cannot carry a zero
		w := strings.TrimSpace(strings.NewReplacer("\r\n", "\n", "\x00", "\ufffd").Replace(x.text))
		if w == "" {
			continue
		}
		if i >= len(ch) || strings.ReplaceAll(ch[i], "\r\n", "\n") != w && !(x.alt != nil && x.alt(ch[i])) {
			return fmt.Sprintf("HTML: expected %q, found %q", clip(w, 200), clip(at(), 200))
		}
		i++
	}
	if i < len(ch) {
		return fmt.Sprintf("HTML: unexpected text %q after the report", clip(ch[i], 200))
	}
	return ""
}

// looksLikeReport tells whether the output contains (the start of) a report.
func looksLikeReport(out []byte) bool {
	s := ansi.ReplaceAll(out, nil)
	for _, w := range []string{", ID=", "Instances: ", "- Environment", "<!DOCTYPE", "<html", "Class Name"} {
		if bytes.Contains(s, []byte(w)) {
			return true
		}
	}
	return false
}
