package main

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strings"
	"time"
)

// The reference model of the reports.

type FrameRep struct {
	Text, Loc string
	Locals    []string
}

type ThreadRep struct {
	TID    int64
	Head   string
	Frames []FrameRep
}

type Sec struct {
	Name string
	KVs  []KV
}

type ObjectsRep struct {
	Count, Size string
	Head        [3]string
	Rows        [][3]string
}

func (w *World) threadsRep() (r []ThreadRep) {
	for _, t := range w.Threads {
		tr := ThreadRep{TID: t.TID, Head: fmt.Sprintf("\"%s\", ID=%d, prio=%d, status=%s", t.Name, t.TID, t.Prio, stateName(t.Status))}
		if t.Daemon {
			tr.Head += " (daemon)"
		}
		for i, f := range t.Frames {
			fr := FrameRep{Text: f.text(), Loc: f.loc()}
			for _, l := range t.Locals {
				if l.Frame == i {
					fr.Locals = append(fr.Locals, l.Text)
				}
			}
			tr.Frames = append(tr.Frames, fr)
		}
		r = append(r, tr)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].TID < r[j].TID })
	return
}

func sizeText(n int) string {
	for _, u := range []string{"B", "K", "M"} {
		if n < 1024 {
			return fmt.Sprintf("%d%s", n, u)
		}
		n /= 1024
	}
	return fmt.Sprintf("%dG", n)
}

type row struct {
	name        string
	count, size int
}

func (w *World) rows() (rows []row, count, size int) {
	for _, r := range w.counts {
		x := row{count: r.n}
		if r.array {
			x.name = fieldDesc(r.cls.Name)
			x.size = r.elems * w.IDSize
		} else {
			x.name = strings.ReplaceAll(r.cls.Name, "/", ".")
			x.size = r.n * int(r.cls.rec.InstSize)
		}
		rows = append(rows, x)
	}
	for t, r := range w.prims {
		rows = append(rows, row{typeName(t) + "[]", r.n, r.elems * typeSize(t, w.IDSize)})
	}
	for _, x := range rows {
		count += x.count
		size += x.size
	}
	return
}

func objectsRep(rows []row, count, size int, bySize bool) ObjectsRep {
	rows = append([]row(nil), rows...)
	sort.Slice(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		ka, kb, oa, ob := a.count, b.count, a.size, b.size
		if bySize {
			ka, kb, oa, ob = oa, ob, ka, kb
		}
		if ka != kb {
			return ka > kb
		}
		if a.name != b.name {
			return a.name < b.name
		}
		return oa > ob
	})
	r := ObjectsRep{Count: fmt.Sprint(count), Size: sizeText(size), Head: [3]string{"Class Name", "Count ↓", "Size"}}
	if bySize {
		r.Head = [3]string{"Class Name", "Count", "Size ↓"}
	}
	pc := func(a, b int) int {
		if b == 0 {
			return 0
		}
		return 100 * a / b
	}
	for _, x := range rows {
		r.Rows = append(r.Rows, [3]string{x.name, fmt.Sprintf("%d (%d%%)", x.count, pc(x.count, count)), fmt.Sprintf("%s (%d%%)", sizeText(x.size), pc(x.size, size))})
	}
	return r
}

func (w *World) objectsRep(bySize bool) ObjectsRep {
	rows, count, size := w.rows()
	return objectsRep(rows, count, size, bySize)
}

func (w *World) prop(k string) string {
	for _, p := range w.Props {
		if p.K == k {
			return p.V
		}
	}
	return ""
}

func (w *World) uptime() string {
	return time.Duration((int64(w.TS) - w.Start) * int64(time.Millisecond)).String()
}

func (w *World) summaryRep(all bool) (r []Sec) {
	_, count, size := w.rows()
	classes := map[uint64]bool{}
	for _, l := range w.loads {
		classes[l.(Load).Class] = true
	}
	p := w.prop
	r = []Sec{
		{"Environment", []KV{{"Architecture", p("os.arch")}, {"JavaHome", p("java.home")},
			{"JavaName", fmt.Sprintf("%s (%s, %s)", p("java.vm.name"), p("java.vm.version"), p("java.vm.info"))},
			{"JavaVendor", p("java.vm.vendor")}, {"JavaVersion", p("java.version")}, {"System", p("os.name")}}},
		{"Heap", []KV{{"Classes", fmt.Sprint(len(classes))}, {"GC Roots", fmt.Sprint(len(w.roots))}, {"Instances", fmt.Sprint(count)}, {"Heap Size", sizeText(size)}}},
		{"System", []KV{{"JVM Uptime", w.uptime()}}},
	}
	if all && len(w.Props) > 0 {
		ps := append([]KV(nil), w.Props...)
		sort.Slice(ps, func(i, j int) bool { return ps[i].K < ps[j].K })
		r = append(r, Sec{"Properties", ps})
	}
	return
}

// ---------------------------------------------------------------- plain and coloured text

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

type scanner struct {
	s   string
	pos int
}

func (s *scanner) gap() {
	for s.pos < len(s.s) && (s.s[s.pos] == ' ' || s.s[s.pos] == '\t') {
		s.pos++
	}
}

func (s *scanner) nl() error {
	s.gap()
	if s.pos < len(s.s) && s.s[s.pos] != '\n' && s.s[s.pos] != '\r' {
		return fmt.Errorf("the end of the line expected, found %q after %q", head(s.s[s.pos:], 120), s.before())
	}
	s.ws()
	return nil
}

func (s *scanner) ws() {
	for s.pos < len(s.s) && strings.IndexByte(" \t\r\n", s.s[s.pos]) >= 0 {
		s.pos++
	}
}

func (s *scanner) before() string { return s.s[max(0, s.pos-60):s.pos] }

func (s *scanner) lit(x string) error {
	x = strings.TrimLeft(x, " \t\r\n")
	if !strings.HasPrefix(s.s[s.pos:], x) {
		return fmt.Errorf("%q expected after %q, found %q", head(x, 200), s.before(), head(s.s[s.pos:], 200))
	}
	s.pos += len(x)
	return nil
}

func (s *scanner) try(x string) bool {
	if strings.HasPrefix(s.s[s.pos:], x) {
		s.pos += len(x)
		return true
	}
	return false
}

// seq matches strings with optional gaps between them and a line end.
func (s *scanner) seq(xs ...string) error {
	for _, x := range xs {
		s.gap()
		if err := s.lit(x); err != nil {
			return err
		}
	}
	return s.nl()
}

func (s *scanner) end() error {
	s.ws()
	if s.pos != len(s.s) {
		return fmt.Errorf("unexpected text after %q: %q", s.before(), head(s.s[s.pos:], 200))
	}
	return nil
}

func matchThreads(out string, exp []ThreadRep, locals bool) error {
	s := &scanner{s: out}
	s.ws()
	for _, t := range exp {
		if err := s.seq(t.Head); err != nil {
			return fmt.Errorf("thread %d: %w", t.TID, err)
		}
		for i, f := range t.Frames {
			if err := s.seq(f.Text, f.Loc); err != nil {
				return fmt.Errorf("thread %d frame %d: %w", t.TID, i, err)
			}
			if !locals {
				continue
			}
			rest := append([]string(nil), f.Locals...)
			for len(rest) > 0 {
				ok := false
				for j, l := range rest {
					if s.try("local " + l + "\n") {
						rest = append(rest[:j], rest[j+1:]...)
						s.ws()
						ok = true
						break
					}
				}
				if !ok {
					return fmt.Errorf("thread %d frame %d: locals %q expected after %q, found %q", t.TID, i, rest, s.before(), head(s.s[s.pos:], 200))
				}
			}
		}
	}
	return s.end()
}

func matchSummary(out string, exp []Sec) error {
	s := &scanner{s: out}
	s.ws()
	for _, sec := range exp {
		if err := s.seq("-", sec.Name); err != nil {
			return err
		}
		for _, kv := range sec.KVs {
			if err := s.lit(kv.K); err != nil {
				return err
			}
			if err := s.seq(":", strings.TrimSpace(kv.V)); err != nil {
				return fmt.Errorf("property %q: %w", kv.K, err)
			}
		}
	}
	return s.end()
}

func matchObjects(out string, exp ObjectsRep) error {
	s := &scanner{s: out}
	s.ws()
	if err := s.seq("Instances:", exp.Count); err != nil {
		return err
	}
	if err := s.seq("Total Size:", exp.Size); err != nil {
		return err
	}
	if err := s.seq(exp.Head[0], "|", exp.Head[1], "|", exp.Head[2], "|"); err != nil {
		return err
	}
	if !s.try("-") {
		return fmt.Errorf("line under the header expected")
	}
	for s.try("-") {
	}
	if err := s.nl(); err != nil {
		return err
	}
	for i, r := range exp.Rows {
		if err := s.seq(r[0], "|", r[1], "|", r[2], "|"); err != nil {
			return fmt.Errorf("row %d: %w", i, err)
		}
	}
	return s.end()
}

// ---------------------------------------------------------------- HTML

type tag struct {
	name  string
	close bool
	attrs string
}

type htmlPage struct {
	blocks    []string // texts of the blocks in the body after the headline, white space collapsed
	raw       []string // the same, exact
	structure []string // tags with attributes
}

// parseHTML understands the simple pages of the tool.
func parseHTML(out string) (*htmlPage, error) {
	p := &htmlPage{}
	var buf strings.Builder
	var stack []string
	var blocks []string // open blocks, "" for those that had an inner block
	seenH1 := false
	i := 0
	isBlock := map[string]bool{"p": true, "h1": true, "h2": true, "h3": true, "td": true, "th": true}
	void := map[string]bool{"meta": true, "link": true, "br": true, "img": true, "input": true, "hr": true, "!doctype": true}
	for i < len(out) {
		if out[i] != '<' {
			j := strings.IndexByte(out[i:], '<')
			if j < 0 {
				j = len(out) - i
			}
			buf.WriteString(out[i : i+j])
			i += j
			continue
		}
		if strings.HasPrefix(out[i:], "<!--") {
			j := strings.Index(out[i:], "-->")
			if j < 0 {
				return nil, fmt.Errorf("unclosed comment")
			}
			p.structure = append(p.structure, "comment")
			i += j + 3
			continue
		}
		// end of the tag, minding quotes
		j, quote := i+1, byte(0)
		for j < len(out) && (quote != 0 || out[j] != '>') {
			switch {
			case quote != 0 && out[j] == quote:
				quote = 0
			case quote == 0 && (out[j] == '"' || out[j] == '\''):
				quote = out[j]
			}
			j++
		}
		if j >= len(out) {
			return nil, fmt.Errorf("unclosed tag %q", head(out[i:], 60))
		}
		t := out[i+1 : j]
		i = j + 1
		closing := strings.HasPrefix(t, "/")
		t = strings.TrimPrefix(t, "/")
		t = strings.TrimSuffix(t, "/")
		name, attrs, _ := strings.Cut(strings.TrimSpace(t), " ")
		name = strings.ToLower(name)
		if name == "" || !regexp.MustCompile(`^!?[a-z][a-z0-9]*$`).MatchString(name) {
			return nil, fmt.Errorf("tag %q", t)
		}
		p.structure = append(p.structure, fmt.Sprintf("%v %s %s", closing, name, strings.TrimSpace(attrs)))
		if !closing {
			if !void[name] {
				stack = append(stack, name)
			}
			if isBlock[name] {
				if len(blocks) > 0 {
					blocks[len(blocks)-1] = ""
				}
				blocks = append(blocks, name)
				buf.Reset()
			}
			if name == "style" || name == "script" {
				k := strings.Index(strings.ToLower(out[i:]), "</"+name)
				if k < 0 {
					return nil, fmt.Errorf("unclosed %s", name)
				}
				p.structure = append(p.structure, out[i:i+k])
				i += k
				buf.Reset()
			}
			continue
		}
		if len(stack) == 0 || stack[len(stack)-1] != name {
			return nil, fmt.Errorf("tag </%s> closes %v", name, stack)
		}
		stack = stack[:len(stack)-1]
		if isBlock[name] {
			last := len(blocks) - 1
			if blocks[last] != "" {
				text := html.UnescapeString(buf.String())
				if seenH1 {
					p.raw = append(p.raw, text)
					p.blocks = append(p.blocks, squeeze(text))
				}
				if name == "h1" {
					seenH1 = true
				}
			}
			blocks = blocks[:last]
			buf.Reset()
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unclosed tags %v", stack)
	}
	return p, nil
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func cmpBlocks(got, exp []string) error {
	for i := range exp {
		if i >= len(got) {
			return fmt.Errorf("block %d %q is missing", i, exp[i])
		}
		if got[i] != squeeze(exp[i]) {
			return fmt.Errorf("block %d is %q, expected %q", i, head(got[i], 300), head(squeeze(exp[i]), 300))
		}
	}
	if len(got) > len(exp) {
		return fmt.Errorf("unexpected blocks %q", head(fmt.Sprintf("%q", got[len(exp):]), 300))
	}
	return nil
}

func threadsBlocks(exp []ThreadRep, locals bool, got []string) (r []string) {
	for _, t := range exp {
		r = append(r, t.Head)
		for _, f := range t.Frames {
			r = append(r, f.Text+" "+f.Loc)
			if !locals {
				continue
			}
			// locals of a frame come in any order: take over the order of the page
			var ls []string
			for _, l := range f.Locals {
				ls = append(ls, squeeze("local "+l))
			}
			sort.Strings(ls)
			if len(r)+len(ls) <= len(got) {
				g := append([]string(nil), got[len(r):len(r)+len(ls)]...)
				s := append([]string(nil), g...)
				sort.Strings(s)
				if strings.Join(s, "\x00") == strings.Join(ls, "\x00") {
					ls = g
				}
			}
			r = append(r, ls...)
		}
	}
	return
}

func summaryBlocks(exp []Sec) (r []string) {
	r = []string{"Property", "Value"}
	for _, s := range exp {
		r = append(r, s.Name)
		for _, kv := range s.KVs {
			r = append(r, kv.K, kv.V)
		}
	}
	return
}

func objectsBlocks(exp ObjectsRep) (r []string) {
	r = []string{"Instances", exp.Count, "Total Size", exp.Size, exp.Head[0], exp.Head[1], exp.Head[2]}
	for _, x := range exp.Rows {
		r = append(r, x[:]...)
	}
	return
}

// ---------------------------------------------------------------- whole reports

// expect checks the outcome of a command on the world's dump.
func (w *World) expect(k Cmd, r Res) error {
	if r.Crash != "" || r.Code != 0 {
		return fmt.Errorf("%s failed: %v", k, r)
	}
	out := r.Out
	if k.Html {
		p, err := parseHTML(out)
		if err != nil {
			return fmt.Errorf("%s: %w in %q", k, err, head(out, 600))
		}
		switch k.Sub {
		case "threads":
			err = cmpBlocks(p.blocks, threadsBlocks(w.threadsRep(), k.Locals, p.blocks))
		case "summary":
			err = cmpBlocks(p.blocks, summaryBlocks(w.summaryRep(k.AllProps)))
		case "objects":
			err = cmpBlocks(p.blocks, objectsBlocks(w.objectsRep(k.Size)))
		}
		if err != nil {
			return fmt.Errorf("%s: %w", k, err)
		}
		return nil
	}
	if k.Color {
		out = ansi.ReplaceAllString(out, "")
	}
	var err error
	switch k.Sub {
	case "threads":
		err = matchThreads(out, w.threadsRep(), k.Locals)
	case "summary":
		err = matchSummary(out, w.summaryRep(k.AllProps))
	case "objects":
		err = matchObjects(out, w.objectsRep(k.Size))
	}
	if err != nil {
		return fmt.Errorf("%s: %w", k, err)
	}
	return nil
}

// verify runs the commands on the world's dump, freshly written, and checks their reports.
func (c *Ctx) verify(w *World, cmds ...Cmd) *Sys {
	s := c.Sys()
	s.Put("x.hprof", w.Bytes())
	for _, k := range cmds {
		k.File = "x.hprof"
		if err := w.expect(k, s.Do(k)); err != nil {
			c.Fail("%v", err)
		}
	}
	return s
}
