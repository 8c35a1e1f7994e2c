//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["SectTree"] = SectTree
	All["SectTreeFull"] = SectTreeFull
	All["SectNum"] = SectNum
	All["SectNumFull"] = SectNumFull
	All["SectIds"] = SectIds
	All["SectIdsFull"] = SectIdsFull
	All["SectRefs"] = SectRefs
	All["SectRefsFull"] = SectRefsFull
}

// --- C14: sections, table of contents, numbers

type sect struct {
	level  int
	title  string
	number string
	parent int // -1: the document
}

type sectModel struct {
	all      []sect
	numbered bool
	counters map[int]int
}

func (m *sectModel) add(level int, title string) {
	p := len(m.all) - 1
	for p >= 0 && m.all[p].level >= level {
		p = m.all[p].parent
	}
	s := sect{level: level, title: title, parent: p}
	if m.numbered {
		m.counters[p]++
		s.number = strconv.Itoa(m.counters[p])
		if p >= 0 && m.all[p].number != "" {
			s.number = m.all[p].number + "." + s.number
		}
	}
	m.all = append(m.all, s)
}

// chain is the levels of a section and of its ancestors.
func (m *sectModel) chain(i int) string {
	c := ""
	for ; i >= 0; i = m.all[i].parent {
		c = strconv.Itoa(m.all[i].level) + c
	}
	return c
}

// shown is the title, with the number
func (s sect) shown() string {
	if s.number != "" {
		return s.number + ". " + s.title
	}
	return s.title
}

// checkSections compares the headings, their nesting and the table of contents with the model.
func checkSections(m *sectModel, r result, depth int, tocShown bool) []string {
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	var ids []string
	i := 0
	root.each(func(n *node) bool {
		nm := n.name()
		if len(nm) == 2 && nm[0] == 'h' && nm[1] >= '2' && nm[1] <= '6' {
			sym.Assert(i < len(m.all), "a heading too many")
			s := m.all[i]
			sym.Assert(int(nm[1]-'1') == s.level, "the level of a heading is not the one of its section")
			sym.Assert(n.text() == squeeze(s.shown()), "the heading is not the title (with its number)")
			c := ""
			for p := n.parent; p != nil; p = p.parent {
				for l := 1; l <= 5; l++ {
					if p.class("sect" + strconv.Itoa(l)) {
						c = strconv.Itoa(l) + c
					}
				}
			}
			sym.Assert(c == m.chain(i), "a section is not within its parents")
			ids = append(ids, n.attr("id"))
			i++
		}
		return true
	})
	sym.Assert(i == len(m.all), "a section is lost")
	for i, s := range m.all {
		// its content follows it
		n := find1(root, "p", "p"+strconv.Itoa(i))
		sym.Assert(n != nil, "a paragraph is lost")
		c := ""
		for p := n.parent; p != nil; p = p.parent {
			for l := 1; l <= 5; l++ {
				if p.class("sect" + strconv.Itoa(l)) {
					c = strconv.Itoa(l) + c
				}
			}
		}
		_ = s
		sym.Assert(c == m.chain(i), "a paragraph is not within its section")
	}
	// the table of contents
	var want []string
	for i, s := range m.all {
		if s.level <= depth {
			c := ""
			for p := i; p >= 0; p = m.all[p].parent {
				c += "<"
			}
			want = append(want, c+"#"+ids[i]+" "+squeeze(s.shown()))
		}
	}
	var got []string
	for _, t := range root.find("div", "toc") {
		t.each(func(n *node) bool {
			if n.name() == "a" {
				c := ""
				for p := n.parent; p != nil; p = p.parent {
					if p.name() == "li" {
						c += "<"
					}
				}
				got = append(got, c+n.attr("href")+" "+n.text())
			}
			return true
		})
	}
	if tocShown {
		sym.Note(strings.Join(want, "|"))
		sym.Note(strings.Join(got, "|"))
		sym.Assert(same(want, got), "the table of contents is not the tree of sections")
	} else {
		sym.Assert(len(got) == 0, "a table of contents nobody asked for")
	}
	var md []string
	if r.md.TableOfContents != nil {
		md = tocOf(r.md.TableOfContents.Sections, "<")
	}
	sym.Assert(same(want, md), "the table of contents of the metadata is not the tree of sections")
	return ids
}

func find1(root *node, name, text string) *node {
	for _, n := range root.find(name, "") {
		if n.text() == text {
			return n
		}
	}
	return nil
}

func tocOf(l []*types.ToCSection, c string) []string {
	var r []string
	for _, s := range l {
		t := unescape(s.Title)
		if s.Number != "" {
			t = s.Number + ". " + t
		}
		r = append(r, c+"#"+strings.ToLower(s.ID)+" "+squeeze(t))
		r = append(r, tocOf(s.Children, c+"<")...)
	}
	return r
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SectTree: every sequence of levels.
func SectTree() { sectTree(4, 3, "x<") }

// SectTreeFull is the same with more sections and levels.
func SectTreeFull() { sectTree(5, 5, "x<") }

func sectTree(n, levels int, alphabet string) {
	m := &sectModel{counters: map[int]int{}}
	depth := 2
	src := "= T\n:toc:\n"
	var settings []configuration.Setting
	switch sym.Choice("conf", 4) {
	case 1:
		src += ":toclevels: 3\n"
		depth = 3
	case 2:
		settings = append(settings, attr("sectnums", ""), attr("toclevels", "1"))
		m.numbered = true
		depth = 1
	case 3:
		src += ":sectnums:\n"
		m.numbered = true
	}
	src += "\n"
	if sym.Bool("preamble") {
		src += "pre\n\n"
	}
	title := fill("~", alphabet)
	for i := 0; i < n; i++ {
		l := 1 + sym.Choice("level", levels)
		m.add(l, title)
		src += strings.Repeat("=", l+1) + " " + title + "\n\np" + strconv.Itoa(i) + "\n\n"
	}
	sym.Note(src)
	checkSections(m, run(src, settings...), depth, true)
	sym.Cover("tree")
}

// SectNum: the numbers follow the declarations of sectnums.
func SectNum() { sectNum(3, 3, 2, "x&") }

// SectNumFull is the same with more sections.
func SectNumFull() { sectNum(4, 5, 2, "x") }

func sectNum(n, decls, levels int, alphabet string) {
	m := &sectModel{counters: map[int]int{}}
	src := ""
	if sym.Bool("header") {
		src += "= T\n:sectnums:\n\n"
		m.numbered = true
	}
	for i := 0; i < n; i++ {
		switch sym.Choice("decl", decls) {
		case 1:
			src += ":sectnums:\n\n"
			m.numbered = true
		case 2:
			src += ":sectnums!:\n\n"
			m.numbered = false
		case 3:
			src += ":numbered:\n\n"
			m.numbered = true
		case 4:
			src += ":!numbered:\n\n"
			m.numbered = false
		}
		l := 1 + sym.Choice("level", levels)
		t := fill("~", alphabet)
		m.add(l, t)
		src += strings.Repeat("=", l+1) + " " + t + "\n\np" + strconv.Itoa(i) + "\n\n"
	}
	sym.Note(src)
	checkSections(m, run(src), 2, false)
	sym.Cover("numbers")
}

// --- C13: identifiers and references

var idSects = []string{"== ~", "== ~ ~", "=== ~-~", "[#~]\n== x", "[[~]]\n=== y", "== ~ [[~]]", "== ~_2", "[#i~]\n.t\nz", "[#_~]\n.*t*\n====\nz\n====", "== *~*", "== `~`{sp}", "== ~.", "[[~]]\n.t\nimage::i.png[]", "== ~: é", "== http://~[~]"}

// allIds are the identifiers in the output.
func allIds(root *node) []string {
	var r []string
	root.each(func(n *node) bool {
		if n.has("id") {
			r = append(r, n.attr("id"))
		}
		return true
	})
	return r
}

func sectIds(n int, alphabet string, confs int) {
	settings := [][]configuration.Setting{nil, {attr("idprefix", ""), attr("idseparator", "-")}, {attr("idprefix", "~"), attr("idseparator", "")}}[sym.Choice("conf", confs)]
	src := ":toc:\n\n"
	sections := 0
	for i := 0; i < n; i++ {
		k := sym.Choice("kind", len(idSects))
		if strings.Contains("\n"+idSects[k], "\n=") && !strings.Contains(idSects[k], "===\nz") {
			sections++
		}
		src += fill(idSects[k], alphabet) + "\n\n"
	}
	sym.Note(src)
	r := run(src, settings...)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	var ids []string
	root.each(func(n *node) bool {
		if len(n.name()) == 2 && n.name()[0] == 'h' && n.name()[1] >= '2' {
			ids = append(ids, n.attr("id"))
			sym.Assert(n.attr("id") != "", "a section without identifier")
		}
		return true
	})
	sym.Assert(len(ids) == sections, "a section is lost")
	for i := range ids {
		for j := range ids[:i] {
			sym.Assert(ids[i] != ids[j], "two sections with the same identifier")
		}
	}
	checkLinks(root)
	sym.Cover("ids")
}

// checkLinks: the internal links have a target, and are not within one another.
func checkLinks(root *node) {
	all := allIds(root)
	for _, a := range root.find("a", "") {
		h := a.attr("href")
		if len(h) > 0 && h[0] == '#' {
			found := false
			for _, id := range all {
				if id == h[1:] {
					found = true
				}
			}
			sym.Assert(found, "a link to nothing: "+h)
		}
		for p := a.parent; p != nil; p = p.parent {
			sym.Assert(p.name() != "a", "a link within a link")
		}
	}
}

// SectIds: identifiers are there and unique, links of the table of contents have targets.
func SectIds() { sectIds(2, "aA", 3) }

// SectIdsFull is the same with more elements.
func SectIdsFull() { sectIds(3, "aA", 2) }

// elements with an identifier and the text of references to them
var refTargets = [][2]string{
	{"[#%]\n== s~", "s~"}, {"[[%]]\n=== s *b~*", "s b~"}, {"== s~ [[%]]", "s~"}, {"[#%]\n== a http://x[l~]", "a l~"}, {"[#%]\n== s `c` ~ ^e^", "s c ~ e"}, {"[#%]\n== s [#z]#m~#", "s m~"}, {"[#%]\n== s [[z]]m~", "s m~"}, {"[#%]\n== s footnote:[f]", "s"},
	{"[#%]\n.t~\np", "t~"}, {"[[%]]\n.t _u_ ~\n* p", "t u ~"}, {"[#%]\n.t~\nimage::i.png[]", "t~"}, {"[#%]\n.t *u~*\nimage::i.png[]", "t u~"}, {"[#%]\n.t~\n----\nx\n----", "t~"}, {"[#%]\n.t~\n====\nx\n====", "t~"}, {"[#%]\n.t http://x[l~]\n|===\n|x\n|===", "t l~"},
	{"[#%]\np~", "[%]"}, {"a [[%]]b~", "[%]"}, {"[#%]*p~*", "[%]"}, {"* [[%]]i~", "[%]"}, {"[[%]]t~:: d", "t~"}, {"[[%]]*t~* {sp} u:: d", "t~   u"}, {"[#%]\n....\nx~\n....", "[%]"}, {"[#%]\n.t~\n. i", "t~"}, {"[#%]\n.t~\nx:: i", "t~"}, {"[#%]\n.t~\n____\ni\n____", "t~"}, {"[#%]\n.t~\nNOTE: x", "t~"}, {"====\n[#%]\n.t~\nx\n====", "t~"}, {"* i\n+\n[#%]\n.t~\nx", "t~"}, {"[#%]\n--\nx\n--", "[%]"}, {"== x\n\n[#%]\n.t~\nx", "t~"}, {"[#%]\n.t &~\n****\nx\n****", "t &~"}, {"[#%]\n[.r]\n.t\"~\nx", "t\"~"},
}

var refForms = []string{"<<%>>", "<<%,l~>>", "xref:%[]", "xref:%[l~]", "* <<%>>", "|===\n|<<%>>\n|===", "*<<%>>*", "====\n<<%,l~ *b*>>\n====", "x footnote:[<<%>>]"}

// containers of the targets of references
var refWithin = []string{"@", "[#o]\n.o\n======\n@\n======", "* o\n+\n--\n@\n--", "[[o]]\n.*o*\n[quote,a,b]\n______\n[#m]\n.m\n*****\n@\n*****\n______", ".o\n[NOTE#o]\n======\nx\n\n@\n======", "* o\n+\n[#o]\n.o~\n======\n@\n======", "o:: p\n+\n[.o]\n*****\n@\n*****", "== o\n\n[#o]\n.o\n. o\n.. p\n+\n--\n@\n--"}

func sectRefs(forms []string, alphabet string, order, within int) {
	t := refTargets[sym.Choice("target", len(refTargets))]
	f := forms[sym.Choice("form", len(forms))]
	id := []string{"i", "Id", "_a_B", "x-y"}[sym.Choice("id", 4)]
	b := string([]byte{sym.ByteIn("b", alphabet)})
	if strings.HasPrefix(f, "<<%,") || strings.Contains(f, "\n<<%,") {
		sym.Assume(b != "<") // not in labels
	}
	use := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "~", b), "%", id)
	}
	target, ref := use(t[0]), use(f)
	if !strings.Contains("\n"+target, "\n==") && !strings.Contains(target, "* i\n+") {
		// within other elements
		in := refWithin[sym.Choice("within", within)]
		sym.Assume(!strings.Contains("\n"+target, "\n--\n") || !strings.Contains(in, "--\n")) // open blocks do not nest
		target = strings.ReplaceAll(fill(in, alphabet), "@", target)
	}
	src := ref + "\n\n" + target
	if order == 1 || order == 2 && sym.Bool("after") {
		src = target + "\n\n[.after]\n" + ref
	}
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	n := 0
	for _, a := range root.find("a", "") {
		h := a.attr("href")
		if h == "" || h[0] != '#' || a.class("footnote") || strings.HasPrefix(h, "#_footnote") {
			continue
		}
		n++
		want := use(t[1])
		switch {
		case strings.Contains(f, "l~ *b*"):
			want = "l" + b + " *b*"
		case strings.Contains(f, "l~"):
			want = "l" + b
		case strings.HasPrefix(f, "xref:"):
			want = "[" + id + "]"
		}
		sym.Note(want + " / " + a.text())
		if !strings.Contains(f, "*b*") {
			sym.Assert(a.text() == squeeze(want), "the text of a reference is not the label or the title of its target")
		}
	}
	sym.Assert(n == 1, "a reference is not a link")
	checkLinks(root)
	ids := allIds(root)
	for i := range ids {
		for j := range ids[:i] {
			sym.Assert(ids[i] != ids[j], "an identifier twice")
		}
	}
	sym.Cover("refs")
}

// SectRefs: cross references link to their target and show its title or their label.
func SectRefs() { sectRefs(refForms[:4], "x<", 1, 4) }

// SectRefsFull is the same with more forms and characters.
func SectRefsFull() { sectRefs(refForms, "x<&\"", 2, len(refWithin)) }
