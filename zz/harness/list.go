//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["ListTree"] = ListTree
	All["ListTreeFull"] = ListTreeFull
	All["ListAttach"] = ListAttach
	All["ListAttachFull"] = ListAttachFull
	All["ListDeep"] = ListDeep
}

// --- C15: lists

type item struct {
	marker string
	text   string
	parent int // -1: the list is on its own
	blocks []string
	head   int // the first item of its list
}

type listModel struct {
	all []item
	cur int // the last item
}

// add puts an item in the list of the innermost item with the same marker or, with a new marker, in a list within the last item.
func (m *listModel) add(marker, text string) {
	p := m.cur
	for p >= 0 && m.all[p].marker != marker {
		p = m.all[p].parent
	}
	it := item{marker: marker, text: text}
	if p >= 0 {
		it.parent, it.head = m.all[p].parent, m.all[p].head
	} else {
		it.parent, it.head = m.cur, len(m.all)
		if marker[0] == '*' && m.cur >= 0 && m.all[m.cur].marker[0] == '*' {
			sym.Assume(len(marker) <= len(m.all[m.cur].marker)+1) // levels are not skipped (the test suite demands something else then)
		}
	}
	m.all = append(m.all, it)
	m.cur = len(m.all) - 1
}

func listName(marker string) string {
	switch marker[len(marker)-1] {
	case '.':
		return "ol"
	case ':':
		return "dl"
	}
	return "ul"
}

// show is the tree as text.
func (m *listModel) show(parent int) string {
	s := ""
	for i := range m.all {
		if m.all[i].parent == parent && m.all[i].head == i {
			s += listName(m.all[i].marker) + "("
			for j := range m.all {
				if m.all[j].head == i {
					s += m.all[j].text
					for _, b := range m.all[j].blocks {
						s += "+" + b
					}
					s += m.show(j) + ";"
				}
			}
			s += ")"
		}
	}
	return s
}

// showLists is the tree of the lists in the output: the text of the items, attached blocks, lists within.
func showLists(n *node) string {
	s := ""
	for _, k := range n.elems() {
		switch k.name() {
		case "ul", "ol":
			s += k.name() + "("
			for _, li := range k.elems() {
				s += showItem(li) + ";"
			}
			s += ")"
		case "dl":
			s += "dl("
			open := false
			for _, d := range k.elems() {
				if d.name() == "dt" {
					if open {
						s += ";"
					}
					s += d.text()
					open = true
				} else {
					s += showItem(d)
				}
			}
			if open {
				s += ";"
			}
			s += ")"
		default:
			s += showLists(k)
		}
	}
	return s
}

func showItem(li *node) string {
	s, lists := "", ""
	for _, k := range li.elems() {
		switch {
		case k.name() == "p" && li.name() == "li":
			s += k.text()
		case k.class("ulist") || k.class("olist") || k.class("dlist"):
			lists += showLists(k)
		default:
			s += "+" + k.text()
		}
	}
	return s + lists
}

var listMarkers = []string{"*", ".", "**", "-", "..", "::", "***", ":::", "...", "****", "::::"}

func itemLine(marker, text string) string {
	if marker[0] == ':' {
		return text + marker
	}
	return marker + " " + text
}

func checkLists(src string, m *listModel, after string) {
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	got, want := showLists(root), m.show(-1)
	sym.Note(want + " / " + got)
	sym.Assert(got == want, "the lists are not those of the document")
	if after != "" {
		ks := root.elems()
		sym.Assert(len(ks) > 1 && ks[len(ks)-1].text() == after, "the text after is not after the list")
	}
}

func listTree(n, markers int, seps int, alphabet string) {
	m := &listModel{cur: -1}
	src := ""
	for i := 0; i < n; i++ {
		mk := listMarkers[sym.Choice("marker", markers)]
		if i > 0 && seps > 1 {
			switch sym.Choice("sep", seps) {
			case 1:
				src += "\n"
			case 2:
				src += "\n\n"
			case 3:
				src += "// c\n"
			}
		}
		a := "x"
		if i == n-1 {
			a = fill("~", alphabet)
		}
		t := a + strconv.Itoa(i)
		m.add(mk, t)
		src += itemLine(mk, t) + "\n"
	}
	checkLists(src, m, "")
	sym.Cover("tree")
}

// ListTree: every sequence of markers.
func ListTree() { listTree(4, 6, 2, "x<") }

// ListTreeFull is the same with more markers and items.
func ListTreeFull() { listTree(5, 9, 2, "x") }

var listBlocks = [][2]string{{"p", "p"}, {"----\nv\n----", "v"}, {"====\nq\n\nr\n====", "q r"}, {".t\nw", "t w"}, {"NOTE: z", "Note z"}, {"|===\n|c\n|===", "c"}, {"--\no\n--", "o"}, {"image::i.png[]", ""}, {" l", "l"}}

// listAttach: blocks attached to items, to their ancestors after blank lines; the paragraph which follows is not in the list.
func listAttach(n, markers, blocks int, alphabet string) {
	m := &listModel{cur: -1}
	src := ""
	for i := 0; i < n; i++ {
		mk := listMarkers[sym.Choice("marker", markers)]
		t := fill("~", alphabet) + strconv.Itoa(i)
		m.add(mk, t)
		src += itemLine(mk, t) + "\n"
		if k := sym.Choice("attached", 4); k > 0 {
			// k-1 blank lines: to an ancestor
			p := m.cur
			sym.Assume(k == 1 || mk[0] != ':') // blank lines after a term are before its description
			for j := 1; j < k; j++ {
				sym.Assume(p >= 0)
				p = m.all[p].parent
			}
			sym.Assume(p >= 0)
			b := listBlocks[sym.Choice("block", blocks)]
			src += strings.Repeat("\n", k-1) + "+\n" + b[0] + "\n"
			m.all[p].blocks = append(m.all[p].blocks, b[1])
			m.cur = p
			if sym.Bool("blank") {
				src += "\n"
			}
		}
	}
	src += "\n//-\n\nafter"
	checkLists(src, m, "after")
	sym.Cover("attach")
}

// ListAttach: blocks attached to items.
func ListAttach() { listAttach(3, 3, 2, "x") }

// ListAttachFull is the same with more items, markers and blocks.
func ListAttachFull() { listAttach(3, 6, len(listBlocks), "x<") }

// ListDeep: blocks attached to the ancestors of a deeply nested item, one after the other, and the item which follows.
func ListDeep() {
	chain := [][]string{{"*", "**", "***", "****", "*****"}, {".", "-", "..", "*", "..."}}[sym.Choice("chain", 2)]
	m := &listModel{cur: -1}
	src := ""
	depth := 2 + sym.Choice("depth", len(chain)-1)
	for i, mk := range chain[:depth] {
		t := "x" + strconv.Itoa(i)
		m.add(mk, t)
		src += itemLine(mk, t) + "\n"
	}
	for j := 0; j < 2; j++ {
		k := sym.Choice("attached", 6)
		if k == 0 {
			break
		}
		p := m.cur
		for i := 1; i < k; i++ {
			sym.Assume(p >= 0)
			p = m.all[p].parent
		}
		sym.Assume(p >= 0)
		t := fill("~", "x<") + "y" + strconv.Itoa(j)
		src += strings.Repeat("\n", k-1) + "+\n" + t + "\n"
		m.all[p].blocks = append(m.all[p].blocks, t)
		m.cur = p
	}
	if k := sym.Choice("next", depth+1); k > 0 {
		m.add(chain[k-1], "z")
		src += itemLine(chain[k-1], "z") + "\n"
	}
	checkLists(src, m, "")
	sym.Cover("deep")
}
