//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["NoteSeq"] = NoteSeq
	All["NoteSeqFull"] = NoteSeqFull
	All["NoteText"] = NoteText
}

// --- C16: footnotes

// contexts of a footnote; "%n" is the place
var noteCtx = []string{
	"a %n b", "* i %n", "t %n:: d", "t:: d %n", "|===\n|c %n\n|===", "[%header]\n|===\n|h %n\n|c\n|===", ".t %n\n====\nx\n====", "== s %n", "NOTE: x %n", "[verse]\nv %n", "*b %n*", "====\nx\n\n* i %n\n====", ". o\n+\np %n",
	"|===\na|* z %n\n|===", "----\nx <1>\n----\n<1> c %n", ".f %n\nimage::a.png[]", "[horizontal]\nt %n:: d", "[quote,me]\n____\nq %n\n____", "****\ns %n\n****", "> q %n", "_a `m %n` b_", "\"`q %n`\"", "[verse]\n____\nv %n\n____", "--\no %n\n--", "a^b^ %n", "NOTE: %n", "[TIP]\n====\nx %n\n====", "[qanda]\nq %n:: a", "[discrete]\n== d %n", "<<x,label>> %n", "[.r]#x %n#", ".t %n\n* i", ".t %n\n----\nx\n----", ".t %n\npara", "[%footer]\n|===\n|x\n|f %n\n|===", "image:a.png[] %n", "term::\n%n text", "[example]\nx %n", "[abstract]\nx %n",
}

type noteModel struct {
	texts []string       // of the notes
	names map[string]int // defined
	refs  []string       // the references: number, or name if unresolved, in the order of the document
	first []bool         // the reference is the one of the definition
	inner []int          // the notes which are referred to from another note
}

// add returns the markup of a footnote.
func (m *noteModel) add(kind int, text string) string {
	def := func(t string) string {
		m.texts = append(m.texts, t)
		return strconv.Itoa(len(m.texts))
	}
	ref := func(label string, first bool) {
		m.refs, m.first = append(m.refs, label), append(m.first, first)
	}
	switch kind {
	case 0: // without a name
		ref(def(text), true)
		return "footnote:[" + text + "]"
	case 1, 2, 5: // defined with a name, or again
		name := []string{"r", "R", "", "", "rs"}[kind-1]
		if k := m.names[name]; k > 0 {
			ref(strconv.Itoa(k), false)
		} else {
			ref(def(text), true)
			m.names[name] = len(m.texts)
		}
		return "footnote:" + name + "[" + text + "]"
	case 3: // referred to
		if k := m.names["r"]; k > 0 {
			ref(strconv.Itoa(k), false)
		} else {
			ref("r", false)
		}
		return "footnote:r[]"
	default: // with another footnote within
		ref(def(text+" "+"["+strconv.Itoa(len(m.texts)+2)+"]"), true)
		def("n" + text)
		m.inner = append(m.inner, len(m.texts))
		return "footnote:[" + text + " footnote:[n" + text + "]]"
	}
}

func checkNotes(src string, m *noteModel) {
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	ids := map[string]int{}
	var notes *node
	root.each(func(n *node) bool {
		if n.has("id") {
			ids[n.attr("id")]++
		}
		if n.attr("id") == "footnotes" {
			notes = n
		}
		return true
	})
	for id, n := range ids {
		sym.Assert(n == 1, "two elements with the id "+id)
	}
	// the references
	var sups []*node
	for _, n := range root.find("sup", "") {
		if n.class("footnote") || n.class("footnoteref") {
			within := false
			for p := n.parent; p != nil; p = p.parent {
				within = within || p == notes
			}
			if !within {
				sups = append(sups, n)
			}
		}
	}
	sym.Assert(len(sups) == len(m.refs), "the number of references")
	for i, n := range sups {
		label := m.refs[i]
		sym.Assert(n.text() == "["+label+"]", "the label of a reference")
		as := n.find("a", "")
		if label[0] > '9' { // unresolved
			sym.Assert(len(as) == 0, "an unresolved reference has a link")
			continue
		}
		sym.Assert(len(as) == 1 && as[0].attr("href") == "#_footnotedef_"+label, "the link of a reference")
		if m.first[i] {
			sym.Assert(as[0].attr("id") == "_footnoteref_"+label, "the id of a reference")
		} else {
			sym.Assert(!as[0].has("id"), "the id of a further reference")
		}
	}
	// the notes
	if len(m.texts) == 0 {
		sym.Assert(notes == nil, "notes without a reference")
		return
	}
	sym.Assert(notes != nil, "no notes")
	defs := notes.find("div", "footnote")
	sym.Assert(len(defs) == len(m.texts), "the number of notes")
	for i, n := range defs {
		k := strconv.Itoa(i + 1)
		sym.Assert(n.attr("id") == "_footnotedef_"+k, "the id of a note")
		as := n.find("a", "")
		sym.Assert(len(as) > 0 && as[0].attr("href") == "#_footnoteref_"+k && as[0].text() == k, "the link of a note")
		sym.Assert(ids["_footnoteref_"+k] == 1, "the link of a note has no target")
		sym.Assert(n.text() == k+". "+squeeze(m.texts[i]), "the text of a note")
	}
	// they are at the end
	ks := root.elems()
	sym.Assert(ks[len(ks)-1] == notes, "the notes are not at the end")
}

func noteSeq(n, ctxs, kinds int, tail bool) {
	m := &noteModel{names: map[string]int{}}
	src := ""
	for i := 0; i < n; i++ {
		c := noteCtx[sym.Choice("ctx", ctxs)]
		if tail {
			ctxs = 6
		}
		src += strings.ReplaceAll(c, "%n", m.add(sym.Choice("kind", kinds), "x"+strconv.Itoa(i))) + "\n\n//-\n\n"
	}
	if tail {
		src += "z " + m.add(3, "") + " " + m.add(0, "y<&")
	}
	checkNotes(src, m)
	sym.Cover("notes")
}

// NoteSeq: two footnotes of every kind, the first one in every context, then a reference and another one.
func NoteSeq() { noteSeq(2, len(noteCtx), 6, true) }

// NoteSeqFull: three footnotes.
func NoteSeqFull() { noteSeq(3, len(noteCtx), 6, false) }

// NoteText: the text of a footnote is any text, on one or two lines, within a paragraph.
func NoteText() {
	t := fill("x~~~y", "ab <>&'\n{#+~^-/")
	sym.Assume(!strings.Contains(t, "//") && !strings.Contains(t, "++") && !strings.Contains(t, "--") && !strings.Contains(t, "<<") && !strings.Contains(t, "\n\n") && !strings.Contains(t, "\n \n") && !strings.Contains(t, "\n+\n"))
	m := &noteModel{names: map[string]int{}}
	src := "a " + m.add(sym.Choice("kind", 2), t) + " b"
	r := run(src)
	sym.Note(src)
	sym.Assert(r.err == nil, "fails")
	p := run(t)
	pt, bad := wellFormed(p.out, false)
	sym.Assert(bad == "", "not well formed")
	m.texts[0] = squeeze(innerText(pt)) // as rendered in a paragraph
	checkNotes(src, m)
	sym.Cover("text")
}
