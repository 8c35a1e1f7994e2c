//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["BlockTree"] = BlockTree
	All["BlockTreeFull"] = BlockTreeFull
	All["BlockVerb"] = BlockVerb
}

// --- C26: delimited blocks nest as their delimiters

// containers: delimiter character, name
var blockKinds = []struct{ delim, attrs, name string }{
	{"=", "", "E"}, {"*", "", "S"}, {"_", "", "Q"}, {"-", "", "O"}, {"=", "[NOTE]\n", "N"},
}

type blockGen struct {
	n    int
	list bool     // in a list
	full bool     // any second block, any length
	open []string // delimiters of the enclosing blocks
}

func (g *blockGen) text() string {
	g.n++
	return "t" + strconv.Itoa(g.n)
}

func (g *blockGen) isOpen(d string) bool {
	for _, o := range g.open {
		if o == d {
			return true
		}
	}
	return false
}

// block is a block of any kind, and what it has to be in the output.
func (g *blockGen) block(depth int) (string, string) {
	k := sym.Choice("kind", len(blockKinds)+4)
	if depth == 0 && k < len(blockKinds) {
		sym.Assume(false)
	}
	switch k - len(blockKinds) {
	case 0:
		t := g.text()
		return t, "P[" + t + "]"
	case 1, 2: // verbatim blocks: whatever is within
		d := []string{"-", "."}[k-len(blockKinds)-1]
		d = strings.Repeat(d, 4)
		t := g.text()
		o := d + d[:1]
		for _, e := range []string{"====", "****", "____"} { // even the delimiter of another block (but not of those around)
			if !g.isOpen(e) && g.n%2 == 0 {
				o = e
			}
		}
		t += "\n" + o + "\n" + t
		return d + "\n" + t + "\n" + d, []string{"L[", "T["}[k-len(blockKinds)-1] + squeeze(t) + "]"
	case 3:
		t := g.text()
		sym.Assume(!g.list) // a list attached to a list is of the latter
		if depth == 0 {
			return "* " + t, "U(" + t + ")"
		}
		g.list = true
		s, w := g.block(depth - 1)
		g.list = false
		return "* " + t + "\n+\n" + s, "U(" + t + " " + w + ")"
	}
	b := blockKinds[k]
	d := strings.Repeat(b.delim, 4)
	if !g.full || g.isOpen(d) {
		d = strings.Repeat(b.delim, 4+sym.Choice("len", 2))
	}
	if b.delim == "-" {
		d = "--"
	}
	sym.Assume(!g.isOpen(d))
	g.open = append(g.open, d)
	list := g.list
	g.list = false
	s1, w1 := g.block(depth - 1)
	s, w := d+"\n"+s1, w1
	if n := 3; sym.Choice("two", 2) == 1 {
		if !g.full {
			n = 2
		}
		var s2, w2 string
		switch sym.Choice("second", n) {
		case 0:
			s2 = g.text()
			w2 = "P[" + s2 + "]"
		case 1:
			s2 = g.text()
			s2, w2 = "* "+s2, "U("+s2+")"
		default:
			s2, w2 = g.block(0)
			sym.Assume(w2[0] == 'L' || w2[0] == 'T')
		}
		s, w = s+"\n\n"+s2, join(w, w2)
	}
	g.open = g.open[:len(g.open)-1]
	g.list = list
	return b.attrs + s + "\n" + d, b.name + "(" + w + ")"
}

// join: consecutive lists are a single one
func join(a, b string) string {
	if strings.HasPrefix(a, "U(") && strings.HasPrefix(b, "U(") {
		return a[:len(a)-1] + " | " + b[2:]
	}
	return a + " " + b
}

// blockTree is what is in the output.
func blockTree(n *node) string {
	var l []string
	for _, k := range n.elems() {
		inner := func() string {
			for _, c := range k.elems() {
				if c.class("content") || c.name() == "blockquote" {
					return blockTree(c)
				}
			}
			return "?"
		}
		switch {
		case k.class("paragraph"):
			l = append(l, "P["+k.text()+"]")
		case k.class("listingblock"):
			l = append(l, "L["+k.text()+"]")
		case k.class("literalblock"):
			l = append(l, "T["+k.text()+"]")
		case k.class("exampleblock"):
			l = append(l, "E("+inner()+")")
		case k.class("sidebarblock"):
			l = append(l, "S("+inner()+")")
		case k.class("openblock"):
			l = append(l, "O("+inner()+")")
		case k.class("quoteblock"):
			l = append(l, "Q("+inner()+")")
		case k.class("admonitionblock"):
			tds := k.find("td", "content")
			if len(tds) == 0 {
				l = append(l, "?")
			} else {
				l = append(l, "N("+blockTree(tds[0])+")")
			}
		case k.class("ulist"):
			var is []string
			for _, li := range k.find("ul", "")[0].elems() {
				es := li.elems()
				t := "?"
				if len(es) > 0 && es[0].name() == "p" {
					t = es[0].text()
					es[0].tok.name = "-" // done
				}
				if w := blockTree(li); w != "" {
					t += " " + w
				}
				is = append(is, t)
			}
			l = append(l, "U("+strings.Join(is, " | ")+")")
		case k.name() == "-":
		default:
			l = append(l, "?"+k.name())
		}
	}
	return strings.Join(l, " ")
}

func checkBlocks(src, want string) {
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	got := blockTree(dom(toks))
	if got != want {
		sym.Note("got " + got + " want " + want)
		sym.Note(src)
		sym.Fail("the tree of blocks is different")
	}
	sym.Cover("tree")
}

func blockTrees(depth int, full bool) {
	g := &blockGen{full: full}
	s, w := g.block(depth)
	last := g.text()
	end := last
	sep := []string{"\n\n", "\n"}[sym.Choice("sep", 2)]
	if c := s[len(s)-1]; strings.HasPrefix(s, "* ") || strings.HasPrefix(s, "t") || c >= '0' && c <= '9' {
		sep = "\n\n"
	}
	if sym.Choice("decl", 2) == 1 { // the end of the block is the same when preprocessing
		end = ":e: V\n\nifdef::e[]\n" + last + "\nendif::[]"
	}
	checkBlocks("p0\n\n"+s+sep+end, "P[p0] "+w+" P["+last+"]")
}

func BlockTree()     { blockTrees(2, false) }
func BlockTreeFull() { blockTrees(3, true) }

// BlockVerb: the content of a verbatim block goes up to the delimiter with the same kind and length.
func BlockVerb() {
	delims := []string{"----", "-----", "....", ".....", "====", "--", "|===", "____", "++++", "////", "```", "****", "```go", "/////"}
	open := []string{"----", "-----", "....", ".....", "```", "////", "/////", "```go", "|==="}[sym.Choice("open", 9)]
	end := open
	if open == "```go" {
		end = "```"
	}
	a, b := delims[sym.Choice("a", len(delims))], delims[sym.Choice("b", len(delims))]
	x := fill("~", "a -.=|`")
	sym.Assume(a != end && b != end && strings.TrimRight(a+x, " ") != end)
	c := "v" + x + "\n" + a + x + "\nw\n\n" + b + "\ny"
	src := open + "\n" + c + "\n" + end + "\n:foo: z\nifdef::foo[]\n{foo}\nendif::[]"
	k := "L[" + squeeze(c) + "] "
	switch open[0] {
	case '.':
		k = "T" + k[1:]
	case '/':
		k = ""
	case '|': // the cells are not checked here
		sym.Assume(!strings.ContainsAny(c, "|"))
		src = strings.Replace(src, "v", "|v", 1)
		k = "?table "
	}
	checkBlocks(src, k+"P[z]")
}
