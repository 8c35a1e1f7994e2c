//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["CapNum"] = CapNum
	All["CapNumFull"] = CapNumFull
}

// --- C31: the captions are numbered in the order of the document

type capGen struct {
	n       int
	fig     string // caption of the figures
	numbers map[string]int
	titles  []string // expected ones
	table   bool     // within a table
}

// title is the title of a block, whose caption is numbered if there is one.
func (g *capGen) title(caption string) string {
	g.n++
	t := "t" + strconv.Itoa(g.n)
	if g.n == 1 {
		t += string([]byte{sym.ByteIn("t", "aZ09")})
	}
	w := t
	if caption != "" {
		g.numbers[caption[:1]]++
		w = strings.TrimPrefix(caption[2:], " ") + " " + strconv.Itoa(g.numbers[caption[:1]]) + ". " + t
	}
	g.titles = append(g.titles, w)
	return "." + t + "\n"
}

// block is a block, within the given number of others.
func (g *capGen) block(depth int, kinds int) string {
	figure := ""
	if g.fig != "" {
		figure = "f:" + g.fig
	}
	k := sym.Choice("block", kinds)
	eq := strings.Repeat("=", 4+depth)
	switch k {
	case 0:
		return g.title(figure) + "image::x.png[]"
	case 1:
		return g.title("e:Example") + eq + "\n" + g.inner(depth) + "\n" + eq
	case 2:
		sym.Assume(!g.table)
		t := g.title("t:Table")
		g.table = true
		t += "|===\na|\n" + g.inner(depth) + "\n|===" // the blocks of the cells are after the one of the table
		g.table = false
		return t
	case 3:
		return "image::x.png[]"
	case 4:
		return eq + "\n" + g.inner(depth) + "\n" + eq
	case 5:
		g.n++
		t := "t" + strconv.Itoa(g.n)
		g.titles = append(g.titles, "C "+t)
		return []string{"[caption=\"C \"]\n." + t + "\nimage::x.png[]", "." + t + "\n[caption=\"C \"]\n" + eq + "\nx\n" + eq}[depth%2]
	case 6:
		t := g.title("")
		s := strings.Repeat("*", 4+depth)
		return t + s + "\n" + g.inner(depth) + "\n" + s
	case 7:
		return g.title("") + "* x\n+\n" + g.inner(depth) + "\n\n//-"
	case 8:
		c := []string{"Fg", ""}[sym.Choice("caption", 2)]
		g.fig = c
		d := ":figure-caption!:\n\n"
		f := ""
		if c != "" {
			d, f = ":figure-caption: "+c+"\n\n", "f:"+c
		}
		return d + g.title(f) + "image::x.png[]"
	case 9:
		t := g.title("")
		return "[NOTE]\n" + t + eq + "\n" + g.inner(depth) + "\n" + eq
	case 10:
		sym.Assume(!g.table)
		g.table = true
		t := "[%footer]\n|===\na|\n" + g.inner(depth) + "\n\na|\n" + g.inner(depth) + "\n|==="
		g.table = false
		return t
	case 11:
		return g.title("") + "----\nx\n----"
	}
	s := strings.Repeat("_", 4+depth)
	return g.title("") + s + "\n" + g.inner(depth) + "\n" + s
}

func (g *capGen) inner(depth int) string {
	if depth == 0 {
		return "x"
	}
	return g.block(depth-1, 6)
}

func capNum(n, depth, kinds int) {
	g := &capGen{fig: "Figure", numbers: map[string]int{}}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, g.block(depth, kinds))
	}
	src := strings.Join(l, "\n\n")
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	var got []string
	dom(toks).each(func(k *node) bool {
		if k.class("title") && k.text() != "Note" {
			got = append(got, k.text())
		}
		return true
	})
	if !sym.EqBytes(strings.Join(got, "; "), strings.Join(g.titles, "; ")) {
		sym.Note("got " + strings.Join(got, "; ") + " want " + strings.Join(g.titles, "; "))
		sym.Fail("the captions are different")
	}
	sym.Cover("captions")
}

func CapNum()     { capNum(2, 1, 13) }
func CapNumFull() { capNum(2, 2, 9) }
