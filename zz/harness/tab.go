//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["TabGrid"] = TabGrid
	All["TabGridFull"] = TabGridFull
	All["TabCols"] = TabCols
	All["TabColsFull"] = TabColsFull
	All["TabText"] = TabText
}

// --- C18: tables

// the lines of a table: their cells ('~': a character of the text of the cell)
var tabLines = [][]string{
	{"|%~"}, {"|%~ |%"}, {"|%|%|%~"}, {""},
	{"|%\n~ y"}, {"a|%~"}, {">s|%\n~y"}, {"|% ~|%\ny"}, {"|%~\n\ny"}, {"|"}, {"||%"}, {"|%x|%\n\n~y"}, {".^|%~"}, {"| %~ | |x %"}, {"| \n%~"}, {"|%\nxy~|%"},
}

type tabCell struct {
	text   string
	halign string
}

// tabModel returns the number of cells of the first line, the texts of the cells, and whether there is an implicit header.
func tabModel(lines []string) (int, []string, bool) {
	var cells []string
	first := 0
	for i, l := range lines {
		if l == "" {
			continue
		}
		// formats are not text
		for _, f := range []string{"a|", ">s|", ".^|"} {
			l = strings.TrimPrefix(l, f)
		}
		for _, c := range strings.Split(strings.TrimPrefix(l, "|"), "|") {
			cells = append(cells, squeeze(c))
		}
		if i == 0 {
			first = len(cells)
		}
	}
	return first, cells, len(lines) > 1 && lines[1] == ""
}

// tabRows reads a section of a table.
func tabRows(t *node, name string) [][]string {
	var rows [][]string
	for _, s := range t.elems() {
		if s.name() == name {
			for _, tr := range s.elems() {
				var row []string
				for _, td := range tr.elems() {
					row = append(row, td.cellText())
				}
				rows = append(rows, row)
			}
		}
	}
	return rows
}

// cellText is the text of a cell, with a space between its blocks.
func (n *node) cellText() string {
	s := ""
	for _, k := range n.kids {
		if k.name() == "p" || k.name() == "div" {
			s += " " + k.cellText() + " "
		} else {
			s += k.rawText()
		}
	}
	return squeeze(s)
}

func sameRows(a, b [][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func showRows(r [][]string) string {
	s := ""
	for _, l := range r {
		s += "[" + strings.Join(l, "|") + "]"
	}
	return s
}

var tabCols = []struct {
	attr string
	n    int
}{{"", 0}, {"cols=\"2*\"", 2}, {"cols=\"1,>2,^.^1\"", 3}, {"cols=3*", 3}, {"cols=\"a\"", 1}}

func tabGrid(n, kinds, cols int, alphabet string) {
	col := tabCols[sym.Choice("cols", cols)]
	opts := sym.Choice("opts", 4)
	var lines []string
	cell := 0
	lens := 0
	for i := 0; i < n; i++ {
		k := sym.Choice("line", kinds)
		if i == 0 {
			sym.Assume(tabLines[k][0] != "")
		}
		l := ""
		a := alphabet
		if i != n-1 {
			a = "x"
		}
		for _, c := range []byte(fill(tabLines[k][0], a)) {
			if c == '%' {
				l += "c" + strconv.Itoa(cell)
				cell++
			} else {
				l += string([]byte{c})
			}
		}
		lines = append(lines, l)
		lens += len(l)
	}
	attrs := col.attr
	if opts&1 != 0 {
		attrs = "%header," + attrs
	}
	if opts&2 != 0 {
		attrs += ",options=\"footer\""
		if opts == 3 {
			attrs = col.attr + ",opts=\"header,footer\""
		}
	}
	attrs = strings.Trim(attrs, ",")
	src := "|===\n" + strings.Join(lines, "\n") + "\n|===\n\nafter"
	if attrs != "" {
		src = "[" + attrs + "]\n" + src
	}
	first, cells, header := tabModel(lines)
	if col.n > 0 {
		sym.Assume(!header || first == col.n) // otherwise the header is not on the first line
		first = col.n
	}
	var want [][]string
	for len(cells) > first {
		want = append(want, cells[:first])
		cells = cells[first:]
	}
	if len(cells) > 0 {
		want = append(want, cells)
	}
	var head, foot [][]string
	if header || opts&1 != 0 {
		head, want = want[:1], want[1:]
	}
	if opts&2 != 0 && len(want) > 0 {
		foot, want = want[len(want)-1:], want[:len(want)-1]
	}
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	ts := root.find("table", "")
	sym.Assert(len(ts) == 1, "not a table")
	t := ts[0]
	sym.Assert(len(t.find("col", "")) == first, "the number of columns is not the one defined, or of the first row")
	sym.Note(showRows(tabRows(t, "tbody")))
	sym.Assert(sameRows(tabRows(t, "thead"), head), "the header is not the first row")
	sym.Assert(sameRows(tabRows(t, "tfoot"), foot), "the footer is not the last row")
	sym.Assert(sameRows(tabRows(t, "tbody"), want), "the rows are not those of the document")
	ps := root.find("p", "")
	sym.Assert(len(ps) > 0 && ps[len(ps)-1].text() == "after", "the text after is lost")
	sym.Cover("grid")
}

// TabGrid: the cells are all there, once, in order, in rows of as many cells as there are columns.
func TabGrid() { tabGrid(3, 8, 3, "x<") }

// TabGridFull is the same with more kinds of lines.
func TabGridFull() { tabGrid(4, len(tabLines), len(tabCols), "x") }

var tabAligns = [3]string{"", ">", "^"}

func tabColumns(entries int, weights string, mults, aligns int) {
	type column struct {
		halign, valign string
		weight         int
		th             bool
	}
	var cols []column
	var defs []string
	sum := 0
	for i := 0; i < entries; i++ {
		m := 1 + sym.Choice("mult", mults)
		h, v := sym.Choice("halign", aligns), sym.Choice("valign", aligns)
		c := column{halign: [3]string{"left", "right", "center"}[h], valign: [3]string{"top", "bottom", "middle"}[v], weight: 1}
		d := ""
		if m > 1 {
			d = strconv.Itoa(m) + "*"
		}
		d += tabAligns[h]
		if v > 0 {
			d += "." + tabAligns[v]
		}
		if sym.Bool("weighted") {
			w := sym.ByteIn("weight", weights)
			c.weight = int(w - '0')
			d += string([]byte{w})
		} else if d == "" {
			d = "1"
		}
		if sym.Bool("style") {
			c.th = true
			d += "h"
		}
		defs = append(defs, d)
		for ; m > 0; m-- {
			cols = append(cols, c)
			sum += c.weight
		}
	}
	auto := sym.Bool("auto")
	src := "[cols=\"" + strings.Join(defs, ",") + "\"]\n|===\n"
	if auto {
		src = "[%autowidth]\n" + src
	}
	for i := 0; i < 2*len(cols); i++ {
		src += "|c" + strconv.Itoa(i) + "\n"
	}
	src += "|==="
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	cs := root.find("col", "")
	sym.Assert(len(cs) == len(cols), "the number of columns is not the one defined")
	total := 0.
	for i, c := range cs {
		style := c.attr("style")
		if auto {
			sym.Assert(style == "", "a width with autowidth")
			continue
		}
		sym.Assert(strings.HasPrefix(style, "width: ") && strings.HasSuffix(style, "%;"), "no width")
		w, err := strconv.ParseFloat(style[len("width: "):len(style)-2], 64)
		sym.Assert(err == nil, "no width")
		total += w
		d := w - 100*float64(cols[i].weight)/float64(sum)
		sym.Assert(d < 0.01 && d > -0.01, "the width of a column is not in proportion to its weight")
	}
	sym.Assert(auto || total < 100.001 && total > 99.999, "the widths are not the whole")
	trs := root.find("tr", "")
	sym.Assert(len(trs) == 2, "not two rows")
	n := 0
	for _, tr := range trs {
		for i, td := range tr.elems() {
			sym.Assert(i < len(cols), "too many cells")
			sym.Assert(td.class("halign-"+cols[i].halign) && td.class("valign-"+cols[i].valign), "a cell is not aligned as its column")
			sym.Assert((td.name() == "th") == cols[i].th, "a header cell or not, unlike its column")
			sym.Assert(td.text() == "c"+strconv.Itoa(n), "not the text of the cell")
			n++
		}
	}
	sym.Assert(n == 2*len(cols), "cells are lost")
	sym.Cover("cols")
}

// TabCols: the columns have the widths, alignments and styles of their definitions.
func TabCols() { tabColumns(2, "139", 2, 2) }

// TabColsFull is the same with more columns.
func TabColsFull() { tabColumns(3, "123456789", 3, 3) }

// TabText: any text of a line is the one of its cell.
func TabText() {
	src, a, b := "", fill("~~", asciiLine), fill("~", asciiLine)
	for _, c := range []byte(a + b) {
		sym.Assume(c != '|')
	}
	form := sym.Choice("form", 4)
	switch form {
	case 0:
		src = "|===\n|" + a + "|" + b + "\n|==="
	case 1:
		src = "|===\n|" + a + "\n" + b + "\n|===" // on two lines
	case 2:
		src = "|===\n|x |y\n\n|" + a + "\n|" + b + "\n|==="
	case 3:
		src = "[cols=2*]\n|===\n|" + a + "\nx|" + b + "\n|==="
	}
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	ts := root.find("table", "")
	sym.Assert(len(ts) == 1, "not a table")
	n := len(root.find("td", "")) + len(root.find("th", ""))
	sym.Assert(n == [4]int{2, 1, 4, 2}[form], "a cell too many, or too few")
	sym.Cover("text")
}
