//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["EquivLines"] = EquivLines
	All["EquivLinesFull"] = EquivLinesFull
	All["EquivDocs"] = EquivDocs
	All["EquivBlocks"] = EquivBlocks
	All["EquivPre"] = EquivPre
	All["EquivIncl"] = EquivIncl
}

// --- C30: what does not show in the document does not matter

// equivalent writes the document in another way: ends of lines, spaces at the end of the lines, last line.
func equivalent(d string, k int) string {
	switch k {
	case 0:
		return strings.ReplaceAll(d, "\n", "\r\n")
	case 1:
		return strings.ReplaceAll(d, "\n", " \n")
	case 2:
		return strings.TrimRight(d, "\n")
	case 3:
		return d + "\n\n"
	case 4:
		return strings.ReplaceAll(d, "\n", " \t\n") + "\n"
	case 5:
		return "\ufeff" + d
	case 6:
		return "\n\n" + d
	default:
		return strings.ReplaceAll(strings.TrimRight(d, "\n"), "\n", "\r\n")
	}
}

func checkEquiv(note, d string, k int) {
	sym.Note(note)
	a, b := run(d), run(equivalent(d, k))
	sym.Assert((a.err == nil) == (b.err == nil), "one fails")
	sym.Assert(a.out == b.out, "the output is different: "+[]string{"crlf", "trailing space", "no newline", "blank lines after", "trailing tab", "bom", "blank lines before", "crlf, none at the end"}[k])
	sym.Cover("same")
}

// openTable returns true if a table is not closed: the blank lines at the end of the document are its own.
func openTable(d string) bool {
	n := 0
	for _, l := range strings.Split(d, "\n") {
		if l == "|===" {
			n++
		}
	}
	return n%2 == 1
}

func EquivLines() {
	d := lines3of(linePool, "a") + "\n"
	sym.Assume(!openTable(d))
	checkEquiv(d, d, 4)
}

func EquivLinesFull() {
	d := lines3of(linePool, "a\n") + "\n"
	sym.Assume(!openTable(d))
	checkEquiv(d, d, sym.Choice("way", 8))
}

func EquivDocs() {
	d := strings.ReplaceAll(pick(detDocs), "~", fill("~", "a<")) + "\n"
	checkEquiv(d, d, sym.Choice("way", 8))
}

// EquivBlocks: the same with every block and symbolic bytes.
func EquivBlocks() {
	d := fill(pick(blockTmpl), "a<\n ") + "\n"
	checkEquiv(d, d, sym.Choice("way", 8))
}

// the lines which are processed before the parsing
var equivPre = []string{
	":x: 1", ":!x:", ":x!:", "ifdef::x[]", "ifndef::x[]", "ifeval::[\"{x}\" == \"1\"]", "endif::[]", "endif::x[]", "ifdef::x[y {x}]", "include::a.adoc[tag=t]", "----", "w {x}", "== s", "", "= t", "image::a.png[]", "```go", "[source,go]", ":x: b \\", ".t", "[[i]]", "---", "a <b@c.d>", "v1, 2020", "toc::[]", ":toc: macro", "|===", "'''", "<1> c", "////",
}

// EquivPre: the same with the lines which are processed before the parsing.
func EquivPre() { equivPre3("\nendif::[]\nz {x}\n") }

func equivPre3(end string) {
	pool := equivPre[:18]
	d := ""
	for i := 0; i < 3; i++ {
		d += pool[sym.Choice("l", len(pool))] + "\n"
		if i == 1 {
			pool = equivPre
		}
	}
	sym.Assume(!openTable(d))
	sym.WriteFile("a.adoc", "u\n//tag::t[]\n:x: 2\nv\n//end::t[]\nw\n")
	checkEquiv(d, d+end, 4)
}

// EquivIncl: the same with the included files.
func EquivIncl() {
	name := []string{"a.adoc", "a.go"}[sym.Choice("name", 2)]
	c := "= t\n// tag::x[]\n* b\n\n== c\n// end::x[]\n\nd\n:e: f\ninclude::b.adoc[]\n"
	d := "x\n\n" + []string{"%", "----\n%\n----", "* i\n+\n%", "|===\na|\n%\n|==="}[sym.Choice("in", 4)]
	d = strings.ReplaceAll(d, "%", "include::"+name+"["+[]string{"", "lines=2..4", "tag=x", "tags=!x", "leveloffset=+1", "lines=\"1;5..-1\""}[sym.Choice("opts", 6)]+"]") + "\n\n{e}\n"
	k := []int{0, 1, 2, 5, 7}[sym.Choice("way", 5)] // the blank lines of an included file matter
	sym.Note(d)
	sym.WriteFile("b.adoc", "g\n")
	sym.WriteFile(name, c)
	a := run(d)
	sym.WriteFile("b.adoc", equivalent("g\n", k))
	sym.WriteFile(name, equivalent(c, k))
	b := run(equivalent(d, k))
	sym.Assert(a.err == nil && b.err == nil, "fails")
	sym.Assert(a.out == b.out, "the output is different")
	sym.Cover("same")
}
