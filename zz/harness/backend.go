//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["SameInline"] = SameInline
	All["SameBlock"] = SameBlock
	All["SameCtx"] = SameCtx
	All["SameNest"] = SameNest
	All["SameTable"] = SameTable
	All["SameLines"] = SameLines
	All["SameHeader"] = SameHeader
	All["SameDetails"] = SameDetails
	All["SameMan"] = SameMan
	All["SameAttrs"] = SameAttrs
	All["SameDocs"] = SameDocs
}

// --- C29: the HTML and XHTML backends produce the same document

// norm lists the tokens, in the same way for both backends.
func norm(s string) []htmlTok {
	toks, _ := scanHTML(s, false)
	var l []htmlTok
	for _, t := range toks {
		if t.kind == 't' && len(l) > 0 && l[len(l)-1].kind == 't' {
			l[len(l)-1].text += t.text
			continue
		}
		l = append(l, t)
	}
	return l
}

func sameTok(a, b *htmlTok) bool {
	if a.kind != b.kind || a.name != b.name || a.text != b.text {
		return false
	}
	n := 0
	for _, x := range a.attrs {
		v, ok := b.attr(x.name)
		if !ok || v != x.value && !(x.value == "" && v == x.name) { // checked, checked="checked"
			return false
		}
		n++
	}
	for _, x := range b.attrs {
		if x.name == "xmlns" && b.name == "html" {
			continue
		}
		n--
	}
	return n == 0
}

func sameIn(note, src string, settings ...configuration.Setting) {
	h, x := [][2]string{{"html5", "xhtml5"}, {"html", "xhtml"}, {"", "xhtml5"}}[len(src)%3][0], [2]string{"xhtml5", "xhtml"}[len(src)%2]
	a := run(src, append(settings[:len(settings):len(settings)], configuration.WithBackEnd(h))...)
	b := run(src, append(settings[:len(settings):len(settings)], configuration.WithBackEnd(x))...)
	sym.Note(note)
	sym.Assert((a.err == nil) == (b.err == nil), "one backend fails")
	ta, tb := norm(a.out), norm(b.out)
	for i := range ta {
		if i >= len(tb) || !sameTok(&ta[i], &tb[i]) {
			sym.Note("html " + a.out + " xhtml " + b.out)
			sym.Note(note)
			sym.Fail("the backends differ")
		}
	}
	sym.Assert(len(ta) == len(tb), "the backends differ at the end")
	sym.Cover("same")
}

func SameInline() {
	t := pick(inlineTmpl)
	sameIn(t, fill(t, " a*<"))
}

func SameBlock() {
	t := pick(blockTmpl)
	sameIn(t, fill(t, " a\n<"))
}

func SameCtx() {
	c := pick(inlineCtx)
	i := inlines[sym.Choice("inl", len(inlines))]
	d := strings.ReplaceAll(c, "%s", fill(i, " a<"))
	if len(c)%2 == 1 {
		sameIn(c+" // "+i, d, full(), attr("experimental", ""))
	} else {
		sameIn(c+" // "+i, d, attr("icons", "font"))
	}
}

func SameNest() {
	c := pick(containers)
	i := inner[sym.Choice("inner", len(inner))]
	sameIn(c+" // "+i, strings.Replace(c, "%s", fill(i, " \na<"), 1))
}

func SameTable() {
	d := table()
	sameIn(d, d)
}

func SameLines() {
	d := lines3of(linePoolFull[:24], "a")
	sameIn(d, d)
}

func SameHeader() {
	t := pick(headerTmpl)
	sameIn(t, fill(t, " a<,"), full())
}

// the attributes of the details of a document
var sameDetails = []string{":author: A B", ":email: a@~.c", ":revnumber: 1~", ":revdate: d~", ":revremark: r~", ":version-label!:", ":authors: C D; E F", ":description: ~", ":keywords: k~", ":icons: font", ":toc:", ":nofooter:", ":noheader:"}

// SameDetails: all sets of 6 attributes, and any one of the others.
func SameDetails() {
	t := "= T"
	if sym.Choice("line", 2) == 1 {
		t += "\nG H <g@h.i>; J K"
	}
	for i, a := range sameDetails[:6] {
		if sym.Choice("with", 2) == 1 {
			if i == 0 && strings.Contains(t, "G H") {
				sym.Assume(false)
			}
			t += "\n" + a
		}
	}
	if i := 6 + sym.Choice("other", len(sameDetails)-5); i < len(sameDetails) {
		t += "\n" + sameDetails[i]
	}
	t += "\n\nx"
	sameIn(t, strings.ReplaceAll(t, "~", "a"), full())
}

func SameMan() {
	t := fill(pick(manTmpl), " a<=")
	s := []configuration.Setting{attr("doctype", "manpage")}
	if sym.Choice("hf", 2) == 1 {
		s = append(s, full())
	}
	sameIn(t, t, s...)
}

func SameDocs() {
	d := strings.ReplaceAll(pick(detDocs), "~", fill("~", "a<")) + "\n"
	if sym.Choice("hf", 2) == 1 {
		sameIn(d, d, full(), configuration.WithCSS([]string{"a.css", "b.css"}), attr("icons", "font"), attr("toc", ""))
	} else {
		sameIn(d, d)
	}
}

// attributes of blocks, blocks, settings
var sameAttrs = []string{
	"", "[[i~]]\n", ".t~\n", "[.r.s]\n", "[#i.r]\n.t\n", "[quote,a~,b]\n", "[verse,a,b~]\n", "[verse,a]\n", "[quote,,b]\n.t\n", "[%autowidth,stripes=even,frame=ends,grid=rows,width=50%,float=left]\n", "[qanda]\n.t\n", "[horizontal#i.r]\n.t\n", "[start=3%reversed]\n", "[upperroman#i.r]\n.t\n", "[TIP#i.r]\n.t\n", "[caption=\"c \"]\n.t\n", "[source,go,linenums]\n.t\n", "[literal]\n.t\n", "[listing.r]\n", "[example]\n.t\n", "[%hardbreaks]\n", "[%interactive]\n", "[square]\n.t\n", "[none#i]\n.t\n", "[align=center,alt=x]\n.t\n", "[discrete]\n",
}

var sameBlocks = []string{
	"p\nq", "____\nq\n____", "\"\"\"\nq\n\"\"\"", "> q\n> -- me, there", "----\nx <1>\n----\n<1> y", "....\nx\n....", "```go\nx\n```", "====\nx\n====", "****\nx\n****", "--\nx\n--", "++++\nx\n++++", "* a\n* [x] b\n* [*] c\n* [ ] d", "* [x] b\n* c", ". a\n.. b", "a:: b\nc:: d\ne::", "NOTE: x", "image::a.png[]", "image::a.png[a~,10,20,link=b,title=t,float=right,align=left]", "|===\n|a|b\n\n|c|d\n|===", "[%header%footer,cols=\"<1,^.>2e\"]\n|===\n|a|b\n|c|d\n|e|f\n|===", "== s", "'''", "toc::[]", "p +\nq image:a.png[i,1,2,link=l,title=t,role=r] icon:tip[2x,role=r,link=l,title=t,flip=vertical,rotate=90]", "<<x~>> [[y]]z https://a.b[c,role=r,window=_blank] mailto:a@b[] footnote:[n] kbd:[a+b] btn:[c] menu:d[e > f]", "(C) \"`a`\" *b* _c_ `d` #e# ^f^ ~g~ [.r]#h# ((i))", " lit",
}

// SameAttrs: every block with every kind of attributes, and the icons in every way.
func SameAttrs() {
	a := fill(pick(sameAttrs), "a<")
	b := fill(sameBlocks[sym.Choice("block", len(sameBlocks))], "a<")
	s := []configuration.Setting{attr("experimental", "")}
	switch i := sym.Choice("icons", 3); i {
	case 1, 2:
		s = append(s, attr("icons", [...]string{"font", "image"}[i-1]))
	}
	sameIn(a+b, "= T\nA B <c@d.e>; F G\nv1, 2020: x\n\n"+a+b+"\n\n.u\n"+b, append(s, full())...)
}
