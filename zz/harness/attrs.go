//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["AttrSeq"] = AttrSeq
	All["AttrSeqFull"] = AttrSeqFull
	All["AttrLocked"] = AttrLocked
	All["AttrLockedFull"] = AttrLockedFull
	All["AttrCtx"] = AttrCtx
	All["AttrCtxFull"] = AttrCtxFull
	All["AttrHeaderFull"] = AttrHeaderFull
	All["AttrHeader"] = AttrHeader
}

// --- C11: attributes

// attrModel is the reference: the attributes in effect at a place of the document.
type attrModel struct {
	doc  map[string]string
	conf map[string]string
}

func (m *attrModel) get(n string) (string, bool) {
	if v, ok := m.conf[n]; ok {
		return v, true
	}
	v, ok := m.doc[n]
	return v, ok
}

func (m *attrModel) set(n, v string) {
	if _, ok := m.conf[n]; !ok {
		m.doc[n] = v
	}
}

func (m *attrModel) unset(n string) { delete(m.doc, n) }

// expand replaces the references to a and b.
func (m *attrModel) expand(s string) string {
	for _, n := range []string{"a", "b"} { // values do not refer to attributes anymore
		if v, ok := m.get(n); ok {
			s = strings.ReplaceAll(s, "{"+n+"}", v)
		}
	}
	return s
}

// contexts where references are replaced.
var attrCtx = []string{
	"@", "* @", ". x\n. @", "@:: y", "y:: @", "====\n@\n====", "****\nx\n\n@\n****", "____\n@\n____", "--\n@\n--", "NOTE: @", "[NOTE]\n====\n@\n====", "[verse]\n@",
	"|===\n|x |@\n|===", "[options=header]\n|===\n|@ |x\n\n|y |z\n|===", "|===\na|@\n|===", ".@\nx", ".@\n----\nx\n----", ".@\n|===\n|x\n|===", "== @", "x *@* y", "x `@`", "x #@#", "http://x[@]", "link:x[@]", "image::x.png[@]", "x image:x.png[@]", "image::x@.png[y]", "link:x@[y]",
	"x footnote:[@]", "[subs=attributes]\n----\n@\n----", "[subs=\"quotes,attributes\"]\n....\n@\n....", "* x\n+\n@", "* x\n** @", "[quote,@]\nx", "[.x]\n@", "xref:x[@]", "<<x,@>>", "\"@\"", "x\n@\ny", "> @", "x^@^", "x:: y\n\n* @", "[quote, x, @]\n____\ny\n____", "====\n* @\n====", ".@\nimage::x.png[]", "* x\n+\n====\n@\n====", "kbd:[@]", "x~@~", "[NOTE]\n@",
}

// contexts where they are not.
var attrVerb = []string{"----\n@\n----", "....\n@\n....", "```\n@\n```", " @", "[source,go]\n----\n@\n----", "+++@+++ x", "x +@+", "pass:[@] x", "++++\n@\n++++", "[listing]\n@", "[literal]\n@", "[subs=none]\n@", "[subs=\"specialchars,quotes\"]\n@", "[pass]\n@", "* x\n+\n----\n@\n----"}

func attrCheck(n int, kinds int, val string, ctx []string, verb []string) {
	m := &attrModel{map[string]string{}, map[string]string{}}
	var settings []configuration.Setting
	switch sym.Choice("conf", 3) {
	case 1:
		m.conf["a"] = "Z"
		settings = append(settings, attr("a", "Z"))
	case 2:
		m.conf["b"] = "Z"
		settings = append(settings, attr("b", "Z"))
	}
	src := ""
	var want []string
	ref := func(k string, c string) string {
		t := "(" + k + ":{a}/{b})"
		want = append(want, m.expand(t))
		return strings.ReplaceAll(c, "@", t)
	}
	for i := 0; i < n; i++ {
		switch sym.Choice("kind", kinds) {
		case 0:
			v := fill("~", val)
			src += ":a: " + v + "\n\n"
			m.set("a", v)
		case 1:
			src += []string{":a!:\n\n", ":!a:\n\n"}[i%2]
			m.unset("a")
		case 2:
			src += ":b: -{a}\n\n"
			m.set("b", m.expand("-{a}"))
		case 3:
			src += "----\n:a: no\n----\n\n"
		case 4:
			src += "====\n:a: w\n\n" // declared within a block
			m.set("a", "w")
			src += ref("n"+string(rune('0'+i)), "@\n\n")
			src += "====\n\n"
		case 5:
			src += ref("p"+string(rune('0'+i)), "para @\n\n")
		case 6:
			src += "====\n:a!:\n\nx\n====\n\n"
			m.unset("a")
		case 7:
			src += "* x\n+\n--\n:b: q\n\ny\n--\n\n"
			m.set("b", "q")
		case 8:
			src += "ifdef::a[]\n:b: r\nendif::[]\n\n"
			if _, ok := m.get("a"); ok {
				m.set("b", "r")
			}
		}
	}
	k := sym.Choice("ctx", len(ctx)+len(verb))
	c := "verbatim"
	if k < len(ctx) {
		c = ctx[k]
		src += ref("c", ctx[k])
		sym.Cover("replaced")
	} else {
		want = append(want, "(c:{a}/{b})")
		src += strings.ReplaceAll(verb[k-len(ctx)], "@", "(c:{a}/{b})")
		sym.Cover("verbatim")
	}
	r := run(src, settings...)
	sym.Note(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	all := squeeze(everything(toks))
	for _, w := range want {
		sym.Note(w)
		sym.Assert(strings.Contains(all, squeeze(w)), "a reference is not replaced by the value in effect: "+c)
	}
}

// everything is the text and the values of attributes, unescaped.
func everything(toks []htmlTok) string {
	s := innerText(toks)
	for i := range toks {
		for _, n := range []string{"src", "href", "alt", "title", "id", "class"} {
			if v, ok := toks[i].attr(n); ok {
				s += "\n" + unescape(v)
			}
		}
	}
	return s
}

// AttrCtx: references have the value of the last declaration before them, the
// configuration prevailing, in every context; undefined references are kept.
func AttrCtx() { attrCheck(1, 6, "xY7", attrCtx, attrVerb) }

// AttrCtxFull is the same with longer histories.
func AttrCtxFull() { attrCheck(2, 9, "xY7", attrCtx, attrVerb) }

// AttrSeq: histories of declarations, with special characters.
func AttrSeq() { attrCheck(3, 9, "x<&", attrCtx[:1], nil) }

// AttrSeqFull is the same with longer histories.
func AttrSeqFull() { attrCheck(4, 9, "x<&", attrCtx[:1], nil) }

// AttrHeader: declarations of the header (between the title and a blank line), with
// the same rules; the title may refer to any of them.
func AttrHeader() { attrHeader(2) }

// AttrHeaderFull is the same with longer headers.
func AttrHeaderFull() { attrHeader(3) }

func attrHeader(n int) {
	m := &attrModel{map[string]string{}, map[string]string{}}
	var settings []configuration.Setting
	if sym.Bool("conf") {
		m.conf["a"] = "Z"
		settings = append(settings, attr("a", "Z"))
	}
	title, body := "(t:{a}/{b})", "(c:{a}/{b})"
	src := "= Doc " + title + "\n"
	if sym.Bool("author") {
		src += "A B <c@d>\n"
	}
	for i := 0; i < n; i++ {
		switch sym.Choice("kind", 5) {
		case 0:
			v := fill("~", "x<&")
			src += ":a: " + v + "\n"
			m.set("a", v)
		case 1:
			src += []string{":a!:\n", ":!a:\n"}[i%2]
			m.unset("a")
		case 2:
			src += ":b: -{a}\n"
			m.set("b", m.expand("-{a}"))
		case 3:
			src += "// :a: no\n"
		case 4:
			src += ":b: q \\\n  r\n" // on two lines
			m.set("b", "q r")
		}
	}
	want := []string{m.expand(title), m.expand(body)}
	src += "\n" + []string{body, "== " + body, "* " + body, "a::\n" + body}[sym.Choice("ctx", 4)]
	if sym.Bool("late") {
		src += "\n\n:a: late\n\n:b!:"
	}
	r := run(src, append(settings, full())...)
	sym.Note(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	all := squeeze(everything(toks))
	for _, w := range want {
		sym.Note(w)
		sym.Assert(strings.Contains(all, squeeze(w)), "a reference is not replaced by the value declared in the header")
	}
	sym.Assert(squeeze(unescape(r.md.Title)) == squeeze("Doc "+want[0]), "a reference of the title is not replaced")
	sym.Cover("header")
}

var lockedAttrs = []string{"idprefix", "idseparator", "imagesdir", "figure-caption", "table-caption", "example-caption", "icons", "iconsdir", "source-highlighter", "sectnums", "toc", "toclevels", "toc-title", "doctype", "noheader", "nofooter", "description", "experimental", "linkcss", "outfilesuffix", "relfilesuffix", "caution-caption", "hardbreaks", "untitled-label", "version-label", "author", "email", "revnumber", "max-include-depth", "tip-caption", "sp", "nbsp", "stylesheet", "partnums", "sectanchors", "sectids", "showtitle", "hardbreaks-option", "xrefstyle"}

// AttrLocked: an attribute of the configuration can neither be changed nor unset by the document.
func AttrLocked() { attrLocked([]string{"", ":n!:\n", ":n: ~\n"}) }

// AttrLockedFull is the same with more declarations.
func AttrLockedFull() {
	attrLocked([]string{"~", ":n!:\n", ":n: ~\n", ":n:\n", ":!n:\n", ":n: {sp}~\n"})
}

func attrLocked(decls []string) {
	n := lockedAttrs[sym.Choice("name", len(lockedAttrs))]
	vals := []any{true, fill("~", "x2<")}
	if decls[0] != "" {
		vals = append(vals, "", fill("~~", "x2<-"))
	}
	v := vals[sym.Choice("value", len(vals))]
	decl := strings.ReplaceAll(fill(decls[1+sym.Choice("decl", len(decls)-1)], "x3<"), ":n", ":"+n)
	decl = strings.ReplaceAll(decl, ":!n", ":!"+n)
	where := sym.Choice("where", 3)
	doc := func(on bool) string {
		d := [3]string{}
		for i := range d {
			d[i] = "// no\n"
		}
		if on {
			d[where] = decl
		}
		return "= T\n" + d[0] + "\n" + d[1] + "\na {" + n + "} kbd:[x] xref:o.adoc[]\n\n== S\n\n.t\nimage::a.png[]\n\n" + d[2] + "\n.t\n====\nb\n====\n\n=== S\n\n[source,go]\n----\nc <1>\n----\n<1> {" + n + "}\n\n.t\n|===\n|{sp}\n|===\n\nTIP: x\n\nimage::a.png[]\n"
	}
	settings := []configuration.Setting{full(), attr(n, v)}
	want, got := run(doc(false), settings...), run(doc(true), settings...)
	sym.Note(doc(true))
	sym.Assert((want.err == nil) == (got.err == nil) && want.out == got.out, "an attribute of the configuration is changed by the document")
	sym.Cover("locked")
}
