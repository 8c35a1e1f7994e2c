//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["EscCtx"] = EscCtx
	All["EscAttr"] = EscAttr
	All["PlainText"] = PlainText
	All["PlainUtf8"] = PlainUtf8
	All["Verbatim"] = Verbatim
	All["VerbatimLines"] = VerbatimLines
	All["Comments"] = Comments
	All["VerbNest"] = VerbNest
}

// --- C03: special characters of ordinary text never become markup

var escCtx = []string{
	"%s", "x %s y", "= %s\n\nx", "= T\n:toc:\n\n== %s\n\ny", "== %s", "== a\n\n=== b %s", ".%s\npara", ".%s\n----\nx\n----", ".%s\n|===\n|a\n|===", ".%s\n* i", "[verse]\nv %s", "[verse]\n____\nv %s\n____", "%s:: d", "t:: %s", "* %s", "* [x] %s", ". %s", "* i\n+\n%s", "|===\n|%s|b\n\n|c|%s\n|===", "[%%header%%footer]\n|===\n|x\n|y\n|%s\n|===", "[cols=\"1a\"]\n|===\n|%s\n|===", "footnote:[x%s]", "*b%s*", "_i%s_", "`m%s`", "#h%s#", "a^b%s^", "NOTE: %s", "[TIP]\n====\n%s\n====", "____\n%s\n____", "====\n%s\n====", "****\n%s\n****", "--\n%s\n--", "> %s", "[[s]]\n== t%s\n\n<<s>>", "----\n%s\n----", "[source,go]\n----\n%s\n----", "....\n%s\n....", "```\n%s\n```", " lit %s", "[listing]\n%s", "----\nx <1>\n----\n<1> %s", "[discrete]\n== %s", "((t%s))", "\"`q%s`\"", "<<a,t%s>>", "+%s+", "[qanda]\nq%s:: a%s", "[horizontal]\nt%s:: d",
	"[subs=\"+quotes\"]\n----\n%s\n----", "[subs=normal]\n....\n%s\n....", "[subs=specialchars]\npar %s", "[abstract]\n%s", "[example]\n%s", "[sidebar]\n%s", "\"x %s\"\n-- author",
}

func escDoc(c, p string) string {
	return strings.ReplaceAll(strings.ReplaceAll(c, "%s", p), "%%", "%")
}

// EscCtx: "<zz on=1>" and "&zz;" are text in every context.
func EscCtx() {
	c := pick(escCtx)
	p := fill([]string{"~<zz on=1>~&zz;~", "~&zz;~", "~<zz on=1>~"}[sym.Choice("text", 3)], " a*`\"\n")
	if strings.HasPrefix(c, "= ") && strings.Contains(p, "\n") {
		sym.Assume(false)
	}
	var settings []configuration.Setting
	if strings.HasPrefix(c, "= ") {
		settings = append(settings, full())
	}
	checkEsc(c, escDoc(c, p), false, true, settings...)
}

var escAttr = []string{
	"image::a.png[%s]", "image:a.png[%s]", "image::a.png[a,%s]", "image::a.png[a,1,%s]", "image::a.png[link=\"%s\"]", "image:a.png[x,title=\"%s\"]", "image::a.png[x,title=\"%s\"]", "icon:tip[alt=\"%s\"]", "[[%s]]x", "[#%s]\nx", "[[%s]]\nx", "<<%s>>", "[source,%s]\n----\nx\n----", "```%s\nx\n```", "[%s]\n. a", "[start=%s]\n. a", "[quote,%s]\nq", "[quote,a,%s]\n____\nq\n____", "link:a[t%s]", "https://a.b[t%s]", "link:a[t,%s=y]", "link:a[t,target=\"%s\"]", "link:a[t,id=\"%s\"]", "footnote:%s[x]", "xref:%s.adoc[x]", "= T\nA %s", "= T\nA <%s>", "= T\n:author: %s", "= T\n:email: %s\n:author: x", "= T\nA\nv%s", "= T\n:description: %s", "[cols=\"1,%s\"]\n|===\n|a\n|===", "[width=\"%s\"]\n|===\n|a\n|===", "[frame=%s,grid=%s]\n|===\n|a\n|===", "[stripes=\"%s\",float=\"%s\"]\n|===\n|a\n|===", "[%s]\nx", "[caption=\"%s\"]\n.t\n|===\n|a\n|===", "[caption=\"%s\"]\n.t\n====\na\n====", "image::a.png[a,width=\"%s\",height=\"%s\",align=\"%s\",float=\"%s\"]", "[NOTE,caption=\"%s\"]\n====\nx\n====", ":toc-title: %s\n:toc:\n\n== a\n", ":figure-caption: %s\n\n.t\nimage::a.png[]", ":note-caption: %s\n\nNOTE: x", ":appendix-caption: %s\n\n[appendix]\n== x", ":idprefix: %s\n\n== x", ":imagesdir: %s\n\nimage::a.png[]", ":version-label: %s\n= T\nA\nv1", "kbd:[%s]", "btn:[%s]", "menu:F[%s]", "mailto:a@b[%s]", "((%s))", "http://a.b/%s",
}

// EscAttr: the same text in attributes, targets and metadata never becomes a tag or an attribute.
func EscAttr() {
	c := pick(escAttr)
	p := fill("a~<zz\"on=1>~", " a*.,\"'")
	if sym.Choice("hf", 2) == 1 {
		checkEsc(c, escDoc(c, p), false, false, full(), attr("experimental", ""))
	} else {
		checkEsc(c, escDoc(c, p), false, false)
	}
}

func checkEsc(c, src string, xml, text bool, settings ...configuration.Setting) {
	r := run(src, settings...)
	if r.err != nil {
		sym.Cover("error")
		return
	}
	toks, bad := wellFormed(r.out, xml)
	sym.Note(c)
	if bad != "" {
		if k := strings.Index(bad, ": "); k > 0 {
			bad = bad[:k]
		}
		sym.Fail("text became markup: " + bad)
	}
	for i := range toks {
		if toks[i].name == "zz" {
			sym.Fail("text became the element <zz>")
		}
		if _, found := toks[i].attr("on"); found {
			sym.Fail("text became an attribute")
		}
	}
	sym.Cover("converted")
	if !text {
		return
	}
	for i := range toks {
		if strings.Contains(toks[i].text, "&zz;") {
			sym.Fail("text became a character reference")
		}
	}
	t := innerText(toks)
	if strings.Contains(src, "<zz on=1>") && !strings.Contains(t, "<zz on=1>") || strings.Contains(src, "&zz;") && !strings.Contains(t, "&zz;") {
		sym.Fail("special characters are lost")
	}
}

// --- C05: text without markup is reproduced

// a context and the text that its rendering reads as
var plainCtx = [][2]string{
	{"k%sm", "k%sm"}, {"a\n\nk%sm\n\nb", "a k%sm b"}, {"== k%sm", "k%sm"}, {"== k%sm\n\nb", "k%sm b"}, {"* k%sm\n* b", "k%sm b"}, {"* a\n** k%sm\n* b", "a k%sm b"}, {". k%sm", "k%sm"}, {"* a\n+\nk%sm", "a k%sm"},
	{"t:: k%sm", "t k%sm"}, {"|===\n|k%sm|b\n|c|d\n|===", "k%sm b c d"}, {"|===\n|a|b\n\n|k%sm|d\n|===", "a b k%sm d"}, {"*k%sm* b", "k%sm b"}, {"a **k%sm**b", "a k%smb"}, {"_k%sm_", "k%sm"}, {"#k%sm#", "k%sm"}, {"`k%sm`", "k%sm"}, {"[.r]#k%sm#", "k%sm"},
	{"____\nk%sm\n____", "k%sm"}, {"[quote,me]\nk%sm", "k%sm — me"}, {"====\nk%sm\n====", "k%sm"}, {"****\nk%sm\n\nb\n****", "k%sm b"}, {"--\nk%sm\n--", "k%sm"}, {"NOTE: k%sm", "Note k%sm"}, {"[TIP]\n====\nk%sm\n====", "Tip k%sm"}, {".k%sm\nb", "k%sm b"}, {"> k%sm", "k%sm"}, {"[verse]\nk%sm", "k%sm"}, {"[verse]\n____\nk%sm\n____", "k%sm"}, {"https://a.b[k%sm] c", "k%sm c"}, {"link:a[k%sm]", "k%sm"}, {"a ((k%sm))", "a k%sm"},
	{"[[i]]\n== k%sm\n\n<<i>>", "k%sm k%sm"}, {"a <<i,k%sm>>", "a k%sm"}, {"----\nc <1>\n----\n<1> k%sm", "c (1) k%sm"}, {"[%hardbreaks]\nk%sm\nz", "k%sm z"}, {"[[i]]k%sm", "k%sm"}, {"== a\n\n=== k%sm\n\nb\n\n== c", "a k%sm b c"}, {"[abstract]\nk%sm", "k%sm"}, {"[discrete]\n== k%sm", "k%sm"}, {"a\n// c\nk%sm", "a k%sm"}, {"a +\nk%sm", "a k%sm"}, {":p: q\n\nk%sm {p}", "k%sm q"}, {"ifndef::zz[]\nk%sm\nendif::[]\nb", "k%sm b"}, {"k%sm\nimage::i.png[]\nb", "k%sm image::i.png[] b"},
	{"+k%sm+ b", "k%sm b"}, {"|===\n|k%sm\n|===\n\nb", "k%sm b"}, {"|===\na|\nk%sm\nb\n|===", "k%sm b"}, {"[qanda]\nk%sm::\nb", "k%sm b"}, {"[horizontal]\nt:: k%sm", "t k%sm"}, {"k%sm footnote:[n]", "k%sm [1] 1. n"}, {"b footnote:[k%sm]", "b [1] 1. k%sm"},
	{"= T\n\nk%sm\n\n== b", "k%sm b"}, {"[[a]]\n[.r]\n.t\nk%sm", "t k%sm"}, {"\"`k%sm`\"", "“k%sm”"}, {"*_k%sm_* `b`", "k%sm b"}, {"a * k%sm", "a * k%sm"}, {"1 k%sm\n2 b", "1 k%sm 2 b"},
}

func squeeze(s string) string {
	var b []byte
	sp := true
	for i := 0; i < len(s); i++ {
		if c := s[i]; isSpace(c) {
			if !sp {
				b = append(b, ' ')
			}
			sp = true
		} else {
			b = append(b, c)
			sp = false
		}
	}
	if len(b) > 0 && b[len(b)-1] == ' ' {
		b = b[:len(b)-1]
	}
	return string(b)
}

// visible is the text a reader sees: tokens separated at element borders that break lines.
func visible(toks []htmlTok) string {
	var b strings.Builder
	for i := range toks {
		t := &toks[i]
		switch {
		case t.kind == 't':
			b.WriteString(unescape(t.text))
		case t.kind == 's' || !isInlineTag(t.name):
			b.WriteByte(' ')
		}
	}
	s := b.String()
	for _, p := range [...][2]string{{"&#8212;", "—"}, {"&#8220;", "“"}, {"&#8221;", "”"}} {
		s = strings.ReplaceAll(s, p[0], p[1])
	}
	return squeeze(s)
}

func isInlineTag(n string) bool {
	switch n {
	case "a", "strong", "em", "code", "mark", "span", "sub", "sup", "b", "i", "kbd":
		return true
	}
	return false
}

func checkPlain(c [2]string, x string) {
	// characters with a meaning in the context itself
	for _, p := range [...][2]string{{"[k%sm]", ","}, {"<<i,k%sm", ","}, {"<<", ">"}, {"((", ")"}, {"|k", "|"}} {
		if strings.Contains(c[0], p[0]) && strings.Contains(x, p[1]) {
			sym.Assume(false)
		}
	}
	sym.Note(c[0])
	r := run(strings.ReplaceAll(c[0], "%s", x))
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	toks, bad := wellFormed(r.out, false)
	if bad != "" {
		sym.Fail("malformed output")
	}
	want := squeeze(strings.ReplaceAll(c[1], "%s", x))
	if got := visible(toks); got != want {
		sym.Note("got " + got + " want " + want)
		sym.Note(c[0])
		sym.Fail("text is not preserved")
	}
	sym.Cover("preserved")
}

func PlainText() {
	k := sym.Choice("tmpl", len(plainCtx))
	checkPlain(plainCtx[k], fill("~~~", "bZ7 ,;!?%$@/)(&>"))
}

// PlainUtf8: two-byte UTF-8 characters pass through.
func PlainUtf8() {
	k := sym.Choice("tmpl", len(plainCtx))
	lo := sym.ByteIn("lo", "\x80\x8c\xa0\xa9\xbf")
	hi := sym.ByteIn("hi", "\xc2\xc3\xce\xd0\xdf")
	checkPlain(plainCtx[k], string([]byte{hi, lo, 'a'}))
}

// --- C06: verbatim blocks and comments

// block templates: %s is the content, shown as it is within the block
var verbCtx = []string{
	"----\n%s\n----", "[source]\n----\n%s\n----", "[source,go]\n----\n%s\n----", "....\n%s\n....", "```\n%s\n```", "```go\n%s\n```", "[listing]\n----\n%s\n----", ".t\n----\n%s\n----\nx", "* a\n+\n----\n%s\n----", "====\n----\n%s\n----\n====", "|===\na|\n----\n%s\n----\n|===", "[literal]\n....\n%s\n....", "------\n%s\n------", "[subs=specialchars]\n----\n%s\n----", "a\n\n----\n%s\n----\n\nb", "[source,go,linenums]\n----\n%s\n----", "[%linenums,ruby]\n----\n%s\n----", "[[i]]\n....\n%s\n....", "[NOTE]\n====\n....\n%s\n....\n====", "--\n----\n%s\n----\n--", "t:: d\n+\n....\n%s\n....", "[listing]\n%s", "[literal]\n%s", "[source,go]\n%s",
}

// containers and verbatim blocks, combined
var verbOuter = []string{"====\n%s\n====", "****\n%s\n****", "--\n%s\n--", "____\n%s\n____", "[NOTE]\n====\n%s\n====", "* a\n+\n%s", ". a\n.. b\n+\n%s", "a::\n+\n%s\n\nb:: c", "|===\na|\n%s\n|===", "* a\n+\n====\n%s\n====", "== s\n\n%s\n\nx", ".t\n%s", "****\n====\n%s\n====\n****", "<1> a\n+\n%s"}

var verbInner = []string{"----\n%s\n----", "[source,go]\n----\n%s\n----", "....\n%s\n....", "```\n%s\n```", "```go\n%s\n```", "[listing]\n----\n%s\n----", "[literal]\n....\n%s\n....", "[source]\n....\n%s\n...."}

// VerbNest: every kind of verbatim block in every container, with text that looks like inline markup.
func VerbNest() {
	i := verbInner[sym.Choice("inner", len(verbInner))]
	o := verbOuter[sym.Choice("outer", len(verbOuter))]
	x := verbTexts[sym.Choice("text", len(verbTexts))]
	x = fill(x, " a*=<&]")
	if strings.Contains(o, "|===") && strings.Contains(trimLines(x), "\n\n") { // not supported in cells
		sym.Assume(false)
	}
	checkVerb(strings.Replace(o, "%s", i, 1), x)
}

var verbTexts = []string{"A *b* _c_ `d~` #e# B", "A http://b.c[d~] link:e[f] B", "A {nbsp} {g~} B", "A footnote:[h~] <<i>> B", "A image:j[k~] icon:l[] B", "A -> ... (C) -- '~ B", "A ^m^ ~n~ \"`o~`\" B", "A ((p)) (((q~))) [[r]] B", "A +s~+ pass:[t] $$u$$ B", "  A\n~\n  B", "A\n// b~\nB", "A\n\n* b~\nC", "A\n.b~\n\nC"}

func verbText(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			b = append(b, "&lt;"...)
		case '>':
			b = append(b, "&gt;"...)
		case '&':
			b = append(b, "&amp;"...)
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

func trimLines(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		l[i] = strings.TrimRight(l[i], " \t")
	}
	return strings.Join(l, "\n")
}

// Verbatim: characters of a line.
func Verbatim() {
	k := sym.Choice("tmpl", len(verbCtx))
	alpha := strings.ReplaceAll(ascii, "\n", "")
	if strings.HasSuffix(verbCtx[k], "]\n%s") || strings.Contains(verbCtx[k], "|===") { // not a list, not a cell
		alpha = " !\"#$%&'*+,/0;<=>?@AZ[\\]^_`az{}~"
	}
	checkVerb(verbCtx[k], "A"+fill("~~~", alpha)+"B")
}

func checkVerb(c, x string) {
	sym.Note(c)
	src := strings.ReplaceAll(c, "%s", x)
	r := run(src)
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	i := strings.Index(r.out, "<pre")
	if i < 0 {
		sym.Fail("no <pre>")
	}
	rest := r.out[i:]
	rest = rest[strings.Index(rest, ">")+1:]
	if hasAt(rest, 0, "<code") {
		rest = rest[strings.Index(rest, ">")+1:]
	}
	want := verbText(x)
	if k := strings.Index(rest, "</"); k >= 0 && strings.Contains(x, "\n") { // spaces at the end of lines are not significant
		want = trimLines(want)
		rest = trimLines(rest[:k]) + rest[k:]
	}
	if !hasAt(rest, 0, want) || !hasAt(rest, len(want), "</") {
		k := strings.Index(rest, "</")
		if k < 0 {
			k = len(rest)
		}
		sym.Note("got " + rest[:k] + " want " + want)
		sym.Note(c)
		sym.Fail("verbatim content differs")
	}
	sym.Cover("exact")
}

// VerbatimLines: lines that look like markup, indentation, blank lines.
var verbLines = []string{
	"A\n~~ B\nC", "A\n\n~\n\nB", "  A\n    ~B\n  C", "A\n* b~\n. c\nD", "A\n== b~\nC", "A\n[b~]\nC", "A\n.b~\nC", "A\n=~==\nC", "A\n+\nB~", "A *b~* _c_ {d} http://e.f[g]\nC", "A\n//~\nC", "A\n~-\nB", "A {~}B", "A\n:b: ~\nC", "A\n\t~\tB\nC", "A ~ +\nB", "A\n|~\nC", "A\n'''\n~\nB", "A (C) ... -> -- '~ B", "A\n****\n~\n****\nB",
}

func VerbatimLines() {
	c := pick(verbCtx[:len(verbCtx)-3])
	x := fill(verbLines[sym.Choice("lines", len(verbLines))], " a*=-|.+<&")
	if strings.Contains(c, "|===") && (strings.ContainsAny(x, "|+") || strings.Contains(trimLines(x), "\n\n")) {
		sym.Assume(false)
	}
	if strings.Contains(c, "====\n") && strings.Contains(x, "\n====\n") || strings.Contains(x, "\n--\n") && strings.HasPrefix(c, "--\n") {
		sym.Assume(false)
	}
	checkVerb(c, x)
}

var commentCtx = [][2]string{
	{"a\n\n////\n%s\n////\n\nb", "a b"}, {"a\n\n// %s\n\nb", "a b"}, {"a\n//%s\nb", "a b"}, {"* i\n\n//%s\n\n* j", "i j"}, {"//////\n%s\n//////\nb", "b"}, {"== s\n\n//%s\n\nb", "s b"}, {"////\n%s\n\n----\n////\nb", "b"}, {"====\na\n//%s\nb\n====", "a b"}, {"= T\n//%s\n\nb", "b"}, {"a\n//%s", "a"}, {"* i\n//%s\n* j", "i j"}, {"====\na\n\n////\n%s\n////\n\nb\n====", "a b"}, {"t:: d\n//%s\nu:: e", "t d u e"},
}

func Comments() {
	c := commentCtx[sym.Choice("tmpl", len(commentCtx))]
	x := fill("z~~~", strings.ReplaceAll(ascii, "\n", ""))
	sym.Note(c[0])
	r := run(strings.ReplaceAll(c[0], "%s", x))
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	toks, bad := wellFormed(r.out, false)
	if bad != "" {
		sym.Fail("malformed output")
	}
	if got := visible(toks); got != c[1] {
		sym.Note("got " + got + " want " + c[1])
		sym.Note(c[0])
		sym.Fail("comment shows, or hides text")
	}
	sym.Cover("hidden")
}
