//go:build go1.22

package harness

import (
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
	"strings"
)

func init() {
	All["TotBytes2"] = TotBytes2
	All["TotAscii3"] = TotAscii3
	All["TotInline"] = TotInline
	All["TotBlock"] = TotBlock
	All["TotInlineFull"] = TotInlineFull
	All["TotBlockFull"] = TotBlockFull
	All["TotHeader"] = TotHeader
	All["TotManpage"] = TotManpage
	All["TotInclude"] = TotInclude
	All["TotNest"] = TotNest
	All["TotCtx"] = TotCtx
	All["TotOdd"] = TotOdd
}

var totNote string

// tot converts a document: whatever the text, the conversion returns, and it
// fails only for reasons the user can act upon.
func tot(s string, settings ...configuration.Setting) {
	r := run(s, settings...)
	if r.err == nil {
		sym.Cover("converted")
		for _, m := range sym.Errors() { // eg: part of the document could not be processed
			if !strings.Contains(m, "unsupported substitution") && !strings.Contains(m, "manpage document is missing") && !strings.Contains(m, "'Name' section should") {
				sym.Note(totNote)
				sym.Fail("an error is logged, not returned: " + m)
			}
		}
		return
	}
	sym.Cover("error")
	m := r.err.Error()
	for _, ok := range []string{"Unresolved directive", "unsupported icon type", "unsupported table of contents placement"} {
		if strings.Contains(m, ok) {
			return
		}
	}
	if i := strings.LastIndex(m, ": "); i > 0 {
		m = m[i+2:]
	}
	sym.Note(totNote)
	sym.Fail("conversion fails: " + m)
}

func TotBytes2() {
	b := make([]byte, 2)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	tot(string(b))
}

func TotAscii3() { tot(fill("~~~", ascii)) }

var inlineTmpl = []string{
	"a *b~~* c", "a _b~~_ c", "a `b~~` c", "a #b~~# c", "a ^b~~^ c", "a ~~b", "a **~_b~_** c", "\\~*a~*",
	"[~]#a~#", "a \"`~`\" b'`~`'", "a +~~+ b", "a ++~~++ b", "a +++~~+++ b", "pass:q~[~]", "a $$~~$$",
	"http://a~~ b", "http://a.b[~~]", "link:~a[~]", "link:a[b,~=~]", "mailto:~[~]", "image:a~[~]", "image::~.png[~,~]",
	"<<a~~>>", "<<a,~~>>", "xref:~[~]", "[[~~]]a", "[[a,~]]b", "[#~]\n~", "icon:~[~]", "kbd:[~~]", "footnote:[~~]", "footnote:a~[~]",
	"((~~))", "(((a,~~)))", "{~~}", "{set:~:~}", "{counter:~~}", "{counter2:a:~}x{a}", "a~ +\n~b", "(C~ ... ~-> --~", "a:~[~]",
	"https://a.b[c^,~=~]", "stem:[~~]", "&~#1;~", "a <~> b <1~", "menu:~[~]", "btn:[~]",
}

// syntax is the characters with a meaning somewhere, and a letter, a digit and white space
const syntax = "\n !\"#$&'()*+,-./1:;<=>?@[\\]^_`a{|}~"

func TotInline() { tot(fill(pick(inlineTmpl), syntax)) }

func TotInlineFull() { tot(fill(pick(inlineTmpl), ascii)) }

var blockTmpl = []string{
	"----\na~~\n----", "--~-\na\n--~-", "....\na~\n...~", "====\na~~\n====", "****\n~\n****\n~", "____\n~~\n____", "```~\na~\n```", "++++\n~~\n++++", "////\n~~\n////", "--\n~~\n--",
	"[source,~]\n----\na <1~\n----\n<1~ b", "[~,~]\na", "[%~]\n* a", "[.~#~]\na", "[quote,~,~]\na", "[verse~]\na~", "[~=~]\n----\na\n----", "[subs=~~]\n----\na\n----", "[subs=\"+~,-~\"]\na",
	"* ~\n** ~\n*~", ". ~\n.. ~\n+\n~", "a:: ~\n~ b", "a~:\n b::: ~", "- [~] a\n-~b", "* a\n+\n--\n~\n--\n~", "* a\n\n\n~~", "1. a\n~. b", "a. a\n~) b", "[start=~~]\n. a", "[qanda]\na::~\n~",
	"|===\n|a~|~\n|===", "[cols=\"~,~\"]\n|===\n|a|b\n|===", "[cols=\"1~,~2\"]\n|===\n|a\n|===", "[%header~]\n|===\n|a\n\n|~\n|===", "|===\n~\n", "[options=~]\n|===\n|a\n|===", "[cols=\"2*~\"]\n|===\n|~\n|===",
	"= ~\n~", "== ~\n~= a", "=~ a\n\n=== ~", "'''~\n~", "<<<~\n~", ".~\n~", "  ~\n ~", "NOTE: ~\n~", "[NOTE]\n====\n~~\n====", "video::~[~]", "audio::~[~]", "toc::[~~]", ":toc:\n\n== ~\n~",
	"ifdef::~[]\na\nendif::~[]", "ifndef::a[~]\n~", "ifeval::[~==~]\na\nendif::[]", "ifeval::[\"~\" ~ 1]\na\nendif::[]", "endif::~[]\n~", "include::~[~]",
	":a~: ~\n{a}", ":!~:\n~", ":a: b\n{a~}~", ":~ a", "[appendix~]\n== a", "[abstract]\n~~", "[[~]]\n.~\n----\n----", "[~]\n[~]\na", "image::a.png[]\n~~", "a::\n+\n~", "<1> ~\n<~> b", ". a\n[~]\n.. b", "|===\n2+|a~\n.~+|b\n|===",
	"[stem]\n++++\n~~\n++++", "[horizontal]\na:: ~\nb~:: c", ":leveloffset: ~~\n\n== a", ":sectnums~:\n\n== a\n\n:sectnums!:~\n== b", ":idprefix: ~\n:idseparator: ~\n\n== a b", "[discrete]\n== a~\n~",
	"[%~,~]\n- [x] a", "> a~\n> ~", "\"~\"\n-- a, ~", "[quote]\n\"\"\n~\n\"\"", "[horizontal]\ng::\nh~::\ni:: j\nk:: l", "[qanda]\ng::\nh~::\ni:: j\nk:: l", "g::\nh~::\n\ni:: j\nk:::\nl", "[listing]\n~~", "[literal~]\n~", "[pass]\n~~", "[example]\n~~", "[sidebar]\n~\n~",
}

func TotBlock() {
	tot(fill(pick(blockTmpl), "\n #'*+,-.1:<=[]_`a|"))
}

func TotBlockFull() { tot(fill(pick(blockTmpl), ascii)) }

var headerTmpl = []string{
	"= T\n~~", "= T\nA ~~", "= T\nA B <~~>", "= T\nA; ~ ~", "= T\nA <a@b>\nv~~", "= T\nA\nv1.0,~", "= T\nA\nv1, 2020:~~", "= T\n:author: ~~", "= T\n:authors: ~;~", "= T\n:email: ~\n~", "= T\n:revnumber: ~\n~", "= T\n:toc: ~~\n\n== a", "= T\n:doctype: ~\n\na~",
	"// ~\n= T~\n", "////\n~\n////\n= T\n~", "= T\n// ~\nA~\n", "= ~ *~*\n\n{doctitle}", "= T: ~\n\n~", "= T\n:~\n:a: \\\n~", "\n\n~\n= T", "= T\n:toclevels: ~~\n:toc:\n\n== a", "= T\n:source-highlighter: ~\n\n----\n~\n----", "= T\n:icons: ~\n\nNOTE: a~", "= T\n:imagesdir: ~\n\nimage:~[]",
	"= T\n:experimental:\n\nkbd:[~~]", "= T\nA_~ B\n:~:", ":!toc~:\n= T\n~", "= T\nA~B C D E\nv1", "= T\nA;\n~", "= T\n<~@b>\n~",
}

func TotHeader() { tot(fill(pick(headerTmpl), ascii), full()) }

var manTmpl = []string{
	"= a(~)\n\n== Name\n\na - ~", "= ~\n~", "= a(1)\n\n~", "= a(1)\n\n== Name\n~", "= a(1)\n\n== Name\n\na - b\n\n== Synopsis\n~", "~\n= a(1)", "= a(1)\n\n== ~\n\na\n\n== Synopsis\n\nb", "= a(1)\n\n== Name\n\n----\n~\n----", "= a(1)\n\n== Name\n\na\n\n== Synopsis\n\n~\n\n== c\n~", "== Name\n~", "",
	"= a(1)\n\n== Name\n\na - b\n\n~\n\n== Synopsis\n\nc", "= a(1)\n:b: ~\n\n== Name\n\na\n\n== Synopsis\n\n~",
}

func TotManpage() {
	src := fill(pick(manTmpl), ascii)
	if sym.Choice("hf", 2) == 1 {
		tot(src, attr("doctype", "manpage"), full())
	} else {
		tot(src, attr("doctype", "manpage"))
	}
}

var inclTmpl = []string{
	"include::inc[~~]", "include::inc[lines=~~]", "include::inc[lines=1..~;~]", "include::inc[tag=~~]", "include::inc[tags=~;~]", "include::inc[tags=**;~a]", "include::inc[leveloffset=~~]", "include::inc[lines=\"~,~\"]", "include::./inc[lines=~..1]\n~",
}

var inclFiles = []string{
	"l1\n// tag::a[]\nl2~\n// end::a[]\nl3\n", "// end::a[]\nl1\n", "// tag::a[]\nl1\n", "= T\n\n== a~\n", "tag::~[]\nx\nend::~[]", "",
}

func TotInclude() {
	src := fill(pick(inclTmpl), ascii)
	sym.WriteFile("inc", fill(inclFiles[sym.Choice("inc", len(inclFiles))], "ab[]:-+*\n"))
	tot(src, configuration.WithFilename("main.adoc"))
}

// containers: %s is replaced by a block
var containers = []string{
	"%s", "====\n%s\n====", "****\n%s\n****", "--\n%s\n--", "____\n%s\n____", "[NOTE]\n====\n%s\n====", "[verse]\n____\n%s\n____", "* i\n+\n%s", ". i\n.. j\n+\n%s", "t::\n+\n%s", "* i\n+\n--\n%s\n--\n* k", "|===\na|\n%s\n|===", "[%header,cols=\"a,1\"]\n|===\n|h|h\n\n|\n%s\n|z\n|===",
	"== s\n\n%s\n\n=== u", ".title\n%s", "[[id]]\n[.r]\n%s", "ifdef::nope[]\nendif::[]\n%s", "|===\n|h\n\n|\n%s\n|===", "<1> i\n+\n%s", "____\n====\n%s\n====\n____", "* i\n\n\n** j\n+\n%s\n\n+\nq",
}

var inner = []string{
	"para ~", "* a\n** b~", ". a\n.. b~", "t:: a\nu::: b~", "----\na~\n----", "[source,go]\n----\na <1>\n----\n<1> b~", "....\n~\n....", "```\n~\n```", "++++\n~\n++++", "|===\n|x|~\n\n|y\n|===", "====\n~\n====", "image::a.png[~]", "NOTE: a~", "  lit~", "'''~", "== s~", "[quote]\nq~", "> md~", "footnote:[~] <<id~>>", ".~\n* a", "[%interactive]\n* [x] a~", "toc::[]", "////\n~\n////", "--\n~\n--", ":a: ~\n{a}", "[horizontal]\na:: b~", "[verse]\nv~ *b* {a} footnote:[n]", "a:: b\n\n+\n~",
}

func TotNest() {
	c := pick(containers)
	i := inner[sym.Choice("inner", len(inner))]
	totNote = c + " // " + i
	x := fill(i, " \na*=-|+")
	tot(strings.Replace(c, "%s", x, 1))
}

// contexts in which inline content is rendered
var inlineCtx = []string{
	"= %s\n\nx", "= %s\n:toc:\n\n== %s\n\ny", "== %s", ".%s\npara", ".%s\n----\nx\n----", "[quote,%s,%s]\nq", "[verse,%s]\nv\n", "[verse]\n%s", "%s:: d", "* %s", "|===\n|%s\n\n|%s\n|===", "[%footer]\n|===\n|x\n|%s\n|===", "footnote:[%s]", "http://a.b[%s]", "<<s,%s>>\n\n[[s]]\n== s", "[[s]]\n== %s\n\n<<s>>", "image::a.png[%s]", "image:a.png[%s,title=%s]", "*%s*", "NOTE: %s", "____\n%s\n____", "[.%s]#x#", ".%s\n|===\n|a\n|===", ".%s\nimage::a.png[]", "(((%s)))", "link:a[%s]", "[[s,%s]]\n== x\n\n<<s>>", "xref:a.adoc[%s]", "== a\n\n=== %s\n\ntoc::[]", "\"`%s`\"", "----\n%s\n----", "[subs=normal]\n----\n%s\n----", "----\nx <1>\n----\n<1> %s", "[source,subs=\"+quotes,+macros\"]\n----\n%s\n----", "[discrete]\n== %s", ":x: %s\n\n{x}", "[#%s]\nx", "[[%s]]x", "++++\n%s\n++++", "[subs=normal]\n++++\n%s\n++++", "[stem]\n++++\n%s\n++++",
}

var inlines = []string{
	"a~", "*b~*", "_i_ `m` #h# ^s^ ,~s~,", "&~<>", "footnote:[n~]", "footnote:f[n] footnote:f[]", "footnote:zz[]", "http://a.b[l~]", "http://a.b?c=d&e~", "<<s>>", "<<s,t~>>", "image:i.png[~]", "icon:tip[~]", "{nbsp}{amp}~", "{nope}~", "(C)~ ... --", "\"`q`\" '`r`'", "+p~+", "pass:[<b>~]", "((ix~))", "(((c,~)))", "a +\nb~", "kbd:[A] btn:[~]", "{counter:c}~", "[[an]]x~", "[.r]#~#", "mailto:a@b[c~]", "xref:o.adoc#p[~]", "{doctitle}~", "user:m[~]", "stem:[x~]", "1 <~> 2 <1>", "{blank}{empty}~", "{set:z:y}~", "\\*n*~", "menu:F[~]", "$$d~$$", "`+l~+`",
}

func TotCtx() {
	c := pick(inlineCtx)
	i := inlines[sym.Choice("inl", len(inlines))]
	totNote = c + " // " + i
	x := fill(i, " a*[]<&\"")
	if sym.Choice("hf", 2) == 1 {
		tot(strings.ReplaceAll(c, "%s", x), full(), attr("experimental", ""))
	} else {
		tot(strings.ReplaceAll(c, "%s", x))
	}
}

// tables: options, columns and cells
var tableTmpl = []string{
	"[%header%footer]\n|===\n%s\n|===", "[%header]\n|===\n%s\n|===", "[%footer]\n|===\n%s\n|===", "|===\n%s\n|===", "[cols=\"1,1\"]\n|===\n%s\n|===", "[%header%footer,cols=\"2*\"]\n|===\n%s\n|===", "[%header,cols=\"~,~\"]\n|===\n%s\n|===", "[cols=\"3*a\"]\n|===\n%s\n|===", "[cols=\"1,,~\"]\n|===\n%s\n|===", "[%autowidth,cols=\"0,2*0\",width=~%%]\n|===\n%s\n|===", "[cols=\"~*,~\"]\n|===\n%s\n|===", "[options=\"header,footer~\",cols=\"<~,^.>2e\"]\n|===\n%s\n|===", "[cols=\"h,m,s,l,d\"]\n|===\n%s\n|===", ".t\n[%footer,cols=\"1,1,1\"]\n|===\n%s\n|===",
}

var tableBody = []string{
	"", "|a~", "|a|b\n", "|a~|b\n|c|d", "|a|b\n\n|c~|d", "|a|b|c\n|d", "a|\n* x~\n|b", "|a\n|b~\n|c\n|d\n|e", "\n|a\n\n|b", "|a|b\n\n\n|c|d|e\n|f", "a|x~\n|b|c", "|a|b\n//c\n|d", "|===\n|a\n|===", "x\n|a", "|~|b", "2+|a|b", "|a {x}~|*b*\n|c footnote:[n]|d", "|a\n\na|\n----\nx\n----\n|c", "a|\nx~\n\ny\n\na|\nu\n//v\n////\nw\n////\n\nz\n", "a|\n* x\n\n[[i]]\n* y~\n//c\n. z\na|\n=====\nx\n\n//y\n=====\n",
}

func table() string {
	t := pick(tableTmpl)
	b := tableBody[sym.Choice("body", len(tableBody))]
	return strings.ReplaceAll(fill(strings.Replace(t, "%s", b, 1), " |\n0a<"), "%%", "%")
}

func TotTable() {
	totNote = "table"
	tot(table())
}

func WfTable() {
	d := table()
	wf(d, d)
}

func LossTable() {
	d := table()
	keeps(d, d)
}

func init() {
	All["TotTable"] = TotTable
	All["WfTable"] = WfTable
	All["LossTable"] = LossTable
}

var oddChars = []string{"\u00a0", "\v", "\f", "\x00", "\r", "\x80", "\xff", "\xc3", "\ufeff", "\u2028", "\ufffd1", "\t", "é", "\U0001F600", "\x1b", "\r\n", "\u200b", "\u3000", "\x7f"}

var oddTmpl = []string{
	"~", "a~b", "~a", "a\n~\nb", "a\n\n~\n\nb", "* a\n~\n* b", "* ~a\n\n~", "a::~\n~", "----\n~\n----\n~", "====\n~\n====", "|===\n|~|a\n~\n|===", "[~]\na", "[quote,~]\na", "== ~\n\n~", "= ~\n~\n\na", "= T\nA~B <~>\nv~",
	"*~*", "`a~`", "+~+", "https://a~b", "image:~[~]", "footnote:[~]", ":a:~\n\n{a}", "{~}", "NOTE:~", ". a\n+\n~\nb", "[verse]\n~a\n~", " ~", ".~\na", "<<~,~>>", "[[~]]a", "\"`~`\" a~'b", "include::~[]", "ifdef::~[]\na\nendif::[]", "////\n~\n////~", "<1>~a", "a +~\nb", "link:~[~]", "kbd:[~]", "++++\n~\n++++", "(((~)))", "~::", "a~::\n  b", "[subs=~]\na", "'''~\n***~",
}

// TotOdd: control characters, invalid UTF-8, special spaces and the like, in every construct.
func TotOdd() {
	t := oddTmpl[sym.Choice("tmpl", len(oddTmpl))]
	n := strings.Count(t, "~")
	odd := oddChars[sym.Choice("odd", len(oddChars))]
	for i := 0; i < n; i++ {
		o := odd
		if n > 1 && sym.Bool("plain") {
			o = "z"
		}
		t = strings.Replace(t, "~", o, 1)
	}
	tot(t, full())
}
