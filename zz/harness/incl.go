//go:build go1.22

package harness

import (
	"os"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["IncLines"] = IncLines
	All["IncTags"] = IncTags
	All["IncTags4"] = IncTags4
	All["IncSame"] = IncSame
	All["IncOffset"] = IncOffset
	All["IncPath"] = IncPath
}

// --- C10: file inclusions

func mainFile() configuration.Setting { return configuration.WithFilename("main.adoc") }

var incExt = []string{"inc.adoc", "inc.go"}

var incLinesTmpl = []string{"~", "~..~", "~..-1", "~;~", "~..~;~", "~;~..~", "~..~;~..~", "\"~,~\"", "\"~..~,~\"", "~~", "~..~~", "\"~;~;~\"", "1~..-1;~"}

// IncLines: lines= selects the lines of the ranges, in order.
func IncLines() {
	k := sym.Choice("tmpl", len(incLinesTmpl))
	name := pick(incExt)
	digits := "0123456789"
	if strings.Count(incLinesTmpl[k], "~") > 2 {
		digits = "02479"
	}
	spec := fill(incLinesTmpl[k], digits)
	var file, want []string
	for i := 1; i <= 12; i++ {
		l := "line" + string(rune('a'+i))
		file = append(file, l)
		in := false
		for _, r := range strings.FieldsFunc(strings.Trim(spec, "\""), func(c rune) bool { return c == ',' || c == ';' }) {
			a, b, found := strings.Cut(r, "..")
			if !found {
				b = a
			}
			if num(a) <= i && (i <= num(b) || b == "-1") {
				in = true
			}
		}
		if in {
			want = append(want, l)
		}
	}
	nl := [...]string{"\n", ""}[sym.Choice("nl", 2)]
	sym.WriteFile(name, strings.Join(file, "\n")+nl)
	got := preprocess("A\ninclude::"+name+"[lines="+spec+"]\nB", mainFile())
	if strings.Join(nonBlank(got), " ") != strings.Join(append(append([]string{"A"}, want...), "B"), " ") {
		sym.Note(incLinesTmpl[k] + " " + name)
		sym.Fail("the lines included are not those of the ranges")
	}
	sym.Cover("lines")
}

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func nonBlank(s string) []string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if x != "" {
			l = append(l, x)
		}
	}
	return l
}

var tagPool = []string{"x", "tag::~[]", "// tag::~[] y", "end::~[]", "# end::~[]"}

var tagSpecs = []string{"tag=~", "tags=~", "tags=a;~", "tags=*", "tags=**", "tags=**;!~", "tags=*;!~", "tags=a;!~", "tags=\"a,~\"", "tags=~;*", "tags=!~;b", "tags=b;**"}

// IncTags: tag= and tags= select the tagged regions; lines with tags never show.
func IncTags() { incTags(3) }

func IncTags4() { incTags(4) }

func incTags(n int) {
	k := sym.Choice("tmpl", len(tagSpecs))
	spec := fill(tagSpecs[k], "ab")
	var file, want []string
	open := map[string]bool{}
	seen := map[string]bool{}
	_, v, _ := strings.Cut(spec, "=")
	var tags []string
	for _, t := range strings.FieldsFunc(strings.Trim(v, "\""), func(c rune) bool { return c == ',' || c == ';' }) {
		tags = append(tags, t)
	}
	for i := 0; i < n; i++ {
		l := fill(tagPool[sym.Choice("l", len(tagPool))], "ab")
		if j := strings.Index(l, "::"); j > 0 {
			t := l[j+2 : j+3]
			if strings.Contains(l, "tag::") {
				open[t], seen[t] = true, true
			} else {
				open[t] = false
			}
			file = append(file, l)
		}
		l = "w" + string(rune('0'+i))
		file = append(file, l)
		in := false
		for _, t := range tags {
			name := strings.TrimPrefix(t, "!")
			if name == "**" || name == "*" && (open["a"] || open["b"]) || open[name] {
				in = t[0] != '!'
			}
		}
		if in {
			want = append(want, l)
		}
	}
	sym.WriteFile("inc.adoc", strings.Join(file, "\n")+"\n")
	src := "A\n\ninclude::inc.adoc[" + spec + "]\n\nB"
	r := run(src, mainFile())
	for _, t := range tags {
		t = strings.TrimPrefix(t, "!")
		if t[0] != '*' && !seen[t] { // required, but not in the file
			if r.err == nil || !strings.Contains(r.err.Error(), "Unresolved directive") {
				sym.Note(spec)
				sym.Fail("a missing tag is not reported")
			}
			sym.Cover("missing")
			return
		}
	}
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	toks, bad := wellFormed(r.out, false)
	if bad != "" {
		sym.Fail("malformed output")
	}
	if got := visible(toks); got != squeeze("A "+strings.Join(want, " ")+" B") {
		sym.Note(spec + ": " + strings.Join(file, " / "))
		sym.Note("got " + got)
		sym.Fail("the lines included are not those of the tags")
	}
	sym.Cover("tags")
}

var incCtx = []string{
	"%s", "a\n\n%s\n\nb", "====\n%s\n====", "----\n%s\n----", "[source,go]\n----\na\n%s\n----\nb", "* i\n+\n%s\n* j", "--\n%s\n--", "== s\n\n%s\n\n=== t", "|===\n|a\n%s\n|===", "----\n%s\nb\n----", "a\n%s\nb\n%s\nc", "a\n%s\nb", "[NOTE]\n====\n%s\n====\n%s", "....\n%s\n....", ":x: y\n\n%s\n{x}", "* i\n%s", "____\na\n\n%s\n____", "[[i]]\n.t\n%s", "ifdef::zz[]\nb\nendif::[]\n%s", "[verse]\n%s\n", "<<<\n%s\n'''",
}

var incContent = []string{
	"c~", "c\n~\nd", "* c~\n* d", "----\nc~\n----", "*c~* http://d.e[f]", "|c~|d", "c\n\nd~\n", ":z: c~\n\n{z}", "~\nc", "=~ c\n\nd", "ifdef::zz[]\nc\nendif::[]\nd~", "  c\n    d~\n", "~\n~\n", "include::inc2.adoc[]\nc~", "[.r]\nc\n//~", "t:: c~", "c +\n~", "\tc\n\n\n~d", "", "~\n",
}

// IncSame: including a file gives the same as its content in its place.
func IncSame() {
	c := pick(incCtx)
	c0 := c
	i := incContent[sym.Choice("content", len(incContent))]
	name := incExt[sym.Choice("ext", 2)]
	x := fill(i, "\n a*=")
	sym.WriteFile("inc2.adoc", "in2\n")
	sym.WriteFile(name, x)
	same := x
	if name == "inc.adoc" {
		same = strings.Replace(same, "include::inc2.adoc[]", "in2", 1)
	} else if strings.Contains(x, "::") { // no directives in files of another type
		sym.Assume(false)
	}
	same = strings.TrimSuffix(same, "\n")
	if name == "inc.go" && x != "" { // the lines of a file which is not Asciidoc are followed by a blank line
		same += "\n"
	}
	if x == "" {
		c, same = strings.ReplaceAll(c, "%s\n", "%s"), ""
	}
	a := run(strings.ReplaceAll(c0, "%s", "include::"+name+"[]"), mainFile())
	b := run(strings.ReplaceAll(c, "%s", same), mainFile())
	if (a.err != nil) != (b.err != nil) {
		sym.Note(c + " // " + i)
		sym.Fail("an inclusion changes the outcome")
	}
	if a.out != b.out {
		sym.Note(c + " // " + i)
		sym.Note("got " + a.out + " want " + b.out)
		sym.Note(c + " // " + i)
		sym.Fail("an inclusion differs from the content")
	}
	sym.Cover("same")
}

// IncOffset: leveloffset moves the sections of the file, with those of the files it includes.
func IncOffset() {
	o := [...]string{"+0", "+1", "+2", "-1", "1", "2", "3"}[sym.Choice("o", 7)]
	l1, l2, l3 := sym.Choice("l1", 4), sym.Choice("l2", 4), sym.Choice("l3", 3)
	o2 := [...]string{"", "+1", "-1", "+2"}[sym.Choice("o2", 4)]
	eq := "======"
	sym.WriteFile("inc2.adoc", eq[:l3+1]+" C\n\nc\n")
	sym.WriteFile("inc.adoc", eq[:l1+1]+" A\n\na\n\n"+"include::inc2.adoc[leveloffset="+o2+"]\n\n"+eq[:l2+1]+" B\n\nb\n")
	if o2 == "" {
		sym.WriteFile("inc.adoc", eq[:l1+1]+" A\n\na\n\n"+"include::inc2.adoc[]\n\n"+eq[:l2+1]+" B\n\nb\n")
	}
	got := preprocess("x\n\ninclude::inc.adoc[leveloffset="+o+"]\n\n== D", mainFile())
	// levels by the definition
	d, d2 := 0, 0
	switch {
	case o[0] == '+':
		d = int(o[1] - '0')
	case o[0] == '-':
		d = -int(o[1] - '0')
	default: // absolute: that of the first section
		d = int(o[0]-'0') - l1
	}
	switch {
	case o2 == "":
	case o2[0] == '+':
		d2 = int(o2[1] - '0')
	default:
		d2 = -int(o2[1] - '0')
	}
	sec := func(l int, t string) string {
		if l < 0 { // of the sum
			l = 0
		}
		if l > 5 {
			sym.Assume(false)
		}
		return eq[:l+1] + " " + t
	}
	want := "x\n\n" + sec(l1+d, "A") + "\n\na\n\n" + sec(l3+d+d2, "C") + "\n\nc\n\n" + sec(l2+d, "B") + "\n\nb\n\n== D"
	if got != want {
		sym.Note("offset " + o + " nested " + o2)
		sym.Note("got " + got + " want " + want)
		sym.Fail("sections are not at their level")
	}
	sym.Cover("offset")
}

// IncPath: paths are relative to the file that includes; the working directory is as before; missing files are reported.
func IncPath() {
	sym.WriteFile("d/a.adoc", "a1\ninclude::e/b.adoc[]\na2\ninclude::c.adoc[]\n")
	sym.WriteFile("d/e/b.adoc", "b1\ninclude::../c.adoc[]\n")
	sym.WriteFile("d/c.adoc", "c1\n")
	sym.WriteFile("c.adoc", "top\n")
	sym.WriteFile("d/m.adoc", "m1\ninclude::nope.adoc[]\n")
	sym.WriteFile("d/t.adoc", "t1\ninclude::c.adoc[tag=zz]\n")
	wd0, err := os.Getwd()
	if err != nil {
		sym.Fail("getwd")
	}
	t := incPaths[sym.Choice("path", len(incPaths))]
	main := [...]string{"main.adoc", "d/main.adoc", "./main.adoc"}[sym.Choice("main", 3)]
	src := t[0]
	if main == "d/main.adoc" {
		src = strings.ReplaceAll(src, "d/", "")
		if strings.Contains(src, "::c.adoc") || strings.Contains(src, "..") {
			sym.Assume(false)
		}
	}
	r := run(strings.ReplaceAll(src, "D", "d"), configuration.WithFilename(main))
	if wd, err := os.Getwd(); err != nil || wd != wd0 {
		sym.Fail("the working directory changed to " + wd)
	}
	if t[1] == "" {
		if r.err == nil || !strings.Contains(r.err.Error(), "Unresolved directive") {
			sym.Note(src)
			sym.Fail("a missing file is not reported")
		}
		if r.out != "" {
			sym.Fail("output in spite of an error")
		}
		sym.Cover("missing")
		return
	}
	if r.err != nil {
		sym.Note(src)
		sym.Fail("conversion fails: " + r.err.Error())
	}
	toks, _ := wellFormed(r.out, false)
	if got := visible(toks); got != t[1] {
		sym.Note(src)
		sym.Note("got " + got + " want " + t[1])
		sym.Fail("wrong files are included")
	}
	sym.Cover("path")
}

var incPaths = [][2]string{
	{"include::d/a.adoc[]", "a1 b1 c1 a2 c1"}, {"include::d/e/b.adoc[]\ninclude::d/c.adoc[]", "b1 c1 c1"}, {"include::c.adoc[]", "top"}, {"include::d/../c.adoc[]", "top"}, {"include::./d/c.adoc[]\nx", "c1 x"},
	{":dir: D\n:sub: e\n\ninclude::d/{sub}/b.adoc[]", "b1 c1"}, {":f: b\n\ninclude::d/e/{f}.adoc[]", "b1 c1"}, {"include::d/nope.adoc[]", ""}, {"include::d/m.adoc[]", ""}, {"include::d/t.adoc[]", ""}, {"x\n\ninclude::d/nodir/b.adoc[]\n\ny", ""}, {"include::d/c.adoc[]\n\ninclude::d/m.adoc[]", ""}, {"include::d/e[]", ""},
}

// IncLoop: files that include each other, and deep chains.
func IncLoop() {
	k := sym.Choice("loop", 5)
	sym.WriteFile("a.adoc", "a\n\ninclude::b.adoc[]\n")
	switch k {
	case 0:
		sym.WriteFile("b.adoc", "b\n\ninclude::a.adoc[]\n")
	case 1:
		sym.WriteFile("b.adoc", "b\n\ninclude::b.adoc[]\n\ninclude::b.adoc[]\n")
	case 2:
		sym.WriteFile("b.adoc", "b\n\nifdef::x[]\ninclude::a.adoc[]\nendif::[]\n:x:\n")
	case 3:
		sym.WriteFile("b.adoc", "b\n\ninclude::d/c.adoc[lines=2]\n")
		sym.WriteFile("d/c.adoc", "include::../a.adoc[]\nc\n")
	case 4:
		sym.WriteFile("b.adoc", "b\n\nifndef::x[]\n:x:\n\ninclude::a.adoc[]\nendif::[]\n")
	}
	r := run("include::a.adoc[]", mainFile())
	if k < 2 {
		if r.err == nil || !strings.Contains(r.err.Error(), "Unresolved directive") {
			sym.Fail("endless inclusions are not reported")
		}
		sym.Cover("endless")
		return
	}
	if r.err != nil {
		sym.Fail("conversion fails: " + r.err.Error())
	}
	toks, _ := wellFormed(r.out, false)
	want := [...]string{"a b", "a b c", "a b a b"}[k-2]
	if got := visible(toks); got != want {
		sym.Note("got " + got + " want " + want)
		sym.Fail("wrong files are included")
	}
	sym.Cover("ends")
}

func init() { All["IncLoop"] = IncLoop }
