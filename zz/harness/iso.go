//go:build go1.22

package harness

import (
	"io"
	"strings"
	"text/template"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["IsoConfig"] = IsoConfig
	All["IsoAfter"] = IsoAfter
	All["IsoAfterFull"] = IsoAfterFull
	All["IsoShared"] = IsoShared
	All["IsoSharedFull"] = IsoSharedFull
}

// --- C08: conversions are isolated from one another

// documents which change attributes, counters and the like
var isoSet = []string{
	"= T~\nFoo Bar <a@b.c>; Baz\nv1.~, 2020: rem\n:name: v~\n:unset-me!:\n\n{name}",
	":figure-caption: F~\n:example-caption!:\n:table-caption: T\n\n.t\nimage::a.png[]\n\n.t\n====\nx\n====\n\n.t\n|===\n|a\n|===",
	"= T\n:toc:\n:sectnums:\n:toc-title: X~\n:idprefix: id~\n:imagesdir: img~\n:icons: font\n:doctype: manpage\n\n== A~\n\nimage::a.png[]",
	"= T\n:toc: preamble\n:toclevels: 1\n\npre\n\n== A\n\n:name: {counter:x}\n:leveloffset: 1\n\n== A~\n\n=== C {counter:x} footnote:n[f~] footnote:n[]",
	"[#i~]\n== S\n\n[[j]]a <<i~,x>> <<S>> [quotes]#a# `b`\n\n[subs=\"+quotes\"]\n----\n*a* <~> <1>\n----\n<1> x",
	":noheader:\n:nofooter:\n:hardbreaks:\n:unicode: false\n:syntax-highlighter: chroma\n\na~ -- (C)\n\n[source,go]\n----\nfunc\n----",
	"hi::a~[x=y]\n\nhi:b[] {name} {set}\n\n{counter:x} {counter:y:~} {counter:z:a}",
	"== Name\n\n* x~",
	":note-caption: N~\n:tip-caption: T\n:version-label: V\n:iconsdir: d\n:icontype: e\n:idseparator: s~\n:description: D~\n:experimental:\n:numbered:\n:sp: x\n:amp: y\n\nNOTE: a\n\nTIP: b\n\n== A\n\nicon:note[] kbd:[A] {sp}{amp}\n\n[source,go]\n----\na\n----",
	"[[a]]\n.t~\n[.r%o,k=v]\n* a\n. b\nc:: d\n\n[horizontal]\na:: b\n\n[quote,q~,r]\n____\nx\n____\n\n|===\n|a\n|===\n\n[discrete]\n== D~\n\n====\n[NOTE]\n.n\nx\n====\n\nlink:a[b,window=_blank,role=r] image::a~.png[x,10,20]\n\n[start=7]\n. a\n\n[%interactive]\n* [x] a",
	"= man~\n\n== NAME\n\na - b\n\n== Synopsis\n\nc~",
	"a footnote:[~] footnote:n[b] footnote:n[]\n\n[cols=\"2,~\",options=\"header,footer\"]\n|===\n|a |b\n\n|c |d\n|===",
	"ifdef::name[]\nA~\nendif::[]\ninclude::none~.adoc[]\n:leveloffset: +1",
}

// documents whose rendering would show what was changed
var isoShow = []string{
	"= D\nQ R\n\n{name} {author} {revnumber} {set} {counter:x} {counter:y} {counter:z}\n\n.t\nimage::a.png[]\n\n.t\n====\nx\n====\n\n.t\n|===\n|a\n|===\n\nhi::a[x=y]",
	"== A\n\n[[j]]b -- (C) footnote:n[z] footnote:[y]\n\n== A\n\n[[j]]c icon:tip[] <<j>> <<i1,k>> image:a.png[]\n\nNOTE: n\n\n[source,go]\n----\nfunc <1>\n----\n<1> x",
	"= D\n:sectnums:\n:toc:\n\n== S\n\nifdef::name[]\nX\nendif::[]\nifndef::set[]\nZ\nendif::[]\n\na\nb\n\n*q* hi:b[]",
	"{author} {revnumber} {doctype} {figure-caption} {imagesdir}\n\n----\n*a* <b>\n----\n\n=== L",
	"NOTE: n\n\nTIP: t\n\n[%collapsible]\n====\nx\n====\n\n== A b\n\nicon:note[] kbd:[A] {sp}{amp}{nbsp} x -> y\n\n[source,go]\n----\na\n----\n\n* a\n. b\nc:: d\n\n[horizontal]\na:: b\n\n[quote,q,r]\n____\nx\n____\n\n[.r,k=v]\nlink:a[b,window=_blank,role=r]\n\nimage::a.png[]\n\n* [x] a",
	"= x\n\n== Name\n\nx - y\n\n== Synopsis\n\nz",
}

var isoMacro = template.Must(template.New("hi").Parse("<b>{{ .Value }}{{ .Attributes }}</b>"))

func isoConfigs(k int) *configuration.Configuration {
	settings := []configuration.Setting{configuration.WithMacroTemplate("hi", isoMacro), full(), configuration.WithCSS([]string{"a.css"}), mainFile()}
	switch k {
	case 1:
		settings = append(settings, attr("set", "s"), attr("sectnums", nil), xhtml())
	case 2:
		settings = append(settings, attr("doctype", "manpage"))
	case 3:
		settings = append(settings, configuration.WithAttributes(map[string]interface{}{"set": "s", "figure-caption": "Fig"}), configuration.WithBackEnd("html"), configuration.WithHeaderFooter(false))
	}
	return configuration.NewConfiguration(settings...)
}

func convertWith(cfg *configuration.Configuration, src string) result {
	out := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(src), out, cfg)
	return result{out.String(), md, err}
}

func sameAttributes(a, b types.Attributes) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, found := b[k]; !found || v != w {
			return false
		}
	}
	return true
}

// IsoConfig: a conversion leaves its configuration as it was.
func IsoConfig() {
	mine := map[string]interface{}{"set": "s"}
	src := fill(pick(append(isoSet, isoShow...)), "a1:*<")
	k := sym.Choice("config", 4)
	var cfg *configuration.Configuration
	if k == 3 {
		cfg = configuration.NewConfiguration(configuration.WithAttributes(mine), attr("more", "m"), configuration.WithBackEnd("xhtml5"), configuration.WithMacroTemplate("hi", isoMacro))
	} else {
		cfg = isoConfigs(k)
	}
	before, was, css := cfg.Attributes.Clone(), *cfg, strings.Join(cfg.CSS, " ")
	if _, err := libasciidoc.Convert(strings.NewReader(src), io.Discard, cfg); err != nil {
		sym.Cover("error")
	} else {
		sym.Cover("config")
	}
	sym.Note(src)
	sym.Assert(sameAttributes(before, cfg.Attributes), "the attributes of the configuration were changed by a conversion")
	sym.Assert(cfg.Filename == was.Filename && cfg.BackEnd == was.BackEnd && cfg.WrapInHTMLBodyElement == was.WrapInHTMLBodyElement &&
		cfg.LastUpdated.Equal(was.LastUpdated) && css == strings.Join(cfg.CSS, " ") && len(cfg.Macros) == 1 && cfg.Macros["hi"] == isoMacro, "the configuration was changed by a conversion")
	sym.Assert(len(mine) == 1 && mine["set"] == "s", "the map of attributes of the caller was changed")
}

// IsoAfter: converting a document after another one, with the same configuration,
// gives the same result as with a fresh configuration.
func IsoAfter()     { isoAfter("1<", 2) }
func IsoAfterFull() { isoAfter("a1:*<", 4) }

func isoAfter(alphabet string, configs int) {
	first := fill(pick(isoSet), alphabet)
	second := isoShow[sym.Choice("show", len(isoShow))]
	k := 3 * sym.Choice("config", 2)
	if configs == 4 {
		k = sym.Choice("any", 4)
	}
	want := convertWith(isoConfigs(k), second)
	cfg := isoConfigs(k)
	convertWith(cfg, first)
	got := convertWith(cfg, second)
	again := convertWith(cfg, second)
	if got.out != want.out || again.out != want.out || (got.err == nil) != (want.err == nil) || got.md.Title != want.md.Title {
		sym.Note(first)
		sym.Note(second)
		sym.Fail("the result depends on the conversions done before")
	}
	sym.Cover("after")
}

// IsoShared: conversions may run concurrently with the same configuration.
func IsoShared()     { isoShared("a", 1) }
func IsoSharedFull() { isoShared("a:", 4) }

func isoShared(alphabet string, configs int) {
	docs := append(isoSet, isoShow...)
	first, second := fill(pick(docs), alphabet), fill(docs[sym.Choice("show", len(docs))], "1")
	k := sym.Choice("config", configs)
	cfg := isoConfigs(k)
	done := make(chan result)
	go func() { done <- convertWith(cfg, first) }()
	got := convertWith(cfg, second)
	other := <-done
	wantFirst, wantSecond := convertWith(isoConfigs(k), first), convertWith(isoConfigs(k), second)
	sym.Note(first)
	sym.Note(second)
	sym.Assert(got.out == wantSecond.out && other.out == wantFirst.out, "concurrent conversions interfere")
	sym.Cover("shared")
}
