//go:build go1.22

// Package harness contains the verification harnesses.
package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

// All maps harness names to functions (native replay looks them up here).
var All = map[string]func(){
	"Smoke":     Smoke,
	"Doc":       Doc,
	"CorpusDoc": CorpusDoc,
}

func Smoke() {
	b := sym.Byte("b")
	s := "ab" + string([]byte{b}) + "c"
	if strings.Contains(s, "bc") {
		sym.Cover("x")
	}
	sym.Assert(len(s) == 4, "len")
	sym.Assert(!strings.HasPrefix(s, "abZ"), "expected violation")
}

func convert(src string) (string, error) {
	cfg := configuration.NewConfiguration()
	out := &strings.Builder{}
	_, err := libasciidoc.Convert(strings.NewReader(src), out, cfg)
	return out.String(), err
}

func Doc() {
	out, err := convert("a *b* c")
	if err != nil {
		sym.Fail(err.Error())
	}
	sym.Log(out)
}

// CorpusDoc converts one concrete document (engine validation).
func CorpusDoc() {
	n := sym.Int("n", 0, 1<<20)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	full := sym.Int("full", 0, 1)
	x := sym.Int("xhtml", 0, 1)
	cfg := configuration.NewConfiguration(configuration.WithFilename("test.adoc"), configuration.WithHeaderFooter(full == 1))
	if x == 1 {
		cfg.BackEnd = "xhtml5"
	}
	out := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(string(b)), out, cfg)
	if err != nil {
		sym.Log("ERR " + err.Error())
	}
	sym.Log(out.String())
	n = -1
	if md.TableOfContents != nil {
		n = len(md.TableOfContents.Sections)
	}
	sym.Log(md.Title + "|" + strconv.Itoa(n) + "|" + strconv.Itoa(len(md.Authors)))
}
