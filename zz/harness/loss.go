//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/parser"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["LossInline"] = LossInline
	All["LossBlock"] = LossBlock
	All["LossNest"] = LossNest
	All["LossCtx"] = LossCtx
	All["LossHeader"] = LossHeader
}

// lost reports the first part of the document that the parser drops: the
// pipeline of parser.ParseDocument, with a look at the fragments that the last
// stage skips.
func lost(src string, settings ...configuration.Setting) string {
	cfg := configuration.NewConfiguration(settings...)
	p, err := parser.Preprocess(strings.NewReader(src), cfg)
	if err != nil {
		return ""
	}
	done := make(chan interface{})
	r := strings.NewReader(p)
	ctx := func() *parser.ParseContext { return parser.NewParseContext(cfg) }
	msg := ""
	for f := range parser.FilterOut(done, parser.ArrangeLists(done, parser.CollectFootnotes(types.NewFootnotes(), done,
		parser.ApplySubstitutions(ctx(), done, parser.RefineFragments(ctx(), r, done, parser.ParseDocumentFragments(ctx(), r, done)))))) {
		if f.Error != nil && msg == "" {
			msg = f.Error.Error()
		}
	}
	return msg
}

func keeps(note, src string, settings ...configuration.Setting) {
	m := lost(src, settings...)
	if m == "" || strings.Contains(m, "unsupported substitution") { // reported as an error
		sym.Cover("kept")
		return
	}
	if i := strings.LastIndex(m, "): "); i > 0 {
		m = m[i+3:]
	}
	sym.Note(note)
	sym.Fail("part of the document is dropped: " + m)
}

func LossInline() {
	t := pick(inlineTmpl)
	keeps(t, fill(t, ascii))
}

func LossBlock() {
	t := pick(blockTmpl)
	keeps(t, fill(t, ascii))
}

func LossHeader() {
	t := pick(headerTmpl)
	keeps(t, fill(t, ascii))
}

func LossNest() {
	c := pick(containers)
	i := inner[sym.Choice("inner", len(inner))]
	keeps(c+" // "+i, strings.Replace(c, "%s", fill(i, " \na*=-|+"), 1))
}

func LossCtx() {
	c := pick(inlineCtx)
	i := inlines[sym.Choice("inl", len(inlines))]
	keeps(c+" // "+i, strings.ReplaceAll(c, "%s", fill(i, " a*[]<&\"")), attr("experimental", ""))
}
