//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

// printable ASCII plus tab and newline
const ascii = "\t\n !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// no control characters and no newline
const asciiLine = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// fill replaces every '~' of the template by a symbolic byte of the alphabet.
func fill(tmpl, alphabet string) string {
	b := []byte(tmpl)
	for i := range b {
		if b[i] == '~' {
			b[i] = sym.ByteIn("b", alphabet)
		}
	}
	return string(b)
}

type result struct {
	out string
	md  types.Metadata
	err error
}

func run(src string, settings ...configuration.Setting) result {
	cfg := configuration.NewConfiguration(settings...)
	out := &strings.Builder{}
	md, err := libasciidoc.Convert(strings.NewReader(src), out, cfg)
	return result{out.String(), md, err}
}

func xhtml() configuration.Setting { return configuration.WithBackEnd("xhtml5") }
func full() configuration.Setting  { return configuration.WithHeaderFooter(true) }
func attr(n string, v any) configuration.Setting {
	return configuration.WithAttribute(n, v)
}

func pick(docs []string) string { return docs[sym.Choice("tmpl", len(docs))] }

// mustContain fails with the document in the message when sub does not occur.
func mustContain(out, sub, what string) {
	if !strings.Contains(out, sub) {
		sym.Note(what)
		sym.Fail(what + ": missing " + sub)
	}
}

func count(s, sub string) int { return strings.Count(s, sub) }
