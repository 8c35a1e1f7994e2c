//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["WfInline"] = WfInline
	All["WfBlock"] = WfBlock
	All["WfNest"] = WfNest
	All["WfCtx"] = WfCtx
	All["WfInlineFull"] = WfInlineFull
	All["WfBlockFull"] = WfBlockFull
	All["WfCtxFull"] = WfCtxFull
	All["WfHeader"] = WfHeader
}

func wf(note, src string, settings ...configuration.Setting) {
	wfIn(sym.Choice("backend", 2) == 1, note, src, settings...)
}

func wfIn(xml bool, note, src string, settings ...configuration.Setting) {
	if xml {
		settings = append(settings, xhtml())
	}
	r := run(src, settings...)
	if r.err != nil {
		return
	}
	sym.Cover("converted")
	if _, bad := wellFormed(r.out, xml); bad != "" {
		sym.Note(note)
		if k := strings.Index(bad, ": "); k > 0 {
			bad = bad[:k]
		}
		sym.Fail("malformed output: " + bad)
	}
}

// raw HTML is legitimately produced by passthroughs, and by blocks whose
// substitutions are disabled.
func passesRaw(s string) bool {
	for _, p := range []string{"+", "$$", "pass:", "subs", "stem", "[pass"} {
		if strings.Contains(s, p) {
			return true
		}
	}
	return false
}

func pickSafe(docs []string) string {
	var l []string
	for _, d := range docs {
		if !passesRaw(d) {
			l = append(l, d)
		}
	}
	return pick(l)
}

const noPlus = "\t\n !\"#%&'()*,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func WfInline() {
	t := pickSafe(inlineTmpl)
	wfIn(len(t)%2 == 1, t, fill(t, wfQuick(wfAlpha(t))))
}

func WfInlineFull() {
	t := pickSafe(inlineTmpl)
	wf(t, fill(t, wfAlpha(t)))
}

// wfQuick keeps the characters that matter to markup and to AsciiDoc syntax
func wfQuick(alpha string) string {
	r := ""
	for _, c := range "\n \"#&'*,-.;<=>[]_`a{|}" {
		if strings.ContainsRune(alpha, c) {
			r += string(c)
		}
	}
	return r
}

func wfAlpha(t string) string {
	if strings.Contains(t, "[.") || strings.HasPrefix(t, "[~]#") { // roles are copied as they are
		return "\t\n !#%'()*,-./09:;=?@AZ[\\]^_`az{|}~"
	}
	if t == "{~~}" { // {lt} and {amp} are raw
		return "\t\n !\"#%&'()*,-./09:;<=>?@AZ[\\]^_`azn{|}~"
	}
	return noPlus
}

func WfBlock() {
	t := pickSafe(blockTmpl)
	wfIn(len(t)%2 == 1, t, fill(t, wfQuick(wfAlpha(t))))
}

func WfBlockFull() {
	t := pickSafe(blockTmpl)
	wf(t, fill(t, wfAlpha(t)))
}

func WfHeader() {
	t := pickSafe(headerTmpl)
	wf(t, fill(t, noPlus), full())
}

func WfNest() {
	c := pick(containers)
	i := inner[sym.Choice("inner", len(inner))]
	if strings.Contains(i, "++++") {
		sym.Assume(false)
	}
	wf(c+" // "+i, strings.Replace(c, "%s", fill(i, " \na*=-|<&\""), 1))
}

func WfCtx() {
	c := pickSafe(inlineCtx)
	i := inlines[sym.Choice("inl", len(inlines))]
	wfCtx(c, i, len(i)%2 == 1, len(i)/2%2 == 1)
}

func WfCtxFull() {
	c := pickSafe(inlineCtx)
	i := inlines[sym.Choice("inl", len(inlines))]
	wfCtx(c, i, sym.Choice("hf", 2) == 1, sym.Choice("xml", 2) == 1)
}

func wfCtx(c, i string, hf, xml bool) {
	if passesRaw(i) && !strings.HasSuffix(i, "+\nb~") {
		sym.Assume(false)
	}
	if strings.HasPrefix(i, "{nbsp}{amp}") || strings.Contains(c, "[.") && strings.ContainsAny(i, "<&") { // raw '&' by definition
		sym.Assume(false)
	}
	alpha := " a*]<&\""
	if strings.Contains(c, "[.") { // roles are copied as they are
		alpha = " a*]"
	}
	x := fill(i, alpha)
	if hf {
		wfIn(xml, c+" // "+i, strings.ReplaceAll(c, "%s", x), full(), attr("experimental", ""))
	} else {
		wfIn(xml, c+" // "+i, strings.ReplaceAll(c, "%s", x))
	}
}
