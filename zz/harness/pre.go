//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/parser"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["CondLines"] = CondLines
	All["CondLines6"] = CondLines6
	All["CondLinesFull"] = CondLinesFull
	All["CondDoc"] = CondDoc
	All["CondEval"] = CondEval
	All["CondText"] = CondText
}

func preprocess(src string, settings ...configuration.Setting) string {
	out, err := parser.Preprocess(strings.NewReader(src), configuration.NewConfiguration(settings...))
	if err != nil {
		sym.Fail("preprocessing fails: " + err.Error())
	}
	return out
}

// --- C09: conditional directives

var condPool = []string{
	"w", "ifdef::~[]", "ifndef::~[]", "endif::[]", ":q: 1", ":!q:", "include::inc.adoc[]", "ifeval::[{q} == 1]", "ifndef::q[u]", "ifdef::q[v]", "endif::~[]",
}

var condDocPool = []string{"w", "ifdef::~[]", "ifndef::~[]", "endif::[]", ":q: 1", ":!q:", "ifdef::q[v]", "ifndef::q[u]", "ifeval::[{q} == 1]", "endif::~[]"}

const condInc = "i1\nifdef::q[]\ni2\nendif::[]\n:q: 2\nifdef::p[]\ni3"

// condModel is what remains of the lines, by the definition of the directives
type condModel struct {
	attrs map[string]string
	out   []string
}

func (m *condModel) run(lines []string) {
	var stack []bool
	on := func() bool {
		for _, b := range stack {
			if !b {
				return false
			}
		}
		return true
	}
	for _, l := range lines {
		_, p := m.attrs["p"]
		qv, q := m.attrs["q"]
		switch {
		case l == "ifdef::p[]":
			stack = append(stack, p)
		case l == "ifndef::p[]":
			stack = append(stack, !p)
		case l == "ifdef::q[]":
			stack = append(stack, q)
		case l == "ifndef::q[]":
			stack = append(stack, !q)
		case l == "ifeval::[{q} == 1]":
			stack = append(stack, q && qv == "1")
		case strings.HasPrefix(l, "endif::"):
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		case !on():
		case l == "include::inc.adoc[]":
			m.run(strings.Split(condInc, "\n"))
		case l == "ifdef::q[v]":
			if q {
				m.out = append(m.out, "v")
			}
		case l == "ifndef::q[u]":
			if !q {
				m.out = append(m.out, "u")
			}
		case l == ":q: 1", l == ":q: 2":
			m.attrs["q"] = l[4:]
			m.out = append(m.out, l)
		case l == ":!q:":
			delete(m.attrs, "q")
			m.out = append(m.out, l)
		default:
			m.out = append(m.out, l)
		}
	}
}

func condLines(n int, pool []string, end ...string) ([]string, []string, []configuration.Setting) {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fill(pool[sym.Choice("l", len(pool))], "pq"))
	}
	l = append(l, end...)
	sym.WriteFile("inc.adoc", condInc)
	m := &condModel{attrs: map[string]string{}}
	settings := []configuration.Setting{configuration.WithFilename("main.adoc")}
	if sym.Choice("p", 2) == 1 {
		m.attrs["p"] = ""
		settings = append(settings, attr("p", ""))
	}
	m.run(l)
	return l, m.out, settings
}

func CondLines() { condCheck(4, condPool[:9]) }

func CondLinesFull() { condCheck(4, condPool) }

func CondLines6() { condCheck(6, condPool[:9]) }

func condCheck(n int, pool []string) {
	l, want, settings := condLines(n, pool)
	got := preprocess(strings.Join(l, "\n"), settings...)
	if got != strings.Join(want, "\n") {
		sym.Note(strings.Join(l, " / "))
		sym.Note("got " + got)
		sym.Fail("conditional content differs")
	}
	sym.Cover("same")
}

// CondDoc: the same through the whole conversion, for the text shown.
func CondDoc() {
	l, want, settings := condLines(3, condDocPool, "w")
	src := "w\n\n" + strings.Join(l, "\n\n")
	r := run(src, settings...)
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	toks, bad := wellFormed(r.out, false)
	if bad != "" {
		sym.Fail("malformed output")
	}
	t := "w "
	for _, x := range want {
		if x[0] != ':' {
			t += x + " "
		}
	}
	if got := visible(toks); got != squeeze(t) {
		sym.Note(src)
		sym.Note("got " + got + " want " + t)
		sym.Fail("conditional content differs")
	}
	sym.Cover("same")
}

// CondEval: comparisons of integers and of strings.
func CondEval() {
	op := [...]string{"==", "!=", "<", "<=", ">", ">="}[sym.Choice("op", 6)]
	sp := [...]string{" ", "", "  "}[sym.Choice("sp", 3)]
	var l, r, decl string
	var c int // sign of the comparison
	switch k := sym.Choice("kind", 6); k {
	case 0, 1, 2, 3: // integers
		a, b := fill("~", "0123456789"), fill("~", "0123456789")
		c = int(a[0]) - int(b[0])
		neg := sym.Choice("neg", 3)
		switch neg {
		case 1:
			a = "-" + a
			if a != "-0" || b != "0" {
				c = -1
			}
		case 2:
			x := fill("~", "0123456789")
			c = int(a[0]-'0')*10 + int(x[0]) - '0' - (int(b[0]) - '0')
			a += x
		}
		switch k {
		case 0:
			l, r = a, b
		case 1:
			decl, l, r = ":x: "+a+"\n", "{x}", b
		case 2:
			decl, l, r = ":y: "+b+"\n", a, "{y}"
		case 3:
			l, r, c = b, a, -c
		}
	default:
		a, b := fill("~", "aZ_b")+fill("~", "a-1"), fill("~", "aZ_b")+fill("~", "a-1")
		c = int(a[0])*256 + int(a[1]) - int(b[0])*256 - int(b[1])
		if k == 4 {
			q := [...]string{"\"", "'"}[sym.Choice("quote", 2)]
			l, r = q+a+q, "\""+b+"\""
		} else {
			decl, l, r = ":x: "+a+"\n", "\"{x}\"", "\""+b+"\""
		}
	}
	var on bool
	switch op {
	case "==":
		on = c == 0
	case "!=":
		on = c != 0
	case "<":
		on = c < 0
	case "<=":
		on = c <= 0
	case ">":
		on = c > 0
	case ">=":
		on = c >= 0
	}
	want := decl + "END"
	if on {
		want = decl + "w\nEND"
	}
	src := decl + "ifeval::[" + l + sp + op + sp + r + "]\nw\nendif::[]\nEND"
	got := preprocess(src)
	if got != want {
		sym.Note(l + sp + op + sp + r)
		sym.Fail("ifeval decides wrongly")
	}
	sym.Cover("decided")
}

var condText = []string{
	"~~~", "~w~", "=~=~ w", "[~]~", "--~-\n~", "|=~=\n~", "//~/", ":~: ~", "include:~w[]", "w\n~\nw", "ifdef:~[]", "+~+~w", "endif~::[]", "```~\nw", "...~", "ifndef::~~[w]", "ifeval::[~ == ~",
}

// CondText: lines of any form are kept as a whole, or excluded as a whole.
func CondText() {
	k := pick(condText)
	x := fill(k, "\t !\"#*+,-./0:;<=>[]_`aipz|")
	if strings.Contains(x, "endif::") || strings.Contains(x, "ifdef::") || strings.Contains(x, "ifndef::") && !strings.Contains(x, "[w]") || strings.Contains(x, "include::") {
		sym.Assume(false)
	}
	on := sym.Choice("on", 2) == 1
	sym.Note(k)
	if on {
		if a, b := preprocess("ifdef::p[]\n"+x+"\nendif::[]\nb", attr("p", "")), preprocess(x+"\nb", attr("p", "")); a != b {
			sym.Fail("included content differs: " + a)
		}
		sym.Cover("on")
	} else {
		if a := preprocess("c\nifndef::p[]\n"+x+"\nendif::[]\nb", attr("p", "")); a != "c\nb" {
			sym.Fail("excluded content shows: " + a)
		}
		sym.Cover("off")
	}
}
