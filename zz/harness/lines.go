//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["TotLines"] = TotLines
	All["TotLinesFull"] = TotLinesFull
	All["WfLines"] = WfLines
	All["WfLinesFull"] = WfLinesFull
	All["LossLines"] = LossLines
	All["LossLinesFull"] = LossLinesFull
	All["TotLines4"] = TotLines4
	All["WfLines4"] = WfLines4
	All["LossLines4"] = LossLines4
}

func TotLines() {
	totNote = "lines"
	tot(lines3(linePool))
}

func TotLinesFull() {
	totNote = "lines"
	tot(lines3of(linePoolFull, "\n a*"))
}

// WfLines alternates between the backends.
func WfLines() {
	d := lines3(linePool)
	wfIn(len(d)%2 == 1, d, d)
}

func WfLinesFull() {
	d := lines3of(linePoolFull, "\n a*")
	wf(d, d)
}

func LossLines() {
	d := lines3(linePool)
	keeps(d, d)
}

func LossLinesFull() {
	d := lines3of(linePoolFull, "\n a*")
	keeps(d, d)
}

func TotLines4() {
	totNote = "lines"
	tot(lines4())
}

func WfLines4() {
	d := lines4()
	wf(d, d)
}

func LossLines4() {
	d := lines4()
	keeps(d, d)
}

// lines from which documents are composed: one per construct that spans lines
var linePool = []string{
	"", "a", "* b", ". d", "e:: f", "g::", "+", "----", "====", "|===", "|h|i", "== j", ".t", "[horizontal]", "//l", " n", "____", "[%header%footer]",
}

var linePoolFull = append([]string{"** c", "=== k", "NOTE: m", "image::o.png[]", "--", "<1> p", "* [x] q", "[[r]]", "[NOTE]", "[qanda]", "'''", "[verse]", "```"}, linePool...)

// lines3 is any sequence of three lines of the pool with symbolic bytes after the second one.
func lines3(pool []string) string { return lines3of(pool, "\na") }

func lines3of(pool []string, alpha string) string {
	a, b, c := sym.Choice("l1", len(pool)), sym.Choice("l2", len(pool)), sym.Choice("l3", len(pool))
	return pool[a] + "\n" + fill(pool[b]+"~\n", alpha) + pool[c]
}

var linePool4 = []string{"", "a", "* b", "** c", ". d", "g:: h", "i::", "+", "----", "====", "|===", "|h", "== j", ".t", "[horizontal]"}

func lines4() string {
	var l []string
	for i := 0; i < 4; i++ {
		l = append(l, linePool4[sym.Choice("l", len(linePool4))])
	}
	return strings.Join(l, "\n") + fill("~", "\n a+")
}

// lines with words that all show, in this order
var wordPool = []string{
	"", "wa", "* wb", ". wd", "we:: wf", "wg::", "+", "----", "====", "|===", "|wh|wi", "== wj", " wn", "____", "[horizontal]", "//wl", "** wo", "NOTE: wp", "wq",
}

// words returns the two-letter words that start with a 'w', but "wl"
func words(s string) []string {
	var l []string
	for i := 0; i+1 < len(s); i++ {
		if s[i] == 'w' && s[i+1] != 'l' {
			l = append(l, s[i:i+2])
			i++
		}
	}
	return l
}

func plainWords(note, d, text string) {
	r := run(d)
	if r.err != nil {
		sym.Fail("conversion fails")
	}
	toks, bad := wellFormed(r.out, false)
	if bad != "" {
		sym.Fail("malformed output")
	}
	got, want := strings.Join(words(visible(toks)), " "), strings.Join(words(text), " ")
	if got != want {
		sym.Note(note)
		sym.Note("got " + got + " want " + want)
		sym.Fail("words are lost, repeated or moved")
	}
	sym.Cover("kept")
}

func PlainLines() {
	d := lines3(wordPool)
	plainWords(d, d, d)
}

func PlainTable() {
	t := pick(tableTmpl)
	b := wordBody[sym.Choice("body", len(wordBody))]
	d := strings.ReplaceAll(fill(strings.Replace(t, "%s", b, 1), " 0<"), "%%", "%")
	plainWords(d, d, b)
}

var wordBody = []string{
	"|wa~", "|wa|wb\n", "|wa~|wb\n|wc|wd", "|wa|wb\n\n|wc~|wd", "|wa|wb\n\n|wc~|wd\n|we|wf\n|wg", "|wa|wb|wc\n|wd", "|wa\n|wb~\n|wc\n|wd\n|we", "\n|wa\n\n|wb", "|wa|wb\n\n\n|wc|wd|we\n|wf", "|wa|wb\n//wl\n|wd", "|wa|wb|wc|wd|we~|wf|wg|wh", "a|* wa~\n* wb\n|wc\n|wd", "|wa *wb*|wc _wd_\n|we footnote:[n]|`wf`~",
}

func init() {
	All["PlainLines"] = PlainLines
	All["PlainTable"] = PlainTable
}
