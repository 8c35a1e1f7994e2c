//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["SubsSet"] = SubsSet
	All["SubsSetFull"] = SubsSetFull
}

// --- C17: the substitutions of a block are those of its subs attribute

var subsNames = []string{"attributes", "macros", "quotes", "replacements", "post_replacements", "callouts", "specialchars", "specialcharacters", "normal", "none", "verbatim"}

var subsGroups = map[string]string{
	"attributes": "a", "macros": "m", "quotes": "q", "replacements": "r", "post_replacements": "p", "callouts": "c", "specialchars": "s", "specialcharacters": "s",
	"normal": "asqrmp", "none": "", "verbatim": "cs",
}

// blocks and their own substitutions
var subsBlocks = [][2]string{
	{"%s", "asqrmp"}, {"----\n%s\n----", "cs"}, {"....\n%s\n....", "cs"}, {"++++\n%s\n++++", ""}, {"```\n%s\n```", "cs"}, {"[source,go]\n----\n%s\n----", "cs"}, {"[verse]\n____\n%s\n____", "asqrmp"}, {"[listing]\n%s", "cs"}, {"[literal]\n%s", "cs"}, {"[quote]\n%s", "asqrmp"}, {"NOTE: %s", "asqrmp"}, {"[source]\n%s", "cs"}, {"[verse]\n%s", "asqrmp"},
}

const subsContent = "w *b* w\nx {at} x\ny <z> y\nu (C) u\nv http://h.i[j] v\ns +\nt\nk <1>\nl"

func SubsSet() { subsSet(2) }

func SubsSetFull() { subsSet(len(subsBlocks)) }

func subsSet(two int) {
	i := sym.Choice("block", len(subsBlocks))
	b := subsBlocks[i]
	n := 1
	if i < two {
		n = 2
	}
	var l []string
	set := ""
	incremental := true
	type op struct{ kind, group string }
	var ops []op
	for i := 0; i < n; i++ {
		m := sym.Choice("mod", 5) // the last one: nothing
		if m == 4 {
			break
		}
		s := subsNames[sym.Choice("sub", len(subsNames))]
		ops = append(ops, op{[]string{"", "<", ">", "-"}[m], subsGroups[s]})
		l = append(l, []string{s, s + "+", "+" + s, "-" + s}[m])
		incremental = incremental && m != 0
	}
	a := ""
	if len(l) == 0 {
		set = b[1]
	} else {
		a = "[subs=\"" + strings.Join(l, []string{",", ", "}[len(b[0])%2]) + "\"]\n"
		if incremental {
			set = b[1]
		}
		for _, o := range ops {
			for _, c := range o.group {
				if o.kind == "-" {
					set = strings.ReplaceAll(set, string(c), "")
				} else if !strings.ContainsRune(set, c) {
					set += string(c)
				}
			}
		}
	}
	d := ":at: AT\n\nx\n\n" + a + strings.Replace(b[0], "%s", subsContent, 1)
	sym.Note(d)
	r := run(d)
	sym.Assert(r.err == nil, "fails")
	sym.Note(a + b[0])
	is := func(c, yes, no, what string) {
		if strings.Contains(set, c) {
			sym.Assert(strings.Contains(r.out, yes), what+" are not substituted")
		} else {
			sym.Assert(strings.Contains(r.out, no), what+" are substituted")
		}
	}
	is("q", "w <strong>b</strong> w\n", "w *b* w\n", "quotes")
	is("a", "x AT x\n", "x {at} x\n", "attributes")
	is("s", "y &lt;z&gt; y\n", "y <z> y\n", "special characters")
	is("r", "u &#169; u\n", "u (C) u\n", "replacements")
	is("m", "v <a href=\"http://h.i\">j</a> v\n", "v http://h.i[j] v\n", "macros")
	is("p", "s<br>\nt\n", "s +\nt\n", "line breaks")
	if strings.Contains(set, "c") && strings.Contains(b[1], "c") {
		sym.Assert(strings.Contains(r.out, "k <b class=\"conum\">(1)</b>\nl"), "callouts are not substituted")
	} else if !strings.Contains(set, "c") {
		is("s", "k &lt;1&gt;\nl", "k <1>\nl", "special characters")
	}
	sym.Cover("subs")
}
