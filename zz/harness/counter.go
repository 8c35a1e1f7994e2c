//go:build go1.22

package harness

import (
	"strconv"
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["CntSeq"] = CntSeq
	All["CntPairs"] = CntPairs
	All["CntChars"] = CntChars
}

// --- C12: the counters

// cnt is the value of a counter: a number, or a letter
type cnt struct {
	n      int
	letter byte
	set    bool
}

func (c *cnt) String() string {
	if c.letter != 0 {
		return string([]byte{c.letter})
	}
	return strconv.Itoa(c.n)
}

// next is the value of the counter after a reference to it
func (c *cnt) next(seed string) string {
	switch {
	case !c.set && seed != "" && seed[0] >= 'A':
		c.letter = seed[0]
	case !c.set && seed != "":
		c.n, _ = strconv.Atoi(seed)
	case c.letter != 0:
		c.letter++
	default:
		c.n++
	}
	c.set = true
	return c.String()
}

type cntGen struct {
	x, y   cnt
	blocks []string
	want   []string
	tables int
}

// ref is a reference and its value
func (g *cntGen) ref(form int, seed string) (string, string) {
	switch form {
	case 0:
		return "{counter:x}", g.x.next("")
	case 1:
		g.x.next("")
		return "{counter2:x}", ""
	case 2:
		return "{counter:x:" + seed + "}", g.x.next(seed)
	case 3:
		if !g.x.set {
			return "{x}", "{x}"
		}
		return "{x}", g.x.String()
	case 4:
		return "{counter:y}", g.y.next("")
	case 5:
		return "\\{counter:x}", "{counter:x}"
	case 6:
		g.x.next(seed)
		return "{counter2:x:" + seed + "}", ""
	case 7:
		a, b := g.x.next(""), g.x.next(seed)
		return "{counter:x}-{counter:x:" + seed + "}", a + "-" + b
	case 8:
		g.x = cnt{n: 7, set: true}
		g.blocks = append(g.blocks, ":x: 7")
		return "{x}", "7"
	}
	g.x = cnt{}
	g.blocks = append(g.blocks, ":x!:")
	return "{x}", "{x}"
}

func (g *cntGen) add(pos int, ref, want string) {
	k := "k" + strconv.Itoa(len(g.want)) + "="
	g.want = append(g.want, k+want+";")
	t := k + ref + ";"
	b := t
	switch pos {
	case 1:
		b = "* " + t + "\n\n//-"
	case 2:
		b = "." + t + "\n****\nx\n****"
	case 3:
		z := 3 * g.tables
		g.tables++
		b = "[%header%footer]\n|===\n|h {counter:z};\n\n|" + t + " r {counter:z};\n|f {counter:z};\n|==="
		g.want = append(g.want, "h "+strconv.Itoa(z+1)+";", "r "+strconv.Itoa(z+2)+";", "f "+strconv.Itoa(z+3)+";")
	case 4:
		b = "== " + t
	case 5:
		b = "x footnote:[" + t + "]"
	case 6:
		b = "____\nx _" + t + "_\n____"
	case 7:
		b = "[subs=attributes]\n----\n" + t + "\n----"
	case 8:
		b = "a " + t + ":: x\n\n//-"
	}
	g.blocks = append(g.blocks, b)
}

func (g *cntGen) check() {
	src := strings.Join(g.blocks, "\n\n")
	sym.Note(src)
	r := run(src)
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	text := dom(toks).text()
	for _, w := range g.want {
		if !strings.Contains(text, w) {
			sym.Note("got " + text + " want " + w)
			sym.Fail("the value of the counter is different")
		}
	}
	sym.Cover("counters")
}

// CntSeq: 3 references in different places
func CntSeq() {
	g := &cntGen{}
	p, stride := sym.Choice("pos", 9), sym.Choice("stride", 3)
	for i := 0; i < 3; i++ {
		ref, want := g.ref(sym.Choice("ref", 10), []string{"5", "c", "0"}[i])
		g.add((p+i*stride)%9, ref, want)
	}
	g.check()
}

// CntPairs: 2 references in all pairs of places, the start is symbolic
func CntPairs() {
	g := &cntGen{}
	for i := 0; i < 2; i++ {
		f := sym.Choice("ref", 10)
		seed := ""
		if f == 2 || f == 6 || f == 7 {
			seed = string([]byte{sym.ByteIn("seed", "05c")})
		}
		ref, want := g.ref(f, seed)
		g.add(sym.Choice("pos", 9), ref, want)
	}
	g.check()
}

// CntChars: the start of the counter is symbolic
func CntChars() {
	g := &cntGen{}
	seed := fill([]string{"~", "1~", "~~"}[sym.Choice("seed", 3)], "0159aYy")
	sym.Assume(len(seed) == 1 || seed[0] < 'A' && seed[1] < 'A')
	ref, want := g.ref([]int{2, 6}[sym.Choice("ref", 2)], seed)
	g.add(sym.Choice("pos", 9), ref, want)
	for i := 0; i < 2; i++ {
		ref, want = g.ref(sym.Choice("next", 4), "3")
		g.add(0, ref, want)
	}
	g.check()
}
