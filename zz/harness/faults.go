//go:build go1.22

package harness

import (
	"errors"
	"io"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/parser"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["ReadFault"] = ReadFault
	All["ReadChunks"] = ReadChunks
	All["WriteFault"] = WriteFault
	All["LongLines"] = LongLines
	All["FileSame"] = FileSame
	All["LeftOver"] = LeftOver
	All["PipeStop"] = PipeStop
	All["PipeSched"] = PipeSched
	All["PipeSchedFull"] = PipeSchedFull
}

// --- C20: faults of readers and writers

var errFault = errors.New("fault")

// faulty is a reader which returns its content by chunks, then an error.
type faulty struct {
	content string
	pos     int
	chunk   int
	end     error
	early   bool // the error comes along with the last bytes
	empty   int  // reads which return nothing
}

func (r *faulty) Read(p []byte) (int, error) {
	if r.empty > 0 {
		r.empty--
		return 0, nil
	}
	if r.pos >= len(r.content) {
		return 0, r.end
	}
	n := r.chunk
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.content[r.pos:])
	r.pos += n
	if r.early && r.pos == len(r.content) {
		return n, r.end
	}
	return n, nil
}

var faultDocs = []string{
	"a ~b\n\n* c\n\n== d\n\ne", "= T~\nA B\n:toc:\n\n== S\n\n----\nx\ny~", "====\na~\n\nb\n====\n\n|===\n|a|b\n\n|c~|d\n|===\n", "ifdef::a~[]\nb\nendif::[]\r\nc\r\n\r\nd", "~",
	"include::inc.adoc[]\n\nc~\n\nfootnote:[x]", ":a: b\n\n{a}\n// c\n~",
}

// ReadFault: an error of the reader, at any place, is returned, and nothing is written.
func ReadFault() {
	sym.WriteFile("inc.adoc", "included\n\ntext")
	src := fill(pick(faultDocs), "x*\n")
	k := sym.Int("at", 0, len(src))
	r := &faulty{content: src[:k], chunk: sym.Choice("chunk", 3)*7 + 1, end: errFault, early: sym.Bool("early"), empty: sym.Choice("empty", 2)}
	out := &strings.Builder{}
	_, err := libasciidoc.Convert(r, out, configuration.NewConfiguration(mainFile(), full()))
	sym.Note(src[:k])
	sym.Assert(err != nil, "an error of the reader is lost")
	sym.Assert(out.Len() == 0, "a part of the document is written")
	sym.Cover("read")
}

// ReadChunks: the result does not depend on how the reader splits its content.
func ReadChunks() {
	sym.WriteFile("inc.adoc", "included\n\ntext")
	src := fill(pick(faultDocs), "x*\n")
	want := run(src, mainFile())
	out := &strings.Builder{}
	r := &faulty{content: src, chunk: sym.Choice("chunk", 9) + 1, end: io.EOF, early: sym.Bool("early"), empty: sym.Choice("empty", 3)}
	_, err := libasciidoc.Convert(r, out, configuration.NewConfiguration(mainFile()))
	sym.Note(src)
	sym.Assert((err == nil) == (want.err == nil) && out.String() == want.out, "the result depends on the size of the reads")
	sym.Cover("chunks")
}

// limited is a writer which fails after some bytes.
type limited struct {
	written strings.Builder
	max     int
}

func (w *limited) Write(p []byte) (int, error) {
	if n := w.max - w.written.Len(); len(p) > n {
		w.written.Write(p[:n])
		return n, errFault
	}
	return w.written.Write(p)
}

// WriteFault: an error of the writer, at any place, is returned; what was written
// before is the beginning of the result.
func WriteFault() {
	sym.WriteFile("inc.adoc", "included\n\ntext")
	src := fill(pick(faultDocs), "x*\n")
	settings := []configuration.Setting{mainFile(), configuration.WithHeaderFooter(sym.Bool("full")), configuration.WithBackEnd([]string{"html5", "xhtml5"}[sym.Choice("backend", 2)])}
	want := run(src, settings...)
	at := []int{0, 1, 10, len(want.out) / 3, len(want.out) / 2, len(want.out) - 20, len(want.out) - 1, len(want.out)}[sym.Choice("at", 8)]
	if at < 0 || at > len(want.out) {
		at = len(want.out)
	}
	w := &limited{max: at}
	_, err := libasciidoc.Convert(strings.NewReader(src), w, configuration.NewConfiguration(settings...))
	sym.Note(src)
	if at < len(want.out) {
		sym.Assert(err != nil, "an error of the writer is lost")
		sym.Cover("write")
	} else {
		sym.Assert(err == nil, "fails without a fault")
	}
	sym.Assert(strings.HasPrefix(want.out, w.written.String()), "the output is not the beginning of the result")
}

// LongLines: lines of any length are converted, in the document and in included files.
func LongLines() {
	long := strings.Repeat("x", []int{4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000}[sym.Choice("len", 8)])
	nl := []string{"\n", "\r\n"}[sym.Choice("nl", 2)]
	var r result
	switch sym.Choice("where", 3) {
	case 0:
		r = run("----"+nl+"first"+nl+long+nl+"last"+nl+"----", mainFile())
	case 1:
		sym.WriteFile("inc.adoc", "first"+nl+long+nl+"last")
		r = run("----"+nl+"include::inc.adoc[]"+nl+"----", mainFile())
	case 2:
		sym.WriteFile("inc.txt", "zero"+nl+"first"+nl+long+nl+"last"+nl)
		r = run("----"+nl+"include::inc.txt[lines=2..4]"+nl+"----", mainFile())
	}
	sym.Assert(r.err == nil, "a long line is not supported")
	out := strings.ReplaceAll(r.out, "\r", "")
	sym.Assert(strings.Contains(out, ">first\n"+long+"\nlast<"), "a long line is lost")
	sym.Cover("long")
}

// FileSame: converting a file is converting its content, up to its date; a file
// which cannot be read is an error.
func FileSame() {
	sym.WriteFile("inc.adoc", "included\n\ntext")
	sym.Mkdir("d.adoc")
	src := fill(pick(faultDocs), "x*\n")
	sym.WriteFile("main.adoc", src)
	name := []string{"main.adoc", "none.adoc", "d.adoc", "main.adoc/x.adoc"}[sym.Choice("name", 4)]
	settings := []configuration.Setting{configuration.WithFilename(name), configuration.WithHeaderFooter(sym.Bool("full")), configuration.WithBackEnd([]string{"html5", "xhtml5"}[sym.Choice("backend", 2)])}
	out := &strings.Builder{}
	cfg := configuration.NewConfiguration(settings...)
	md, err := libasciidoc.ConvertFile(out, cfg)
	sym.Assert(sym.OpenFiles() == 0, "a file is left open")
	if name != "main.adoc" {
		sym.Assert(err != nil, "a file which cannot be read is not an error")
		sym.Assert(out.Len() == 0, "something is written without a document")
		sym.Cover("fault")
		return
	}
	want := run(src, append(settings, configuration.WithLastUpdated(cfg.LastUpdated))...)
	sym.Note(src)
	sym.Assert((err == nil) == (want.err == nil) && out.String() == want.out, "converting a file is not converting its content")
	sym.Assert(err != nil || md.Title == want.md.Title, "the title of a file is not the one of its content")
	sym.Cover("file")
}

// --- C02: nothing is left behind

var leftDocs = []string{
	"~", "a ~\n\n* b\n\n== c", "include::inc.adoc[~]\n\nb", "include::none~.adoc[]", "[subs=x~]\na\n\nb", "= T\n:toc: x~\n\n== a", ":icons: x~\n\nNOTE: a", "include::inc.adoc[tag=~]", "include::main.adoc[]", "include::dir/sub.adoc[]\n\n~",
	"ifdef::a[]\n~", "----\n~", "image::a~.png[]\n\n:imagesdir: b", "a::~\n\n[cols=~]\n|===\n|a\n|===", "include::d.adoc[~]\n\na",
}

// LeftOver: once a conversion has returned, whatever its result, its goroutines
// end, its files are closed and the working directory is as before.
func LeftOver() {
	sym.WriteFile("inc.adoc", "// tag::a[]\nincluded\n// end::a[]\n\ntext")
	sym.WriteFile("main.adoc", "include::main.adoc[]")
	sym.Mkdir("d.adoc")
	sym.WriteFile("dir/sub.adoc", "include::../inc.adoc[]\n\ninclude::other/none.adoc[]")
	wd := sym.Getwd()
	src := fill(pick(leftDocs), "x=*1\n") + strings.Repeat("\n\npara\n\n== sec", sym.Choice("more", 3)*8)
	settings := []configuration.Setting{mainFile(), full(), configuration.WithBackEnd([]string{"html5", "docbook"}[sym.Choice("backend", 2)])}
	var r result
	switch sym.Choice("fault", 3) {
	case 0:
		out := &limited{max: 10}
		_, r.err = libasciidoc.Convert(strings.NewReader(src), out, configuration.NewConfiguration(settings...))
	case 1:
		sym.WriteFile("doc.adoc", src)
		_, r.err = libasciidoc.ConvertFile(&strings.Builder{}, configuration.NewConfiguration(append(settings, configuration.WithFilename("doc.adoc"))...))
	default:
		r = run(src, settings...)
	}
	if r.err != nil {
		sym.Cover("error")
	} else {
		sym.Cover("converted")
	}
	sym.Note(src)
	sym.Assert(sym.Drain() == 0, "a goroutine is left behind")
	sym.Assert(sym.OpenFiles() == 0, "a file is left open")
	sym.Assert(sym.Getwd() == wd, "the working directory has changed")
}

// PipeStop: the stages of the parser end when their consumer stops, at any point.
func PipeStop() {
	cfg := configuration.NewConfiguration()
	done := make(chan interface{})
	src := strings.Repeat("para\n\n* item\n\n", 1+sym.Choice("docs", 3)*14)
	ctx := func() *parser.ParseContext { return parser.NewParseContext(cfg) }
	r := strings.NewReader(src)
	stages := sym.Choice("stages", 6)
	var c <-chan types.DocumentFragment = parser.ParseDocumentFragments(ctx(), r, done)
	if stages > 0 {
		c = parser.RefineFragments(ctx(), r, done, c)
	}
	if stages > 1 {
		c = parser.ApplySubstitutions(ctx(), done, c)
	}
	if stages > 2 {
		c = parser.CollectFootnotes(types.NewFootnotes(), done, c)
	}
	if stages > 3 {
		c = parser.ArrangeLists(done, c)
	}
	if stages > 4 {
		c = parser.FilterOut(done, c)
	}
	for k := sym.Choice("read", 4) * 5; k > 0; k-- {
		if _, ok := <-c; !ok {
			sym.Cover("end")
			break
		}
	}
	if sym.Bool("full") {
		sym.Drain() // the stages work until their channels are full
	}
	close(done)
	sym.Assert(sym.Drain() == 0, "a stage of the parser does not end")
	sym.Cover("stop")
}

var schedDocs = []string{
	"a\n\n== b\n\nc", "= T\n:x: 1\n\n{x}", "* a\n* b\n\nfootnote:[c] {counter:d}\n\n{counter:d}",
	":x: ~\n\nfootnote:[{x}] {counter:d}\n\n== a\n\nfootnote:[~] {counter:d}", "[[~]]\n== a\n\n.{x}\n----\n<1>\n----\n<1> ~\n\n:x: y\n\n{x}",
}

// PipeSched: the result is the same for every schedule of the stages.
func PipeSched() { pipeSched(schedDocs[:3]) }

// PipeSchedFull is the same with longer documents and symbolic bytes.
func PipeSchedFull() { pipeSched(schedDocs[3:]) }

func pipeSched(docs []string) {
	src := fill(pick(docs), "a{\n")
	want := run(src)
	sym.Sched(true)
	got := run(src)
	sym.Sched(false)
	sym.Assert(want.out == got.out && sym.Drain() == 0, "the result depends on the schedule")
	sym.Cover("sched")
}
