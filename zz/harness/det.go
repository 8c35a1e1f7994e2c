//go:build go1.22

package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["DetMap"] = DetMap
	All["DetMapFull"] = DetMapFull
	All["DetMapAll"] = DetMapAll
	All["DetRace"] = DetRace
}

// --- C07: the result is a function of the document and of the configuration

var detDocs = []string{
	"[#i~.r1.r2%o1%o2,a=b,c=d]\npara",
	"[a={counter:x},b={counter:x},role={counter:x}]\npara {counter:x}",
	"[%header%autowidth.r,cols=\"1,2\",options=\"footer\",width=\"50%\",frame=none]\n.t\n|===\n|a |b\n\n|c |~\n|===",
	"image::a.png[alt {counter:x}, {counter:x}, {counter:x}, link={counter:x}, title={counter:x}, role={counter:x}]",
	":a: {b}\n:b: {a}\n:c: {a}{b}\n\n{a} {b} {c}~",
	"= T\nA B <c@d>; E F <g@h>\nv1.0, 2020-01-01: r\n:toc:\n:x: y\n\n== a\n\n== ~\n\n{author} {author_2} {revnumber}",
	"[quote, \"{counter:x}\", \"{counter:x}\"]\nx~",
	"[subs=\"quotes,attributes,macros\"]\n----\n*~* {a} http://x[y,role=a,window=b]\n----",
	"== a\n\n== a\n\n== a~\n\n<<_a>> <<_a_2>> xref:x.adoc[a~,role=b]",
	"x footnote:a[y~] footnote:b[z] footnote:a[]",
	"[source,go,linenums,start=3,a=b]\n----\nx <1>\n----\n<1> ~",
	"[start=4,%reversed,loweralpha,a=b]\n.t\n. x\n. ~",
	"a::\n[horizontal,labelwidth=3,itemwidth=4]\nb:: ~",
	"[NOTE,caption=a,icon=b]\n.*t~*\n====\nx\n====",
	"[\"a~\",b=`c`,d=\"*e*\",f='_g_',title={counter:x}]\nx",
	"link:x[a~,title=http://b[c]] image:d[e,title=http://f[g],link=http://h[i]] link:j[k,role=*l*,title=_m_]",
	"link:x[a~,window=_blank,role=b,id=c,title=d,opts=nofollow] icon:x[a,role=b,size=c,link=d]",
	"[cols=\"a,e,>.^m\",stripes=odd,grid=none,frame=sides,width=40%,float=left,caption=c]\n|===\n|{counter:x}|*~*|{counter:x}\n|===",
	"[.a~]#x# [#b.c%d]*y* [e=f,g=h]_z_",
	"[a='{counter:x}',b='{counter:x}']\n.t{counter:x}\n----\nx\n----",
	"a (C) b -- c... 'x' \"`~`\" a's",
	"[a=x{counter:x},c=y{counter:x},title=*{counter:x}*,role={counter:x}]\n====\n[a={counter:x},title={counter:x}]\nx\n====",
}

func det(dev int, docs []string, alphabet string) {
	src := fill(pick(docs), alphabet)
	conf := sym.Choice("conf", 2)
	one := func() string {
		var r result
		if conf == 0 {
			r = run(src, full(), configuration.WithLastUpdated(time.Unix(0, 0)), attr("p", "q"), attr("icons", "font"), attr("sectnums", true))
		} else {
			r = run(src, xhtml(), configuration.WithLastUpdated(time.Unix(0, 0)))
		}
		toc := ""
		if r.md.TableOfContents != nil {
			for _, s := range r.md.TableOfContents.Sections {
				toc += s.ID + "/" + s.Title + "\n"
			}
		}
		who := ""
		for _, a := range r.md.Authors {
			who += a.FullName() + a.Email
		}
		return r.out + "\x00" + fmt.Sprint(r.err) + "\x00" + r.md.Title + r.md.LastUpdated + who + toc
	}
	sym.Note(src)
	sym.MapDeviate(0)
	want := one()
	n := 1
	if !sym.Symbolic() {
		n = 200
	}
	for i := 0; i < n; i++ {
		sym.MapDeviate(dev)
		got := one()
		sym.MapDeviate(0)
		sym.Assert(got == want, "the result depends on the order of the iteration over a map")
	}
	sym.Cover("det")
}

// DetMap: every single iteration over a map may go the other way round.
func DetMap() { det(1, detDocs, "a") }

// DetMapFull: any two of them.
func DetMapFull() { det(2, detDocs, "a<*") }

// detAll: the templates of the other properties too.
func detAll() []string {
	var all []string
	for _, l := range [][]string{detDocs, escCtx, verbCtx, inlineTmpl, blockTmpl, headerTmpl, manTmpl, schedDocs, isoSet, isoShow} {
		all = append(all, l...)
	}
	return all
}

// once keeps the first '~' only.
func once(docs []string) []string {
	r := make([]string, len(docs))
	for i, d := range docs {
		k := strings.IndexByte(d, '~')
		r[i] = d[:k+1] + strings.ReplaceAll(d[k+1:], "~", "b")
	}
	return r
}

// DetMapAll: every single iteration over a map, with the templates of other properties.
func DetMapAll() { det(1, once(detAll()), "a*{") }

// DetRace: the stages of a conversion do not race with one another.
func DetRace() {
	src := fill(pick(once(detAll())), "a{")
	sym.Note(src)
	sym.Race(true)
	run(src, attr("icons", "font"))
	sym.Race(false)
	sym.Cover("race")
}
