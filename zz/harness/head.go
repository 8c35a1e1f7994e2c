//go:build go1.22

package harness

import (
	"strings"

	"github.com/bytesparadise/libasciidoc/zz_verif/sym"
)

func init() {
	All["HeadAuthors"] = HeadAuthors
	All["HeadRevision"] = HeadRevision
	All["HeadAttrs"] = HeadAttrs
}

// --- C27: the header of the document is what its lines declare

// headRefs is a block which shows the values of the given attributes.
func headRefs(names ...string) string {
	s := "\n\n[subs=\"attributes,specialchars\"]\n----\n."
	for _, n := range names {
		s += "\n" + n + "[{" + n + "}]"
	}
	return s + "\n----"
}

// headIDs are the elements with an identifier, in the header of the output.
func headIDs(root *node) map[string]*node {
	m := map[string]*node{}
	for _, h := range root.find("div", "") {
		if h.attr("id") == "header" {
			for _, n := range h.find("", "") {
				if id := n.attr("id"); id != "" {
					m[id] = n
				}
			}
		}
	}
	return m
}

func checkHead(src string, spans, values map[string]string, names []string) {
	src += headRefs(names...)
	sym.Note(src)
	r := run(src, full())
	sym.Assert(r.err == nil, "fails")
	toks, bad := wellFormed(r.out, false)
	sym.Assert(bad == "", "not well formed")
	root := dom(toks)
	ids := headIDs(root)
	for id, want := range spans {
		if id == "meta" {
			continue
		}
		got := ""
		if n := ids[id]; n != nil {
			got = n.text()
		}
		if got != squeeze(want) {
			sym.Note(id + ": got " + got + " want " + want)
			sym.Fail("the header is different")
		}
	}
	if values != nil {
		want := "."
		for _, n := range names {
			v := values[n]
			if v == "" {
				v = "{" + n + "}" // not set
			}
			want += " " + n + "[" + v + "]"
		}
		got := ""
		for _, n := range root.find("pre", "") {
			got += n.text()
		}
		if got != squeeze(want) {
			sym.Note("got " + got + " want " + want)
			sym.Fail("the attributes of the header are different")
		}
	}
	meta := ""
	for _, n := range root.find("meta", "") {
		if n.attr("name") == "author" {
			meta = n.attr("content")
		}
	}
	if want := spans["meta"]; meta != want {
		sym.Note("got " + meta + " want " + want)
		sym.Fail("the authors of the document are different")
	}
	sym.Cover("head")
}

// HeadAuthors: 1 or 2 authors, with 1 to 3 names and an email.
func HeadAuthors() {
	line, meta := "", ""
	spans, values := map[string]string{}, map[string]string{}
	var names []string
	n := 1 + sym.Choice("authors", 2)
	for i := 0; i < n; i++ {
		suffix, number := "", ""
		if i > 0 {
			suffix, number = "_2", "2"
			line += []string{"; ", ";", " ; "}[sym.Choice("sep", 3)]
		}
		nf, np := 5, 4
		if n == 2 {
			nf, np = 3, 2
		}
		first := fill([]string{"\u00c9d", "A_b", "O'~", "Ab", "~b."}[sym.Choice("first", nf)], "aZ0&-.")
		parts := []string{first}
		switch sym.Choice("parts", np) {
		case 1:
			parts = append(parts, "La-st")
		case 2:
			parts = append(parts, "\u00c7.", "\u00e0 Z_y")
		case 3:
			parts = append(parts, "M_n", "L&t")
		}
		w := strings.Join(parts, " ")
		line += w
		full := strings.ReplaceAll(w, "_", " ")
		initials := ""
		for _, p := range parts {
			for _, c := range strings.ReplaceAll(p, "_", " ") {
				initials += string(c)
				break
			}
		}
		values["author"+suffix], values["authorinitials"+suffix], values["firstname"+suffix] = full, initials, strings.ReplaceAll(first, "_", " ")
		if len(parts) == 3 {
			values["middlename"+suffix] = strings.ReplaceAll(parts[1], "_", " ")
		}
		if len(parts) > 1 {
			values["lastname"+suffix] = strings.ReplaceAll(parts[len(parts)-1], "_", " ")
		}
		spans["author"+number] = full
		spans["email"+number] = ""
		if sym.Choice("email", 2) == 1 {
			e := fill("a.~@b-c.d", "a_+&")
			line += " <" + e + ">"
			values["email"+suffix], spans["email"+number] = e, e
		}
		names = append(names, "author"+suffix, "authorinitials"+suffix, "firstname"+suffix, "middlename"+suffix, "lastname"+suffix, "email"+suffix)
		if meta != "" {
			meta += "; "
		}
		meta += full
	}
	spans["meta"] = meta
	if n == 1 {
		spans["author2"] = ""
	}
	checkHead("= T\n"+line, spans, values, names)
}

// HeadRevision: the number, date and remark of a revision.
func HeadRevision() {
	num := fill([]string{"", "1", "1.~", "10.~.2", "2-~"}[sym.Choice("num", 5)], "a0-")
	v := []string{"", "v", "V"}[sym.Choice("v", 3)]
	date := fill([]string{"", "2020-01-~", "Jan ~, 2020"}[sym.Choice("date", 3)], "a0.")
	remark := fill([]string{"", "r~ s", "r: s, ~", "~x"}[sym.Choice("remark", 4)], "a0&<\"")
	sp := []string{"", " "}[sym.Choice("space", 2)]
	sym.Assume(num != "" || v == "")
	line := v + num
	if date != "" {
		if num != "" {
			line += "," + sp
		}
		line += date
	} else if num != "" && v == "" {
		line += ","
	}
	sym.Assume(line != "")
	if remark != "" {
		line += ":" + sp + remark
	}
	comment := []string{"", "// c\n"}[sym.Choice("comment", 2)]
	spans := map[string]string{"author": "A B", "meta": "A B", "revnumber": "", "revdate": date, "revremark": remark}
	if num != "" {
		spans["revnumber"] = "version " + num
		if date != "" {
			spans["revnumber"] += ","
		}
	}
	values := map[string]string{"revnumber": num, "revdate": date, "revremark": remark}
	checkHead("= T\nA B\n"+comment+line, spans, values, []string{"revnumber", "revdate", "revremark"})
}

// HeadAttrs: the same, as attributes.
func HeadAttrs() {
	spans := map[string]string{"meta": ""}
	s := "= T"
	attrs := [][3]string{{"author", "author", "A~"}, {"email", "email", "a~@b"}, {"revnumber", "revnumber", "1~"}, {"revdate", "revdate", "d~"}, {"revremark", "revremark", "r~"}, {"description", "", "d~"}}
	if sym.Choice("order", 2) == 1 {
		for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	for _, a := range attrs {
		if sym.Choice("with", 2) == 1 {
			v := fill(a[2], "a&<'\".")
			s += "\n:" + a[0] + ": " + v
			spans[a[1]] = v
		} else {
			spans[a[1]] = ""
		}
	}
	delete(spans, "")
	if spans["author"] == "" { // no details
		sym.Assume(false)
	}
	spans["meta"] = spans["author"]
	if spans["revnumber"] != "" {
		spans["revnumber"] = "version " + spans["revnumber"]
		if spans["revdate"] != "" {
			spans["revnumber"] += ","
		}
	}
	checkHead(s, spans, nil, nil)
}
