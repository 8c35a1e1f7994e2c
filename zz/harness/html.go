//go:build go1.22

package harness

// A small HTML/XML scanner: an independent reader of what the renderer wrote.

type htmlAttr struct{ name, value string }

type htmlTok struct {
	kind  byte // 'o' open, 'c' close, 's' self-closed or void, 't' text, '!' comment or doctype
	name  string
	text  string // text of 't', raw
	attrs []htmlAttr
}

func (t *htmlTok) attr(name string) (string, bool) {
	for _, a := range t.attrs {
		if a.name == name {
			return a.value, true
		}
	}
	return "", false
}

func isNameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == ':' || c == '.'
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func isVoid(name string) bool {
	switch name {
	case "br", "hr", "img", "input", "meta", "link", "col", "source", "param", "wbr", "area", "base", "embed", "track":
		return true
	}
	return false
}

// entityEnd returns the index after the character reference starting at s[i]=='&', or -1.
func entityEnd(s string, i int, xml bool) int {
	j := i + 1
	if j < len(s) && s[j] == '#' {
		j++
		hex := j < len(s) && s[j] == 'x'
		if hex {
			j++
		}
		k := j
		for k < len(s) && (s[k] >= '0' && s[k] <= '9' || hex && (s[k] >= 'a' && s[k] <= 'f' || s[k] >= 'A' && s[k] <= 'F')) {
			k++
		}
		if k > j && k < len(s) && s[k] == ';' {
			return k + 1
		}
		return -1
	}
	k := j
	for k < len(s) && (isAlpha(s[k]) || s[k] >= '0' && s[k] <= '9') {
		k++
	}
	if k == j || k >= len(s) || s[k] != ';' {
		return -1
	}
	if xml {
		switch s[j:k] {
		case "amp", "lt", "gt", "quot", "apos":
		default:
			return -1
		}
	}
	return k + 1
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// scanHTML splits s in tokens; the second result describes the first lexical error ("" when none).
func scanHTML(s string, xml bool) (toks []htmlTok, bad string) {
	i := 0
	for i < len(s) {
		if s[i] != '<' {
			j := i
			for j < len(s) && s[j] != '<' {
				if s[j] == '&' {
					e := entityEnd(s, j, xml)
					if e < 0 {
						return toks, "stray '&' in text: " + excerpt(s, j)
					}
					j = e
					continue
				}
				j++
			}
			toks = append(toks, htmlTok{kind: 't', text: s[i:j]})
			i = j
			continue
		}
		if hasAt(s, i, "<!--") {
			j := indexFrom(s, i+4, "-->")
			if j < 0 {
				return toks, "unterminated comment"
			}
			toks = append(toks, htmlTok{kind: '!', text: s[i : j+3]})
			i = j + 3
			continue
		}
		if hasAt(s, i, "<!DOCTYPE") || hasAt(s, i, "<?xml") {
			j := indexFrom(s, i, ">")
			if j < 0 {
				return toks, "unterminated declaration"
			}
			toks = append(toks, htmlTok{kind: '!', text: s[i : j+1]})
			i = j + 1
			continue
		}
		j := i + 1
		kind := byte('o')
		if j < len(s) && s[j] == '/' {
			kind = 'c'
			j++
		}
		n := j
		for j < len(s) && isNameByte(s[j]) {
			j++
		}
		if j == n || !isAlpha(s[n]) {
			return toks, "stray '<': " + excerpt(s, i)
		}
		t := htmlTok{kind: kind, name: s[n:j]}
		for {
			sp := j
			for j < len(s) && isSpace(s[j]) {
				j++
			}
			if j >= len(s) {
				return toks, "unterminated tag: " + excerpt(s, i)
			}
			if s[j] == '>' {
				j++
				break
			}
			if s[j] == '/' && j+1 < len(s) && s[j+1] == '>' {
				if kind == 'c' {
					return toks, "bad closing tag: " + excerpt(s, i)
				}
				t.kind = 's'
				j += 2
				break
			}
			if kind == 'c' || sp == j {
				return toks, "bad tag: " + excerpt(s, i)
			}
			a := j
			for j < len(s) && isNameByte(s[j]) {
				j++
			}
			if a == j {
				return toks, "bad attribute name: " + excerpt(s, i)
			}
			at := htmlAttr{name: s[a:j]}
			if j < len(s) && s[j] == '=' {
				j++
				if j >= len(s) || s[j] != '"' {
					return toks, "unquoted attribute: " + excerpt(s, i)
				}
				j++
				v := j
				for j < len(s) && s[j] != '"' {
					if s[j] == '<' {
						return toks, "'<' in attribute: " + excerpt(s, i)
					}
					if s[j] == '&' {
						e := entityEnd(s, j, xml)
						if e < 0 && at.name != "src" { // tests of the repository pin raw '&' in the URL of images
							return toks, "stray '&' in attribute: " + excerpt(s, i)
						}
						if e > 0 {
							j = e
							continue
						}
					}
					j++
				}
				if j >= len(s) {
					return toks, "unterminated attribute: " + excerpt(s, i)
				}
				at.value = s[v:j]
				j++
			} else if xml {
				return toks, "attribute without a value: " + excerpt(s, i)
			}
			for _, o := range t.attrs {
				if o.name == at.name {
					return toks, "duplicate attribute: " + excerpt(s, i)
				}
			}
			t.attrs = append(t.attrs, at)
		}
		if t.kind == 'o' && !xml && isVoid(t.name) {
			t.kind = 's'
		}
		toks = append(toks, t)
		i = j
		if t.kind == 'o' && (t.name == "script" || t.name == "style") {
			e := indexFrom(s, i, "</"+t.name)
			if e < 0 {
				return toks, "unterminated " + t.name
			}
			toks = append(toks, htmlTok{kind: 't', text: s[i:e]})
			i = e
		}
	}
	return toks, ""
}

// balanced checks that every open tag is closed, in order.
func balanced(toks []htmlTok) string {
	var stack []string
	for i := range toks {
		t := &toks[i]
		switch t.kind {
		case 'o':
			stack = append(stack, t.name)
		case 'c':
			if len(stack) == 0 {
				return "</" + t.name + "> closes nothing"
			}
			if top := stack[len(stack)-1]; top != t.name {
				return "</" + t.name + "> closes <" + top + ">"
			}
			stack = stack[:len(stack)-1]
		}
	}
	if len(stack) > 0 {
		return "<" + stack[len(stack)-1] + "> is not closed"
	}
	return ""
}

// wellFormed scans and checks the balance.
func wellFormed(s string, xml bool) ([]htmlTok, string) {
	toks, bad := scanHTML(s, xml)
	if bad != "" {
		return toks, bad
	}
	return toks, balanced(toks)
}

// innerText concatenates the decoded text of tokens.
func innerText(toks []htmlTok) string {
	r := ""
	for i := range toks {
		if toks[i].kind == 't' {
			r += unescape(toks[i].text)
		}
	}
	return r
}

// unescape decodes the five predefined entities and numeric references below 128; others stay.
func unescape(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		if s[i] == '&' {
			done := false
			for _, p := range [...][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&#34;", "\""}, {"&#39;", "'"}, {"&apos;", "'"}} {
				if hasAt(s, i, p[0]) {
					b = append(b, p[1]...)
					i += len(p[0])
					done = true
					break
				}
			}
			if done {
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

func hasAt(s string, i int, p string) bool { return len(s)-i >= len(p) && s[i:i+len(p)] == p }

func indexFrom(s string, i int, p string) int {
	for ; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p {
			return i
		}
	}
	return -1
}

func excerpt(s string, i int) string {
	a, b := i-15, i+45
	if a < 0 {
		a = 0
	}
	if b > len(s) {
		b = len(s)
	}
	return s[a:b]
}
