//go:build go1.22

package harness

import "strings"

// node is an element of the output, or a text.
type node struct {
	tok    *htmlTok // nil for the root
	parent *node
	kids   []*node
}

// dom makes a tree of well-formed tokens.
func dom(toks []htmlTok) *node {
	root := &node{}
	cur := root
	for i := range toks {
		t := &toks[i]
		switch t.kind {
		case 'c':
			cur = cur.parent
		case '!':
		default:
			n := &node{tok: t, parent: cur}
			cur.kids = append(cur.kids, n)
			if t.kind == 'o' {
				cur = n
			}
		}
	}
	return root
}

func (n *node) name() string {
	if n.tok == nil || n.tok.kind == 't' {
		return ""
	}
	return n.tok.name
}

func (n *node) attr(name string) string {
	if n.tok == nil {
		return ""
	}
	v, _ := n.tok.attr(name)
	return unescape(v)
}

func (n *node) has(name string) bool {
	if n.tok == nil {
		return false
	}
	_, ok := n.tok.attr(name)
	return ok
}

// class tells whether the class is one of the element's.
func (n *node) class(c string) bool {
	for _, w := range strings.Fields(n.attr("class")) {
		if w == c {
			return true
		}
	}
	return false
}

// each visits the elements, in order, parents first; f returns false to skip the children.
func (n *node) each(f func(*node) bool) {
	for _, k := range n.kids {
		if k.name() == "" {
			continue
		}
		if f(k) {
			k.each(f)
		}
	}
}

// find returns the elements with the given name (or any) and class (or any).
func (n *node) find(name, class string) []*node {
	var r []*node
	n.each(func(k *node) bool {
		if (name == "" || k.name() == name) && (class == "" || k.class(class)) {
			r = append(r, k)
		}
		return true
	})
	return r
}

// text is the text within, decoded and squeezed.
func (n *node) text() string { return squeeze(n.rawText()) }

func (n *node) rawText() string {
	if n.tok != nil && n.tok.kind == 't' {
		return unescape(n.tok.text)
	}
	if n.name() == "br" {
		return "\n"
	}
	s := ""
	for _, k := range n.kids {
		s += k.rawText()
	}
	return s
}

// elems are the children which are elements.
func (n *node) elems() []*node {
	var r []*node
	for _, k := range n.kids {
		if k.name() != "" {
			r = append(r, k)
		}
	}
	return r
}

// own is the text of the node itself: the texts not within child elements of the given names.
func (n *node) own(skip ...string) string {
	s := ""
next:
	for _, k := range n.kids {
		for _, x := range skip {
			if k.name() == x {
				continue next
			}
		}
		s += k.rawText()
	}
	return squeeze(s)
}
