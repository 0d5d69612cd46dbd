package main

import (
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

// ---- documents with known structure

type attr struct{ name, val string }

type node struct {
	name  string
	attrs []attr
	items []any // *node or string (text, comment, CDATA, PI as written)
	self  bool
	// offsets in the rendered document
	start, open, close, end int
	parent                  *node
}

type docT struct {
	roots []*node
	lead  []string // markup before each root
	tail  string
	text  string
}

var namePool = []string{"a", "b", "item", "name", "ns:a", "x:item", "A", "Item", "root", "user", "a-b", "_u", "n1", "café"}

func pick[T any](c *ctx, xs []T) T { return xs[c.Intn(len(xs))] }

var textPool = []string{"", "x", "42", " 3.5 ", "Joe", "a &amp; b", "&lt;tag&gt;", "&#65;", "&amp;lt;", "é日本", "\n  ", "-7", "true", "1e3", "NaN", "&quot;q&apos;", "\t", "Inf", "007", "a.b", "*", "0x10", "&unknown;", "]]", "--", "/", "'", "\"", "=", "\\"}
var miscPool = []string{"<!-- c -->", "<!---->", "<!-- <a>x</a> -->", "<![CDATA[x]]>", "<![CDATA[<a>]]>", "<![CDATA[]]>", "<?pi x?>", "<!-- ' \" > -->", "<![CDATA[ ]] > ]]>", "<!-- </a> -->"}

func (c *ctx) node(depth int, parent *node, names []string) *node {
	n := &node{name: pick(c, names), parent: parent}
	for k := c.Intn(4) - 1; k > 0; k-- {
		an := pick(c, []string{"id", "x", "ns:y", "Z", "class", "k", "idx", "id", "ID"})
		dup := false
		for _, a := range n.attrs {
			dup = dup || a.name == an
		}
		if !dup {
			n.attrs = append(n.attrs, attr{an, pick(c, []string{"", "1", "v w", "&lt;&amp;", "a&gt;b", "it's", "é", ">", "/>", "5", " pad "})})
		}
	}
	if c.Intn(6) == 0 {
		n.self = true
		return n
	}
	k := c.Intn(5)
	if depth <= 0 {
		k = c.Intn(2)
	}
	for ; k > 0; k-- {
		switch x := c.Intn(10); {
		case x < 5 && depth > 0:
			n.items = append(n.items, c.node(depth-1, n, names))
		case x < 8:
			n.items = append(n.items, pick(c, textPool))
		default:
			n.items = append(n.items, pick(c, miscPool))
		}
	}
	return n
}

func (c *ctx) doc() *docT {
	d := &docT{}
	k := 1
	if c.Intn(5) == 0 {
		k += c.Intn(3)
	}
	names := namePool
	if c.Intn(2) == 0 {
		names = []string{"a", "b", "item"}
	}
	for ; k > 0; k-- {
		d.roots = append(d.roots, c.node(c.Intn(4), nil, names))
		l := ""
		if c.Intn(3) == 0 {
			l = pick(c, []string{"\n", " ", "<!-- lead -->", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?>\n"})
		}
		d.lead = append(d.lead, l)
	}
	if c.Intn(4) == 0 {
		d.tail = pick(c, []string{"\n", "<!-- tail -->", "  "})
	}
	d.render(c)
	return d
}

func (d *docT) render(c *ctx) {
	var b strings.Builder
	var w func(n *node)
	w = func(n *node) {
		n.start = b.Len()
		b.WriteString("<" + n.name)
		for _, a := range n.attrs {
			sp := " "
			if c != nil && c.Intn(8) == 0 {
				sp = pick(c, []string{"  ", "\n", "\t "})
			}
			q := "\""
			if c != nil && c.Intn(4) == 0 && !strings.Contains(a.val, "'") {
				q = "'"
			}
			eq := "="
			if c != nil && c.Intn(10) == 0 {
				eq = pick(c, []string{" = ", "= ", " ="})
			}
			b.WriteString(sp + a.name + eq + q + a.val + q)
		}
		if c != nil && c.Intn(8) == 0 {
			b.WriteString(" ")
		}
		if n.self {
			b.WriteString("/>")
			n.open = b.Len()
			n.close, n.end = n.open, n.open
			return
		}
		b.WriteString(">")
		n.open = b.Len()
		for _, it := range n.items {
			switch it := it.(type) {
			case *node:
				w(it)
			case string:
				b.WriteString(it)
			}
		}
		n.close = b.Len()
		b.WriteString("</" + n.name)
		if c != nil && c.Intn(12) == 0 {
			b.WriteString(pick(c, []string{" ", "\n"}))
		}
		b.WriteString(">")
		n.end = b.Len()
	}
	for i, r := range d.roots {
		b.WriteString(d.lead[i])
		w(r)
	}
	b.WriteString(d.tail)
	d.text = b.String()
}

func (d *docT) all() []*node {
	var out []*node
	var w func(n *node)
	w = func(n *node) {
		out = append(out, n)
		for _, it := range n.items {
			if k, ok := it.(*node); ok {
				w(k)
			}
		}
	}
	for _, r := range d.roots {
		w(r)
	}
	return out
}

func (n *node) kids() []*node {
	var ks []*node
	for _, it := range n.items {
		if k, ok := it.(*node); ok {
			ks = append(ks, k)
		}
	}
	return ks
}

func local(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// nameMatch: the documented rule of name matching
func nameMatch(seg, elem string) bool {
	if strings.Contains(seg, ":") {
		return seg == elem
	}
	return seg == local(elem)
}

// ---- byte soup

var soup = []string{"<", ">", "</", "/>", "a", "b", "<a>", "</a>", "<b>", "</b>", "<a/>", "=", "\"", "'", " ", "\n", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "[", "]", "&", "&lt;", ";", "!", "/", "?", ":", "x='1'", "y=\"2\"", "\x00", "\x80", "é", "1", "-", ".", "#", "@", "%", "*", "\\", "|", "(", ")", "<a x=\"1\">", "<ns:a>", "</ns:a>", "text", "\t", "\r", "<!ENTITY", "<a ", "</a ", "<!", "<1", "{", "}"}

func (c *ctx) soup(max int) string {
	var b strings.Builder
	for k := c.Intn(max + 1); k > 0; k-- {
		b.WriteString(pick(c, soup))
	}
	return b.String()
}

// anyDoc: valid, damaged or arbitrary
func (c *ctx) anyDoc() string {
	switch c.Intn(5) {
	case 0:
		return c.soup(12)
	case 1, 2:
		s := c.doc().text
		for k := 1 + c.Intn(3); k > 0 && len(s) > 0; k-- {
			i := c.Intn(len(s))
			switch c.Intn(4) {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + pick(c, soup) + s[i:]
			case 2:
				s = s[:i]
			case 3:
				j := i + c.Intn(len(s)-i)
				s = s[:i] + s[j:]
			}
		}
		return s
	case 3:
		if len(c.seeds) > 0 {
			return pick(c, c.seeds)
		}
	}
	return c.doc().text
}

// ---- paths

var segPool = []string{"a", "b", "item", "name", "ns:a", "A", "root", "user", "#", "0", "1", "-1", "2", "*", "**", "@id", "@x", "@", "%", "#(id==1)", "#(@id==1)", "#(@id>0)#", "#(name%'J*')#", "#(a)", "#(b!=1)#", "#(a<5)", "#(@x!%\"v*\")#", "#.name", "#.@id", "#.%", "a|@first", "a|@reverse|@sort", "a|@pretty", "b|@ugly", "*|@flatten", "@pretty", "@this", "a\\.b", "\\", "a\\\\", "\\@id", "#(", "#()", "#(a==)", "#(a==')", "#(a%\")#", "#(a=='')", "a| ", "a|@", "a||@first", "|", "|@first", "a|", "a|@nosuch", "99999999999999999999", "-", "1-2", "--", "#(a.b>1)", "#(#(a))", "café", "*a", "a*", "a|@last", "#(@id>=1)", "#(a<=2)#", "#(%==x)"}

func (c *ctx) path() string {
	p := c.path1()
	if c.shallow {
		p = strings.ReplaceAll(p, "**", "*")
	}
	return p
}

func (c *ctx) path1() string {
	if c.Intn(25) == 0 {
		return c.soup(8)
	}
	if c.Intn(60) == 0 {
		return strings.Repeat(pick(c, []string{"a.", "**.", "*.", "#.", "a.0."}), c.Intn(120)) + "a"
	}
	k := 1 + c.Intn(4)
	var ps []string
	for ; k > 0; k-- {
		if c.Intn(3) > 0 {
			ps = append(ps, pick(c, segPool[:8]))
		} else {
			ps = append(ps, pick(c, segPool))
		}
	}
	return strings.Join(ps, ".")
}

// pathTo gives a path that selects exactly this node, with indexes where needed (or always).
func pathTo(c *ctx, d *docT, n *node) (string, bool) {
	var segs []string
	for x := n; x != nil; x = x.parent {
		sibs := d.roots
		if x.parent != nil {
			sibs = x.parent.kids()
		}
		seg := x.name
		if c.Intn(2) == 0 {
			seg = local(seg)
		}
		idx, cnt := -1, 0
		for _, s := range sibs {
			if nameRule(seg, s.name, c.fold) {
				if s == x {
					idx = cnt
				}
				cnt++
			}
		}
		if x.parent == nil && cnt > 1 && seg != x.name {
			return "", false
		}
		if cnt > 1 || c.Intn(4) == 0 && x.parent != nil {
			seg += fmt.Sprintf(".%d", idx)
		}
		segs = append([]string{seg}, segs...)
	}
	return strings.Join(segs, "."), true
}

func (c *ctx) options() *xmldot.Options {
	switch c.Intn(5) {
	case 0:
		return nil
	case 1:
		return xmldot.DefaultOptions()
	case 2:
		return &xmldot.Options{}
	}
	o := xmldot.DefaultOptions()
	o.CaseSensitive = c.Intn(2) == 0
	if c.Intn(3) == 0 {
		o.Indent = pick(c, []string{"  ", "\t", " "})
	}
	return o
}

var strPool = []string{"", "x", "new value", "<b>", "a&b", "\"q\"", "'", "&amp;", "&amp;lt;", "]]>", "<!--", "é日本", " lead", "trail ", "\n", "\x00", "&lt", ";", "&#65;", "&quot;&apos;", "/>", "</a>", "a=\"1\"", "\\", "&&amp;&"}

func (c *ctx) str() string {
	if c.Intn(3) > 0 {
		return pick(c, strPool)
	}
	var b strings.Builder
	for k := c.Intn(6); k > 0; k-- {
		b.WriteString(pick(c, []string{"&", "<", ">", "\"", "'", "a", "l", "t", ";", "amp;", "lt;", "#", " ", "quot;", "é", "x"}))
	}
	return b.String()
}

func (c *ctx) value() any {
	switch c.Intn(9) {
	case 0:
		return c.Intn(100) - 50
	case 1:
		return int64(c.Intn(1000))
	case 2:
		return 1.5
	case 3:
		return c.Intn(2) == 0
	case 4:
		return []byte(c.str())
	case 5:
		return nil
	case 6:
		return struct{ X int }{1}
	}
	return c.str()
}
