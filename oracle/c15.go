package main

import (
	"errors"
	"strings"

	"github.com/netascode/xmldot"
)

// contentRef tells whether s is well-formed as the content of one element: balanced tags with quoted
// attributes, closed comments and sections, and no declarations.
func contentRef(s string) bool {
	name := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ':' || c == '-' || c == '.' || c >= '0' && c <= '9'
	}
	space := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
	var open []string
	for i := 0; i < len(s); {
		if s[i] != '<' {
			i++
			continue
		}
		rest := s[i:]
		after := func(skip int, end string) bool {
			k := strings.Index(rest[skip:], end)
			if k >= 0 {
				i += skip + k + len(end)
			}
			return k >= 0
		}
		switch {
		case strings.HasPrefix(rest, "<!--"):
			k := strings.Index(rest[4:], "--")
			if k < 0 || !strings.HasPrefix(rest[4+k:], "-->") {
				return false
			}
			i += 4 + k + 3
		case strings.HasPrefix(rest, "<![CDATA["):
			if !after(9, "]]>") {
				return false
			}
		case strings.HasPrefix(rest, "<!"):
			return false
		case strings.HasPrefix(rest, "<?"):
			if !after(2, ">") {
				return false
			}
		default:
			closing := strings.HasPrefix(rest, "</")
			i++
			if closing {
				i++
			}
			b := i
			for i < len(s) && name(s[i]) {
				i++
			}
			n := s[b:i]
			if n == "" || n[0] == '-' || n[0] == '.' || n[0] >= '0' && n[0] <= '9' {
				return false
			}
			blank := func() {
				for i < len(s) && space(s[i]) {
					i++
				}
			}
			blank()
			if closing {
				if i >= len(s) || s[i] != '>' || len(open) == 0 || open[len(open)-1] != n {
					return false
				}
				open = open[:len(open)-1]
				i++
				continue
			}
			for i < len(s) && s[i] != '>' && s[i] != '/' {
				b = i
				for i < len(s) && name(s[i]) {
					i++
				}
				if b == i {
					return false
				}
				blank()
				if i >= len(s) || s[i] != '=' {
					return false
				}
				i++
				blank()
				if i >= len(s) || s[i] != '"' && s[i] != '\'' {
					return false
				}
				k := strings.IndexByte(s[i+1:], s[i])
				if k < 0 {
					return false
				}
				i += k + 2
				blank()
			}
			switch {
			case i < len(s) && s[i] == '>':
				open = append(open, n)
				i++
			case strings.HasPrefix(s[i:], "/>"):
				i += 2
			default:
				return false
			}
		}
	}
	return len(open) == 0
}

func (c *ctx) fragment(depth int) string {
	var b strings.Builder
	for k := c.Intn(4); k >= 0; k-- {
		switch c.Intn(9) {
		case 0, 1, 2:
			n := pick(c, []string{"a", "b", "raw", "x:y", "data", "r", "x"})
			b.WriteString("<" + n)
			for j := c.Intn(3); j > 0; j-- {
				q := pick(c, []string{"\"", "'"})
				b.WriteString(pick(c, []string{" ", "\n", "\t", "  "}) + pick(c, []string{"k", "v"}) + pick(c, []string{"=", " = "}) + q + pick(c, []string{"", "1", ">", "/>", "<!--", "-->", "</a>", "]]>", "<![CDATA[", "<!DOCTYPE", "\r\n", "\t", "&quot;", " 1 "}) + q)
			}
			if depth == 0 || c.Intn(3) == 0 {
				b.WriteString(pick(c, []string{"/>", " />"}))
			} else {
				b.WriteString(pick(c, []string{">", " >"}) + c.fragment(depth-1) + "</" + n + pick(c, []string{">", " >", "\n>"}))
			}
		case 3:
			b.WriteString(pick(c, []string{"<!-- c -->", "<!---->", "<!--</raw>-->", "<!-- \" -->", "<!--'-->", "<!--><a>-->"}))
		case 4:
			b.WriteString(pick(c, []string{"<![CDATA[x]]>", "<![CDATA[</raw>]]>", "<![CDATA[<!DOCTYPE x>]]>", "<![CDATA[]]]]>", "<![CDATA[\"]]>"}))
		case 5:
			b.WriteString(pick(c, []string{"<?p?>", "<?p \"?>", "<?p x='<a'?>"}))
		default:
			b.WriteString(pick(c, []string{"t", " ", "\"", "'", "&amp;", ">", "]]>", "-->", "x", "é", "\r\n", "\n", "\t", "  ", "&#13;", "&lt;b>", "\u00a0", "\ufeff", "&quot;"}))
		}
	}
	return b.String()
}

func init() {
	props["C15"] = property{
		"fragments built from elements, attributes holding markup, comments, sections and instructions up to three deep, whole or with up to two pieces inserted, doubled or cut out, set raw at new, existing and appended elements of generated and fixed documents; non-trivial: distinct fragments",
		func(c *ctx) {
			raw := c.fragment(3)
			for k := c.Intn(3); k > 0; k-- {
				at := c.Intn(len(raw) + 1)
				switch c.Intn(3) {
				case 0:
					raw = raw[:at] + pick(c, []string{"<!DOCTYPE x>", "<!doctype x>", "<!DocType x [<!ENTITY y 'z'>]>", "<!ENTITY x \"y\">", "<!entity x>", "<!ELEMENT a>", "<!", "<!-", "<!-x>", "<!>", "</raw>", "<raw>", "</raw><raw>", "</x>", "</x><x>", "</r>", "<", ">", "\"", "'", "/", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "</a>", "<a>", "<a b>", "<a b=c>", "<1/>", "< a/>", "</ a>", "-", "=", " "}) + raw[at:]
				case 1:
					end := min(len(raw), at+1+c.Intn(3))
					raw = raw[:at] + raw[end:]
				case 2:
					end := min(len(raw), at+1+c.Intn(8))
					raw = raw[:end] + raw[at:end] + raw[end:]
				}
			}
			docs := []string{"<r/>", "<r><x>old</x></r>", "<r><x><a/></x><x k='1'/></r>", "<r></r>", "<r><x/></r>"}
			doc := pick(c, docs)
			path := pick(c, []string{"r.x", "r.y", "r.x.0", "r.x.-1", "r.y.z", "r"})
			fixed := c.Intn(4) > 0
			if !fixed {
				d := c.doc()
				doc = d.text
				if p, ok := pathTo(c, d, pick(c, d.all())); ok {
					path = p
				}
			}
			c.try("SetRaw(%q, %q, %q)", doc, path, raw)
			got, err := xmldot.SetRaw(doc, path, raw)
			if !contentRef(raw) {
				if err == nil {
					c.failf("an ill-formed fragment is accepted: %q", got)
				}
				if !errors.Is(err, xmldot.ErrInvalidValue) || got != doc {
					c.failf("a refused fragment gives %v and %q", err, got)
				}
				return
			}
			if err != nil {
				if got != doc {
					c.failf("fails with %v but gives %q", err, got)
				}
				return
			}
			if !strings.Contains(got, raw) || !xmldot.Valid(got) && xmldot.Valid(doc) {
				c.failf("gives %q", got)
			}
			if fixed && !strings.HasSuffix(path, "-1") {
				if r := xmldot.Get(got, path); r.Raw != raw {
					c.failf("gives %q, where the element holds %q", got, r.Raw)
				}
			}
		},
	}
}
