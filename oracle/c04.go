package main

import (
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

func init() {
	props["C04"] = property{
		"random documents, mutated documents, markup fragments and documents at the nesting, attribute and token limits, against a reference validator; non-trivial: distinct documents",
		func(c *ctx) {
			d := c.validDoc()
			c.shallow = len(d) > 1500
			c.try("doc=%.3000q (%d bytes)", d, len(d))
			want := refValid(d)
			if got := xmldot.Valid(d); got != want {
				c.failf("Valid reports %v, the documented rules give %v (validation error: %v)", got, want, xmldot.ValidateWithError(d))
			}
			if got := xmldot.ValidBytes([]byte(d)); got != want {
				c.failf("ValidBytes reports %v, the documented rules give %v", got, want)
			}
		}}
	props["C05"] = property{
		"random documents and mutated documents through the four validation entry points; non-trivial: distinct documents",
		func(c *ctx) {
			d := c.validDoc()
			c.shallow = len(d) > 1500
			c.try("doc=%.3000q (%d bytes)", d, len(d))
			a, b := xmldot.Valid(d), xmldot.ValidBytes([]byte(d))
			e, f := xmldot.ValidateWithError(d), xmldot.ValidateBytesWithError([]byte(d))
			if a != b || a != (e == nil) || a != (f == nil) {
				c.failf("Valid %v, ValidBytes %v, ValidateWithError %v, ValidateBytesWithError %v", a, b, e, f)
			}
			for _, x := range []*xmldot.ValidateError{e, f} {
				if x != nil && !realPos(d, x.Line, x.Column) {
					c.failf("error position line %d column %d is not a position of the document (%s)", x.Line, x.Column, x.Message)
				}
			}
		}}
}

func realPos(d string, line, col int) bool {
	lines := strings.Split(d, "\n")
	return 1 <= line && line <= len(lines) && 0 <= col && col <= len(lines[line-1])
}

var markPool = []string{"<", ">", "</", "/>", "<a>", "</a>", "<a/>", "<b x='1'>", "</b>", "<!--", "-->", "--", "-", "<![CDATA[", "]]>", "]]", "<?", "?>", "<!DOCTYPE", "<!doctype a [", "]>", "<!", "=", "'", "\"", " ", "\n", "\t", "x", "1", ":", "_", ".", "é", "\x00", "a=", "a='", "b=\"v\"", " <a", "<!x>", "<1>", "<a.b-c>", "</a.b-c>", "[", "]", "&"}

func (c *ctx) validDoc() string {
	switch k := c.Intn(40); {
	case k < 8:
		return c.doc().text
	case k < 20: // one mutation
		d := c.doc().text
		n := 1 + c.Intn(2)
		for ; n > 0; n-- {
			i := c.Intn(len(d) + 1)
			j := i + c.Intn(3)
			if j > len(d) {
				j = len(d)
			}
			m := pick(c, markPool)
			if c.Intn(3) == 0 {
				m = ""
			}
			d = d[:i] + m + d[j:]
		}
		return d
	case k < 32:
		var b strings.Builder
		for n := c.Intn(14); n > 0; n-- {
			b.WriteString(pick(c, markPool))
		}
		return b.String()
	case k < 36:
		n := 98 + c.Intn(5)
		in := pick(c, []string{"", "x", "<a/>", "<!--c-->", "<a/>"})
		close := strings.Repeat("</a>", n)
		if c.Intn(3) == 0 {
			close = close[4:]
		}
		return strings.Repeat("<a>", n) + in + close + pick(c, []string{"", "", "<b/>", "x"})
	case k < 39:
		var b strings.Builder
		b.WriteString(pick(c, []string{"<a", "<r><a", "<a><b"}))
		for i, n := 0, 98+c.Intn(5); i < n; i++ {
			fmt.Fprintf(&b, " a%d=%s", i, pick(c, []string{"'1'", `"x>"`, "''"}))
		}
		b.WriteString(pick(c, []string{"/>", ">", "/></r>", "></a>", "/></a>"}))
		return b.String()
	}
	if c.Intn(400) > 0 {
		return c.anyDoc()
	}
	big := xmldot.MaxTokenSize + c.Intn(3)
	switch c.Intn(5) {
	case 0:
		return "<" + strings.Repeat("a", big) + "/>"
	case 1:
		return "<a x='" + strings.Repeat("a", big) + "'/>"
	case 2:
		return "<?" + strings.Repeat("a", big) + "?><a/>"
	case 3:
		return "<!--" + strings.Repeat("a", big) + "--><a/>"
	}
	return "<a>" + strings.Repeat(" ", xmldot.MaxDocumentSize-8+c.Intn(3)) + "</a>"
}

// refValid is the documented language, written independently of the validator.
func refValid(d string) bool {
	if d == "" || len(d) > xmldot.MaxDocumentSize {
		return false
	}
	start := func(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' || c == ':' }
	name := func(c byte) bool { return start(c) || '0' <= c && c <= '9' || c == '.' || c == '-' }
	space := func(i int) int {
		for i < len(d) && strings.IndexByte(" \t\r\n", d[i]) >= 0 {
			i++
		}
		return i
	}
	word := func(i int) int {
		for i < len(d) && name(d[i]) {
			i++
		}
		return i
	}
	at := func(i int, s string) bool { return i <= len(d) && strings.HasPrefix(d[i:], s) }
	// end of a token ending with s, or -1
	until := func(i int, s string, limit bool) int {
		if i > len(d) {
			return -1
		}
		k := strings.Index(d[i:], s)
		if k < 0 || limit && k > xmldot.MaxTokenSize {
			return -1
		}
		return i + k + len(s)
	}
	var open []string
	roots := 0
	for i := 0; ; {
		i = space(i)
		if i >= len(d) {
			return roots > 0 && len(open) == 0
		}
		if d[i] != '<' {
			if len(open) == 0 {
				return false
			}
			i++
			continue
		}
		e := -1
		switch {
		case at(i, "<?"):
			e = until(i+2, ">", true)
		case len(d) >= i+9 && strings.EqualFold(d[i:i+9], "<!DOCTYPE"):
			depth := 0
			for k := i + 2; k < len(d) && e < 0; k++ {
				switch {
				case d[k] == '[':
					depth++
				case d[k] == ']':
					depth--
				case d[k] == '>' && depth == 0:
					e = k + 1
				}
			}
		case at(i, "<!--"):
			k := until(i+4, "--", false)
			if k >= 0 && at(k, ">") {
				e = k + 1
			}
		case at(i, "<![CDATA["):
			if len(open) > 0 {
				e = until(i+9, "]]>", false)
			}
		case at(i, "<!"):
			e = until(i+2, ">", true)
		case at(i, "</"):
			k := word(i + 2)
			nm := d[i+2 : k]
			k = space(k)
			if len(nm) > 0 && len(nm) <= xmldot.MaxTokenSize && at(k, ">") && len(open) > 0 && open[len(open)-1] == nm {
				open = open[:len(open)-1]
				e = k + 1
			}
		default:
			k := word(i + 1)
			nm := d[i+1 : k]
			if len(nm) == 0 || len(nm) > xmldot.MaxTokenSize || !start(nm[0]) || len(open) >= xmldot.MaxNestingDepth {
				return false
			}
			for n := 0; ; n++ {
				k = space(k)
				if at(k, ">") {
					open = append(open, nm)
					e = k + 1
					break
				}
				if at(k, "/") {
					if at(k, "/>") {
						e = k + 2
					}
					break
				}
				if k >= len(d) || n >= xmldot.MaxAttributes {
					break
				}
				w := word(k)
				if w == k || w-k > xmldot.MaxTokenSize || !start(d[k]) {
					break
				}
				k = space(w)
				if !at(k, "=") {
					break
				}
				k = space(k + 1)
				if !at(k, "'") && !at(k, `"`) {
					break
				}
				if k = until(k+1, d[k:k+1], true); k < 0 {
					break
				}
			}
			if e >= 0 {
				roots++
			}
		}
		if e < 0 {
			return false
		}
		i = e
	}
}
