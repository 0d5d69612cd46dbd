package main

import (
	"sort"
	"strings"

	"github.com/netascode/xmldot"
)

func escRef(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '"':
			b.WriteString("&quot;")
		case '\'':
			b.WriteString("&apos;")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// openTag takes an opening tag apart into name and raw attributes.
func openTag(t string) (name string, attrs map[string]string, self, ok bool) {
	if !strings.HasPrefix(t, "<") || !strings.HasSuffix(t, ">") {
		return
	}
	t = t[1 : len(t)-1]
	if strings.HasSuffix(t, "/") {
		self, t = true, t[:len(t)-1]
	}
	i := strings.IndexAny(t, " \t\n\r")
	if i < 0 {
		return t, map[string]string{}, self, true
	}
	name, t = t[:i], strings.TrimLeft(t[i:], " \t\n\r")
	attrs = map[string]string{}
	for t != "" {
		e := strings.IndexByte(t, '=')
		if e < 0 {
			return
		}
		n := strings.TrimRight(t[:e], " \t\n\r")
		t = strings.TrimLeft(t[e+1:], " \t\n\r")
		if t == "" || t[0] != '"' && t[0] != '\'' {
			return
		}
		q := strings.IndexByte(t[1:], t[0])
		if q < 0 {
			return
		}
		if _, dup := attrs[n]; dup {
			return
		}
		attrs[n] = strings.ReplaceAll(t[1:1+q], `"`, "&quot;")
		t = strings.TrimLeft(t[q+2:], " \t\n\r")
	}
	return name, attrs, self, true
}

// tagIs says whether t is an opening tag with this name and these attributes.
func tagIs(t, name string, attrs map[string]string, self bool) bool {
	n, a, s, ok := openTag(t)
	if !ok || n != name || s != self || len(a) != len(attrs) {
		return false
	}
	for k, v := range attrs {
		if w, ok := a[k]; !ok || w != strings.ReplaceAll(v, `"`, "&quot;") {
			return false
		}
	}
	return true
}

func init() {
	props["C03"] = property{
		"random documents with comments, CDATA, attributes and nested same-name elements; one element, attribute or missing child edited and the output compared byte by byte; non-trivial: distinct (document, path, edit) triples",
		func(c *ctx) {
			d := c.doc()
			if !xmldot.Valid(d.text) {
				return
			}
			n := pick(c, d.all())
			c.fold = c.Intn(4) == 0
			p, ok := pathTo(c, d, n)
			if !ok {
				return
			}
			attrs := map[string]string{}
			var an []string
			for _, a := range n.attrs {
				attrs[a.name] = a.val
				an = append(an, a.name)
			}
			sort.Strings(an)
			v := c.str()
			kind := c.Intn(6)
			a := pick(c, append(an, "zz", "Z", "new", "ns:zz", "id", "ID", "K"))
			sub := pick(c, []string{"zz", "zz.yy", "n:zz", "zz.yy.xx", "zz.@q", "zz.0"})
			c.try("doc=%q path=%q fold=%v edit=%d attr=%s sub=%s value=%q", d.text, p, c.fold, kind, a, sub, v)
			c03(c, d.text, n, p, attrs, kind, a, sub, v)
		}}
}

func c03(c *ctx, d string, n *node, p string, attrs map[string]string, kind int, a, sub, v string) {
	cut := func(out string, from, to int) string {
		if !strings.HasPrefix(out, d[:from]) || !strings.HasSuffix(out, d[to:]) || len(out) < from+len(d)-to {
			c.failf("the edit changed bytes outside %q: %q", d[from:to], out)
		}
		return out[from : len(out)-(len(d)-to)]
	}
	set := func(p string) (string, error) {
		if c.fold {
			return xmldot.SetWithOptions(d, p, v, &xmldot.Options{})
		}
		return xmldot.Set(d, p, v)
	}
	del := func(p string) (string, error) {
		if c.fold {
			out, err := xmldot.DeleteBytesWithOptions([]byte(d), p, &xmldot.Options{})
			return string(out), err
		}
		return xmldot.Delete(d, p)
	}
	if c.fold {
		same := ""
		for k := range attrs {
			if lowerASCII(k) == lowerASCII(a) {
				if same != "" {
					return
				}
				same = k
			}
		}
		want := lowerASCII(a) // folded paths create folded names
		if same != "" {
			want = same
		}
		if kind == 3 || kind == 4 {
			c03attr(c, n, p, attrs, kind, a, want, v, set, del, cut)
			return
		}
	}
	switch kind {
	case 0, 1: // element content
		out, err := set(p)
		if b, berr := xmldot.SetBytes([]byte(d), p, v); !c.fold && ((err == nil) != (berr == nil) || err == nil && string(b) != out) {
			c.failf("Set gives %q, SetBytes %q", out, b)
		}
		if err != nil {
			return
		}
		if !n.self {
			if m := cut(out, n.open, n.close); m != escRef(v) {
				c.failf("content is %q, want %q", m, escRef(v))
			}
			return
		}
		m := cut(out, n.start, n.end)
		tail := escRef(v) + "</" + n.name + ">"
		if v == "" && tagIs(m, n.name, attrs, true) {
			return
		}
		if !strings.HasSuffix(m, tail) || !tagIs(m[:len(m)-len(tail)], n.name, attrs, false) {
			c.failf("self-closing %q became %q", d[n.start:n.end], m)
		}
	case 2: // delete
		out, err := del(p)
		if err != nil {
			return
		}
		if out != d[:n.start]+d[n.end:] {
			c.failf("Delete gives %q", out)
		}
	case 3, 4:
		c03attr(c, n, p, attrs, kind, a, a, v, set, del, cut)
	case 5: // missing child
		for _, k := range n.kids() {
			if local(k.name) == "zz" {
				return
			}
		}
		out, err := set(p + "." + sub)
		if err != nil {
			return
		}
		if n.self {
			m := cut(out, n.start, n.end)
			i := strings.Index(m, "><")
			for i >= 0 && !tagIs(m[:i+1], n.name, attrs, false) {
				j := strings.Index(m[i+1:], "><")
				if j < 0 {
					i = -1
				} else {
					i += 1 + j
				}
			}
			if i < 0 || !strings.HasSuffix(m, "</"+n.name+">") {
				c.failf("self-closing %q became %q", d[n.start:n.end], m)
			}
			return
		}
		ok := false
		for i := n.open; i <= n.close; i++ {
			ok = ok || len(out) >= len(d) && out[:i] == d[:i] && strings.HasSuffix(out, d[i:])
		}
		if !ok {
			c.failf("not an insertion at one point: %q", out)
		}
	}
}

func c03attr(c *ctx, n *node, p string, attrs map[string]string, kind int, a, want, v string, set, del func(string) (string, error), cut func(string, int, int) string) {
	var out string
	var err error
	if kind == 3 {
		out, err = set(p + ".@" + a)
		attrs[want] = escRef(v)
	} else {
		out, err = del(p + ".@" + a)
		delete(attrs, want)
	}
	if err != nil {
		return
	}
	if m := cut(out, n.start, n.open); !tagIs(m, n.name, attrs, n.self) {
		c.failf("tag became %q", m)
	}
}
