package main

import (
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

func init() {
	props["C19"] = property{
		"random valid documents and fragments, one Set or Delete at a path to an existing or new element or attribute with and without indexes, read back at the same path; non-trivial: distinct (document, path, value) triples",
		func(c *ctx) {
			d := c.doc()
			for !xmldot.Valid(d.text) {
				d = c.doc()
			}
			names := []string{"a", "b", "item", "A", "Item", "ns:a", "x:item", "new", "n1", "a-b"}
			// a path: down existing elements for a while, then anything
			var parts []string
			kids := d.roots
			single := true // every name on the way occurs once
			steps := 1 + c.Intn(4)
			for k := 0; k < steps; k++ {
				name := pick(c, names)
				var here *node
				if len(kids) > 0 && c.Intn(6) > 0 {
					here = pick(c, kids)
					name = here.name
					if c.Intn(2) == 0 {
						name = local(name)
					}
				} else if len(kids) > 0 && k == 0 && c.Intn(3) > 0 {
					name = kids[0].name
				}
				var m []*node
				for _, x := range kids {
					if nameRule(name, x.name, false) {
						m = append(m, x)
					}
				}
				single = single && len(m) <= 1
				parts = append(parts, name)
				kids = nil
				if c.Intn(3) == 0 {
					i := c.Intn(len(m) + 1)
					if c.Intn(8) == 0 {
						i = c.Intn(12)
					}
					parts = append(parts, fmt.Sprint(i))
					if i < len(m) {
						kids = m[i].kids()
					}
				} else if len(m) > 0 {
					kids = m[0].kids()
				}
			}
			at := c.Intn(4) == 0
			if at {
				parts = append(parts, "@"+pick(c, []string{"id", "x", "ns:y", "Z", "class", "new", "ID", "k"}))
			}
			p := strings.Join(parts, ".")
			if c.Intn(4) == 0 {
				c.try("doc=%q Delete(%q)", d.text, p)
				before := xmldot.Get(d.text, p)
				out, err := xmldot.Delete(d.text, p)
				if err != nil || !single || !before.Exists() {
					return
				}
				for _, s := range parts {
					if s[0] >= '0' && s[0] <= '9' {
						return
					}
				}
				if r := xmldot.Get(out, p); r.Exists() {
					c.failf("still there after Delete: %q in %q", r.Raw, out)
				}
				return
			}
			v := c.str()
			if c.Intn(3) == 0 {
				v = c.bytesText([]string{"&", "<", ">", "\"", "'", "a", "lt;", "&amp;", " ", "\n", "\t", "\r", "\x00", "é", "]]>", "<!--", "-->", "</a>", "<a>", "&#38;", "日", " ", " ", "0", "\\", "|", "\xff"})
			}
			if c.Intn(2000) == 0 {
				v = strings.Repeat(v, 3000)
			}
			c.try("doc=%q Set(%q, %q)", d.text, p, v)
			out, err := xmldot.Set(d.text, p, v)
			if err != nil {
				return
			}
			want := v
			if !at {
				want = strings.TrimSpace(v)
			}
			r := xmldot.Get(out, p)
			if !r.Exists() || r.String() != want {
				c.failf("reads back as %q (type %v) from %q", r.String(), r.Type, out)
			}
			if g := xmldot.GetBytes([]byte(out), p); g.String() != want {
				c.failf("GetBytes reads back %q from %q", g.String(), out)
			}
			if !xmldot.Valid(out) {
				c.failf("the new document is not valid: %q", out)
			}
			fo := &xmldot.Options{CaseSensitive: false}
			if o2, err := xmldot.SetWithOptions(d.text, p, v, fo); err == nil && allASCII(p) {
				if r := xmldot.GetWithOptions(o2, p, fo); r.String() != want {
					c.failf("without letter case it reads back as %q from %q", r.String(), o2)
				}
			}
			if o2, err := xmldot.SetWithOptions(d.text, p, v, &xmldot.Options{CaseSensitive: true, Indent: "  "}); err != nil {
				c.failf("SetWithOptions is refused: %v", err)
			} else if r := xmldot.Get(o2, p); r.String() != want {
				c.failf("with indentation it reads back as %q from %q", r.String(), o2)
			}
		}}
}

func allASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
