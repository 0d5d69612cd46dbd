package main

import (
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

// asPath writes parts as a path: dots and backslashes of a part are escaped, other bytes sometimes, and empty parts
// are strewn in.
func (c *ctx) asPath(parts []string) string {
	var b strings.Builder
	if c.Intn(6) == 0 {
		b.WriteString(".")
	}
	for i, p := range parts {
		if i > 0 {
			b.WriteString(".")
			for c.Intn(6) == 0 {
				b.WriteString(".")
			}
		}
		lit := strings.HasPrefix(p, "\x00") // a marker or a filter, written as it is
		p = strings.TrimPrefix(p, "\x00")
		for k := 0; k < len(p); k++ {
			if !lit && (p[k] == '.' || p[k] == '\\' || c.Intn(8) == 0) {
				b.WriteByte('\\')
			}
			b.WriteByte(p[k])
		}
	}
	if c.Intn(6) == 0 {
		b.WriteString(".")
	}
	if c.Intn(20) == 0 {
		b.WriteString("\\")
	}
	return b.String()
}

func init() {
	props["C13"] = property{
		"documents whose names hold dots, dashes and multi-byte characters, read by paths written part by part with random escapes, empty parts, markers, filters and modifiers; non-trivial: distinct (document, path) pairs",
		func(c *ctx) {
			n := 0
			next := func() string { n++; return fmt.Sprint("t", n) }
			names := []string{"a", "b", "a.b", "b.a", "n-1", "é.x", "_", "a..b", "x1.", "Zz", "a.0", "w.-1"}
			c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			leaf := pick(c, []string{"f", "g.h", "f-2", "ö", "k."})
			field := leaf == "f" || leaf == "f-2"
			if c.Intn(3) == 0 { // any name of the letters field extraction takes
				const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-"
				leaf, field = string(al[c.Intn(53)]), true
				for k := c.Intn(4); k > 0; k-- {
					leaf += string(al[c.Intn(len(al))])
				}
			}
			at := pick(c, []string{"id", "d.x", "-", "k1", "1"})
			type item struct{ id, txt, f string }
			type top struct {
				at, txt, f string
				items      []item
			}
			var tops []top
			var b strings.Builder
			b.WriteString("<r>")
			for _, nm := range names[:2+c.Intn(4)] {
				t := top{at: next(), txt: next(), f: next()}
				fmt.Fprintf(&b, "<%s %s=\"%s\">%s<%s>%s</%s>", nm, at, t.at, t.txt, leaf, t.f, leaf)
				for k := c.Intn(14); k > 0; k-- {
					it := item{next(), next(), next()}
					t.items = append(t.items, it)
					fmt.Fprintf(&b, "<i.j %s=\"%s\">%s<%s>%s</%s></i.j>", at, it.id, it.txt, leaf, it.f, leaf)
				}
				fmt.Fprintf(&b, "</%s>", nm)
				tops = append(tops, t)
			}
			b.WriteString("</r>")
			x := c.Intn(len(tops))
			t := tops[x]
			parts := []string{"r", names[x]}
			var want []string
			list := false
			mark := func(s string) string { return "\x00" + s }
			form := c.Intn(15)
			if form == 6 { // text of an indexed element is not supported by queries
				form = 4
			}
			if form >= 3 && len(t.items) == 0 {
				form %= 3
			}
			var it item
			k := 0
			if form >= 3 {
				k = c.Intn(len(t.items))
				it = t.items[k]
				parts = append(parts, "i.j")
			}
			idx := mark(strings.Repeat("0", c.Intn(3)) + fmt.Sprint(k))
			switch form {
			case 0:
				parts, want = append(parts, leaf), []string{t.f}
			case 1:
				parts, want = append(parts, "@"+at), []string{t.at}
			case 2:
				parts, want = append(parts, mark("%")), []string{t.txt}
			case 3:
				parts, want = append(parts, mark("#")), []string{fmt.Sprint(len(t.items))}
			case 4:
				parts, want = append(parts, idx, leaf), []string{it.f}
			case 5:
				parts, want = append(parts, idx, "@"+at), []string{it.id}
			case 7, 8, 9:
				f := mark("%")
				if form == 7 && field {
					f = leaf
				} else if form == 8 && (at == "id" || at == "k1") {
					f = "@" + at
				} else {
					form = 9
				}
				parts = append(parts, mark("#"), f)
				list = true
				for _, it := range t.items {
					want = append(want, map[int]string{7: it.f, 8: it.id, 9: it.txt}[form])
				}
			case 10:
				if at == "d.x" {
					at = "d\\.x"
				}
				sfx := pick(c, []string{"", "#"})
				parts, want = append(parts, mark("#(@"+at+"=="+it.id+")"+sfx), leaf), []string{it.f}
			case 13:
				all := pick(c, []string{"", "#"})
				if at == "d.x" {
					at = "d\\.x"
				}
				parts = append(parts, mark("#(@"+at+"!=zz)"+all))
				list = all != ""
				for _, it := range t.items {
					if want == nil || list {
						want = append(want, it.txt+it.f)
					}
				}
			case 14: // a filter after an index
				all := pick(c, []string{"", "#"})
				if at == "d.x" {
					at = "d\\.x"
				}
				parts = append(parts[:2], mark("0"), mark("#(@"+at+")"+all))
				list = all != ""
				for _, it := range t.items {
					if want == nil || list {
						want = append(want, it.txt+it.f)
					}
				}
			case 11:
				parts = append(parts[:2], mark("*"), leaf)
				for _, it := range t.items {
					want = append(want, it.f)
				}
				list = true
			case 12:
				parts = append(parts[:2], mark("**"), leaf)
				want = []string{t.f}
				for _, it := range t.items {
					want = append(want, it.f)
				}
				list = true
			}
			p := c.asPath(parts)
			if list && len(want) > 1 && form < 10 && !strings.HasSuffix(p, ".") && !strings.HasSuffix(p, "\\") && c.Intn(3) == 0 {
				p += pick(c, []string{"|@reverse", "| @reverse", "|@reverse ", "|@reverse|"})
				for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
					want[i], want[j] = want[j], want[i]
				}
			}
			c.try("doc=%q path=%q", b.String(), p)
			r := xmldot.Get(b.String(), p)
			var got []string
			if r.IsArray() {
				for _, e := range r.Results {
					got = append(got, e.String())
				}
			} else if r.Exists() {
				got = []string{r.String()}
			}
			if strings.Join(got, ",") != strings.Join(want, ",") {
				c.failf("the path has the parts %q and gives %q, not %q", parts, got, want)
			}
		},
	}
}
