package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

var entities = []struct{ e, c string }{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&apos;", "'"}}

func unescRef(s string) string {
	var b strings.Builder
next:
	for i := 0; i < len(s); {
		for _, e := range entities {
			if strings.HasPrefix(s[i:], e.e) {
				b.WriteString(e.c)
				i += len(e.e)
				continue next
			}
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func (c *ctx) bytesText(pool []string) string {
	var b strings.Builder
	for k := c.Intn(10); k >= 0; k-- {
		b.WriteString(pick(c, pool))
	}
	return b.String()
}

func init() {
	pool := []string{"&", "<", ">", "\"", "'", "a", "lt", "gt", ";", "amp;", "lt;", "#", " ", "quot;", "apos;", "&amp;", "&lt;", "&AMP;", "é", "x=\"1\"", "]]>", "<!--", "-->", "</x>", "/>", "&#38;", "&#39;", "&#34;", "&#60;", "&#62;", "&nbsp;", "&LT;", "&apos", "&#x26;", "&#x27;", "&#x3C;", "\n", "\t", "\x00", "\x7f", "日", "=", "\\"}
	props["C06"] = property{
		"random strings of markup characters, entities and their fragments, written as text and attribute value and read back, and read from hand-made documents; non-trivial: distinct strings",
		func(c *ctx) {
			v := c.bytesText(pool)
			if c.Intn(4) == 0 {
				v = c.str()
			}
			if c.Intn(400) == 0 {
				v = strings.Repeat(v, 4000)
			}
			c.try("value=%q", v)
			for _, x := range []struct{ pre, post, path string }{
				{"<r a=\"1\"><x>old</x><y/></r>", "", "r.x"},
				{"<r a=\"1\"><y/></r>", "", "r.x"},
				{"<r a=\"1\"><y/></r>", "", "r.y"},
				{"<r a=\"1\"><y/></r>", "", "r.p.q"},
				{"<r a=\"1\" b='2'><y/></r>", "", "r.@a"},
				{"<r a=\"1\" b='2'><y/></r>", "", "r.@b"},
				{"<r a=\"1\"><y/></r>", "", "r.@n"},
				{"<r a=\"1\"><y/></r>", "", "r.y.@n"},
				{"<r a=\"1\"><y/></r>", "", "r.p.@n"},
				{"", "", "r.x"},
				{"", "", "r.@n"},
			} {
				d := x.pre
				o := &xmldot.Options{CaseSensitive: c.Intn(2) == 0}
				out, err := xmldot.Set(d, x.path, v)
				if c.Intn(2) == 0 {
					out, err = xmldot.SetWithOptions(d, x.path, v, o)
				}
				if err != nil {
					if len(v) < 1000 {
						c.failf("Set(%q, %q) is refused: %v", d, x.path, err)
					}
					continue
				}
				plain, err := xmldot.Set(d, x.path, "w")
				if err != nil {
					c.failf("Set(%q, %q, w): %v", d, x.path, err)
				}
				// the same text with the escaped value in place of w
				i := strings.Index(plain, ">w<") + 1
				if i == 0 {
					i = strings.Index(plain, "\"w\"") + 1
				}
				if i == 0 {
					c.failf("Set(%q, %q, w) gives %q", d, x.path, plain)
				}
				if want := plain[:i] + escRef(v) + plain[i+1:]; out != want {
					c.failf("Set(%q, %q) gives %q, want %q", d, x.path, out, want)
				}
				got, want := xmldot.Get(out, x.path).String(), v
				if !strings.Contains(x.path, "@") {
					want = strings.TrimSpace(v)
				}
				if got != want {
					c.failf("Set(%q, %q) reads back as %q", d, x.path, got)
				}
				if g := xmldot.GetWithOptions(out, x.path, &xmldot.Options{}).String(); g != want {
					c.failf("Set(%q, %q) reads back as %q with options", d, x.path, g)
				}
			}
			// reading
			raw := strings.NewReplacer("<", "", ">", "", "\"", "").Replace(c.bytesText(pool))
			d := "<r a=\"" + raw + "\"><x>" + raw + "</x><z><x>" + raw + "</x><x>" + raw + "</x></z></r>"
			c.try("doc=%q", d)
			want := unescRef(strings.TrimSpace(raw))
			for path, w := range map[string]string{"r.x": want, "r.@a": unescRef(raw), "r.z.x.1": want, "r.z.x.0": want} {
				got := xmldot.Get(d, path)
				s := got.String()
				if got.IsArray() && len(got.Results) == 1 {
					s = got.Results[0].String()
				}
				if s != w {
					c.failf("%s reads %q, want %q", path, s, w)
				}
			}
			// every way to reach the text gives the same string
			for _, path := range []string{"r.x.%", "r.x.0", "r.*", "r.z.*", "r.z.*.%", "**.x", "**.x.%", "r.**.x", "r.z.#.x", "r.z.x.0.%", "*.x", "*.x.%", "r.z.x.#(@q!=1)", "r.#(x!=nothing).x", "r.z.x[0]", "r.@*", "*.@a", "x", "r.x|@this"} {
				for k := 0; k < 2; k++ {
					got := xmldot.Get(d, path)
					if k == 1 {
						got = xmldot.GetWithOptions(d, path, &xmldot.Options{})
					}
					for _, g := range got.Array() {
						s := g.String()
						if g.IsArray() || g.Type == xmldot.Null || path == "r.*" && strings.Contains(g.Raw, "<x>") {
							continue
						}
						if w := unescRef(raw); strings.Contains(path, "@a") && s != w || !strings.Contains(path, "@a") && s != want {
							c.failf("%s reads %q, want %q", path, s, want)
						}
					}
				}
			}
			m := xmldot.Get(d, "r.z").Map()
			for _, g := range m["x"].Array() {
				if g.String() != want {
					c.failf("Map reads %q, want %q", g.String(), want)
				}
			}
			m = xmldot.Get(d, "r").MapWithOptions(&xmldot.Options{})
			for _, g := range m["x"].Array() {
				if g.String() != want {
					c.failf("MapWithOptions reads %q, want %q", g.String(), want)
				}
			}
			if g := xmldot.Get(d, "r").Get("x").String(); g != want {
				c.failf("Result.Get reads %q, want %q", g, want)
			}
		}}
}
