package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/netascode/xmldot"
)

func splitNS(s string) (string, string) {
	i := strings.IndexByte(s, ':')
	if i < 0 || i > 256 {
		return "", s
	}
	for _, b := range []byte(s[:i]) {
		if b < 0x20 || b == 0x7f {
			return "", s
		}
	}
	return s[:i], s[i+1:]
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func nameRule(p, e string, fold bool) bool {
	pp, pl := splitNS(p)
	ep, el := splitNS(e)
	if fold {
		pp, pl, ep, el = lowerASCII(pp), lowerASCII(pl), lowerASCII(ep), lowerASCII(el)
	}
	return (pp == "" || pp == ep) && pl == el
}

func (c *ctx) name(xmlOnly bool) string {
	loc := pick(c, []string{"a", "A", "b", "ab", "aB", "AB", "item", "Item", "a-b", "z", "Z", "a_"})
	pre := pick(c, []string{"", "", "n:", "N:", "ns:", "nS:", "NS:", ":", "x:y:", "a:"})
	if !xmlOnly && c.Intn(4) == 0 {
		loc = pick(c, []string{"é", "É", "K", "K", "ſ", "a[", "a{", "@a"[1:], "[", "{", "`", "Z["})
	}
	if !xmlOnly && c.Intn(8) == 0 {
		pre = pick(c, []string{"\x01:", "n\x7f:", "é:", "É:", "\x1f:", "\x80:"})
	}
	if c.Intn(12) == 0 {
		pre = strings.Repeat(pick(c, []string{"p", "P"}), pick(c, []int{254, 255, 256, 257, 258})) + ":"
	}
	return pre + loc
}

var fieldName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_:-]{0,30}$`)

func init() {
	props["C14"] = property{
		"up to 9 children and attributes with random prefixed names, queried, counted, extracted and edited by name, below a root and as roots, with both letter case settings; non-trivial: distinct (document, path) pairs",
		func(c *ctx) {
			edit := c.Intn(3) == 0
			var b strings.Builder
			var names []string
			b.WriteString("<r")
			attrs := map[string]string{}
			for k := c.Intn(4); k > 0; k-- {
				n := c.name(true)
				if _, ok := attrs[n]; ok {
					continue
				}
				attrs[n] = fmt.Sprint("v", len(attrs))
				fmt.Fprintf(&b, ` %s="%s"`, n, attrs[n])
			}
			b.WriteString(">")
			for k := c.Intn(9); k >= 0; k-- {
				n := c.name(edit)
				fmt.Fprintf(&b, "<%s>t%d</%s>", n, len(names), n)
				names = append(names, n)
			}
			b.WriteString("</r>")
			p := c.name(edit)
			if c.Intn(2) == 0 {
				p = pick(c, names)
				if c.Intn(3) == 0 {
					p = lowerASCII(p)
				}
			}
			c.try("doc=%q name=%q", b.String(), p)
			c14(c, b.String(), names, attrs, p, edit)
		}}
}

func c14(c *ctx, d string, names []string, attrs map[string]string, p string, edit bool) {
	for _, fold := range []bool{false, true} {
		o := &xmldot.Options{CaseSensitive: !fold}
		first, n := -1, 0
		for i, e := range names {
			if nameRule(p, e, fold) {
				if first < 0 {
					first = i
				}
				n++
			}
		}
		var got, cnt, deep xmldot.Result
		if fold {
			got, cnt = xmldot.GetWithOptions(d, "r."+p, o), xmldot.GetWithOptions(d, "r."+p+".#", o)
			deep = xmldot.GetWithOptions(d, "**."+p, o)
		} else {
			got, cnt = xmldot.Get(d, "r."+p), xmldot.Get(d, "r."+p+".#")
			deep = xmldot.Get(d, "**."+p)
			o2 := &xmldot.Options{CaseSensitive: true, Indent: " "} // not the fast path
			if g := xmldot.GetWithOptions(d, "r."+p, o2); g.String() != got.String() {
				c.failf("Get gives %q, GetWithOptions %q", got.String(), g.String())
			}
		}
		want := ""
		if first >= 0 {
			want = fmt.Sprint("t", first)
		}
		if got.String() != want || got.Exists() != (first >= 0) {
			c.failf("fold=%v: path r.%s gives %q, the name rule gives %q", fold, p, got.String(), want)
		}
		if cnt.Int() != int64(n) {
			c.failf("fold=%v: path r.%s.# counts %v, the name rule matches %d elements", fold, p, cnt.String(), n)
		}
		found := 0
		if deep.Exists() {
			found = 1
			if deep.IsArray() {
				found = len(deep.Results)
			}
		}
		if nameRule(p, "r", fold) {
			found-- // the root itself
		}
		if found != n {
			c.failf("fold=%v: path **.%s finds %d, the name rule matches %d elements", fold, p, found, n)
		}
		// the elements as roots of a fragment, and as fields
		get := func(d, p string) xmldot.Result {
			if fold {
				return xmldot.GetWithOptions(d, p, o)
			}
			return xmldot.Get(d, p)
		}
		frag := d[strings.Index(d, "><")+1 : len(d)-len("</r>")]
		if g := get(frag, p); g.String() != want || g.Exists() != (first >= 0) {
			c.failf("fold=%v: path %s gives %q on the fragment, the name rule gives %q", fold, p, g.String(), want)
		}
		if g := get(frag, p+".#"); g.Int() != int64(n) {
			c.failf("fold=%v: path %s.# counts %v roots, the name rule matches %d", fold, p, g.String(), n)
		}
		if g := get(frag, p+".0"); g.String() != want || g.Exists() != (first >= 0) {
			c.failf("fold=%v: path %s.0 gives %q on the fragment, the name rule gives %q", fold, p, g.String(), want)
		}
		if fieldName.MatchString(p) {
			if g := get("<q>"+d+"</q>", "q.r.#."+p); len(g.Results) != n || n > 0 && g.Results[0].String() != want {
				c.failf("fold=%v: path q.r.#.%s extracts %d fields, the name rule matches %d", fold, p, len(g.Results), n)
			}
		}
		if edit && first >= 0 {
			s, err := xmldot.SetWithOptions(d, "r."+p, "new", o)
			if w := strings.Replace(d, ">"+want+"<", ">new<", 1); err != nil || s != w {
				c.failf("fold=%v: Set at r.%s gives %q, %v; want %q", fold, p, s, err, w)
			}
		}
		// attributes
		ok := map[string]bool{}
		for k, v := range attrs {
			if k == p || fold && lowerASCII(k) == lowerASCII(p) {
				ok[v] = true
			}
		}
		var a xmldot.Result
		if fold {
			a = xmldot.GetWithOptions(d, "r.@"+p, o)
		} else {
			a = xmldot.Get(d, "r.@"+p)
		}
		if a.Exists() != (len(ok) > 0) || a.Exists() && !ok[a.String()] {
			c.failf("fold=%v: path r.@%s gives %q", fold, p, a.String())
		}
	}
}
