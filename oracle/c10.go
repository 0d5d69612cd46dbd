package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/netascode/xmldot"
)

func init() {
	props["C10"] = property{
		"documents, paths, filters, values, modifier chains and result lists a little below and above their limits, through every entry point; non-trivial: distinct (document size, path, value size) triples",
		func(c *ctx) {
			switch k := c.Intn(100); {
			case k < 2:
				c10Doc(c)
			case k < 4:
				c10Value(c)
			case k < 30:
				c10Path(c)
			case k < 40:
				c10Chain(c)
			default:
				c10Results(c)
			}
		},
	}
}

// c10Query gives the results of a query by every entry point.
func c10Query(c *ctx, d, p string) map[string]xmldot.Result {
	o := xmldot.DefaultOptions()
	o.CaseSensitive = c.Intn(2) == 0
	m := map[string]xmldot.Result{
		"Get":                  xmldot.Get(d, p),
		"GetBytes":             xmldot.GetBytes([]byte(d), p),
		"GetWithOptions":       xmldot.GetWithOptions(d, p, o),
		"GetBytesWithOptions":  xmldot.GetBytesWithOptions([]byte(d), p, o),
		"GetString":            xmldot.GetString(d, p),
		"GetStringWithOptions": xmldot.GetStringWithOptions(d, p, o),
	}
	for i, r := range xmldot.GetMany(d, p, "r", p) {
		if i != 1 {
			m[fmt.Sprint("GetMany ", i)] = r
		}
	}
	return m
}

// c10Edits gives the errors of the edits at a path; value edits are given v.
func c10Edits(d, p string, v any) map[string]error {
	o := xmldot.DefaultOptions()
	m := map[string]error{}
	_, m["Set"] = xmldot.Set(d, p, v)
	_, m["SetBytes"] = xmldot.SetBytes([]byte(d), p, v)
	_, m["SetWithOptions"] = xmldot.SetWithOptions(d, p, v, o)
	o.CaseSensitive = false
	_, m["SetBytesWithOptions"] = xmldot.SetBytesWithOptions([]byte(d), p, v, o)
	_, m["SetMany"] = xmldot.SetMany(d, []string{"r.zz", p}, []any{"1", v})
	_, m["SetManyBytes"] = xmldot.SetManyBytes([]byte(d), []string{p}, []any{v})
	return m
}

func c10Deletes(d, p string) map[string]error {
	m := map[string]error{}
	_, m["Delete"] = xmldot.Delete(d, p)
	_, m["DeleteBytes"] = xmldot.DeleteBytes([]byte(d), p)
	_, m["DeleteBytesWithOptions"] = xmldot.DeleteBytesWithOptions([]byte(d), p, &xmldot.Options{})
	_, m["DeleteMany"] = xmldot.DeleteMany(d, p)
	_, m["DeleteManyBytes"] = xmldot.DeleteManyBytes([]byte(d), p)
	return m
}

func c10Doc(c *ctx) {
	n := 10<<20 + 1 + c.Intn(3)*c.Intn(3)
	pad := pick(c, []string{" ", "x", "\n"})
	d := "<r><a k=\"1\">t</a></r>"
	switch c.Intn(3) {
	case 0:
		d = "<r><a k=\"1\">t</a>" + strings.Repeat(pad, n-len(d)) + "</r>"
	case 1:
		d += strings.Repeat(" ", n-len(d))
	default:
		d = strings.Repeat(" ", n-len(d)) + d
	}
	p := pick(c, []string{"r.a", "r.a.@k", "r.*", "r.b", "r.**", "r", "r.a.#", "r.a.%"})
	c.try("document of %d bytes, path %q", len(d), p)
	for f, r := range c10Query(c, d, p) {
		if r.Exists() {
			c.failf("%s finds %q", f, r.Raw)
		}
	}
	errs := c10Edits(d, p, "v")
	for f, err := range c10Deletes(d, p) {
		errs[f] = err
	}
	_, errs["SetMany of nothing"] = xmldot.SetMany(d, nil, nil)
	_, errs["DeleteMany of nothing"] = xmldot.DeleteMany(d)
	for f, err := range errs {
		if !errors.Is(err, xmldot.ErrMalformedXML) {
			c.failf("%s gives the error %v", f, err)
		}
	}
	if _, err := xmldot.SetRaw(d, "r.a", "<z/>"); !errors.Is(err, xmldot.ErrMalformedXML) {
		c.failf("SetRaw gives the error %v", err)
	}
	if xmldot.Valid(d) || xmldot.ValidBytes([]byte(d)) || xmldot.ValidateWithError(d) == nil || xmldot.ValidateBytesWithError([]byte(d)) == nil {
		c.failf("the document is valid")
	}
}

func c10Value(c *ctx) {
	n := 5<<20 + 1 + c.Intn(3)
	var v any
	switch c.Intn(4) {
	case 0:
		v = strings.Repeat("v", n)
	case 1:
		v = []byte(strings.Repeat("v", n))
	case 2:
		v = strings.Repeat("<", (n+3)/4)
	default:
		v = strings.Repeat("&", (n+4)/5)
	}
	p := pick(c, []string{"r.a", "r.a.@k", "r.b.c", "r.a.@new", "r", "r.a.0", "r.a.-1"})
	c.try("value %T of over %d bytes after conversion at %q", v, n-1, p)
	for f, err := range c10Edits("<r><a k=\"1\">t</a></r>", p, v) {
		if err == nil {
			c.failf("%s takes the value", f)
		}
	}
}

func c10Path(c *ctx) {
	var d, p string
	if c.Intn(2) == 0 {
		n := 100/2 + 1 + c.Intn(3)
		d = strings.Repeat("<a>", n) + "t" + strings.Repeat("</a>", n)
		p = strings.TrimSuffix(strings.Repeat("a.0.", n), ".")
		if c.Intn(2) == 0 {
			p += pick(c, []string{".b", ".@k", "|@pretty"})
		}
	} else {
		n := 256 + 1 + c.Intn(4)
		q := pick(c, []string{"@k==", "b==", "@k!=z", "b>=", "b%"})
		e := q + strings.Repeat(" ", n-len(q)-1) + "1"
		if c.Intn(3) == 0 {
			e = q + "1" + strings.Repeat(" ", n-len(q)-1)
		}
		d = "<r><a k=\"1\"><b>1</b></a><a k=\"1\"><b>1</b></a></r>"
		p = "r.a.#(" + e + ")" + pick(c, []string{"", "#", ".b", "#.b", "#.@k"})
		if c.Intn(4) == 0 {
			p = "r.#(" + e + ").a"
		}
	}
	c.try("doc=%q path=%q", d, p)
	for f, r := range c10Query(c, d, p) {
		if r.Exists() {
			c.failf("%s finds %q", f, r.Raw)
		}
	}
	errs := c10Edits(d, p, "v")
	for f, err := range c10Deletes(d, p) {
		errs[f] = err
	}
	for f, err := range errs {
		if err == nil {
			c.failf("%s succeeds", f)
		}
	}
	if _, err := xmldot.SetRaw(d, p, "<z/>"); err == nil {
		c.failf("SetRaw succeeds")
	}
}

func c10Chain(c *ctx) {
	p := "r.a"
	for k := 20 + 1 + c.Intn(3); k > 0; k-- {
		p += "|@" + pick(c, []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly"})
	}
	d := pick(c, []string{"<r><a>1</a></r>", "<r><a>1</a><a>2</a></r>"})
	c.try("doc=%q path=%q", d, p)
	for _, q := range []string{p, strings.Replace(p, "r.a", "r.*", 1), strings.Replace(p, "r.a", "r.a.#.%", 1)} {
		if r := xmldot.Get(d, q); r.Exists() {
			c.failf("%s gives %v", q, r)
		}
	}
}

func c10Results(c *ctx) {
	var b strings.Builder
	n := pick(c, []int{1, 2, 900, 999, 1000, 1001, 1002, 1200})
	g := 1
	if c.Intn(2) == 0 {
		g, n = 2+c.Intn(12), 60+c.Intn(450)
	}
	frag := c.Intn(8) == 0 && g > 1
	if !frag {
		b.WriteString("<r>")
	}
	item := "<i k=\"1\"><v>1</v><v>2</v></i>"
	if c.Intn(3) == 0 {
		item = pick(c, []string{"<i k=\"1\"><v/><v/></i>", "<i k=\"1\"/>", "<i k=\"\"><v></v><v> </v><v/></i>", "<i k=\"1\">t<v k=\"2\">x</v>u<v/></i>"})
	}
	for j := 0; j < g; j++ {
		if g > 1 {
			b.WriteString("<g>")
		}
		for i := 0; i < n; i++ {
			b.WriteString(item)
		}
		if g > 1 {
			b.WriteString("</g>")
		}
	}
	if !frag {
		b.WriteString("</r>")
	}
	pre := "r"
	if frag {
		pre = "g"
	} else if g > 1 {
		pre = pick(c, []string{"r.g", "r.*", "r.g.#(i)#", "r.g.#", "r.g.0", "r.**"})
	}
	p := pre + pick(c, []string{".i", ".*", ".**", ".i.#.v", ".i.#.@k", ".i.#.%", ".i.#(@k==1)#", ".i.#(@k==1)#.v", ".i.#(@k==1)#.@k", ".i.#(@k==1)#.%", ".*.v", ".*.@k", ".*.%", ".**.v", ".**.i", ".i.#(v>0)#.#.v", ".**.**", ".*.*", ".i.v"}) +
		pick(c, []string{"", "", "|@flatten", "|@reverse", "|@sort|@flatten", "|@first", "|@last"})
	d := b.String()
	c.try("%d groups of %d elements %s (no root: %v) path=%q", g, n, item, frag, p)
	o := &xmldot.Options{CaseSensitive: c.Intn(2) == 0}
	rs := map[string]xmldot.Result{"Get": xmldot.Get(d, p), "GetWithOptions": xmldot.GetWithOptions(d, p, o), "GetMany": xmldot.GetMany(d, p)[0]}
	if i := strings.Index(p, "."); i > 0 && !frag {
		rs["Result.Get"] = xmldot.Get(d, p[:i]).Get(p[i+1:])
	}
	for f, r := range rs {
		if len(r.Results) > 1000 {
			c.failf("%s gives %d results", f, len(r.Results))
		}
	}
}
