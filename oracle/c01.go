package main

import (
	"errors"
	"strings"

	"github.com/netascode/xmldot"
)

func init() {
	props["C01"] = property{
		"every exported call on random documents (well-formed, damaged, byte soup), paths, values and options; distinct calls counted by document and path",
		func(c *ctx) {
			d := c.anyDoc()
			if c.i < 4 {
				d = []string{"", strings.Repeat("<a>", 120) + strings.Repeat("</a>", 120), "<a" + strings.Repeat(" x='1'", 150) + "/>", strings.Repeat("<a/>", 1200)}[c.i]
			}
			if c.i%500 == 77 {
				d = strings.Repeat(c.soup(4), 300)
			}
			// nested recursive wildcards on deep documents are slow by design
			c.shallow = len(d) > 400
			p := c.path()
			o := c.options()
			v := c.value()
			c.try("doc=%.3000q path=%q value=%#v options=%+v", d, p, v, o)
			exercise(c, d, p, v, o)
		}}
}

func exercise(c *ctx, d, p string, v any, o *xmldot.Options) {
	rs := []xmldot.Result{xmldot.Get(d, p), xmldot.GetString(d, p), xmldot.GetBytes([]byte(d), p),
		xmldot.GetWithOptions(d, p, o), xmldot.GetStringWithOptions(d, p, o), xmldot.GetBytesWithOptions([]byte(d), p, o)}
	rs = append(rs, xmldot.GetMany(d, p, "", c.path())...)
	for i, r := range rs {
		if i == 1 || i == 2 || i == 4 {
			continue
		}
		result(c, r, o, 2)
	}
	xmldot.Set(d, p, v)
	xmldot.SetBytes([]byte(d), p, v)
	xmldot.SetRaw(d, p, c.anyDoc())
	xmldot.SetRaw(d, p, c.soup(5))
	xmldot.SetMany(d, []string{p, c.path()}, []any{v, c.value()})
	xmldot.SetManyBytes([]byte(d), []string{p}, []any{v})
	xmldot.SetMany(d, nil, nil)
	xmldot.SetManyBytes(nil, []string{p}, nil)
	xmldot.SetWithOptions(d, p, v, o)
	xmldot.SetBytesWithOptions([]byte(d), p, v, o)
	xmldot.Delete(d, p)
	xmldot.DeleteBytes([]byte(d), p)
	xmldot.DeleteMany(d, p, p, c.path())
	xmldot.DeleteManyBytes([]byte(d), p)
	xmldot.DeleteBytesWithOptions([]byte(d), p, o)
	xmldot.Valid(d)
	xmldot.ValidBytes([]byte(d))
	if e := xmldot.ValidateWithError(d); e != nil {
		_ = e.Error()
		_ = errors.Is(e, xmldot.ErrMalformedXML)
	}
	xmldot.ValidateBytesWithError([]byte(d))
	xmldot.GetModifier(p)
	xmldot.UnregisterModifier(p + "nosuch")
}

func result(c *ctx, r xmldot.Result, o *xmldot.Options, depth int) {
	r.Exists()
	_ = r.String()
	r.Int()
	r.Float()
	r.Bool()
	r.Value()
	r.IsArray()
	r.Array()
	r.ForEach(func(i int, x xmldot.Result) bool { return i < 3 })
	r.Map()
	r.MapWithOptions(o)
	if depth > 0 {
		q := c.path()
		result(c, r.Get(q), o, depth-1)
		result(c, r.GetWithOptions(q, o), o, depth-1)
		r.GetMany(q, "a")
	}
}
