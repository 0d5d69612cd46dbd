package main

import (
	"bytes"
	"errors"
	"reflect"
	"strings"

	"github.com/netascode/xmldot"
)

func sentinel(err error) bool {
	return errors.Is(err, xmldot.ErrInvalidPath) || errors.Is(err, xmldot.ErrMalformedXML) || errors.Is(err, xmldot.ErrInvalidValue)
}

// guarded is a byte slice inside a larger array whose other bytes must survive.
type guarded struct {
	arr  []byte
	s    []byte
	copy []byte
}

func guard(d string) *guarded {
	g := &guarded{arr: []byte("<guard>" + d + "</guard>" + strings.Repeat("#", 64))}
	g.s = g.arr[7 : 7+len(d)]
	g.copy = append([]byte{}, g.arr...)
	return g
}

func (g *guarded) check(c *ctx, what string) {
	if !bytes.Equal(g.arr, g.copy) {
		c.failf("%s wrote to the caller's bytes: %.300q became %.300q", what, g.copy, g.arr)
	}
}

// deep copy of a Result, spare capacity included
func copyResult(r xmldot.Result) xmldot.Result {
	x := r
	x.Str, x.Raw = strings.Clone(r.Str), strings.Clone(r.Raw)
	if r.Results != nil {
		all := r.Results[:cap(r.Results)]
		x.Results = make([]xmldot.Result, len(all))
		for i := range all {
			x.Results[i] = copyResult(all[i])
		}
	}
	return x
}

// result makes a Result tree as a caller might, with spare capacity behind its arrays.
func (c *ctx) result(depth int) xmldot.Result {
	if depth > 0 && c.Intn(3) > 0 {
		n := c.Intn(4)
		rs := make([]xmldot.Result, n, n+c.Intn(3))
		for i := range rs {
			rs[i] = c.result(depth - 1)
		}
		return xmldot.Result{Type: xmldot.Array, Results: rs}
	}
	s := pick(c, textPool)
	switch c.Intn(5) {
	case 0:
		return xmldot.Result{Type: xmldot.Number, Str: "3", Num: float64(c.Intn(9)), Raw: "3"}
	case 1:
		return xmldot.Result{Type: xmldot.Element, Str: s, Raw: "<a>" + s + "</a>"}
	case 2:
		return xmldot.Result{Type: xmldot.Attribute, Str: s, Raw: s}
	case 3:
		return xmldot.Result{Type: pick(c, []xmldot.Type{xmldot.Null, xmldot.True, xmldot.False})}
	}
	return xmldot.Result{Type: xmldot.String, Str: s, Raw: s}
}

func sameResult(a, b xmldot.Result) bool {
	if len(a.Results) == 0 && len(b.Results) == 0 {
		a.Results, b.Results = nil, nil
	}
	if len(a.Results) != len(b.Results) {
		return false
	}
	for i := range a.Results {
		if !sameResult(a.Results[i], b.Results[i]) {
			return false
		}
	}
	a.Results, b.Results = nil, nil
	return reflect.DeepEqual(a, b) || a.Num != a.Num && b.Num != b.Num
}

func (c *ctx) editPath(d *docT) string {
	if d != nil && c.Intn(3) > 0 {
		n := pick(c, d.all())
		if p, ok := pathTo(c, d, n); ok {
			switch c.Intn(6) {
			case 0:
				return p + "." + pick(c, []string{"new", "a.b", "b.0", "item.-1", "a.5", "*", "#", "%"})
			case 1:
				return p + ".@" + pick(c, []string{"id", "x", "new", "", "bad name"})
			case 2:
				return p + "." + pick(c, segPool)
			}
			return p
		}
	}
	return c.path()
}

func init() {
	props["C02"] = property{
		"edits on random documents, paths, values and batches, with every argument kept in guarded memory; non-trivial: distinct (document, path) pairs",
		func(c *ctx) {
			var dt *docT
			var d string
			if c.Intn(4) == 0 {
				d = c.anyDoc()
			} else {
				dt = c.doc()
				d = dt.text
			}
			if c.i%3000 == 5 {
				d = strings.Repeat(" ", xmldot.MaxDocumentSize+1)
				dt = nil
			}
			c.shallow = len(d) > 400
			var paths []string
			var vals []any
			for k := c.Intn(4); k >= 0; k-- {
				paths = append(paths, c.editPath(dt))
				v := c.value()
				if c.Intn(8) == 0 {
					v = pick(c, []any{make(chan int), map[string]any{"a": 1}, []string{"x"}, []any{1, "b"}})
				}
				vals = append(vals, v)
			}
			if c.Intn(20) == 0 {
				vals = vals[1:]
			}
			o := c.options()
			c.try("doc=%.2000q paths=%q values=%#v options=%+v", d, paths, vals, o)
			c02(c, d, paths, vals, o)
		}}
}

func c02(c *ctx, d string, paths []string, vals []any, o *xmldot.Options) {
	orig := strings.Clone(d)
	d = string([]byte(d))
	paths0 := append([]string{}, paths...)
	for i := range paths0 {
		paths0[i] = strings.Clone(paths0[i])
	}
	p := paths[0]
	var v any = "v"
	if len(vals) > 0 {
		v = vals[0]
	}
	bv, isB := v.([]byte)
	bv0 := append([]byte{}, bv...)
	var o0 xmldot.Options
	if o != nil {
		o0 = *o
	}
	vals0 := append([]any{}, vals...)
	args := func(what string) {
		if d != orig {
			c.failf("%s changed the caller's string to %.300q", what, d)
		}
		for i := range paths {
			if paths[i] != paths0[i] {
				c.failf("%s changed paths[%d] from %q to %q", what, i, paths0[i], paths[i])
			}
		}
		if isB && !bytes.Equal(bv, bv0) {
			c.failf("%s changed the value bytes", what)
		}
		if o != nil && !reflect.DeepEqual(*o, o0) {
			c.failf("%s changed the options to %+v", what, *o)
		}
		for i := range vals {
			if _, ok := vals[i].(chan int); !ok && !reflect.DeepEqual(vals[i], vals0[i]) {
				c.failf("%s changed values[%d]", what, i)
			}
		}
	}
	str := func(what string, out string, err error) {
		args(what)
		if err != nil {
			if out != orig {
				c.failf("%s failed with %v and returned %.300q instead of the document", what, err, out)
			}
			if !sentinel(err) {
				c.failf("%s: error %q matches no sentinel", what, err)
			}
		}
	}
	type kept struct {
		what      string
		b, before []byte
	}
	var keep []kept
	byt := func(what string, g *guarded, out []byte, err error) {
		args(what)
		g.check(c, what)
		if err != nil {
			if !bytes.Equal(out, []byte(orig)) {
				c.failf("%s failed with %v and returned %.300q instead of the document", what, err, out)
			}
			if !sentinel(err) {
				c.failf("%s: error %q matches no sentinel", what, err)
			}
			return
		}
		keep = append(keep, kept{what, out, append([]byte{}, out...)})
	}
	s, err := xmldot.Set(d, p, v)
	str("Set", s, err)
	g := guard(d)
	b, err := xmldot.SetBytes(g.s, p, v)
	byt("SetBytes", g, b, err)
	raw := pick(c, []string{"<x/>", "<x><y>1</y></x>", "text", "<x", "<a></b>", "", "&amp;"})
	s, err = xmldot.SetRaw(d, p, raw)
	str("SetRaw", s, err)
	s, err = xmldot.SetMany(d, paths, vals)
	str("SetMany", s, err)
	g = guard(d)
	b, err = xmldot.SetManyBytes(g.s, paths, vals)
	byt("SetManyBytes", g, b, err)
	s, err = xmldot.SetWithOptions(d, p, v, o)
	str("SetWithOptions", s, err)
	g = guard(d)
	b, err = xmldot.SetBytesWithOptions(g.s, p, v, o)
	byt("SetBytesWithOptions", g, b, err)
	s, err = xmldot.Delete(d, p)
	str("Delete", s, err)
	g = guard(d)
	b, err = xmldot.DeleteBytes(g.s, p)
	byt("DeleteBytes", g, b, err)
	s, err = xmldot.DeleteMany(d, paths...)
	str("DeleteMany", s, err)
	g = guard(d)
	b, err = xmldot.DeleteManyBytes(g.s, paths...)
	byt("DeleteManyBytes", g, b, err)
	g = guard(d)
	b, err = xmldot.DeleteBytesWithOptions(g.s, p, o)
	byt("DeleteBytesWithOptions", g, b, err)
	// queries
	g = guard(d)
	r := xmldot.GetBytes(g.s, p)
	g.check(c, "GetBytes")
	r2 := xmldot.GetBytesWithOptions(g.s, p, o)
	g.check(c, "GetBytesWithOptions")
	xmldot.ValidBytes(g.s)
	xmldot.ValidateBytesWithError(g.s)
	g.check(c, "ValidBytes")
	xmldot.GetMany(d, paths...)
	args("GetMany")
	for _, x := range []xmldot.Result{r, r2, c.result(3), {Type: xmldot.Array, Results: append(make([]xmldot.Result, 0, 8), r, r2)}} {
		before := copyResult(x)
		x.Get(paths[len(paths)-1])
		x.GetMany(paths...)
		x.GetWithOptions(p, o)
		x.Array()
		x.Map()
		x.MapWithOptions(o)
		x.ForEach(func(i int, y xmldot.Result) bool { return true })
		_ = x.String()
		x.Value()
		for _, m := range []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly", "raw", "keys", "values", "count"} {
			if md := xmldot.GetModifier(m); md != nil {
				md.Apply(x)
			}
		}
		if !sameResult(copyResult(x), before) {
			c.failf("a method or modifier changed the Result it was called on: %+v, was %+v", copyResult(x), before)
		}
		args("Result methods")
	}
	for _, k := range keep {
		if !bytes.Equal(k.b, k.before) {
			c.failf("the document returned by %s was overwritten by a later call: %.300q became %.300q", k.what, k.before, k.b)
		}
	}
	// writing to a result must not reach the caller's document
	g = guard(d)
	if b, err := xmldot.SetBytes(g.s, p, v); err == nil {
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = '!'
		}
		g.check(c, "writing to the result of SetBytes")
	}
	g = guard(d)
	if b, err := xmldot.DeleteBytes(g.s, p); err == nil {
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = '!'
		}
		g.check(c, "writing to the result of DeleteBytes")
	}
}
