package main

import (
	"fmt"

	"github.com/netascode/xmldot"
)

func init() {
	props["C18"] = property{
		"random documents, paths, values and Results through every pair of equivalent entry points; non-trivial: distinct (document, path) pairs",
		func(c *ctx) {
			var dt *docT
			var d string
			if c.Intn(6) == 0 {
				d = c.anyDoc()
			} else {
				dt = c.doc()
				d = dt.text
			}
			c.shallow = len(d) > 400
			var paths []string
			n := 4
			if c.Intn(300) == 0 {
				n = 80
			}
			for k := c.Intn(n); k >= 0; k-- {
				paths = append(paths, c.editPath(dt))
			}
			v := c.value()
			c.try("doc=%.2000q paths=%q value=%#v", d, paths, v)
			c18(c, d, paths, v)
		}}
}

func c18(c *ctx, d string, paths []string, v any) {
	var opts []*xmldot.Options
	opts = append(opts, nil, &xmldot.Options{CaseSensitive: true}, xmldot.DefaultOptions())
	same := func(what string, a, b xmldot.Result) {
		if !sameResult(a, b) {
			c.failf("%s gives %.300q, the basic call %.300q", what, fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b))
		}
	}
	many := xmldot.GetMany(d, paths...)
	if len(many) != len(paths) {
		c.failf("GetMany gives %d results for %d paths", len(many), len(paths))
		return
	}
	sub := xmldot.Get(d, paths[0])
	nest := append([]string{"*", "#", "b"}, paths...)
	subs := sub.GetMany(nest...)
	if len(subs) != len(nest) {
		c.failf("Result.GetMany gives %d results for %d paths", len(subs), len(nest))
		return
	}
	for i, p := range nest {
		same("Result.GetMany of "+p, subs[i], sub.Get(p))
		for _, o := range opts {
			same("Result.GetWithOptions of "+p, sub.GetWithOptions(p, o), sub.Get(p))
		}
	}
	for i, p := range paths {
		r := xmldot.Get(d, p)
		same("GetMany of "+p, many[i], r)
		same("GetBytes of "+p, xmldot.GetBytes([]byte(d), p), r)
		same("GetString of "+p, xmldot.GetString(d, p), r)
		for _, o := range opts {
			same("GetWithOptions of "+p, xmldot.GetWithOptions(d, p, o), r)
			same("GetStringWithOptions of "+p, xmldot.GetStringWithOptions(d, p, o), r)
			same("GetBytesWithOptions of "+p, xmldot.GetBytesWithOptions([]byte(d), p, o), r)
		}
		edit := func(what, got string, err error, want string, werr error) {
			if got != want || (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
				c.failf("%s at %q gives %.300q, %v; the basic call %.300q, %v", what, p, got, err, want, werr)
			}
		}
		want, werr := xmldot.Set(d, p, v)
		b, err := xmldot.SetBytes([]byte(d), p, v)
		edit("SetBytes", string(b), err, want, werr)
		dwant, dwerr := xmldot.Delete(d, p)
		b, err = xmldot.DeleteBytes([]byte(d), p)
		edit("DeleteBytes", string(b), err, dwant, dwerr)
		for _, o := range opts {
			s, err := xmldot.SetWithOptions(d, p, v, o)
			edit("SetWithOptions", s, err, want, werr)
			b, err := xmldot.SetBytesWithOptions([]byte(d), p, v, o)
			edit("SetBytesWithOptions", string(b), err, want, werr)
			b, err = xmldot.DeleteBytesWithOptions([]byte(d), p, o)
			edit("DeleteBytesWithOptions", string(b), err, dwant, dwerr)
		}
	}
}
