package main

import (
	"errors"

	"github.com/netascode/xmldot"
)

func init() {
	props["C07"] = property{
		"batches of up to 6 (rarely 149) random edits, with repeated paths and failing steps, against the same edits applied one by one; non-trivial: distinct (document, paths) pairs",
		func(c *ctx) {
			var dt *docT
			var d string
			if c.Intn(8) == 0 {
				d = c.anyDoc()
			} else {
				dt = c.doc()
				d = dt.text
			}
			if c.Intn(40) == 0 {
				d = ""
			}
			c.shallow = len(d) > 400
			var paths []string
			var vals []any
			n := 7
			if c.Intn(200) == 0 {
				n = 150
			}
			for k := c.Intn(n); k > 0; k-- {
				p := c.editPath(dt)
				if len(paths) > 0 && c.Intn(3) == 0 {
					p = pick(c, paths)
				}
				paths = append(paths, p)
				v := c.value()
				if c.Intn(12) == 0 {
					v = pick(c, []any{nil, make(chan int), []string{"x"}})
				}
				vals = append(vals, v)
			}
			if c.Intn(15) == 0 && len(vals) > 0 {
				vals = vals[1:]
			} else if c.Intn(15) == 0 {
				vals = append(vals, "extra")
			}
			c.try("doc=%.2000q paths=%q values=%#v", d, paths, vals)
			c07(c, d, paths, vals)
		}}
}

func c07(c *ctx, d string, paths []string, vals []any) {
	got, err := xmldot.SetMany(d, paths, vals)
	gotB, errB := xmldot.SetManyBytes([]byte(d), paths, vals)
	if got != string(gotB) || (err == nil) != (errB == nil) {
		c.failf("SetMany gives %.300q, %v but SetManyBytes gives %.300q, %v", got, err, gotB, errB)
	}
	want := d
	var step error
	switch {
	case len(paths) != len(vals):
		if err == nil || got != d {
			c.failf("SetMany with %d paths and %d values gives %.300q, %v", len(paths), len(vals), got, err)
		}
	default:
		for i := range paths {
			if want, step = xmldot.Set(want, paths[i], vals[i]); step != nil {
				break
			}
		}
		batch(c, "SetMany", d, got, err, want, step)
	}

	got, err = xmldot.DeleteMany(d, paths...)
	gotB, errB = xmldot.DeleteManyBytes([]byte(d), paths...)
	if got != string(gotB) || (err == nil) != (errB == nil) {
		c.failf("DeleteMany gives %.300q, %v but DeleteManyBytes gives %.300q, %v", got, err, gotB, errB)
	}
	want, step = d, nil
	for i, p := range paths {
		dup := false
		for _, q := range paths[:i] {
			dup = dup || p == q
		}
		if dup {
			continue
		}
		if want, step = xmldot.Delete(want, p); step != nil {
			break
		}
	}
	batch(c, "DeleteMany", d, got, err, want, step)
}

func batch(c *ctx, what, d, got string, err error, want string, step error) {
	if step == nil {
		if err != nil || got != want {
			c.failf("%s gives %.300q, %v; one by one the edits give %.300q", what, got, err, want)
		}
		return
	}
	if err == nil {
		c.failf("%s gives %.300q and no error although a step fails with %v", what, got, step)
		return
	}
	if got != d {
		c.failf("%s fails with %v but returns %.300q instead of the original", what, err, got)
	}
	for _, s := range []error{xmldot.ErrInvalidPath, xmldot.ErrMalformedXML, xmldot.ErrInvalidValue} {
		if errors.Is(step, s) && !errors.Is(err, s) {
			c.failf("%s fails with %v, which does not wrap the failing step's %v", what, err, step)
		}
	}
}
