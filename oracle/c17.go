package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

func (c *ctx) anyResult(depth int) xmldot.Result {
	types := []xmldot.Type{xmldot.Null, xmldot.String, xmldot.Number, xmldot.True, xmldot.False, xmldot.Element, xmldot.Attribute}
	r := xmldot.Result{Type: pick(c, types), Num: pick(c, []float64{0, 1, -1, 2.5, -0.25, 1e18, 3e9, math.SmallestNonzeroFloat64})}
	r.Str = pick(c, []string{"", " ", "1", "0", "-7", "+7", "12.5", "1e3", " 5", "5 ", "true", "True", "TRUE", "yes", "YES", "Yes", "t", "T", "f", "no", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x10", "1_0", "nan", "inf", "1e999", "a\"b", "\\", "\\\"", ",", "é\"", "[x]", "\xff", "a\nb", "日本", "<b>", "1.0", "07", "."})
	r.Raw = pick(c, []string{"", r.Str, "<v>1</v>"})
	if depth > 0 && c.Intn(3) == 0 {
		r.Type = xmldot.Array
		if c.Intn(8) > 0 {
			r.Results = []xmldot.Result{}
		}
		for k := c.Intn(5); k > 0; k-- {
			r.Results = append(r.Results, c.anyResult(depth-1))
		}
	} else if c.Intn(20) == 0 {
		r.Results = []xmldot.Result{{Type: xmldot.String, Str: "stray"}}
	}
	return r
}

func stringRef(r xmldot.Result) string {
	switch r.Type {
	case xmldot.Null:
		return ""
	case xmldot.Array:
		var l []string
		for _, x := range r.Results {
			s := string([]rune(stringRef(x)))
			l = append(l, "\""+strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s)+"\"")
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	return r.Str
}

func init() {
	props["C17"] = property{
		"results of every kind, nested up to three deep, whose strings are numbers, near-numbers, truth values and texts with quotes, backslashes and invalid UTF-8; non-trivial: distinct results",
		func(c *ctx) {
			r := c.anyResult(3)
			c.try("result %#v", r)
			textual := r.Type == xmldot.String || r.Type == xmldot.Element || r.Type == xmldot.Attribute
			if r.Exists() != (r.Type != xmldot.Null) || r.IsArray() != (r.Type == xmldot.Array) {
				c.failf("Exists %v, IsArray %v", r.Exists(), r.IsArray())
			}
			if s := r.String(); s != stringRef(r) {
				c.failf("String gives %q, not %q", s, stringRef(r))
			}
			var items []xmldot.Result
			switch r.Type {
			case xmldot.Null:
			case xmldot.Array:
				items = r.Results
			default:
				items = []xmldot.Result{r}
			}
			arr := r.Array()
			if len(arr) != len(items) || len(items) > 0 && !reflect.DeepEqual(arr, items) {
				c.failf("Array gives %#v, not %#v", arr, items)
			}
			stop := c.Intn(len(items) + 2)
			n := 0
			r.ForEach(func(i int, x xmldot.Result) bool {
				if n >= len(items) || i != n || !reflect.DeepEqual(x, items[n]) {
					c.failf("ForEach visits %d: %#v as item %d", i, x, n)
				}
				n++
				return n != stop
			})
			want := len(items)
			if stop > 0 && stop < want {
				want = stop
			}
			if n != want {
				c.failf("ForEach visits %d items, not %d", n, want)
			}
			var i int64
			var f float64
			var b bool
			var v any
			switch {
			case textual:
				if x, err := strconv.ParseInt(r.Str, 10, 64); err == nil {
					i = x
				}
				if x, err := strconv.ParseFloat(r.Str, 64); err == nil {
					f = x
				}
				for _, t := range []string{"true", "1", "yes", "True", "YES", "t", "T"} {
					b = b || r.Str == t
				}
				v = r.Str
			case r.Type == xmldot.Number:
				i, f, b, v = int64(r.Num), r.Num, r.Num != 0, r.Num
			case r.Type == xmldot.True:
				i, f, b, v = 1, 1, true, true
			case r.Type == xmldot.False:
				v = false
			case r.Type == xmldot.Array:
				v = r.Results
			}
			if got := r.Int(); got != i {
				c.failf("Int gives %d, not %d", got, i)
			}
			if got := r.Float(); math.Float64bits(got) != math.Float64bits(f) {
				c.failf("Float gives %v, not %v", got, f)
			}
			if got := r.Bool(); got != b {
				c.failf("Bool gives %v", got)
			}
			if got := r.Value(); fmt.Sprintf("%T %#v", got, got) != fmt.Sprintf("%T %#v", v, v) {
				c.failf("Value gives %#v, not %#v", got, v)
			}
		},
	}
}
