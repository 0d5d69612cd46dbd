package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scanReplacers records the constant arguments of every strings.NewReplacer call.
func (P *Program) scanReplacers(files []*ast.File, info *types.Info) {
	if P.repl == nil {
		P.repl = map[token.Pos][]string{}
		P.replOf = map[ssa.Value]string{}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			sel, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "NewReplacer" || len(c.Args) == 0 || len(c.Args)%2 != 0 {
				return true
			}
			o := info.Uses[sel.Sel]
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "strings" {
				return true
			}
			var xs []string
			for i, a := range c.Args {
				v := info.Types[a].Value
				if v == nil || v.Kind() != constant.String || i%2 == 0 && constant.StringVal(v) == "" {
					return true
				}
				xs = append(xs, constant.StringVal(v))
			}
			P.repl[c.Lparen] = xs
			return true
		})
	}
}

// addReplacers turns each constant replacer table of the source into a scanning function
// and proposes its equality with the functions named by scanspec.
func (sf *SpecFile) addReplacers(P *Program) {
	stores := map[ssa.Value][]ssa.Value{}
	calls := map[token.Pos]ssa.Value{}
	fs := map[*ssa.Function]bool{}
	for f := range P.Names {
		fs[f] = true
	}
	for _, pk := range P.Pkgs {
		if f := pk.Func("init"); f != nil {
			fs[f] = true
		}
	}
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s.Val)
					}
				}
				if c, ok := in.(*ssa.Call); ok && P.repl[c.Pos()] != nil {
					calls[c.Pos()] = c
				}
			}
		}
	}
	var ps []token.Pos
	for p := range calls {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	q := func(s string) string { return fmt.Sprintf("%q", s) }
	for k, p := range ps {
		n := fmt.Sprintf("repl_%d", k)
		P.replOf[calls[p]] = n
		for g, vs := range stores {
			if len(vs) == 1 && vs[0] == calls[p] {
				P.replOf[g] = n
			}
		}
		xs := P.repl[p]
		var b strings.Builder
		fmt.Fprintf(&b, "rec %s(s string, i int) string == i < 0 || i >= len(s) ? \"\" : ", n)
		for i := 0; i < len(xs); i += 2 {
			fmt.Fprintf(&b, "i + %d <= len(s)", len(xs[i]))
			for j := 0; j < len(xs[i]); j++ {
				fmt.Fprintf(&b, " && s[i+%d] == %d", j, xs[i][j])
			}
			fmt.Fprintf(&b, " ? %s + %s(s, i + %d) : ", q(xs[i+1]), n, len(xs[i]))
		}
		fmt.Fprintf(&b, "s[i:i+1] + %s(s, i + 1)\n", n)
		for _, f := range sf.ScanSpecs {
			tags := ""
			if len(sf.ScanTags) > 0 {
				tags = "[" + strings.Join(sf.ScanTags, ",") + "] "
			}
			fmt.Fprintf(&b, "lemma %s%s_is_%s(s string, i int) {%s(s, i)} induct(len(s) - i): 0 <= i ==> %s(s, i) == %s(s, i)\n", tags, n, f, n, n, f)
		}
		at := len(sf.Axioms)
		sf.loadText("replacer table at "+P.Fset.Position(p).String(), b.String())
		for _, a := range sf.Axioms[at:] {
			a.Auto = true
		}
	}
	// generated lemmas come first so that the others may use them
	sort.SliceStable(sf.Axioms, func(i, j int) bool { return sf.Axioms[i].Auto && !sf.Axioms[j].Auto })
}
