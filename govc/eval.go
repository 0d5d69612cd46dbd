package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: an SMT term, or a translator-level value (address, tuple, closure).
type Val struct {
	T   types.Type
	S   string
	Tup []Val
	LV  *LV
	Clo *Closure
	Src ssa.Value // for boxed slices handed to sort.Slice
	In  *Val      // value inside a MakeInterface
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

type lvKind int

const (
	lvLocal lvKind = iota
	lvField
	lvElem
	lvCell
	lvGlobal
	lvStruct // whole struct in the heap at address Ref
)

// LV is an address that never needs to be a first-class reference.
type LV struct {
	K    lvKind
	Comp string // component holding the value
	Ref  string
	Idx  string
	T    types.Type // type of the root value in the component
	Path []int      // fields inside the root value
	PT   []types.Type
}

type State map[string]string

func (s State) clone() State {
	m := make(State, len(s))
	for k, v := range s {
		m[k] = v
	}
	return m
}

// Eval evaluates contract expressions in a state.
type Eval struct {
	u       *Univ
	fx      *Fx // for heap access; nil for pure spec functions
	st      State
	old     State
	oldLook func(string) (Val, bool)
	loopSt  State
	loopLk  func(string) (Val, bool)
	vars    map[string]Val
	look    func(string) (Val, bool)
	limited string
	limAll  bool // lemma statements never unfold definitions by themselves
	depth   int
}

type unresolved struct{ name string }

func (ev *Eval) clone() *Eval {
	c := *ev
	return &c
}

func (ev *Eval) with(name string, v Val) *Eval {
	c := ev.clone()
	c.vars = make(map[string]Val, len(ev.vars)+1)
	for k, x := range ev.vars {
		c.vars[k] = x
	}
	c.vars[name] = v
	return c
}

func (ev *Eval) ident(n string) Val {
	if v, ok := ev.vars[n]; ok {
		return v
	}
	if ev.look != nil {
		if v, ok := ev.look(n); ok {
			if v.LV != nil && ev.fx != nil && v.S == "" {
				return ev.fx.loadLV(v.LV, ev.st)
			}
			return v
		}
	}
	if f := ev.u.S.Funcs[n]; f != nil && len(f.Params) == 0 {
		return ev.call(&Expr{Op: "call", Name: n})
	}
	if o := ev.u.P.Pkgs[modPath].Pkg.Scope().Lookup(n); o != nil {
		switch o := o.(type) {
		case *types.Const:
			return ev.u.constVal(o.Val(), o.Type())
		case *types.Var:
			if ev.fx != nil {
				g := ev.u.P.Pkgs[modPath].Var(n)
				return ev.fx.loadLV(ev.fx.globalLV(g), ev.st)
			}
			if ev.u.S.Consts[n] {
				return ev.u.constGlobal(n, o.Type())
			}
		}
	}
	panic(unresolved{n})
}

func (u *Univ) constGlobal(n string, t types.Type) Val {
	u.decl(fmt.Sprintf("(declare-const G_%s %s)", n, u.sortOf(t)))
	if _, ok := t.Underlying().(*types.Interface); ok {
		u.decl(fmt.Sprintf("(assert (not (= G_%s nilI)))", n))
	}
	return Val{T: t, S: "G_" + n}
}

func (u *Univ) constVal(c constant.Value, t types.Type) Val {
	if c == nil {
		return Val{T: t, S: u.zero(t)}
	}
	switch c.Kind() {
	case constant.Bool:
		return Val{T: t, S: fmt.Sprint(constant.BoolVal(c))}
	case constant.String:
		return Val{T: t, S: u.lit(constant.StringVal(c))}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{T: t, S: u.floatConst(c)}
		}
		s := c.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		return Val{T: t, S: s}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(constant.ToInt(c)); ok {
				return Val{T: t, S: fmt.Sprint(i)}
			}
		}
		return Val{T: t, S: u.floatConst(c)}
	}
	unsup("constant %v", c)
	return Val{}
}

func (u *Univ) floatConst(c constant.Value) string {
	if constant.Sign(c) == 0 {
		return "fzero"
	}
	n := "flt_" + sanitize(strings.NewReplacer("/", "o", "-", "m").Replace(c.ExactString()))
	u.decl("(declare-const " + n + " Flt)")
	return n
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ev *Eval) err(e *Expr, f string, a ...any) {
	panic(fmt.Sprintf("%s: %s in %s", e.Pos, fmt.Sprintf(f, a...), e))
}

func (ev *Eval) evalBool(e *Expr) string {
	v := ev.eval(e)
	return v.S
}

// seqView turns slices into their sequence of elements.
func (ev *Eval) seqView(v Val) Val {
	if sl, ok := v.T.Underlying().(*types.Slice); ok {
		p := ev.u.seqPfx(sl.Elem())
		arr := ev.fx.sel(ev.st, ev.fx.elemComp(sl.Elem()), "(sref "+v.S+")")
		t := types.Type(&SeqT{sl.Elem()})
		if p == "s" {
			t = tStr
		}
		return Val{T: t, S: fmt.Sprintf("(%svw %s (soff %s) (slen_ %s))", p, arr, v.S, v.S)}
	}
	return v
}

func (ev *Eval) elemOf(e *Expr, t types.Type) (types.Type, string) {
	if isStrT(t) {
		return tByte, "s"
	}
	if q, ok := t.(*SeqT); ok {
		return q.Elem, ev.u.seqPfx(q.Elem)
	}
	ev.err(e, "not a sequence: %s", t)
	return nil, ""
}

func (ev *Eval) eqTerm(a, b Val) string {
	if a.T != nil && b.T != nil {
		if isStrT(a.T) || isStrT(b.T) {
			return fmt.Sprintf("(seq %s %s)", a.S, b.S)
		}
		for _, t := range []types.Type{a.T, b.T} {
			if q, ok := t.(*SeqT); ok {
				p := ev.u.seqPfx(q.Elem)
				if p == "s" {
					return fmt.Sprintf("(seq %s %s)", a.S, b.S)
				}
				return fmt.Sprintf("(%seq %s %s)", p, a.S, b.S)
			}
		}
		// structs: field by field so that strings compare extensionally
		if st, ok := a.T.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			if hasStr(a.T) {
				var cs []string
				for i := 0; i < st.NumFields(); i++ {
					f := fieldSel(a.T, i)
					cs = append(cs, ev.eqTerm(Val{T: st.Field(i).Type(), S: "(" + f + " " + a.S + ")"}, Val{T: st.Field(i).Type(), S: "(" + f + " " + b.S + ")"}))
				}
				return "(and " + strings.Join(cs, " ") + ")"
			}
		}
	}
	return fmt.Sprintf("(= %s %s)", a.S, b.S)
}

func hasStr(t types.Type) bool {
	if isStrT(t) {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if hasStr(st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (ev *Eval) eval(e *Expr) Val {
	switch e.Op {
	case "ident":
		return ev.ident(e.Name)
	case "int":
		return Val{T: tInt, S: e.Int}
	case "str":
		return Val{T: tStr, S: ev.u.lit(e.Name)}
	case "bool":
		return Val{T: tBool, S: e.Name}
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], S: "0"}
	case "old":
		c := ev.clone()
		if ev.old == nil {
			ev.err(e, "old not available")
		}
		c.st = ev.old
		if ev.oldLook != nil {
			c.look = ev.oldLook
		}
		return c.eval(e.Args[0])
	case "atloop":
		c := ev.clone()
		if ev.loopSt == nil {
			panic(unresolved{"atloop"})
		}
		c.st = ev.loopSt
		c.look = ev.loopLk
		return c.eval(e.Args[0])
	case "let":
		v := ev.eval(e.Args[0])
		return ev.with(e.Name, v).eval(e.Args[1])
	case "cond":
		c, a, b := ev.eval(e.Args[0]), ev.eval(e.Args[1]), ev.eval(e.Args[2])
		a, b = ev.unifyNil(a, b)
		t := a.T
		return Val{T: t, S: fmt.Sprintf("(ite %s %s %s)", c.S, a.S, b.S)}
	case "un":
		v := ev.eval(e.Args[0])
		switch e.Name {
		case "!":
			return Val{T: tBool, S: "(not " + v.S + ")"}
		case "-":
			return Val{T: v.T, S: "(- " + v.S + ")"}
		case "*":
			pt := v.T.Underlying().(*types.Pointer)
			return ev.fx.loadLV(ev.fx.derefLV(v, pt.Elem()), ev.st)
		}
	case "bin":
		return ev.bin(e)
	case "sel":
		return ev.sel(e)
	case "index":
		x := ev.eval(e.Args[0])
		i := ev.eval(e.Args[1])
		switch xt := x.T.(type) {
		case *SetT:
			return Val{T: tBool, S: fmt.Sprintf("(select %s %s)", x.S, i.S)}
		case *ArrT:
			return Val{T: xt.Elem, S: fmt.Sprintf("(select %s %s)", x.S, i.S)}
		}
		if mt, ok := x.T.Underlying().(*types.Map); ok {
			_, mv, _ := ev.fx.mapComps(mt)
			return Val{T: mt.Elem(), S: fmt.Sprintf("(select %s %s)", ev.fx.sel(ev.st, mv, x.S), i.S)}
		}
		if sl, ok := x.T.Underlying().(*types.Slice); ok {
			arr := ev.fx.sel(ev.st, ev.fx.elemComp(sl.Elem()), "(sref "+x.S+")")
			return Val{T: sl.Elem(), S: fmt.Sprintf("(select %s %s)", arr, idxAdd("(soff "+x.S+")", i.S))}
		}
		et, p := ev.elemOf(e, x.T)
		return Val{T: et, S: fmt.Sprintf("(%sat %s %s)", p, x.S, i.S)}
	case "slice":
		x := ev.seqView(ev.eval(e.Args[0]))
		_, p := ev.elemOf(e, x.T)
		lo, hi := "0", fmt.Sprintf("(%slen %s)", p, x.S)
		if e.Args[1] != nil {
			lo = ev.eval(e.Args[1]).S
		}
		if e.Args[2] != nil {
			hi = ev.eval(e.Args[2]).S
		}
		return Val{T: x.T, S: fmt.Sprintf("(%ssub %s %s %s)", p, x.S, lo, hi)}
	case "forall", "exists":
		c := ev
		var ps []string
		for _, p := range e.Vars {
			t := ev.u.specType(p.Type)
			ev.u.nq++
			n := fmt.Sprintf("%s!%d", p.Name, ev.u.nq)
			ps = append(ps, fmt.Sprintf("(%s %s)", n, ev.u.sortOf(t)))
			s := n
			// quantify over positions of the array rather than of the slice: matches however the slice is cut
			if off := c.sliceOff(e, p.Name); off != "" {
				s = "(- " + n + " " + off + ")"
			}
			c = c.with(p.Name, Val{T: t, S: s})
		}
		body := c.eval(e.Args[0]).S
		pat := ""
		cl := c.clone()
		cl.limAll = true // matches folded and unfolded terms alike
		for _, t := range e.Trig {
			var xs []string
			for _, x := range t {
				xs = append(xs, cl.eval(x).S)
			}
			pat += " :pattern (" + strings.Join(xs, " ") + ")"
		}
		if pat != "" {
			return Val{T: tBool, S: fmt.Sprintf("(%s (%s) (! %s%s))", e.Op, strings.Join(ps, " "), body, pat)}
		}
		return Val{T: tBool, S: fmt.Sprintf("(%s (%s) %s)", e.Op, strings.Join(ps, " "), body)}
	case "call":
		return ev.call(e)
	}
	ev.err(e, "cannot evaluate %s", e.Op)
	return Val{}
}

// sliceOff: the offset of the slice a quantifier over x is triggered by. ev knows the variables before x.
func (ev *Eval) sliceOff(e *Expr, x string) string {
	off := ""
	later := false
	var outer []string
	for _, p := range e.Vars {
		if later {
			outer = append(outer, p.Name)
		}
		later = later || p.Name == x
	}
	var walk func(t *Expr) bool
	walk = func(t *Expr) bool {
		if t == nil {
			return true
		}
		if t.Op == "ident" {
			return t.Name != x
		}
		if t.Op == "index" && t.Args[1].Op == "ident" && t.Args[1].Name == x {
			b := t.Args[0]
			if mentions(b, x) {
				return false
			}
			for _, o := range outer {
				if mentions(b, o) {
					return false
				}
			}
			v := ev.eval(b)
			if _, ok := v.T.Underlying().(*types.Slice); !ok {
				return false
			}
			o := "(soff " + v.S + ")"
			if off != "" && off != o {
				return false
			}
			off = o
			return true
		}
		for _, a := range t.Args {
			if !walk(a) {
				return false
			}
		}
		return true
	}
	for _, t := range e.Trig {
		for _, y := range t {
			if !walk(y) {
				return ""
			}
		}
	}
	return off
}

func mentions(e *Expr, x string) bool {
	if e == nil {
		return false
	}
	if e.Op == "ident" && e.Name == x {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func idxAdd(off, i string) string {
	if strings.HasPrefix(i, "(- ") && strings.HasSuffix(i, " "+off+")") {
		return i[3 : len(i)-len(off)-2]
	}
	return "(+ " + off + " " + i + ")"
}

func (ev *Eval) unifyNil(a, b Val) (Val, Val) {
	isNil := func(v Val) bool { bt, ok := v.T.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
	if isNil(a) && !isNil(b) {
		a = Val{T: b.T, S: ev.u.zero(b.T)}
	} else if isNil(b) && !isNil(a) {
		b = Val{T: a.T, S: ev.u.zero(a.T)}
	}
	return a, b
}

func (ev *Eval) bin(e *Expr) Val {
	a, b := ev.eval(e.Args[0]), ev.eval(e.Args[1])
	switch e.Name {
	case "&&":
		return Val{T: tBool, S: fmt.Sprintf("(and %s %s)", a.S, b.S)}
	case "||":
		return Val{T: tBool, S: fmt.Sprintf("(or %s %s)", a.S, b.S)}
	case "==>":
		return Val{T: tBool, S: fmt.Sprintf("(=> %s %s)", a.S, b.S)}
	case "<==>":
		return Val{T: tBool, S: fmt.Sprintf("(= %s %s)", a.S, b.S)}
	case "==", "!=":
		var s string
		isNil := func(v Val) bool { bt, ok := v.T.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
		if isNil(a) || isNil(b) {
			x := a
			if isNil(a) {
				x = b
			}
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				s = "(= (sref " + x.S + ") 0)"
			} else {
				s = fmt.Sprintf("(= %s %s)", x.S, ev.u.zero(x.T))
			}
		} else {
			if _, ok := a.T.Underlying().(*types.Slice); ok {
				if _, ok2 := b.T.Underlying().(*types.Slice); !ok2 {
					a = ev.seqView(a)
				}
			} else if _, ok := b.T.Underlying().(*types.Slice); ok {
				b = ev.seqView(b)
			}
			s = ev.eqTerm(a, b)
		}
		if e.Name == "!=" {
			s = "(not " + s + ")"
		}
		return Val{T: tBool, S: s}
	case "<", "<=", ">", ">=":
		if isStrT(a.T) {
			switch e.Name {
			case "<":
				return Val{T: tBool, S: fmt.Sprintf("(slt %s %s)", a.S, b.S)}
			}
			ev.err(e, "string comparison")
		}
		if ev.u.sortOf(a.T) == "Flt" {
			ev.u.decl("(declare-fun flt (Flt Flt) Bool)")
			ev.u.decl("(declare-fun fle (Flt Flt) Bool)")
			op, x, y := "flt", a.S, b.S
			if e.Name[0] == '>' {
				x, y = y, x
			}
			if len(e.Name) == 2 {
				op = "fle"
			}
			return Val{T: tBool, S: fmt.Sprintf("(%s %s %s)", op, x, y)}
		}
		return Val{T: tBool, S: fmt.Sprintf("(%s %s %s)", e.Name, a.S, b.S)}
	case "+":
		a, b = ev.seqView(a), ev.seqView(b)
		if isStrT(a.T) || isStrT(b.T) {
			return Val{T: tStr, S: fmt.Sprintf("(scat %s %s)", a.S, b.S)}
		}
		if q, ok := a.T.(*SeqT); ok {
			return Val{T: a.T, S: fmt.Sprintf("(%scat %s %s)", ev.u.seqPfx(q.Elem), a.S, b.S)}
		}
		return Val{T: tInt, S: fmt.Sprintf("(+ %s %s)", a.S, b.S)}
	case "-", "*":
		return Val{T: tInt, S: fmt.Sprintf("(%s %s %s)", e.Name, a.S, b.S)}
	case "/":
		return Val{T: tInt, S: fmt.Sprintf("(div %s %s)", a.S, b.S)}
	case "%":
		return Val{T: tInt, S: fmt.Sprintf("(mod %s %s)", a.S, b.S)}
	}
	ev.err(e, "operator %s", e.Name)
	return Val{}
}

func (ev *Eval) sel(e *Expr) Val {
	x := ev.eval(e.Args[0])
	t := x.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			ev.err(e, "selector on %s", t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Name {
				fa := ev.fx.fieldAddr(x, pt.Elem(), i)
				if fa.LV == nil {
					// nested struct: keep its address, typed as pointer, so ghost views work
					return fa
				}
				return ev.fx.loadLV(fa.LV, ev.st)
			}
		}
		if p := promotedSel(st, e); p != nil {
			return ev.sel(p)
		}
		ev.err(e, "no field %s in %s", e.Name, t)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Name {
				return Val{T: st.Field(i).Type(), S: fmt.Sprintf("(%s %s)", fieldSel(t, i), x.S)}
			}
		}
	}
	ev.err(e, "no field %s in %s", e.Name, t)
	return Val{}
}

// promotedSel rewrites x.f to x.E.f when f is a field of the embedded struct E.
func promotedSel(st *types.Struct, e *Expr) *Expr {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		es, ok := f.Type().Underlying().(*types.Struct)
		if !f.Embedded() || !ok {
			continue
		}
		for j := 0; j < es.NumFields(); j++ {
			if es.Field(j).Name() == e.Name {
				in := &Expr{Op: "sel", Name: f.Name(), Args: e.Args, Pos: e.Pos}
				return &Expr{Op: "sel", Name: e.Name, Args: []*Expr{in}, Pos: e.Pos}
			}
		}
	}
	return nil
}

func (ev *Eval) call(e *Expr) Val {
	arg := func(i int) Val { return ev.eval(e.Args[i]) }
	switch e.Name {
	case "len":
		x := arg(0)
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return Val{T: tInt, S: "(slen_ " + x.S + ")"}
		}
		if mt, ok := x.T.Underlying().(*types.Map); ok {
			_, _, ml := ev.fx.mapComps(mt)
			return Val{T: tInt, S: ev.fx.sel(ev.st, ml, x.S)}
		}
		_, p := ev.elemOf(e, x.T)
		return Val{T: tInt, S: fmt.Sprintf("(%slen %s)", p, x.S)}
	case "cap":
		return Val{T: tInt, S: "(scap " + arg(0).S + ")"}
	case "ref":
		x := arg(0)
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return Val{T: tInt, S: "(sref " + x.S + ")"}
		}
		return Val{T: tInt, S: x.S}
	case "str", "seq", "string":
		x := arg(0)
		if isStrT(x.T) {
			return x
		}
		return ev.seqView(x)
	case "nu", "un": // recursive functions in the argument are not to be unfolded, are to be again
		c := ev.clone()
		c.limAll = e.Name == "nu"
		return c.eval(e.Args[0])
	case "unit":
		x := arg(0)
		if len(e.Args) == 2 { // unit(x, T)
			t := ev.u.specType(e.Args[1].Name)
			return Val{T: &SeqT{t}, S: fmt.Sprintf("(%sunit %s)", ev.u.seqPfx(t), x.S)}
		}
		p := ev.u.seqPfx(x.T)
		if p == "s" || ev.u.sortOf(x.T) == "Int" && len(e.Args) == 1 && isIntT(x.T) {
			return Val{T: tStr, S: "(sunit " + x.S + ")"}
		}
		return Val{T: &SeqT{x.T}, S: fmt.Sprintf("(%sunit %s)", p, x.S)}
	case "emptyseq":
		t := &SeqT{ev.u.specType(e.Args[0].Name)}
		return Val{T: t, S: ev.u.zero(t)}
	case "mk": // mk(T, fields...)
		t := ev.u.specType(e.Args[0].Name)
		st := t.Underlying().(*types.Struct)
		var fs []string
		for i := 1; i < len(e.Args); i++ {
			v := arg(i)
			if bt, ok := v.T.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
				v.S = ev.u.zero(st.Field(i - 1).Type())
			}
			fs = append(fs, v.S)
		}
		return Val{T: t, S: ev.u.mkStruct(t, fs)}
	case "zero":
		t := ev.u.specType(e.Args[0].Name)
		return Val{T: t, S: ev.u.zero(t)}
	case "fresh":
		x := arg(0)
		a := ev.old["alloc"]
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return Val{T: tBool, S: fmt.Sprintf("(or (= (scap %s) 0) (>= (sref %s) %s))", x.S, x.S, a)}
		}
		return Val{T: tBool, S: fmt.Sprintf("(>= %s %s)", x.S, a)}
	case "allocated": // pointer valid in the current state
		x := arg(0)
		r := x.S
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			r = "(sref " + x.S + ")"
		}
		return Val{T: tBool, S: fmt.Sprintf("(< %s %s)", r, ev.st["alloc"])}
	case "alloc":
		return Val{T: tInt, S: ev.st["alloc"]}
	case "has": // map membership
		x := arg(0)
		mt := x.T.Underlying().(*types.Map)
		md, _, _ := ev.fx.mapComps(mt)
		return Val{T: tBool, S: fmt.Sprintf("(select %s %s)", ev.fx.sel(ev.st, md, x.S), arg(1).S)}
	case "dom":
		x := arg(0)
		mt := x.T.Underlying().(*types.Map)
		md, _, _ := ev.fx.mapComps(mt)
		return Val{T: &SetT{mt.Key()}, S: ev.fx.sel(ev.st, md, x.S)}
	case "runeat", "runew": // decoding as in a range over a string
		ev.u.decl("(declare-fun " + e.Name + " (Str Int) Int)")
		return Val{T: tInt, S: fmt.Sprintf("(%s %s %s)", e.Name, arg(0).S, arg(1).S)}
	case "runestr": // encoding as by WriteRune
		return Val{T: tStr, S: runeStr(ev.u, arg(0).S)}
	case "float": // a float64 constant
		n, err := strconv.ParseInt(arg(0).S, 10, 64)
		if err != nil {
			ev.err(e, "float needs an integer literal")
		}
		return Val{T: types.Typ[types.Float64], S: ev.u.floatConst(constant.MakeInt64(n))}
	case "feq": // == of float64 values
		ev.u.decl("(declare-fun feq (Flt Flt) Bool)")
		return Val{T: tBool, S: fmt.Sprintf("(feq %s %s)", arg(0).S, arg(1).S)}
	case "int64": // conversion of a float64
		ev.u.decl("(declare-fun f2i (Flt) Int)")
		return Val{T: tInt, S: wrapInt(types.Typ[types.Int64], "(f2i "+arg(0).S+")")}
	case "args", "rets": // history of a function value
		x := arg(0)
		i := -1
		if e.Name == "args" {
			i, _ = strconv.Atoi(arg(1).S)
		}
		comp, q := ev.fx.traceComp(x.T.Underlying().(*types.Signature), i)
		return Val{T: q, S: ev.fx.sel(ev.st, comp, x.S)}
	case "text": // contents of a strings.Builder
		x := arg(0)
		ref := x.S
		if x.LV != nil {
			ref = x.LV.Ref
		}
		return Val{T: tStr, S: ev.fx.sel(ev.st, ev.fx.v.comp("SB", "Str", true), ref)}
	case "isType":
		x := arg(0)
		_, _, tag := ev.u.box(ev.u.specType(specTypeName(e.Args[1])))
		return Val{T: tBool, S: fmt.Sprintf("(= (itag %s) %s)", x.S, tag)}
	case "unbox":
		x := arg(0)
		t := ev.u.specType(specTypeName(e.Args[1]))
		_, ub, _ := ev.u.box(t)
		return Val{T: t, S: fmt.Sprintf("(%s %s)", ub, x.S)}
	case "box":
		x := arg(0)
		bx, _, _ := ev.u.box(x.T)
		return Val{T: tAny, S: fmt.Sprintf("(%s %s)", bx, x.S)}
	case "errIs":
		ev.u.errTheory()
		return Val{T: tBool, S: fmt.Sprintf("(errIs %s %s)", arg(0).S, arg(1).S)}
	case "locked": // ghost lock state of a mutex global
		return Val{T: tInt, S: ev.fx.lockTerm(e.Args[0].Name, ev.st)}
	case "pub":
		return Val{T: tBool, S: fmt.Sprintf("(select %s (sref %s))", ev.fx.get(ev.st, ev.fx.v.comp("Pub", "(Array Int Bool)", true)), arg(0).S)}
	case "i2f": // conversion of an int to float64
		ev.u.decl("(declare-fun i2f (Int) Flt)")
		return Val{T: types.Typ[types.Float64], S: "(i2f " + arg(0).S + ")"}
	case "min":
		a, b := arg(0), arg(1)
		return Val{T: tInt, S: fmt.Sprintf("(ite (<= %s %s) %s %s)", a.S, b.S, a.S, b.S)}
	case "max":
		a, b := arg(0), arg(1)
		return Val{T: tInt, S: fmt.Sprintf("(ite (>= %s %s) %s %s)", a.S, b.S, a.S, b.S)}
	case "const": // const("NAME"): value of an extracted table
	}
	f := ev.u.S.Funcs[e.Name]
	if f == nil {
		ev.err(e, "unknown spec function %s", e.Name)
	}
	if len(f.Params) != len(e.Args) {
		ev.err(e, "%s: wrong number of arguments", e.Name)
	}
	if f.Macro {
		if ev.depth > 20 {
			ev.err(e, "macro recursion")
		}
		c := ev.clone()
		c.depth++
		c.vars = map[string]Val{}
		for i, p := range f.Params {
			v := arg(i)
			if p.Type != "" && p.Type != "any" {
				pt := ev.u.specType(p.Type)
				if isStrT(pt) {
					v = ev.seqView(v)
				}
				if bt, ok := v.T.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
					v = Val{T: pt, S: ev.u.zero(pt)}
				}
				if q, ok := pt.(*SeqT); ok {
					_ = q
					v = ev.seqView(v)
				}
			}
			c.vars[p.Name] = v
		}
		// old(...) inside a macro body refers to the macro arguments evaluated now
		c.look = nil
		c.oldLook = func(string) (Val, bool) { return Val{}, false }
		r := c.eval(f.Body)
		return r
	}
	ev.u.use(e.Name)
	var as []string
	for i, p := range f.Params {
		v := arg(i)
		pt := ev.u.specType(p.Type)
		if _, ok := pt.Underlying().(*types.Slice); !ok {
			v = ev.seqView(v)
		}
		if bt, ok := v.T.(*types.Basic); ok && bt.Kind() == types.UntypedNil {
			v.S = ev.u.zero(pt)
		}
		as = append(as, v.S)
	}
	n := e.Name
	if ev.limited == n || ev.limAll && f.Rec {
		n += "$l"
	}
	ret := ev.u.specType(f.Ret)
	if len(as) == 0 {
		return Val{T: ret, S: n}
	}
	return Val{T: ret, S: "(" + n + " " + strings.Join(as, " ") + ")"}
}

func specTypeName(e *Expr) string {
	switch e.Op {
	case "un":
		return "*" + specTypeName(e.Args[0])
	case "sel":
		return specTypeName(e.Args[0]) + "." + e.Name
	case "str":
		return e.Name
	}
	return e.Name
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (u *Univ) use(n string) {
	if u.used[n] {
		return
	}
	u.used[n] = true
	f := u.S.Funcs[n]
	if f != nil && f.Body != nil {
		m := map[string]bool{}
		exprFuncs(f.Body, m)
		for k := range m {
			if u.S.Funcs[k] != nil && !u.S.Funcs[k].Macro {
				u.use(k)
			}
		}
	}
}

func (u *Univ) errTheory() {
	u.decl("(declare-fun errIs (Iface Iface) Bool)")
	u.decl("(assert (forall ((x Iface)) (! (=> (not (= x nilI)) (errIs x x)) :pattern ((errIs x x)))))")
	u.decl("(assert (forall ((y Iface)) (! (not (errIs nilI y)) :pattern ((errIs nilI y)))))")
}
