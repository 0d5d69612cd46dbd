package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fx *Fx) val(x ssa.Value) Val {
	if v, ok := fx.vals[x]; ok {
		return v
	}
	switch x := x.(type) {
	case *ssa.Const:
		return fx.v.u.constVal(x.Value, x.Type())
	case *ssa.Global:
		return Val{T: x.Type(), LV: fx.globalLV(x)}
	case *ssa.Function:
		return Val{T: x.Type(), Clo: &Closure{Fn: x}, S: fx.v.fnConst(x)}
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	unsup("value %s (%T) in %s", x.Name(), x, fx.fn.Name())
	return Val{}
}

func (v *VC) fnConst(f *ssa.Function) string {
	n := "fn_" + sanitize(funcName(f))
	v.u.decl("(declare-const " + n + " Int)")
	v.u.decl("(assert (> " + n + " 0))")
	return n
}

func wrapInt(t types.Type, s string) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return s
	}
	switch b.Kind() {
	case types.Uint8:
		return "(mod " + s + " 256)"
	case types.Uint16:
		return "(mod " + s + " 65536)"
	case types.Uint32:
		return "(mod " + s + " 4294967296)"
	case types.Uint, types.Uint64, types.Uintptr:
		return "(mod " + s + " 18446744073709551616)"
	}
	return s
}

// pure evaluates side-effect free instructions; get supplies operand values.
func (fx *Fx) pure(in ssa.Value, get func(ssa.Value) (Val, bool), st State) (Val, bool) {
	u := fx.v.u
	switch in := in.(type) {
	case *ssa.BinOp:
		a, ok1 := get(in.X)
		b, ok2 := get(in.Y)
		if !ok1 || !ok2 {
			return Val{}, false
		}
		return fx.binop(in, a, b), true
	case *ssa.UnOp:
		x, ok := get(in.X)
		if !ok {
			return Val{}, false
		}
		switch in.Op {
		case token.NOT:
			return Val{T: in.Type(), S: "(not " + x.S + ")"}, true
		case token.SUB:
			if u.sortOf(in.Type()) == "Flt" {
				u.decl("(declare-fun fneg (Flt) Flt)")
				return Val{T: in.Type(), S: "(fneg " + x.S + ")"}, true
			}
			return Val{T: in.Type(), S: wrapInt(in.Type(), "(- "+x.S+")")}, true
		case token.MUL:
			if a, ok := in.X.(*ssa.Alloc); ok {
				if p, ok := fx.prom[a]; ok {
					return get(p)
				}
			}
			if x.LV != nil && x.LV.K == lvLocal && x.LV.Comp == "" { // promoted capture
				return Val{T: in.Type(), S: x.LV.Ref}, true
			}
			pt := in.X.Type().Underlying().(*types.Pointer)
			return fx.loadLV(fx.derefLV(x, pt.Elem()), st), true
		}
		return Val{}, false
	case *ssa.FieldAddr:
		x, ok := get(in.X)
		if !ok {
			return Val{}, false
		}
		return fx.fieldAddr(x, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field), true
	case *ssa.Field:
		x, ok := get(in.X)
		if !ok {
			return Val{}, false
		}
		u.sortOf(in.X.Type())
		return Val{T: in.Type(), S: "(" + fieldSel(in.X.Type(), in.Field) + " " + x.S + ")"}, true
	case *ssa.IndexAddr:
		x, ok1 := get(in.X)
		i, ok2 := get(in.Index)
		if !ok1 || !ok2 {
			return Val{}, false
		}
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			return Val{T: in.Type(), LV: &LV{K: lvElem, Comp: fx.elemComp(t.Elem()), Ref: "(sref " + x.S + ")", Idx: fmt.Sprintf("(+ (soff %s) %s)", x.S, i.S), T: t.Elem()}}, true
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			return Val{T: in.Type(), LV: &LV{K: lvElem, Comp: fx.elemComp(at.Elem()), Ref: x.S, Idx: i.S, T: at.Elem()}}, true
		}
		return Val{}, false
	case *ssa.Index:
		x, ok1 := get(in.X)
		i, ok2 := get(in.Index)
		if !ok1 || !ok2 {
			return Val{}, false
		}
		if isStrT(in.X.Type()) {
			return Val{T: in.Type(), S: fmt.Sprintf("(sat %s %s)", x.S, i.S)}, true
		}
		return Val{T: in.Type(), S: fmt.Sprintf("(select %s %s)", x.S, i.S)}, true
	case *ssa.Lookup:
		if isStrT(in.X.Type()) {
			x, ok1 := get(in.X)
			i, ok2 := get(in.Index)
			if !ok1 || !ok2 {
				return Val{}, false
			}
			return Val{T: in.Type(), S: fmt.Sprintf("(sat %s %s)", x.S, i.S)}, true
		}
		return Val{}, false
	case *ssa.ChangeType:
		x, ok := get(in.X)
		x.T = in.Type()
		return x, ok
	case *ssa.Convert:
		x, ok := get(in.X)
		if !ok {
			return Val{}, false
		}
		from, to := in.X.Type(), in.Type()
		fs, ts := u.sortOf(from), u.sortOf(to)
		switch {
		case fs == "Int" && ts == "Int":
			fb, fok := from.Underlying().(*types.Basic)
			tb, tok := to.Underlying().(*types.Basic)
			if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if intBits(fb) <= intBits(tb) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned || fb.Info()&types.IsUnsigned != 0 && intBits(fb) < intBits(tb)) {
					return Val{T: to, S: x.S}, true
				}
				return Val{T: to, S: wrapInt(to, x.S)}, true
			}
			return Val{T: to, S: x.S}, true
		case fs == "Slice" && ts == "Str":
			sl := from.Underlying().(*types.Slice)
			if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				arr := fx.sel(st, fx.elemComp(sl.Elem()), "(sref "+x.S+")")
				return Val{T: to, S: fmt.Sprintf("(svw %s (soff %s) (slen_ %s))", arr, x.S, x.S)}, true
			}
			return Val{}, false
		case fs == "Int" && ts == "Str":
			u.decl("(declare-fun runestr (Int) Str)")
			u.decl("(assert (forall ((c Int)) (! (and (<= 1 (slen (runestr c))) (<= (slen (runestr c)) 4)) :pattern ((runestr c)))))")
			u.decl("(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (runestr c) (sunit c))) :pattern ((runestr c)))))")
			return Val{T: to, S: "(runestr " + x.S + ")"}, true
		case fs == "Str" && ts == "Str", fs == "Slice" && ts == "Slice":
			return Val{T: to, S: x.S}, true
		case fs == "Int" && ts == "Flt":
			u.decl("(declare-fun i2f (Int) Flt)")
			return Val{T: to, S: "(i2f " + x.S + ")"}, true
		case fs == "Flt" && ts == "Int":
			u.decl("(declare-fun f2i (Flt) Int)")
			return Val{T: to, S: wrapInt(to, "(f2i "+x.S+")")}, true
		case fs == "Flt" && ts == "Flt":
			return Val{T: to, S: x.S}, true
		}
		return Val{}, false
	case *ssa.Slice:
		x, ok := get(in.X)
		if !ok {
			return Val{}, false
		}
		lo, hi := "0", ""
		if in.Low != nil {
			l, ok := get(in.Low)
			if !ok {
				return Val{}, false
			}
			lo = l.S
		}
		if in.High != nil {
			h, ok := get(in.High)
			if !ok {
				return Val{}, false
			}
			hi = h.S
		}
		switch t := in.X.Type().Underlying().(type) {
		case *types.Basic:
			if hi == "" {
				hi = "(slen " + x.S + ")"
			}
			return Val{T: in.Type(), S: fmt.Sprintf("(ssub %s %s %s)", x.S, lo, hi)}, true
		case *types.Slice:
			if hi == "" {
				hi = "(slen_ " + x.S + ")"
			}
			mx := "(scap " + x.S + ")"
			if in.Max != nil {
				m, ok := get(in.Max)
				if !ok {
					return Val{}, false
				}
				mx = m.S
			}
			if lo == "0" {
				return Val{T: in.Type(), S: fmt.Sprintf("(mkslice (sref %s) (soff %s) %s %s)", x.S, x.S, hi, mx)}, true
			}
			return Val{T: in.Type(), S: fmt.Sprintf("(mkslice (sref %s) (+ (soff %s) %s) (- %s %s) (- %s %s))", x.S, x.S, lo, hi, lo, mx, lo)}, true
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			n := fmt.Sprint(at.Len())
			if hi == "" {
				hi = n
			}
			return Val{T: in.Type(), S: fmt.Sprintf("(mkslice %s %s (- %s %s) (- %s %s))", x.S, lo, hi, lo, n, lo)}, true
		}
		return Val{}, false
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			x, ok := get(in.Call.Args[0])
			if !ok {
				return Val{}, false
			}
			return fx.lenOf(in.Call.Args[0].Type(), x, b.Name(), st), true
		}
		return Val{}, false
	}
	return Val{}, false
}

func (fx *Fx) lenOf(t types.Type, x Val, what string, st State) Val {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return Val{T: tInt, S: "(slen " + x.S + ")"}
	case *types.Slice:
		if what == "cap" {
			return Val{T: tInt, S: "(scap " + x.S + ")"}
		}
		return Val{T: tInt, S: "(slen_ " + x.S + ")"}
	case *types.Map:
		_, _, ml := fx.mapComps(t)
		return Val{T: tInt, S: fx.sel(st, ml, x.S)}
	case *types.Pointer:
		return Val{T: tInt, S: fmt.Sprint(t.Elem().Underlying().(*types.Array).Len())}
	case *types.Array:
		return Val{T: tInt, S: fmt.Sprint(t.Len())}
	}
	unsup("len of %s", t)
	return Val{}
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (fx *Fx) binop(in *ssa.BinOp, a, b Val) Val {
	u := fx.v.u
	t := in.X.Type()
	srt := u.sortOf(t)
	bs := func(f string, x ...any) Val { return Val{T: in.Type(), S: fmt.Sprintf(f, x...)} }
	switch in.Op {
	case token.EQL, token.NEQ:
		var s string
		switch {
		case srt == "Slice":
			x := a
			if isNilConst(in.X) {
				x = b
			}
			s = "(= (sref " + x.S + ") 0)"
		case srt == "Str":
			s = fmt.Sprintf("(seq %s %s)", a.S, b.S)
		case srt == "Flt":
			u.decl("(declare-fun feq (Flt Flt) Bool)")
			s = fmt.Sprintf("(feq %s %s)", a.S, b.S)
		default:
			if a.S == "" || b.S == "" {
				// comparison of an address with nil
				if isNilConst(in.X) || isNilConst(in.Y) {
					s = "false"
					break
				}
				unsup("address comparison")
			}
			if _, ok := t.Underlying().(*types.Struct); ok {
				s = (&Eval{u: u, fx: fx, st: fx.st}).eqTerm(a, b)
			} else {
				// mixed interface/concrete comparisons are converted by ssa
				s = fmt.Sprintf("(= %s %s)", a.S, b.S)
			}
		}
		if in.Op == token.NEQ {
			s = "(not " + s + ")"
		}
		return bs("%s", s)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch srt {
		case "Str":
			u.strOrder()
			switch in.Op {
			case token.LSS:
				return bs("(slt %s %s)", a.S, b.S)
			case token.GTR:
				return bs("(slt %s %s)", b.S, a.S)
			case token.LEQ:
				return bs("(not (slt %s %s))", b.S, a.S)
			default:
				return bs("(not (slt %s %s))", a.S, b.S)
			}
		case "Flt":
			u.decl("(declare-fun flt (Flt Flt) Bool)")
			u.decl("(declare-fun fle (Flt Flt) Bool)")
			switch in.Op {
			case token.LSS:
				return bs("(flt %s %s)", a.S, b.S)
			case token.GTR:
				return bs("(flt %s %s)", b.S, a.S)
			case token.LEQ:
				return bs("(fle %s %s)", a.S, b.S)
			default:
				return bs("(fle %s %s)", b.S, a.S)
			}
		}
		return bs("(%s %s %s)", in.Op.String(), a.S, b.S)
	case token.ADD:
		if srt == "Str" {
			return bs("(scat %s %s)", a.S, b.S)
		}
		if srt == "Flt" {
			u.decl("(declare-fun fadd (Flt Flt) Flt)")
			return bs("(fadd %s %s)", a.S, b.S)
		}
		return bs("%s", wrapInt(t, fmt.Sprintf("(+ %s %s)", a.S, b.S)))
	case token.SUB, token.MUL:
		if srt == "Flt" {
			n := map[token.Token]string{token.SUB: "fsub", token.MUL: "fmul"}[in.Op]
			u.decl("(declare-fun " + n + " (Flt Flt) Flt)")
			return bs("(%s %s %s)", n, a.S, b.S)
		}
		return bs("%s", wrapInt(t, fmt.Sprintf("(%s %s %s)", in.Op.String(), a.S, b.S)))
	case token.QUO:
		if srt == "Flt" {
			u.decl("(declare-fun fdiv (Flt Flt) Flt)")
			return bs("(fdiv %s %s)", a.S, b.S)
		}
		return bs("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.S, a.S, b.S, a.S, b.S)
	case token.REM:
		return bs("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", a.S, a.S, b.S, a.S, b.S)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if srt == "Bool" {
			if in.Op == token.AND {
				return bs("(and %s %s)", a.S, b.S)
			}
			return bs("(or %s %s)", a.S, b.S)
		}
		if c, ok := in.Y.(*ssa.Const); ok && (in.Op == token.SHL || in.Op == token.SHR) {
			k := c.Int64()
			if k >= 0 && k < 62 {
				if in.Op == token.SHL {
					return bs("%s", wrapInt(t, fmt.Sprintf("(* %s %d)", a.S, int64(1)<<k)))
				}
				return bs("(div %s %d)", a.S, int64(1)<<k)
			}
		}
		if c, ok := in.Y.(*ssa.Const); ok && in.Op == token.AND {
			k := c.Int64()
			if k >= 0 && k&(k+1) == 0 {
				return bs("(mod %s %d)", a.S, k+1)
			}
		}
		n := "bitop_" + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[in.Op]
		u.decl("(declare-fun " + n + " (Int Int) Int)")
		return bs("%s", wrapInt(t, fmt.Sprintf("(%s %s %s)", n, a.S, b.S)))
	}
	unsup("operator %s", in.Op)
	return Val{}
}

func (u *Univ) strOrder() {
	u.decl("(assert (forall ((a Str) (b Str)) (! (not (and (slt a b) (slt b a))) :pattern ((slt a b)))))")
	u.decl("(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))")
	u.decl("(assert (forall ((a Str) (b Str)) (! (or (slt a b) (slt b a) (= a b)) :pattern ((slt a b)))))")
	u.decl("(assert (forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a)))))")
}

func (fx *Fx) set(x ssa.Value, v Val) {
	v.T = x.Type()
	// share big terms
	if len(v.S) > 40 && v.LV == nil {
		v.S = fx.v.name2(x.Name(), fx.v.u.sortOf(x.Type()), v.S)
	}
	fx.vals[x] = v
}

// nonnil obligation for a dereferenced pointer value
func (fx *Fx) nonnil(p Val, pos token.Pos, what string) {
	if p.LV != nil || p.S == "" {
		return
	}
	if strings.HasPrefix(p.S, "(+ ") {
		return
	}
	fx.safe("nil", "nil dereference of "+what, "(not (= "+p.S+" 0))", pos)
}

func (fx *Fx) instr(in ssa.Instruction) {
	v := fx.v
	u := v.u
	get := func(x ssa.Value) (Val, bool) { return fx.val(x), true }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if _, ok := fx.prom[in]; ok {
			// the cell holds one value for its whole life
			fx.vals[in] = Val{T: in.Type(), LV: &LV{K: lvLocal, Comp: "", T: t}}
			return
		}
		if localAlloc(in) {
			c := v.comp(fmt.Sprintf("L!%d_%s_%s", fx.id, in.Name(), sanitize(in.Comment)), u.sortOf(t), false)
			fx.st[c] = u.zero(t)
			fx.vals[in] = Val{T: in.Type(), LV: &LV{K: lvLocal, Comp: c, T: t}}
			return
		}
		r := fx.newRef(sizeOf(t))
		fx.initZero(t, r)
		fx.vals[in] = Val{T: in.Type(), S: r}
	case *ssa.Store:
		if a, ok := in.Addr.(*ssa.Alloc); ok {
			if _, ok := fx.prom[a]; ok {
				x := fx.val(in.Val)
				t := a.Type().(*types.Pointer).Elem()
				lv := &LV{K: lvLocal, Comp: "", Ref: x.S, T: t}
				fx.vals[a] = Val{T: a.Type(), LV: lv}
				return
			}
		}
		p := fx.val(in.Addr)
		fx.nonnil(p, in.Pos(), in.Addr.Name())
		x := fx.val(in.Val)
		if x.S == "" {
			if x.Clo != nil {
				unsup("closure stored in memory")
			}
			unsup("address of %s stored in memory", in.Val.Name())
		}
		fx.storeLV(fx.derefLV(p, in.Addr.Type().Underlying().(*types.Pointer).Elem()), x, in.Pos())
	case *ssa.BinOp:
		if (in.Op == token.QUO || in.Op == token.REM) && u.sortOf(in.X.Type()) == "Int" {
			fx.safe("div", "division by zero", "(not (= "+fx.val(in.Y).S+" 0))", in.Pos())
		}
		if in.Op == token.EQL || in.Op == token.NEQ {
			if _, ok := in.X.Type().Underlying().(*types.Interface); ok && !isNilConst(in.X) && !isNilConst(in.Y) {
				v.trust["comparison of interface values is treated as identity"] = true
			}
		}
		x, _ := fx.pure(in, get, fx.st)
		fx.set(in, x)
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			unsup("channel receive")
		}
		if in.Op == token.MUL {
			p := fx.val(in.X)
			fx.nonnil(p, in.Pos(), in.X.Name())
			if g, ok := in.X.(*ssa.Global); ok {
				fx.guardAccess(g.Name(), in.Pos(), false)
			}
			x, ok := fx.pure(in, get, fx.st)
			if !ok {
				unsup("load")
			}
			x.T = in.Type()
			if g, ok := in.X.(*ssa.Global); ok && v.S.Guards[g.Name()] != "" {
				v.guardOf[x.S] = g.Name()
			}
			if len(x.S) > 40 {
				x.S = v.name2(in.Name(), u.sortOf(in.Type()), x.S)
			}
			if p.LV == nil || p.LV.K != lvLocal {
				v.assume(fx.reach, fx.wf(in.Type(), x.S, fx.st["alloc"]))
			}
			fx.vals[in] = x
			return
		}
		x, ok := fx.pure(in, get, fx.st)
		if !ok {
			unsup("unop %s", in.Op)
		}
		fx.set(in, x)
	case *ssa.FieldAddr:
		fx.nonnil(fx.val(in.X), in.Pos(), in.X.Name())
		x, _ := fx.pure(in, get, fx.st)
		x.T = in.Type()
		fx.vals[in] = x
	case *ssa.Field:
		x, _ := fx.pure(in, get, fx.st)
		fx.set(in, x)
	case *ssa.IndexAddr:
		x, i := fx.val(in.X), fx.val(in.Index)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			fx.safe("bounds", "index out of range", fmt.Sprintf("(and (<= 0 %s) (< %s (slen_ %s)))", i.S, i.S, x.S), in.Pos())
		case *types.Pointer:
			n := t.Elem().Underlying().(*types.Array).Len()
			if c, ok := in.Index.(*ssa.Const); !ok || c.Int64() >= n {
				fx.safe("bounds", "index out of range", fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i.S, i.S, n), in.Pos())
			}
			if _, ok := in.X.(*ssa.Alloc); !ok {
				fx.nonnil(x, in.Pos(), in.X.Name())
			}
		}
		r, ok := fx.pure(in, get, fx.st)
		if !ok {
			unsup("indexaddr")
		}
		r.T = in.Type()
		fx.vals[in] = r
	case *ssa.Index, *ssa.Lookup:
		fx.lookup(in.(ssa.Value))
	case *ssa.ChangeType:
		x := fx.val(in.X)
		x.T = in.Type()
		fx.vals[in] = x
	case *ssa.ChangeInterface:
		x := fx.val(in.X)
		x.T = in.Type()
		fx.vals[in] = x
	case *ssa.Convert:
		fx.convert(in)
	case *ssa.MakeInterface:
		x := fx.val(in.X)
		if x.S == "" {
			unsup("boxing of an address")
		}
		bx, _, _ := u.box(in.X.Type())
		r := Val{T: in.Type(), S: "(" + bx + " " + x.S + ")", Src: in.X}
		r.In = &x
		if len(r.S) > 40 {
			r.S = v.name2(in.Name(), "Iface", r.S)
		}
		fx.vals[in] = r
	case *ssa.TypeAssert:
		fx.typeAssert(in)
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Bind = append(c.Bind, fx.val(b))
		}
		fx.vals[in] = Val{T: in.Type(), Clo: c, S: v.fnConst(c.Fn)}
	case *ssa.MakeSlice:
		n, c := fx.val(in.Len), fx.val(in.Cap)
		fx.safe("make", "make: length out of range", fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", n.S, n.S, c.S), in.Pos())
		et := in.Type().Underlying().(*types.Slice).Elem()
		r := fx.newRef(1)
		zarr := fmt.Sprintf("((as const (Array Int %s)) %s)", u.sortOf(et), u.zero(et))
		v.assume(fx.reach, fmt.Sprintf("(= %s %s)", fx.sel(fx.st, fx.elemComp(et), r), zarr))
		fx.notPub(et, r)
		fx.set(in, Val{S: fmt.Sprintf("(mkslice %s 0 %s %s)", r, n.S, c.S)})
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		md, _, ml := fx.mapComps(mt)
		r := fx.newRef(1)
		v.assume(fx.reach, fmt.Sprintf("(= %s ((as const (Array %s Bool)) false))", fx.sel(fx.st, md, r), u.sortOf(mt.Key())))
		v.assume(fx.reach, fmt.Sprintf("(= %s 0)", fx.sel(fx.st, ml, r)))
		fx.vals[in] = Val{T: in.Type(), S: r}
	case *ssa.MapUpdate:
		m, k, x := fx.val(in.Map), fx.val(in.Key), fx.val(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		fx.safe("mapnil", "assignment to nil map", "(not (= "+m.S+" 0))", in.Pos())
		fx.mapAccess(in.Map, in.Pos(), true)
		md, mv, ml := fx.mapComps(mt)
		if fx.guardedMap(in.Map) == "" {
			fx.frame(md, m.S, in.Pos(), md)
		}
		dom := fx.sel(fx.st, md, m.S)
		ln := v.name2("mlen", "Int", fmt.Sprintf("(ite (select %s %s) %s (+ %s 1))", dom, k.S, fx.sel(fx.st, ml, m.S), fx.sel(fx.st, ml, m.S)))
		vals := fx.sel(fx.st, mv, m.S)
		fx.setAt(ml, m.S, ln)
		fx.setAt(mv, m.S, fmt.Sprintf("(store %s %s %s)", vals, k.S, x.S))
		fx.setAt(md, m.S, fmt.Sprintf("(store %s %s true)", dom, k.S))
		fx.publish(in.Map, x)
	case *ssa.Range:
		if isStrT(in.X.Type()) {
			c := v.comp(fmt.Sprintf("IT!%d_%s", fx.id, in.Name()), "Int", false)
			fx.st[c] = "0"
			fx.vals[in] = Val{T: in.Type(), S: fx.val(in.X).S, Src: in.X}
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		ks := u.sortOf(mt.Key())
		c := v.comp(fmt.Sprintf("RV!%d_%s", fx.id, in.Name()), "(Array "+ks+" Bool)", false)
		fx.st[c] = "((as const (Array " + ks + " Bool)) false)"
		fx.vals[in] = Val{T: in.Type(), S: fx.val(in.X).S, Src: in.X}
		fx.mapAccess(in.X, in.Pos(), false)
	case *ssa.Next:
		if r, ok := in.Iter.(*ssa.Range); ok && !in.IsString {
			fx.mapAccess(r.X, in.Pos(), false)
		}
		fx.next(in)
	case *ssa.Extract:
		t := fx.val(in.Tuple)
		x := t.Tup[in.Index]
		x.T = in.Type()
		fx.vals[in] = x
	case *ssa.Slice:
		fx.slice(in)
	case *ssa.Call:
		r := fx.call(&in.Call, in, in.Pos())
		if in.Type() != nil {
			if tp, ok := in.Type().(*types.Tuple); ok && tp.Len() == 0 {
				return
			}
			if r.Tup == nil && r.LV == nil && r.Clo == nil {
				fx.set(in, r)
			} else {
				r.T = in.Type()
				fx.vals[in] = r
			}
		}
	case *ssa.Defer:
		fx.defers = append(fx.defers, &deferred{call: &in.Call, blk: fx.cur, instr: in})
	case *ssa.RunDefers:
		for i := len(fx.defers) - 1; i >= 0; i-- {
			d := fx.defers[i]
			if !d.blk.Dominates(fx.cur) {
				// a defer that is not certain to have run: only allowed when it cannot have
				reachable := false
				seen := map[*ssa.BasicBlock]bool{}
				var dfs func(b *ssa.BasicBlock)
				dfs = func(b *ssa.BasicBlock) {
					if seen[b] {
						return
					}
					seen[b] = true
					if b == fx.cur {
						reachable = true
					}
					for _, s := range b.Succs {
						dfs(s)
					}
				}
				dfs(d.blk)
				if reachable {
					unsup("conditional defer")
				}
				continue
			}
			fx.call(d.call, nil, d.instr.Pos())
		}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		unsup("%T", in)
	default:
		unsup("instruction %T", in)
	}
}

func (fx *Fx) notPub(et types.Type, ref string) {
	if fx.v.S.pubComp("E_" + tkey(et)) {
		pc := fx.v.comp("Pub", "Bool", true)
		fx.v.assume(fx.reach, "(not "+fx.sel(fx.st, pc, ref)+")")
	}
}

func (fx *Fx) lookup(in ssa.Value) {
	v := fx.v
	get := func(x ssa.Value) (Val, bool) { return fx.val(x), true }
	switch in := in.(type) {
	case *ssa.Index:
		x, i := fx.val(in.X), fx.val(in.Index)
		if isStrT(in.X.Type()) {
			fx.safe("bounds", "string index out of range", fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", i.S, i.S, x.S), in.Pos())
		} else {
			fx.safe("bounds", "index out of range", fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i.S, i.S, in.X.Type().Underlying().(*types.Array).Len()), in.Pos())
		}
		r, _ := fx.pure(in, get, fx.st)
		fx.set(in, r)
		v.assume(fx.reach, fx.wf(in.Type(), fx.vals[in].S, fx.st["alloc"]))
	case *ssa.Lookup:
		if isStrT(in.X.Type()) {
			x, i := fx.val(in.X), fx.val(in.Index)
			fx.safe("bounds", "string index out of range", fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", i.S, i.S, x.S), in.Pos())
			r, _ := fx.pure(in, get, fx.st)
			fx.set(in, r)
			v.assume(fx.reach, fx.wf(in.Type(), fx.vals[in].S, fx.st["alloc"]))
			return
		}
		fx.mapAccess(in.X, in.Pos(), false)
		mt := in.X.Type().Underlying().(*types.Map)
		md, mv, _ := fx.mapComps(mt)
		m, k := fx.val(in.X), fx.val(in.Index)
		ok := v.name2("ok", "Bool", fmt.Sprintf("(and (not (= %s 0)) (select %s %s))", m.S, fx.sel(fx.st, md, m.S), k.S))
		val := v.name2("mv", v.u.sortOf(mt.Elem()), fmt.Sprintf("(ite %s (select %s %s) %s)", ok, fx.sel(fx.st, mv, m.S), k.S, v.u.zero(mt.Elem())))
		v.assume(fx.reach, fx.wf(mt.Elem(), val, fx.st["alloc"]))
		if in.CommaOk {
			fx.vals[in] = Val{T: in.Type(), Tup: []Val{{T: mt.Elem(), S: val}, {T: tBool, S: ok}}}
		} else {
			fx.vals[in] = Val{T: in.Type(), S: val}
		}
	}
}

func (fx *Fx) convert(in *ssa.Convert) {
	v := fx.v
	u := v.u
	x := fx.val(in.X)
	from, to := in.X.Type(), in.Type()
	fs, ts := u.sortOf(from), u.sortOf(to)
	if fs == "Str" && ts == "Slice" {
		et := to.Underlying().(*types.Slice).Elem()
		r := fx.newRef(1)
		ec := fx.elemComp(et)
		if et.Underlying().(*types.Basic).Kind() == types.Uint8 {
			c := v.fresh("cap", "Int")
			v.assume(fx.reach, fmt.Sprintf("(>= %s (slen %s))", c, x.S))
			v.assume(fx.reach, fmt.Sprintf("(= (svw %s 0 (slen %s)) %s)", fx.sel(fx.st, ec, r), x.S, x.S))
			fx.set(in, Val{S: fmt.Sprintf("(mkslice %s 0 (slen %s) %s)", r, x.S, c)})
			return
		}
		n := v.fresh("runes", "Int")
		v.assume(fx.reach, fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)) (=> (> (slen %s) 0) (> %s 0)))", n, n, x.S, x.S, n))
		if f := v.u.S.Funcs["runesOf"]; f != nil {
			v.u.used["runesOf"] = true
			q := v.u.seqPfx(et)
			v.assume(fx.reach, fmt.Sprintf("(and (= (%svw %s 0 %s) (runesOf %s)) (= %s (%slen (runesOf %s))))", q, fx.sel(fx.st, ec, r), n, x.S, n, q, x.S))
		}
		fx.set(in, Val{S: fmt.Sprintf("(mkslice %s 0 %s %s)", r, n, n)})
		return
	}
	get := func(x ssa.Value) (Val, bool) { return fx.val(x), true }
	r, ok := fx.pure(in, get, fx.st)
	if !ok {
		if ts == "Str" {
			fx.vals[in] = fx.havoc("str", to)
			return
		}
		unsup("conversion %s to %s", from, to)
	}
	if fs == "Flt" && ts == "Int" {
		fx.set(in, r)
		return
	}
	fx.set(in, r)
}

func (fx *Fx) typeAssert(in *ssa.TypeAssert) {
	v := fx.v
	u := v.u
	x := fx.val(in.X)
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		n := "impl_" + tkey(in.AssertedType)
		u.decl("(declare-fun " + n + " (Int) Bool)")
		ok := fmt.Sprintf("(and (not (= %s nilI)) (%s (itag %s)))", x.S, n, x.S)
		if in.CommaOk {
			val := v.name2("ta", "Iface", fmt.Sprintf("(ite %s %s nilI)", ok, x.S))
			fx.vals[in] = Val{T: in.Type(), Tup: []Val{{T: in.AssertedType, S: val}, {T: tBool, S: ok}}}
			return
		}
		fx.safe("assert", "type assertion", ok, in.Pos())
		fx.vals[in] = Val{T: in.Type(), S: x.S}
		return
	}
	_, ub, tag := u.box(in.AssertedType)
	ok := fmt.Sprintf("(= (itag %s) %s)", x.S, tag)
	raw := fmt.Sprintf("(%s %s)", ub, x.S)
	if in.CommaOk {
		val := v.name2("ta", u.sortOf(in.AssertedType), fmt.Sprintf("(ite %s %s %s)", ok, raw, u.zero(in.AssertedType)))
		v.assume(fx.reach, fx.wf(in.AssertedType, val, fx.st["alloc"]))
		fx.vals[in] = Val{T: in.Type(), Tup: []Val{{T: in.AssertedType, S: val}, {T: tBool, S: ok}}}
		return
	}
	fx.safe("assert", "type assertion", ok, in.Pos())
	fx.vals[in] = Val{T: in.Type(), S: raw}
}

func (fx *Fx) next(in *ssa.Next) {
	v := fx.v
	u := v.u
	it := in.Iter.(*ssa.Range)
	src := fx.val(it)
	if in.IsString {
		c := fmt.Sprintf("IT!%d_%s", fx.id, it.Name())
		pos := fx.get(fx.st, c)
		s := src.S
		ok := v.name2("ok", "Bool", fmt.Sprintf("(< %s (slen %s))", pos, s))
		r := v.fresh("rune", "Int")
		w := v.fresh("w", "Int")
		u.decl("(declare-fun runew (Str Int) Int)")
		u.decl("(declare-fun runeat (Str Int) Int)")
		v.assert(fmt.Sprintf("(= %s (runew %s %s))", w, s, pos))
		v.assert(fmt.Sprintf("(= %s (runeat %s %s))", r, s, pos))
		b := fmt.Sprintf("(sat %s %s)", s, pos)
		v.assume(fx.reach, fmt.Sprintf("(=> %s (and (<= 0 %s) (<= %s 255) (<= (+ %s %s) (slen %s)) (<= 1 %s) (<= %s 4) (<= %s 1114111) (ite (< %s 128) (and (= %s %s) (= %s 1)) (>= %s 128))))", ok, b, b, pos, w, s, w, w, r, b, r, b, w, r))
		for k := 1; k < 4; k++ {
			bk := fmt.Sprintf("(sat %s (+ %s %d))", s, pos, k)
			v.assume(fx.reach, fmt.Sprintf("(=> (and %s (> %s %d)) (and (>= %s 128) (<= %s 255)))", ok, w, k, bk, bk))
		}
		np := v.fresh("pos", "Int")
		v.assert(fmt.Sprintf("(= %s (ite %s (+ %s %s) %s))", np, ok, pos, w, pos))
		fx.st[c] = np
		fx.vals[in] = Val{T: in.Type(), Tup: []Val{{T: tBool, S: ok}, {T: tInt, S: pos}, {T: types.Typ[types.Rune], S: r}}}
		v.trust["range over a string decodes one rune of 1..4 bytes per step; bytes below 0x80 stand for themselves"] = true
		return
	}
	mt := it.X.Type().Underlying().(*types.Map)
	md, mv, _ := fx.mapComps(mt)
	c := fmt.Sprintf("RV!%d_%s", fx.id, it.Name())
	vis := fx.get(fx.st, c)
	ok := v.fresh("ok", "Bool")
	k := v.fresh("key", u.sortOf(mt.Key()))
	dom := fx.sel(fx.st, md, src.S)
	v.assume(fx.reach, fmt.Sprintf("(=> %s (and (not (= %s 0)) (select %s %s) (not (select %s %s))))", ok, src.S, dom, k, vis, k))
	v.assume(fx.reach, fmt.Sprintf("(=> (and (not %s) (not (= %s 0))) (forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k)))))", ok, src.S, u.sortOf(mt.Key()), dom, vis, dom, vis))
	val := v.name2("mv", u.sortOf(mt.Elem()), fmt.Sprintf("(select %s %s)", fx.sel(fx.st, mv, src.S), k))
	v.assume("(and "+fx.reach+" "+ok+")", fx.wf(mt.Elem(), val, fx.st["alloc"]))
	nv := v.fresh("vis", v.sorts[c])
	v.assert(fmt.Sprintf("(= %s (ite %s (store %s %s true) %s))", nv, ok, vis, k, vis))
	fx.st[c] = nv
	fx.vals[in] = Val{T: in.Type(), Tup: []Val{{T: tBool, S: ok}, {T: mt.Key(), S: k}, {T: mt.Elem(), S: val}}}
	v.trust["range over a map visits every key exactly once, in any order, and ends"] = true
}

func (fx *Fx) slice(in *ssa.Slice) {
	x := fx.val(in.X)
	lo := "0"
	if in.Low != nil {
		lo = fx.val(in.Low).S
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		hi := "(slen " + x.S + ")"
		if in.High != nil {
			hi = fx.val(in.High).S
		}
		if in.Low != nil || in.High != nil {
			fx.safe("slice", "string slice out of range", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (slen %s)))", lo, lo, hi, hi, x.S), in.Pos())
		}
	case *types.Slice:
		hi := "(slen_ " + x.S + ")"
		if in.High != nil {
			hi = fx.val(in.High).S
		}
		mx := "(scap " + x.S + ")"
		if in.Max != nil {
			m := fx.val(in.Max).S
			fx.safe("slice", "slice max out of range", fmt.Sprintf("(and (<= %s %s) (<= %s %s))", hi, m, m, mx), in.Pos())
			mx = m
		}
		if in.Low != nil || in.High != nil {
			fx.safe("slice", "slice out of range", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, mx), in.Pos())
		}
	case *types.Pointer:
		if in.Low != nil || in.High != nil {
			n := t.Elem().Underlying().(*types.Array).Len()
			hi := fmt.Sprint(n)
			if in.High != nil {
				hi = fx.val(in.High).S
			}
			fx.safe("slice", "slice out of range", fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %d))", lo, lo, hi, hi, n), in.Pos())
		}
	}
	get := func(x ssa.Value) (Val, bool) { return fx.val(x), true }
	r, ok := fx.pure(in, get, fx.st)
	if !ok {
		unsup("slice")
	}
	fx.set(in, r)
}
