package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type special struct {
	apply  func(fx *Fx, c *ssa.CallCommon, args []Val, pos token.Pos) Val
	writes func(r *renv, w wset, c *ssa.CallCommon)
}

var specialCalls map[string]*special

func sbWrites(r *renv, w wset, c *ssa.CallCommon) {
	comp := r.fx.v.comp("SB", "Str", true)
	if v, ok := r.eval(c.Args[0]); ok && v.S != "" {
		w.add(comp, v.S)
	} else {
		w.add(comp, "")
	}
}

func sbAppend(text func(fx *Fx, a []Val) string, ret func(fx *Fx, a []Val) Val) *special {
	return &special{
		apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			comp := fx.v.comp("SB", "Str", true)
			fx.nonnil(a[0], pos, "builder")
			fx.frame(comp, a[0].S, pos, "builder text")
			t := text(fx, a)
			if fx.v.emptySB[fx.get(fx.st, comp)] != a[0].S {
				t = fmt.Sprintf("(scat %s %s)", fx.sel(fx.st, comp, a[0].S), t)
			}
			fx.setAt(comp, a[0].S, t)
			return ret(fx, a)
		},
		writes: sbWrites,
	}
}

// subHint names the text of a sliced argument as a substring of the whole.
func subHint(sp *special) *special {
	apply := sp.apply
	sp.apply = func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
		if sl, ok := c.Args[1].(*ssa.Slice); ok && sl.Max == nil {
			if _, ok := sl.X.Type().Underlying().(*types.Slice); ok {
				x := fx.val(sl.X).S
				lo, hi := "0", "(slen_ "+x+")"
				if sl.Low != nil {
					lo = fx.val(sl.Low).S
				}
				if sl.High != nil {
					hi = fx.val(sl.High).S
				}
				fx.v.assume(fx.reach, fmt.Sprintf("(=> (and (<= 0 %s) (<= %s %s) (<= %s (slen_ %s))) (= %s (ssub %s %s %s)))", lo, lo, hi, hi, x, bstr(fx, a[1].S), bstr(fx, x), lo, hi))
			}
		}
		return apply(fx, c, a, pos)
	}
	return sp
}

// runeStr is the encoding of a rune.
func runeStr(u *Univ, c string) string {
	u.decl("(declare-fun runestr (Int) Str)")
	u.decl("(assert (forall ((c Int)) (! (and (<= 1 (slen (runestr c))) (<= (slen (runestr c)) 4)) :pattern ((runestr c)))))")
	u.decl("(assert (forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (runestr c) (sunit c))) :pattern ((runestr c)))))")
	return "(runestr " + c + ")"
}

func noVal(fx *Fx, a []Val) Val { return Val{} }

func bstr(fx *Fx, s string) string {
	return fmt.Sprintf("(svw %s (soff %s) (slen_ %s))", fx.sel(fx.st, fx.elemComp(tByte), "(sref "+s+")"), s, s)
}

func init() {
	nErr := func(n string) func(fx *Fx, a []Val) Val {
		return func(fx *Fx, a []Val) Val {
			l := "1"
			if n == "str" {
				l = "(slen " + a[1].S + ")"
			} else if n == "bytes" {
				l = "(slen_ " + a[1].S + ")"
			} else if n == "rune" {
				l = fx.havoc("n", tInt).S
			}
			return Val{Tup: []Val{{T: tInt, S: l}, {T: tErr, S: "nilI"}}}
		}
	}
	specialCalls = map[string]*special{
		"(*strings.Builder).WriteString": sbAppend(func(fx *Fx, a []Val) string { return a[1].S }, nErr("str")),
		"(*strings.Builder).Write":       subHint(sbAppend(func(fx *Fx, a []Val) string { return bstr(fx, a[1].S) }, nErr("bytes"))),
		"(*strings.Builder).WriteByte":   sbAppend(func(fx *Fx, a []Val) string { return "(sunit " + a[1].S + ")" }, func(fx *Fx, a []Val) Val { return Val{S: "nilI"} }),
		"(*strings.Builder).WriteRune": sbAppend(func(fx *Fx, a []Val) string {
			return runeStr(fx.v.u, a[1].S)
		}, nErr("rune")),
		"(*strings.Builder).Grow": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			fx.safe("make", "Builder.Grow: negative count", "(<= 0 "+a[1].S+")", pos)
			return Val{}
		}, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"(*strings.Builder).Reset": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			comp := fx.v.comp("SB", "Str", true)
			fx.frame(comp, a[0].S, pos, "builder text")
			fx.setAt(comp, a[0].S, "sempty")
			if fx.v.emptySB == nil {
				fx.v.emptySB = map[string]string{}
			}
			fx.v.emptySB[fx.get(fx.st, comp)] = a[0].S
			return Val{}
		}, writes: sbWrites},
		"(*strings.Builder).Len": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			return Val{T: tInt, S: "(slen " + fx.sel(fx.st, fx.v.comp("SB", "Str", true), a[0].S) + ")"}
		}, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"(*strings.Builder).String": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			return Val{T: tStr, S: fx.sel(fx.st, fx.v.comp("SB", "Str", true), a[0].S)}
		}, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"(*strings.Replacer).Replace": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			v := c.Args[0]
			if l, ok := v.(*ssa.UnOp); ok {
				v = l.X
			}
			if n := fx.v.P.replOf[v]; n != "" {
				fx.v.u.use(n)
				fx.v.trust["strings.Replacer.Replace replaces in one pass from left to right, keys tried in argument order"] = true
				return Val{T: tStr, S: "(" + n + " " + a[1].S + " 0)"}
			}
			return fx.havoc("replaced", tStr)
		}, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"fmt.Errorf": {apply: errorf, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"errors.New": {apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			return fx.newErr("")
		}, writes: func(r *renv, w wset, c *ssa.CallCommon) {}},
		"sort.Strings":            {apply: sortStrings, writes: sortWrites},
		"sort.Slice":              {apply: sortSlice, writes: sortSliceWrites},
		"sort.SliceStable":        {apply: sortSlice, writes: sortSliceWrites},
		"(*sync.RWMutex).Lock":    lockOp(2, true),
		"(*sync.RWMutex).Unlock":  lockOp(2, false),
		"(*sync.RWMutex).RLock":   lockOp(1, true),
		"(*sync.RWMutex).RUnlock": lockOp(1, false),
		"(*sync.Mutex).Lock":      lockOp(2, true),
		"(*sync.Mutex).Unlock":    lockOp(2, false),
	}
}

func (fx *Fx) newErr(wrapped string) Val {
	v := fx.v
	v.u.errTheory()
	r := v.fresh("err", "Iface")
	v.assume(fx.reach, "(= (itag "+r+") 90001)")
	if wrapped == "" {
		v.assume(fx.reach, fmt.Sprintf("(forall ((x Iface)) (! (= (errIs %s x) (= %s x)) :pattern ((errIs %s x))))", r, r, r))
	} else {
		v.assume(fx.reach, fmt.Sprintf("(forall ((x Iface)) (! (= (errIs %s x) (or (= %s x) (errIs %s x))) :pattern ((errIs %s x))))", r, r, wrapped, r))
	}
	for n := range v.S.Consts {
		if strings.HasPrefix(n, "Err") {
			if o := v.P.Pkgs[modPath].Pkg.Scope().Lookup(n); o != nil {
				g := v.u.constGlobal(n, o.Type())
				v.assume(fx.reach, fmt.Sprintf("(not (= %s %s))", r, g.S))
			}
		}
	}
	return Val{T: tErr, S: r}
}

func errorf(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
	k, ok := c.Args[0].(*ssa.Const)
	if !ok {
		return fx.newErr("")
	}
	f := constant.StringVal(k.Value)
	idx := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			w := fmt.Sprintf("(select %s (+ (soff %s) %d))", fx.sel(fx.st, fx.elemComp(tAny), "(sref "+a[1].S+")"), a[1].S, idx)
			return fx.newErr(fx.v.name2("wrapped", "Iface", w))
		}
		idx++
	}
	return fx.newErr("")
}

func sortWrites(r *renv, w wset, c *ssa.CallCommon) {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	comp := r.fx.elemComp(et)
	var roots []Val
	unk := false
	r.sliceRoots(c.Args[0], map[ssa.Value]bool{}, &roots, &unk)
	for _, v := range roots {
		w.add(comp, "(sref "+v.S+")")
	}
	if unk {
		w.add(comp, "")
	}
}

func sortSliceWrites(r *renv, w wset, c *ssa.CallCommon) {
	if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
		if sl, ok := mi.X.Type().Underlying().(*types.Slice); ok {
			w.add(r.fx.elemComp(sl.Elem()), "")
		}
	}
}

// permute replaces a slice's elements by a permutation of them and returns the permutation's name.
func (fx *Fx) permute(s Val, et types.Type, pos token.Pos) string {
	v := fx.v
	comp := fx.elemComp(et)
	ref := "(sref " + s.S + ")"
	fx.frameIf("(> (slen_ "+s.S+") 0)", comp, ref, pos, "sorted slice")
	old := v.name2("arr", "(Array Int "+v.u.sortOf(et)+")", fx.sel(fx.st, comp, ref))
	n := v.fresh("arr", "(Array Int "+v.u.sortOf(et)+")")
	v.n++
	pi := fmt.Sprintf("perm!%d", v.n)
	v.items = append(v.items, Item{Text: fmt.Sprintf("(declare-fun %s (Int) Int)(declare-fun %s.inv (Int) Int)", pi, pi)})
	v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen_ %s))) (and (<= 0 (%s i)) (< (%s i) (slen_ %s)) (= (%s.inv (%s i)) i) (= (select %s (+ (soff %s) i)) (select %s (+ (soff %s) (%s i)))))) :pattern ((%s i)) :pattern ((select %s (+ (soff %s) i)))))", s.S, pi, pi, s.S, pi, pi, n, s.S, old, s.S, pi, pi, n, s.S))
	v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= (soff %s) i) (< i (+ (soff %s) (slen_ %s)))) (and (<= 0 (%s (- i (soff %s)))) (< (%s (- i (soff %s))) (slen_ %s)) (= (select %s i) (select %s (+ (soff %s) (%s (- i (soff %s)))))))) :pattern ((select %s i))))", s.S, s.S, s.S, pi, s.S, pi, s.S, s.S, n, old, s.S, pi, s.S, n))
	v.assume(fx.reach, fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j (slen_ %s))) (and (<= 0 (%s.inv j)) (< (%s.inv j) (slen_ %s)) (= (%s (%s.inv j)) j))) :pattern ((%s.inv j)) :pattern ((select %s (+ (soff %s) j)))))", s.S, pi, pi, s.S, pi, pi, pi, old, s.S))
	v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i (soff %s)) (>= i (+ (soff %s) (slen_ %s)))) (= (select %s i) (select %s i))) :pattern ((select %s i))))", s.S, s.S, s.S, n, old, n))
	before := (&Eval{u: v.u, fx: fx, st: fx.st}).seqView(s)
	fx.setAt(comp, ref, n)
	if f := v.S.Funcs["permuted"]; f != nil && v.u.sortOf(et) == "T_Result" {
		v.u.use("permuted")
		v.assume(fx.reach, fmt.Sprintf("(permuted %s %s)", before.S, (&Eval{u: v.u, fx: fx, st: fx.st}).seqView(s).S))
	}
	return pi
}

func sortStrings(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
	v := fx.v
	pre := fx.st.clone()
	fx.permute(a[0], tStr, pos)
	v.u.strOrder()
	s := a[0].S
	arr := fx.sel(fx.st, fx.elemComp(tStr), "(sref "+s+")")
	arr = v.name2("sorted", "(Array Int Str)", arr)
	v.assume(fx.reach, fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (slen_ %s))) (not (slt (select %s (+ (soff %s) j)) (select %s (+ (soff %s) i))))) :pattern ((select %s (+ (soff %s) i)) (select %s (+ (soff %s) j)))))", s, arr, s, arr, s, arr, s, arr, s))
	if v.S.Funcs["sortSeq"] != nil {
		v.u.use("sortSeq")
		ev := &Eval{u: v.u, fx: fx, st: fx.st, vars: map[string]Val{}}
		evo := &Eval{u: v.u, fx: fx, st: pre, vars: map[string]Val{}}
		v.assume(fx.reach, fmt.Sprintf("(= %s (sortSeq %s))", ev.seqView(a[0]).S, evo.seqView(a[0]).S))
	}
	v.trust["sort.Strings leaves the sorted permutation of its argument (a function of the multiset of the elements)"] = true
	return Val{}
}

func sortSlice(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
	v := fx.v
	if a[0].In == nil || a[1].Clo == nil {
		unsup("sort.Slice of a dynamic value")
	}
	s := *a[0].In
	et := s.T.Underlying().(*types.Slice).Elem()
	fx.permute(s, et, pos)
	// sortedness through the contract of the comparison closure
	cf := a[1].Clo.Fn
	con := v.S.Contracts[v.P.Names[cf]]
	if con != nil {
		sub := newFx(v, cf, fx)
		for i, fv := range cf.FreeVars {
			sub.vals[fv] = a[1].Clo.Bind[i]
		}
		for _, e := range con.Ensures {
			if !v.u.tagOn(e.Tags) || e.E.Op != "bin" || e.E.Name != "==" {
				continue
			}
			v.u.nq++
			i, j := fmt.Sprintf("i!%d", v.u.nq), fmt.Sprintf("j!%d", v.u.nq)
			names := paramNames(cf, con)
			ev := &Eval{u: v.u, fx: sub, st: fx.st, old: fx.st, vars: map[string]Val{names[0]: {T: tInt, S: fmt.Sprintf("(- %s (soff %s))", j, s.S)}, names[1]: {T: tInt, S: fmt.Sprintf("(- %s (soff %s))", i, s.S)}}, look: func(n string) (Val, bool) { return sub.lookName(cf.Blocks[0], n, nil) }}
			r := ev.eval(e.E.Args[1]).S
			arr := fx.sel(fx.st, fx.elemComp(et), "(sref "+s.S+")")
			v.assume(fx.reach, fmt.Sprintf("(forall ((%s Int) (%s Int)) (! (=> (and (<= (soff %s) %s) (< %s %s) (< %s (+ (soff %s) (slen_ %s)))) (not %s)) :pattern ((select %s %s) (select %s %s))))", i, j, s.S, i, i, j, j, s.S, s.S, r, arr, i, arr, j))
			v.used[v.P.Names[cf]] = true
		}
	}
	v.trust["sort.Slice permutes the slice so that no later element is less than an earlier one, provided less is a strict weak order"] = true
	// the comparison function itself must be safe on all index pairs
	if cf.Blocks != nil && con == nil {
		i, j := fx.havoc("i", tInt), fx.havoc("j", tInt)
		v.assume(fx.reach, fmt.Sprintf("(and (<= 0 %s) (< %s (slen_ %s)) (<= 0 %s) (< %s (slen_ %s)))", i.S, i.S, s.S, j.S, j.S, s.S))
		st := fx.st
		fx.st = st.clone()
		fx.inline(cf, []Val{i, j}, a[1].Clo.Bind, pos)
		fx.st = st
	}
	return Val{}
}

// ---- locks ----

func mutexName(x ssa.Value) string {
	switch x := x.(type) {
	case *ssa.Global:
		return x.Name()
	case *ssa.FieldAddr:
		return mutexName(x.X) + "." + fmt.Sprint(x.Field)
	}
	return ""
}

func (fx *Fx) lockTerm(m string, st State) string {
	c := fx.v.comp("Lock_"+m, "Int", false)
	if _, ok := fx.v.entry[c]; !ok {
		fx.v.entry[c] = c + "@0"
		fx.v.assert("(= " + c + "@0 0)")
	}
	return fx.get(st, c)
}

func lockOp(mode int, acquire bool) *special {
	return &special{
		apply: func(fx *Fx, c *ssa.CallCommon, a []Val, pos token.Pos) Val {
			v := fx.v
			m := mutexName(c.Args[0])
			if m == "" {
				unsup("lock operation on a mutex that is not a package variable")
			}
			cur := fx.lockTerm(m, fx.st)
			comp := "Lock_" + m
			if acquire {
				fx.safe("lock", "lock of "+m+" while held", "(= "+cur+" 0)", pos)
				fx.st[comp] = fmt.Sprint(mode)
				// other goroutines may have changed the guarded state
				na := v.fresh("alloc", "Int")
				v.assert(fmt.Sprintf("(>= %s %s)", na, fx.st["alloc"]))
				fx.st["alloc"] = na
				for _, g := range sortedKeys(v.S.Guards) {
					if v.S.Guards[g] != m {
						continue
					}
					gv := v.P.Pkgs[modPath].Var(g)
					if gv == nil {
						continue
					}
					lv := fx.globalLV(gv)
					n := fx.havoc(g, lv.T)
					fx.st[lv.Comp] = n.S
					v.assume(fx.reach, "(not (= "+n.S+" 0))")
					if mt, ok := lv.T.Underlying().(*types.Map); ok {
						md, mv, ml := fx.mapComps(mt)
						for _, cc := range []string{md, mv, ml} {
							es := strings.TrimSuffix(strings.TrimPrefix(v.sorts[cc], "(Array Int "), ")")
							fx.setAt(cc, n.S, v.fresh("guarded", es))
						}
						v.assume(fx.reach, "(<= 0 "+fx.sel(fx.st, ml, n.S)+")")
					}
					ev := &Eval{u: v.u, fx: fx, st: fx.st, old: fx.st, vars: map[string]Val{}}
					for _, inv := range v.S.MonInvs[g] {
						if v.u.tagOn(inv.Tags) {
							v.assume(fx.reach, ev.eval(inv.E).S)
						}
					}
				}
				return Val{}
			}
			fx.safe("lock", "release of "+m+" not held in this mode", fmt.Sprintf("(= %s %d)", cur, mode), pos)
			for _, g := range sortedKeys(v.S.Guards) {
				if v.S.Guards[g] != m || mode != 2 {
					continue
				}
				ev := &Eval{u: v.u, fx: fx, st: fx.st, old: fx.st, vars: map[string]Val{}}
				for _, inv := range v.S.MonInvs[g] {
					if v.u.tagOn(inv.Tags) {
						v.oblige("monitor", inv.Text, fx.reach, ev.eval(inv.E).S, pos, v.cfg.clause(inv.Tags))
					}
				}
			}
			fx.st[comp] = "0"
			return Val{}
		},
		writes: func(r *renv, w wset, c *ssa.CallCommon) {
			if m := mutexName(c.Args[0]); m != "" {
				w.add("Lock_"+m, "")
			}
		},
	}
}

func (fx *Fx) lockWrites(w wset, blocks []*ssa.BasicBlock) {}

// guardAccess: a guarded package variable may only be touched with its lock held.
func (fx *Fx) guardAccess(g string, pos token.Pos, write bool) {
	m, ok := fx.v.S.Guards[g]
	if !ok || fx.fn.Name() == "init" {
		return
	}
	cur := fx.lockTerm(m, fx.st)
	if write {
		fx.safe("lock", "write to "+g+" without "+m, "(= "+cur+" 2)", pos)
	} else {
		fx.safe("lock", "read of "+g+" without "+m, "(>= "+cur+" 1)", pos)
	}
}

func (fx *Fx) guardedMap(m ssa.Value) string {
	if l, ok := m.(*ssa.UnOp); ok && l.Op == token.MUL {
		if g, ok := l.X.(*ssa.Global); ok {
			if _, ok := fx.v.S.Guards[g.Name()]; ok {
				return g.Name()
			}
		}
	}
	// the same map under another name (local variable, parameter of an inlined function)
	if x, ok := fx.vals[m]; ok {
		return fx.v.guardOf[x.S]
	}
	return ""
}

func (fx *Fx) mapAccess(m ssa.Value, pos token.Pos, write bool) {
	g := fx.guardedMap(m)
	if g == "" || fx.fn.Name() == "init" {
		return
	}
	cur := fx.lockTerm(fx.v.S.Guards[g], fx.st)
	if write {
		fx.safe("lock", "write to "+g+" without the write lock", "(= "+cur+" 2)", pos)
	} else {
		fx.safe("lock", "access to "+g+" without the lock", "(>= "+cur+" 1)", pos)
	}
}

func (fx *Fx) publish(m ssa.Value, x Val) {
	if fx.guardedMap(m) == "" {
		return
	}
	if _, ok := x.T.Underlying().(*types.Slice); ok {
		pc := fx.v.comp("Pub", "Bool", true)
		fx.setAt(pc, "(sref "+x.S+")", "true")
	}
}

// ---- calls ----

func (fx *Fx) call(c *ssa.CallCommon, in *ssa.Call, pos token.Pos) Val {
	v := fx.v
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fx.builtin(b.Name(), c, in, pos)
	}
	var args []Val
	if c.IsInvoke() {
		recv := fx.val(c.Value)
		fx.safe("nil", "method call on nil interface", "(not (= "+recv.S+" nilI))", pos)
		name := fmt.Sprintf("(%s).%s", tkey(c.Value.Type()), c.Method.Name())
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, fx.val(a))
		}
		sig := c.Method.Type().(*types.Signature)
		if con := v.S.Contracts[name]; con != nil {
			names := []string{"recv"}
			for i := 0; i < sig.Params().Len(); i++ {
				names = append(names, sig.Params().At(i).Name())
			}
			return fx.applyContract(name, con, names, args, sig, pos, nil)
		}
		v.trust["dynamic call "+name+" returns an arbitrary value and leaves the library's memory alone"] = true
		return fx.havocResults(sig)
	}
	callee := c.StaticCallee()
	var binds []Val
	if callee == nil {
		f := fx.val(c.Value)
		if f.Clo == nil {
			if _, isP := c.Value.(*ssa.Const); isP {
				fx.safe("nil", "call of nil function", "false", pos)
			} else {
				fx.safe("nil", "call of nil function", "(not (= "+f.S+" 0))", pos)
			}
			v.trust["calls through function values supplied by the caller return arbitrary values and leave the library's memory alone"] = true
			r := fx.havocResults(c.Signature())
			fx.record(f.S, c, r)
			return r
		}
		callee = f.Clo.Fn
		binds = f.Clo.Bind
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			binds = append(binds, fx.val(b))
		}
	}
	for _, a := range c.Args {
		args = append(args, fx.val(a))
	}
	name := v.P.nameOf(callee)
	if sp := specialCalls[name]; sp != nil {
		r := sp.apply(fx, c, args, pos)
		if r.T == nil {
			res := c.Signature().Results()
			if res.Len() == 1 {
				r.T = res.At(0).Type()
			}
		}
		return r
	}
	con := v.S.Contracts[name]
	if con != nil && !con.Inline {
		for _, a := range args {
			if a.S == "" && a.LV != nil {
				unsup("address of a local passed to %s", name)
			}
		}
		return fx.applyContract(name, con, paramNames(callee, con), args, callee.Signature, pos, callee)
	}
	if callee.Blocks != nil && v.P.Names[callee] != "" {
		return fx.inline(callee, args, binds, pos)
	}
	return fx.external(name, callee, args, pos)
}

func (P *Program) nameOf(f *ssa.Function) string {
	if n := P.Names[f]; n != "" {
		return n
	}
	if f.Signature.Recv() != nil || f.Object() == nil || f.Object().Pkg() == nil {
		return funcName(f)
	}
	return f.Object().Pkg().Name() + "." + f.Name()
}

// external: a library function without a model. Packages of pure functions are taken to return an arbitrary
// value of their result type without touching memory; anything else is unsupported.
func (fx *Fx) external(name string, callee *ssa.Function, args []Val, pos token.Pos) Val {
	pkg := ""
	if callee.Object() != nil && callee.Object().Pkg() != nil {
		pkg = callee.Object().Pkg().Path()
	}
	switch pkg {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "math", "errors", "fmt", "slices", "maps", "math/bits", "cmp", "sort", "encoding/xml":
		if (pkg == "slices" || pkg == "sort" || pkg == "maps") && callee.Signature.Results().Len() == 0 {
			unsup("call to %s (no model)", name)
		}
		fx.v.trust["library function "+name+" without a model: arbitrary result, no side effect, no panic"] = true
		return fx.havocResults(callee.Signature)
	}
	unsup("call to %s (no model)", name)
	return Val{}
}

// traceComp names the ghost history of a function value: its arguments at position i, or its results (i < 0).
func (fx *Fx) traceComp(sig *types.Signature, i int) (string, types.Type) {
	t, n := types.Type(nil), "CR_"
	if i >= 0 {
		t, n = sig.Params().At(i).Type(), fmt.Sprintf("CA%d_", i)
	} else {
		t = sig.Results().At(0).Type()
	}
	q := &SeqT{t}
	return fx.v.comp(n+strings.Trim(fx.v.u.seqPfx(t), "."), fx.v.u.sortOf(q), true), q
}

// record adds a call through a function value to its history.
func (fx *Fx) record(f string, c *ssa.CallCommon, r Val) {
	sig := c.Signature()
	add := func(i int, x string) {
		comp, q := fx.traceComp(sig, i)
		p := fx.v.u.seqPfx(q.(*SeqT).Elem)
		fx.setAt(comp, f, fmt.Sprintf("(%scat %s (%sunit %s))", p, fx.sel(fx.st, comp, f), p, x))
	}
	for i, a := range c.Args {
		if v := fx.val(a); v.S != "" {
			add(i, v.S)
		}
	}
	if sig.Results().Len() == 1 {
		add(-1, r.S)
	}
}

func (fx *Fx) havocResults(sig *types.Signature) Val {
	res := sig.Results()
	na := fx.v.fresh("alloc", "Int")
	fx.v.assert(fmt.Sprintf("(>= %s %s)", na, fx.st["alloc"]))
	fx.st["alloc"] = na
	switch res.Len() {
	case 0:
		return Val{}
	case 1:
		return fx.havoc("ret", res.At(0).Type())
	}
	var t []Val
	for i := 0; i < res.Len(); i++ {
		t = append(t, fx.havoc("ret", res.At(i).Type()))
	}
	return Val{Tup: t}
}

func (fx *Fx) inline(callee *ssa.Function, args, binds []Val, pos token.Pos) Val {
	v := fx.v
	for f := fx; f != nil; f = f.up {
		if f.fn == callee {
			unsup("recursive function %s has no contract", v.P.Names[callee])
		}
	}
	if fx.depth > 12 {
		unsup("inlining too deep at %s", callee.Name())
	}
	v.inlined[v.P.Names[callee]] = true
	sub := newFx(v, callee, fx)
	for i, p := range callee.Params {
		a := args[i]
		sub.vals[p] = a
		sub.args[p.Name()] = a
	}
	for i, fv := range callee.FreeVars {
		if i < len(binds) {
			sub.vals[fv] = binds[i]
		}
	}
	sub.run(fx.reach, fx.st.clone())
	if len(sub.rets) == 0 {
		fx.reach = "false"
		return fx.havocResults(callee.Signature)
	}
	var es []edge
	for _, r := range sub.rets {
		es = append(es, edge{reach: r.reach, st: r.st})
	}
	fx.reach = fx.mergeReach(es)
	fx.st = fx.mergeState(es)
	res := callee.Signature.Results()
	if res.Len() == 0 {
		return Val{}
	}
	var out []Val
	for k := 0; k < res.Len(); k++ {
		var vs []Val
		for _, r := range sub.rets {
			vs = append(vs, r.vals[k])
		}
		out = append(out, fx.mergeVals("ret", res.At(k).Type(), es, vs))
	}
	if len(out) == 1 {
		return out[0]
	}
	return Val{Tup: out}
}

type TargetT struct {
	Target
	T types.Type
}

// targets evaluates one modifies expression to the locations it covers.
func (fx *Fx) targets(ev *Eval, e *Expr) []Target {
	switch e.Op {
	case "sel":
		x := ev.eval(e.Args[0])
		pt, ok := x.T.Underlying().(*types.Pointer)
		if !ok {
			ev.err(e, "modifies of a value")
		}
		st := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.Name {
				fa := fx.fieldAddr(x, pt.Elem(), i)
				if fa.LV == nil {
					ev.err(e, "modifies of a nested struct")
				}
				return []Target{{Comp: fa.LV.Comp, Ref: fa.LV.Ref, Text: e.String()}}
			}
		}
		if p := promotedSel(st, e); p != nil {
			return fx.targets(ev, p)
		}
	case "un":
		x := ev.eval(e.Args[0])
		pt := x.T.Underlying().(*types.Pointer)
		lv := fx.derefLV(x, pt.Elem())
		return []Target{{Comp: lv.Comp, Ref: lv.Ref, Text: e.String()}}
	case "call":
		switch e.Name {
		case "text":
			x := ev.eval(e.Args[0])
			return []Target{{Comp: fx.v.comp("SB", "Str", true), Ref: x.S, Text: e.String()}}
		case "elems":
			x := ev.eval(e.Args[0])
			return []Target{{Comp: fx.elemComp(x.T.Underlying().(*types.Slice).Elem()), Ref: "(sref " + x.S + ")", Cond: "(> (scap " + x.S + ") 0)", Text: e.String()}}
		case "mapof":
			x := ev.eval(e.Args[0])
			a, b, c := fx.mapComps(x.T.Underlying().(*types.Map))
			return []Target{{Comp: a, Ref: x.S, Text: e.String()}, {Comp: b, Ref: x.S}, {Comp: c, Ref: x.S}}
		case "fields":
			x := ev.eval(e.Args[0])
			pt := x.T.Underlying().(*types.Pointer)
			st := pt.Elem().Underlying().(*types.Struct)
			var ts []Target
			for i := 0; i < st.NumFields(); i++ {
				fa := fx.fieldAddr(x, pt.Elem(), i)
				if fa.LV != nil {
					ts = append(ts, Target{Comp: fa.LV.Comp, Ref: fa.LV.Ref, Text: e.String()})
				}
			}
			return ts
		}
	case "ident":
		if g := fx.v.P.Pkgs[modPath].Var(e.Name); g != nil {
			return []Target{{Comp: fx.globalLV(g).Comp, Text: e.Name}}
		}
	}
	ev.err(e, "bad modifies target")
	return nil
}

func (fx *Fx) resultVars(sig *types.Signature, vals []Val) map[string]Val {
	m := map[string]Val{}
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		x := vals[i]
		x.T = res.At(i).Type()
		m[fmt.Sprintf("result%d", i)] = x
		if n := res.At(i).Name(); n != "" && n != "_" {
			m[n] = x
		}
		if res.Len() == 1 {
			m["result"] = x
		}
		if i == res.Len()-1 && types.Identical(res.At(i).Type(), tErr) {
			m["err"] = x
		}
	}
	return m
}

func (fx *Fx) applyContract(name string, con *Contract, names []string, args []Val, sig *types.Signature, pos token.Pos, callee *ssa.Function) Val {
	v := fx.v
	v.used[name] = true
	if con.Trusted != "" {
		v.trust["contract of "+name+": "+con.Trusted] = true
	}
	vars := map[string]Val{}
	for i, n := range names {
		a := args[i]
		vars[n] = a
	}
	pre := fx.st.clone()
	// ghost arguments
	for _, g := range con.Ghosts {
		t := v.u.specType(g.Type)
		var root *Contract = v.con
		if root != nil && root.GhostArgs[name] != nil && root.GhostArgs[name][g.Name] != nil {
			e := &Eval{u: v.u, fx: fx, st: fx.st, old: v.entry, oldLook: v.look0, vars: map[string]Val{}, look: func(n string) (Val, bool) { return fx.lookName(fx.cur, n, nil) }}
			for k, x := range vars {
				e.vars["callee_"+k] = x
			}
			x := e.eval(root.GhostArgs[name][g.Name])
			vars[g.Name] = Val{T: t, S: x.S}
			continue
		}
		if mine, ok := v.ghosts()[g.Name]; ok {
			vars[g.Name] = mine
			continue
		}
		// unconstrained: the callee's contract must hold for every value
		vars[g.Name] = Val{T: t, S: v.fresh("ghost_"+g.Name, v.u.sortOf(t))}
	}
	ev := &Eval{u: v.u, fx: fx, st: pre, old: pre, vars: vars}
	for _, r := range con.Requires {
		if !v.u.tagOn(r.Tags) {
			continue
		}
		v.oblige("pre", name+" requires "+r.Text, fx.reach, ev.eval(r.E).S, pos, v.cfg.clause(r.Tags))
	}
	if callee != nil && v.scc[callee] && v.cfg.kind("rec") {
		fx.recursion(name, con, ev, pos)
	}
	if callee != nil && v.P.mayLock[callee] {
		for _, m := range v.P.mutexes {
			if _, ok := v.sorts["Lock_"+m]; ok {
				fx.safe("lock", "call of "+name+" (takes "+m+") while holding "+m, "(= "+fx.lockTerm(m, fx.st)+" 0)", pos)
			}
		}
	}
	// effects
	var ts []Target
	for _, m := range con.Modifies {
		if v.u.tagOn(m.Tags) {
			ts = append(ts, fx.targets(ev, m.E)...)
		}
	}
	na := v.fresh("alloc", "Int")
	v.assert(fmt.Sprintf("(>= %s %s)", na, fx.st["alloc"]))
	fx.st["alloc"] = na
	for _, t := range ts {
		fx.frameIf(t.Cond, t.Comp, t.Ref, pos, t.Text+" (by "+name+")")
	}
	for _, t := range ts {
		if !v.keyed[t.Comp] {
			fx.st[t.Comp] = v.fresh(t.Comp, v.sorts[t.Comp])
			continue
		}
		es := strings.TrimSuffix(strings.TrimPrefix(v.sorts[t.Comp], "(Array Int "), ")")
		nv := v.fresh("post", es)
		if t.Cond != "" {
			nv = fmt.Sprintf("(ite %s %s %s)", t.Cond, nv, fx.sel(fx.st, t.Comp, t.Ref))
		}
		fx.setAt(t.Comp, t.Ref, nv)
	}
	var rv []Val
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		hint := strings.TrimLeft(name, "(*")
		rv = append(rv, fx.havoc("r_"+hint, res.At(i).Type()))
	}
	vars2 := map[string]Val{}
	for k, x := range vars {
		vars2[k] = x
	}
	for k, x := range fx.resultVars(sig, rv) {
		vars2[k] = x
	}
	ev2 := &Eval{u: v.u, fx: fx, st: fx.st, old: pre, vars: vars2, limAll: true}
	for _, e := range con.Ensures {
		if !v.u.tagOn(e.Tags) {
			continue
		}
		v.assume(fx.reach, ev2.eval(e.E).S)
	}
	switch len(rv) {
	case 0:
		return Val{}
	case 1:
		return rv[0]
	}
	return Val{Tup: rv}
}

func lexLess(a, b []string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	if n == 0 {
		return "false"
	}
	s := fmt.Sprintf("(< %s %s)", a[n-1], b[n-1])
	for i := n - 2; i >= 0; i-- {
		s = fmt.Sprintf("(or (< %s %s) (and (= %s %s) %s))", a[i], b[i], a[i], b[i], s)
	}
	return s
}

func (fx *Fx) recursion(name string, con *Contract, ev *Eval, pos token.Pos) {
	v := fx.v
	if con.NoTerm != "" {
		v.trust["termination of the recursion through "+name+": "+con.NoTerm] = true
		return
	}
	d := v.measure(con)
	if d == nil || v.meas == nil {
		v.oblige("rec", "call of "+name+": no recursion measure", fx.reach, "false", pos, v.cfg.kind("rec"))
		return
	}
	var m []string
	for _, e := range d.E.Args {
		m = append(m, ev.eval(e).S)
	}
	v.oblige("rec", "measure of "+name+" decreases", fx.reach, lexLess(m, v.meas), pos, v.cfg.kind("rec"))
}

func (v *VC) measure(con *Contract) *Clause {
	for i := range con.Decreases {
		if v.u.tagOn(con.Decreases[i].Tags) {
			return &con.Decreases[i]
		}
	}
	return nil
}

func (fx *Fx) builtin(name string, c *ssa.CallCommon, in *ssa.Call, pos token.Pos) Val {
	v := fx.v
	u := v.u
	switch name {
	case "len", "cap":
		r := fx.lenOf(c.Args[0].Type(), fx.val(c.Args[0]), name, fx.st)
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			v.assume(fx.reach, "(<= 0 "+r.S+")")
			fx.mapAccess(c.Args[0], pos, false)
		}
		return r
	case "append":
		return fx.appendTo(c, pos)
	case "copy":
		d, s := fx.val(c.Args[0]), fx.val(c.Args[1])
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		comp := fx.elemComp(et)
		srcLen := "(slen_ " + s.S + ")"
		srcAt := func(i string) string {
			return fmt.Sprintf("(select %s (+ (soff %s) %s))", fx.sel(fx.st, comp, "(sref "+s.S+")"), s.S, i)
		}
		if isStrT(c.Args[1].Type()) {
			srcLen = "(slen " + s.S + ")"
			srcAt = func(i string) string { return fmt.Sprintf("(sat %s %s)", s.S, i) }
		}
		// the source as a sequence, before the copy (the two may overlap)
		sv := s.S
		if !isStrT(c.Args[1].Type()) {
			sv = (&Eval{u: u, fx: fx, st: fx.st}).seqView(s).S
		}
		n := v.name2("ncopy", "Int", fmt.Sprintf("(ite (<= (slen_ %s) %s) (slen_ %s) %s)", d.S, srcLen, d.S, srcLen))
		ref := "(sref " + d.S + ")"
		old := v.name2("arr", "(Array Int "+u.sortOf(et)+")", fx.sel(fx.st, comp, ref))
		na := v.fresh("arr", "(Array Int "+u.sortOf(et)+")")
		v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= (soff %s) i) (< i (+ (soff %s) %s))) %s (select %s i))) :pattern ((select %s i))))", na, d.S, d.S, n, srcAt("(- i (soff "+d.S+"))"), old, na))
		// an empty copy writes nothing
		saved := fx.reach
		rw := v.fresh("R", "Bool")
		v.assert(fmt.Sprintf("(= %s (and %s (> %s 0)))", rw, fx.reach, n))
		fx.reach = rw
		fx.frame(comp, ref, pos, "copy destination")
		fx.reach = saved
		fx.setAt(comp, ref, fmt.Sprintf("(ite (> %s 0) %s %s)", n, na, old))
		v.assume(fx.reach, fmt.Sprintf("(=> (= (slen_ %s) %s) (= (%svw %s (soff %s) (slen_ %s)) %s))", d.S, srcLen, u.seqPfx(et), fx.sel(fx.st, comp, ref), d.S, d.S, sv))
		return Val{T: tInt, S: n}
	case "delete":
		m, k := fx.val(c.Args[0]), fx.val(c.Args[1])
		mt := c.Args[0].Type().Underlying().(*types.Map)
		fx.mapAccess(c.Args[0], pos, true)
		md, _, ml := fx.mapComps(mt)
		if fx.guardedMap(c.Args[0]) == "" {
			fx.frame(md, m.S, pos, "map")
		}
		dom := fx.sel(fx.st, md, m.S)
		ln := fx.sel(fx.st, ml, m.S)
		nl := v.name2("mlen", "Int", fmt.Sprintf("(ite (select %s %s) (- %s 1) %s)", dom, k.S, ln, ln))
		v.assume(fx.reach, "(<= 0 "+nl+")")
		fx.setAt(ml, m.S, nl)
		fx.setAt(md, m.S, fmt.Sprintf("(store %s %s false)", dom, k.S))
		return Val{}
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := fx.val(c.Args[0])
			fx.mapAccess(c.Args[0], pos, true)
			md, _, ml := fx.mapComps(mt)
			if fx.guardedMap(c.Args[0]) == "" {
				fx.frame(md, m.S, pos, "map")
			}
			fx.setAt(ml, m.S, "0")
			fx.setAt(md, m.S, fmt.Sprintf("((as const (Array %s Bool)) false)", u.sortOf(mt.Key())))
			return Val{}
		}
		unsup("clear of a slice")
	case "min", "max":
		r := fx.val(c.Args[0]).S
		op := "<="
		if name == "max" {
			op = ">="
		}
		for _, a := range c.Args[1:] {
			x := fx.val(a).S
			r = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, r, x, r, x)
		}
		return Val{T: c.Args[0].Type(), S: r}
	case "ssa:wrapnilchk":
		x := fx.val(c.Args[0])
		fx.nonnil(x, pos, "receiver")
		return x
	case "StringData": // pointer to the bytes of a string: read-only memory
		x := fx.val(c.Args[0])
		u.decl("(declare-fun strmem (Str) Int)")
		u.decl("(assert (forall ((s Str)) (! (< (strmem s) 0) :pattern ((strmem s)))))")
		r := "(strmem " + x.S + ")"
		v.assume(fx.reach, fmt.Sprintf("(= (svw %s 0 (slen %s)) %s)", fx.sel(fx.st, fx.elemComp(tByte), r), x.S, x.S))
		v.trust["unsafe.StringData/unsafe.Slice give a read-only view of the string's bytes"] = true
		return Val{T: in.Type(), S: r}
	case "Slice": // unsafe.Slice
		p, n := fx.val(c.Args[0]), fx.val(c.Args[1])
		fx.safe("make", "unsafe.Slice: negative length", "(<= 0 "+n.S+")", pos)
		return Val{T: in.Type(), S: fmt.Sprintf("(mkslice %s 0 %s %s)", p.S, n.S, n.S)}
	case "print", "println":
		return Val{}
	case "recover":
		return Val{T: tAny, S: v.fresh("recovered", "Iface")}
	}
	unsup("builtin %s", name)
	return Val{}
}

func (fx *Fx) appendTo(c *ssa.CallCommon, pos token.Pos) Val {
	v := fx.v
	u := v.u
	s := fx.val(c.Args[0])
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := u.sortOf(et)
	comp := fx.elemComp(et)
	as := "(Array Int " + es + ")"
	p := u.seqPfx(et)
	if len(c.Args) == 1 {
		return s
	}
	x := fx.val(c.Args[1])
	// elements known one by one (variadic literal)
	var elems []string
	known := false
	if sl, ok := c.Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
			if at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() <= 8 {
				known = true
				for i := int64(0); i < at.Len(); i++ {
					elems = append(elems, v.name2("el", es, fmt.Sprintf("(select %s %d)", fx.sel(fx.st, comp, fx.val(al).S), i)))
				}
			}
		}
	}
	var n, tail string
	srcAt := func(i string) string {
		return fmt.Sprintf("(select %s (+ (soff %s) %s))", fx.sel(fx.st, comp, "(sref "+x.S+")"), x.S, i)
	}
	switch {
	case known:
		n = fmt.Sprint(len(elems))
		tail = p + "empty"
		for i, e := range elems {
			if i == 0 {
				tail = fmt.Sprintf("(%sunit %s)", p, e)
			} else {
				tail = fmt.Sprintf("(%scat %s (%sunit %s))", p, tail, p, e)
			}
		}
	case isStrT(c.Args[1].Type()):
		n = "(slen " + x.S + ")"
		tail = x.S
		srcAt = func(i string) string { return fmt.Sprintf("(sat %s %s)", x.S, i) }
	default:
		n = "(slen_ " + x.S + ")"
		tail = (&Eval{u: u, fx: fx, st: fx.st}).seqView(x).S
	}
	old := v.name2("arr", as, fx.sel(fx.st, comp, "(sref "+s.S+")"))
	inpl := v.name2("inplace", "Bool", fmt.Sprintf("(<= (+ (slen_ %s) %s) (scap %s))", s.S, n, s.S))
	nref := fx.newRef(1)
	fx.notPub(et, nref)
	ref := v.name2("ref", "Int", fmt.Sprintf("(ite %s (sref %s) %s)", inpl, s.S, nref))
	off := v.name2("off", "Int", fmt.Sprintf("(ite %s (soff %s) 0)", inpl, s.S))
	ncap := v.fresh("cap", "Int")
	v.assume(fx.reach, fmt.Sprintf("(and (>= %s (+ (slen_ %s) %s)) (=> %s (= %s (scap %s))))", ncap, s.S, n, inpl, ncap, s.S))
	na := v.fresh("arr", as)
	if known {
		// in place: stores; otherwise a copied prefix followed by the elements
		st := old
		for i, e := range elems {
			st = fmt.Sprintf("(store %s (+ (soff %s) (slen_ %s) %d) %s)", st, s.S, s.S, i, e)
		}
		v.assume(fx.reach, fmt.Sprintf("(=> %s (= %s %s))", inpl, na, st))
		var cs []string
		for i, e := range elems {
			cs = append(cs, fmt.Sprintf("(= (select %s (+ %s (slen_ %s) %d)) %s)", na, off, s.S, i, e))
		}
		v.assume(fx.reach, fmt.Sprintf("(and (forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen_ %s))) (= (select %s (+ %s i)) (select %s (+ (soff %s) i)))) :pattern ((select %s (+ %s i))))) %s)", s.S, na, off, old, s.S, na, off, strings.Join(cs, " ")))
		v.assume(fx.reach, fmt.Sprintf("(=> (not %s) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen_ %s))) (= (select %s i) (select %s (+ (soff %s) i)))) :pattern ((select %s i)))))", inpl, s.S, na, old, s.S, na))
	} else {
		v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen_ %s))) (= (select %s (+ %s i)) (select %s (+ (soff %s) i)))) :pattern ((select %s (+ %s i)))))", s.S, na, off, old, s.S, na, off))
		v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s (+ %s (slen_ %s) i)) %s)) :pattern ((select %s (+ %s (slen_ %s) i)))))", n, na, off, s.S, srcAt("i"), na, off, s.S))
		if _, ok := et.Underlying().(*types.Struct); ok { // the same by absolute position
			v.assume(fx.reach, fmt.Sprintf("(forall ((i Int)) (! (and (=> (and (<= %s i) (< i (+ %s (slen_ %s)))) (= (select %s i) (select %s (+ (soff %s) (- i %s))))) (=> (and (<= (+ %s (slen_ %s)) i) (< i (+ %s (slen_ %s) %s))) (= (select %s i) %s))) :pattern ((select %s i))))", off, off, s.S, na, old, s.S, off, off, s.S, off, s.S, n, na, srcAt("(- i "+off+" (slen_ "+s.S+"))"), na))
		}
		v.assume(fx.reach, fmt.Sprintf("(=> %s (forall ((i Int)) (! (=> (or (< i (+ (soff %s) (slen_ %s))) (>= i (+ (soff %s) (slen_ %s) %s))) (= (select %s i) (select %s i))) :pattern ((select %s i)))))", inpl, s.S, s.S, s.S, s.S, n, na, old, na))
	}
	v.assume(fx.reach, fmt.Sprintf("(= (%svw %s %s (+ (slen_ %s) %s)) (%scat (%svw %s (soff %s) (slen_ %s)) %s))", p, na, off, s.S, n, p, p, old, s.S, s.S, tail))
	// frame: in-place growth writes the old array
	fx.frameIf(fmt.Sprintf("(and %s (> %s 0))", inpl, n), comp, v.name2("ref", "Int", "(sref "+s.S+")"), pos, "append target")
	st2 := v.fresh(comp, v.sorts[comp])
	v.assert(fmt.Sprintf("(= %s (store %s %s %s))", st2, fx.get(fx.st, comp), ref, na))
	if known && len(elems) > 0 {
		fx.st[comp] = st2
		return Val{T: c.Args[0].Type(), S: fmt.Sprintf("(mkslice %s %s (+ (slen_ %s) %s) %s)", ref, off, s.S, n, ncap)}
	}
	// appending nothing returns the slice itself
	st3 := v.fresh(comp, v.sorts[comp])
	v.assert(fmt.Sprintf("(= %s (ite (= %s 0) %s %s))", st3, n, fx.get(fx.st, comp), st2))
	fx.st[comp] = st3
	return Val{T: c.Args[0].Type(), S: fmt.Sprintf("(ite (= %s 0) %s (mkslice %s %s (+ (slen_ %s) %s) %s))", n, s.S, ref, off, s.S, n, ncap)}
}

// ---- call graph facts ----

func (P *Program) analyse() {
	P.callees = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		m := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && P.Names[g] != "" {
						m[g] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && P.Names[g] != "" {
						m[g] = true
					}
				}
			}
		}
		P.callees[f] = m
	}
	// transitive lock acquisition
	P.mayLock = map[*ssa.Function]bool{}
	mux := map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && P.Names[g] == "" {
						n := funcName(g)
						if strings.HasPrefix(n, "(*sync.") && (strings.HasSuffix(n, "Lock")) && !strings.HasSuffix(n, "nlock") {
							P.mayLock[f] = true
							if m := mutexName(ci.Common().Args[0]); m != "" {
								mux[m] = true
							}
						}
					}
				}
			}
		}
	}
	P.mutexes = sortedKeys(mux)
	for ch := true; ch; {
		ch = false
		for f, m := range P.callees {
			if P.mayLock[f] {
				continue
			}
			for g := range m {
				if P.mayLock[g] {
					P.mayLock[f] = true
					ch = true
				}
			}
		}
	}
}

// sccOf returns the functions mutually recursive with f (including f when it is recursive).
func (P *Program) sccOf(f *ssa.Function) map[*ssa.Function]bool {
	reach := func(s *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var dfs func(x *ssa.Function)
		dfs = func(x *ssa.Function) {
			for g := range P.callees[x] {
				if !seen[g] {
					seen[g] = true
					dfs(g)
				}
			}
		}
		dfs(s)
		return seen
	}
	out := map[*ssa.Function]bool{}
	for g := range reach(f) {
		if reach(g)[f] {
			out[g] = true
		}
	}
	return out
}

func (P *Program) funcNames() []string {
	var ns []string
	for n := range P.Funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
