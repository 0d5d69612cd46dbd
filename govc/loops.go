package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// renv re-evaluates pure SSA expressions of a loop body in another state.
type renv struct {
	fx     *Fx
	fn     *ssa.Function
	body   map[*ssa.BasicBlock]bool // nil: everything in fn is inside (callee)
	phi    map[*ssa.Phi]Val
	st     State
	params map[ssa.Value]Val
	depth  int
	scan   bool // looking for write targets: values that change during the loop are unknown
	loaded bool // scan: the last evaluations read memory
}

func (r *renv) eval(x ssa.Value) (Val, bool) {
	if r.depth > 40 {
		return Val{}, false
	}
	if p, ok := x.(*ssa.Phi); ok {
		if v, ok := r.phi[p]; ok {
			if r.scan {
				if _, sl := p.Type().Underlying().(*types.Slice); !sl {
					return Val{}, false
				}
			}
			return v, true
		}
	}
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); !ok || !localAlloc(a) {
			r.loaded = true
		}
	}
	if v, ok := r.params[x]; ok {
		return v, true
	}
	switch x := x.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return r.fx.val(x), true
	}
	in, isInstr := x.(ssa.Instruction)
	if r.body != nil && (!isInstr || !r.body[in.Block()]) {
		if v, ok := r.fx.vals[x]; ok {
			return v, true
		}
		return Val{}, false
	}
	if !isInstr {
		return Val{}, false
	}
	if a, ok := x.(*ssa.Alloc); ok {
		// local cells allocated before: address known
		if v, ok := r.fx.vals[a]; ok && r.body != nil && !r.body[a.Block()] {
			return v, true
		}
		return Val{}, false
	}
	r.depth++
	defer func() { r.depth-- }()
	return r.fx.pure(x, r.eval, r.st)
}

type write struct {
	comp string
	refs []string // "" entries: unknown
	unk  bool
}

type wset map[string]*write

func (w wset) add(comp string, ref string) {
	x := w[comp]
	if x == nil {
		x = &write{comp: comp}
		w[comp] = x
	}
	if ref == "" {
		x.unk = true
		return
	}
	for _, r := range x.refs {
		if r == ref {
			return
		}
	}
	x.refs = append(x.refs, ref)
}

// sliceRoots gives the slice values (evaluated before the loop) a slice expression may alias.
func (r *renv) sliceRoots(x ssa.Value, seen map[ssa.Value]bool, out *[]Val, unk *bool) {
	if seen[x] {
		return
	}
	seen[x] = true
	if v, ok := r.eval(x); ok {
		*out = append(*out, v)
		return
	}
	switch x := x.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			r.sliceRoots(e, seen, out, unk)
		}
		return
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			r.sliceRoots(x.X, seen, out, unk)
			return
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			r.sliceRoots(x.Call.Args[0], seen, out, unk)
			return
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// load of a local cell written in the loop: the value before the loop or fresh
			if a, ok := r.eval(x.X); ok {
				pt := x.X.Type().Underlying().(*types.Pointer)
				*out = append(*out, r.fx.loadLV(r.fx.derefLV(a, pt.Elem()), r.st))
			}
		}
	}
	*unk = true
}

// addrWrites records a store through addr.
func (r *renv) addrWrites(w wset, addr ssa.Value) {
	fx := r.fx
	if v, ok := r.eval(addr); ok {
		r.lvWrites(w, v, addr.Type().Underlying().(*types.Pointer).Elem())
		return
	}
	switch a := addr.(type) {
	case *ssa.Alloc:
		t := a.Type().(*types.Pointer).Elem()
		if localAlloc(a) {
			if r.fn == fx.fn {
				w.add(fmt.Sprintf("L!%d_%s_%s", fx.id, a.Name(), sanitize(a.Comment)), "")
			}
			return
		}
		r.typeWrites(w, t)
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		// root inside the loop: fresh objects, or a local cell
		root := ssa.Value(a)
		for {
			if f, ok := root.(*ssa.FieldAddr); ok {
				root = f.X
				continue
			}
			break
		}
		if al, ok := root.(*ssa.Alloc); ok && localAlloc(al) {
			if r.fn == fx.fn {
				w.add(fmt.Sprintf("L!%d_%s_%s", fx.id, al.Name(), sanitize(al.Comment)), "")
			}
			return
		}
		if ia, ok := root.(*ssa.IndexAddr); ok {
			r.addrWrites(w, ia)
			return
		}
		ft := st.Underlying().(*types.Struct).Field(a.Field).Type()
		if _, ok := ft.Underlying().(*types.Struct); ok {
			r.typeWrites(w, ft)
			return
		}
		w.add(fx.fieldComp(st, a.Field), "")
	case *ssa.IndexAddr:
		var et types.Type
		switch t := a.X.Type().Underlying().(type) {
		case *types.Slice:
			et = t.Elem()
			var roots []Val
			unk := false
			r.sliceRoots(a.X, map[ssa.Value]bool{}, &roots, &unk)
			c := fx.elemComp(et)
			for _, v := range roots {
				w.add(c, "(sref "+v.S+")")
			}
			if unk || len(roots) == 0 {
				w.add(c, "")
			}
			return
		case *types.Pointer:
			et = t.Elem().Underlying().(*types.Array).Elem()
			w.add(fx.elemComp(et), "")
		}
	case *ssa.Global:
		w.add(fx.globalLV(a).Comp, "")
	case *ssa.FreeVar:
		// closure cell handled through params
	default:
		r.typeWrites(w, addr.Type().Underlying().(*types.Pointer).Elem())
	}
}

func (r *renv) typeWrites(w wset, t types.Type) {
	fx := r.fx
	switch x := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			return
		}
		for i := 0; i < x.NumFields(); i++ {
			ft := x.Field(i).Type()
			if _, ok := ft.Underlying().(*types.Struct); ok {
				r.typeWrites(w, ft)
			} else {
				w.add(fx.fieldComp(t, i), "")
			}
		}
	case *types.Array:
		w.add(fx.elemComp(x.Elem()), "")
	default:
		w.add(fx.cellComp(t), "")
	}
}

func (r *renv) lvWrites(w wset, v Val, t types.Type) {
	fx := r.fx
	lv := fx.derefLV(v, t)
	switch lv.K {
	case lvLocal, lvGlobal:
		if lv.Comp != "" {
			w.add(lv.Comp, "")
		}
	case lvField, lvCell, lvElem:
		w.add(lv.Comp, lv.Ref)
	case lvStruct:
		if opaqueStruct(lv.T) {
			return
		}
		st := lv.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			r.lvWrites(w, fx.fieldAddr(Val{S: lv.Ref}, lv.T, i), st.Field(i).Type())
		}
	}
}

func (r *renv) scanInstr(w wset, in ssa.Instruction, seen map[*ssa.Function]bool) {
	w2 := wset{}
	r.loaded = false
	r.scanInstr1(w2, in, seen)
	for c, x := range w2 {
		for _, ref := range x.refs {
			w.add(c, ref)
		}
		if x.unk || r.loaded && len(x.refs) > 0 {
			w.add(c, "")
		}
		if len(x.refs) == 0 && !x.unk {
			w.add(c, "")
		}
	}
}

func (r *renv) scanInstr1(w wset, in ssa.Instruction, seen map[*ssa.Function]bool) {
	fx := r.fx
	switch in := in.(type) {
	case *ssa.Store:
		if a, ok := in.Addr.(*ssa.Alloc); ok && r.fn == fx.fn {
			if _, ok := fx.prom[a]; ok {
				return
			}
		}
		r.addrWrites(w, in.Addr)
	case *ssa.Alloc:
		if localAlloc(in) && r.fn == fx.fn {
			w.add(fmt.Sprintf("L!%d_%s_%s", fx.id, in.Name(), sanitize(in.Comment)), "")
		}
	case *ssa.MapUpdate:
		r.mapWrites(w, in.Map)
		w.add("Pub", "")
		fx.v.comp("Pub", "Bool", true)
	case *ssa.Range:
		if r.fn == fx.fn {
			if isStrT(in.X.Type()) {
				w.add(fmt.Sprintf("IT!%d_%s", fx.id, in.Name()), "")
			} else {
				w.add(fmt.Sprintf("RV!%d_%s", fx.id, in.Name()), "")
			}
		}
	case *ssa.Next:
		if r.fn == fx.fn {
			it := in.Iter.(*ssa.Range)
			if in.IsString {
				w.add(fmt.Sprintf("IT!%d_%s", fx.id, it.Name()), "")
			} else {
				w.add(fmt.Sprintf("RV!%d_%s", fx.id, it.Name()), "")
			}
		}
	case *ssa.Call:
		r.scanCall(w, &in.Call, seen)
	case *ssa.Defer:
		unsup("defer inside loop")
	}
}

func (r *renv) mapWrites(w wset, m ssa.Value) {
	mt := m.Type().Underlying().(*types.Map)
	a, b, c := r.fx.mapComps(mt)
	ref := ""
	if v, ok := r.eval(m); ok {
		ref = v.S
	}
	w.add(a, ref)
	w.add(b, ref)
	w.add(c, ref)
}

func (r *renv) scanCall(w wset, c *ssa.CallCommon, seen map[*ssa.Function]bool) {
	fx := r.fx
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			var roots []Val
			unk := false
			r.sliceRoots(c.Args[0], map[ssa.Value]bool{}, &roots, &unk)
			comp := fx.elemComp(et)
			for _, v := range roots {
				w.add(comp, "(sref "+v.S+")")
			}
			// growth writes fresh memory
			w.add(comp, "")
		case "delete", "clear":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				r.mapWrites(w, c.Args[0])
			}
		}
		return
	}
	if c.IsInvoke() {
		return
	}
	callee := c.StaticCallee()
	if callee == nil {
		if v, ok := r.eval(c.Value); ok && v.Clo != nil {
			callee = v.Clo.Fn
		} else {
			for i := range c.Args {
				comp, _ := fx.traceComp(c.Signature(), i)
				w.add(comp, "")
			}
			if c.Signature().Results().Len() == 1 {
				comp, _ := fx.traceComp(c.Signature(), -1)
				w.add(comp, "")
			}
			return
		}
	}
	name := fx.v.P.nameOf(callee)
	con := fx.v.S.Contracts[name]
	if sp := specialCalls[name]; sp != nil && sp.writes != nil {
		sp.writes(r, w, c)
		return
	}
	if con != nil && !con.Inline {
		args := map[string]Val{}
		ok := true
		names := paramNames(callee, con)
		for i, a := range c.Args {
			if v, k := r.eval(a); k {
				args[names[i]] = v
			}
		}
		for _, m := range con.Modifies {
			if !fx.v.u.tagOn(m.Tags) {
				continue
			}
			r.modWrites(w, m.E, args, callee, con, ok)
		}
		return
	}
	if callee.Blocks == nil || seen[callee] {
		return
	}
	seen2 := map[*ssa.Function]bool{callee: true}
	for k := range seen {
		seen2[k] = true
	}
	sub := &renv{fx: fx, fn: callee, st: r.st, params: map[ssa.Value]Val{}, scan: r.scan}
	for i, p := range callee.Params {
		if v, ok := r.eval(c.Args[i]); ok {
			sub.params[p] = v
		}
	}
	if v, ok := r.eval(c.Value); ok && v.Clo != nil {
		for i, fv := range callee.FreeVars {
			if i < len(v.Clo.Bind) {
				sub.params[fv] = v.Clo.Bind[i]
			}
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, fv := range callee.FreeVars {
			if v, ok := r.eval(mc.Bindings[i]); ok {
				sub.params[fv] = v
			}
		}
	}
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			sub.scanInstr(w, in, seen2)
		}
	}
}

// modWrites: the component and reference of one modifies target.
func (r *renv) modWrites(w wset, e *Expr, args map[string]Val, callee *ssa.Function, con *Contract, _ bool) {
	fx := r.fx
	ev := &Eval{u: fx.v.u, fx: fx, st: r.st, old: r.st, vars: args}
	var ts []Target
	if func() (ok bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(unresolved); is {
					ok = false
					return
				}
				panic(x)
			}
		}()
		ts = fx.targets(ev, e)
		return true
	}() {
		for _, t := range ts {
			w.add(t.Comp, t.Ref)
			if t.Ref != "" && readsHeap(e.Args) {
				// the location may have moved on by the time of the call
				w.add(t.Comp, "")
			}
		}
		return
	}
	// arguments computed inside the loop: only the component is known
	dummy := map[string]Val{}
	for k, v := range args {
		dummy[k] = v
	}
	names := paramNames(callee, con)
	for i, n := range names {
		if _, ok := dummy[n]; !ok {
			dummy[n] = Val{T: paramType(callee, i), S: "UNKNOWN!"}
		}
	}
	ev.vars = dummy
	for _, t := range fx.targets(ev, e) {
		if strings.Contains(t.Ref, "UNKNOWN!") {
			w.add(t.Comp, "")
		} else {
			w.add(t.Comp, t.Ref)
		}
	}
}

func readsHeap(es []*Expr) bool {
	for _, e := range es {
		if e != nil && (e.Op == "sel" || e.Op == "index" || e.Op == "un" && e.Name == "*" || readsHeap(e.Args)) {
			return true
		}
	}
	return false
}

func paramType(f *ssa.Function, i int) types.Type {
	if r := f.Signature.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return f.Signature.Params().At(i).Type()
}

func paramNames(f *ssa.Function, con *Contract) []string {
	var ns []string
	if r := f.Signature.Recv(); r != nil {
		n := r.Name()
		if n == "" || n == "_" {
			n = "recv"
		}
		ns = append(ns, n)
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		n := f.Signature.Params().At(i).Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		ns = append(ns, n)
	}
	return ns
}

// lookAt resolves a source variable name at a loop header.
func (fx *Fx) lookAt(l *Loop, phi map[*ssa.Phi]Val) func(string) (Val, bool) {
	return func(n string) (Val, bool) {
		return fx.lookName(l.h, n, phi)
	}
}

func (fx *Fx) lookName(h *ssa.BasicBlock, n string, phi map[*ssa.Phi]Val) (Val, bool) {
	if n == "iter" {
		if v, ok := fx.iterVar(h, phi); ok {
			return v, true
		}
	}
	if phi != nil {
		for _, p := range phis(h) {
			if p.Comment == n {
				if v, ok := phi[p]; ok {
					return v, true
				}
			}
		}
	}
	var best *dbgRef
	for i := range fx.dbg[n] {
		d := &fx.dbg[n][i]
		if d.blk == h {
			if phi != nil || fx.cur != h {
				continue
			}
		} else if !d.blk.Dominates(h) {
			continue
		}
		if _, ok := fx.vals[d.v]; !ok {
			if _, isC := d.v.(*ssa.Const); !isC {
				continue
			}
		}
		if p, ok := d.v.(*ssa.Phi); ok && p.Block() != h && !p.Block().Dominates(h) {
			continue
		}
		if best == nil || best.blk == d.blk && d.idx > best.idx || best.blk != d.blk && best.blk.Dominates(d.blk) {
			best = d
		}
	}
	// a phi for the variable in a dominating block supersedes older references
	var bestPhi *ssa.Phi
	for b := h.Idom(); b != nil; b = b.Idom() {
		for _, p := range phis(b) {
			if p.Comment == n {
				if _, ok := fx.vals[p]; ok && bestPhi == nil {
					bestPhi = p
				}
			}
		}
	}
	if bestPhi != nil && (best == nil || best.blk != bestPhi.Block() && best.blk.Dominates(bestPhi.Block())) {
		return fx.vals[bestPhi], true
	}
	if best != nil {
		v := fx.val(best.v)
		if best.addr {
			if v.LV != nil {
				if v.LV.K == lvLocal && v.LV.Comp == "" {
					return Val{T: v.LV.T, S: v.LV.Ref}, true
				}
				return Val{T: v.LV.T, LV: v.LV}, true
			}
			pt := best.v.Type().Underlying().(*types.Pointer)
			if opaqueStruct(pt.Elem()) {
				return v, true
			}
			return Val{T: pt.Elem(), LV: fx.derefLV(v, pt.Elem())}, true
		}
		return v, true
	}
	if v, ok := fx.args[n]; ok {
		return v, true
	}
	for _, fv := range fx.fn.FreeVars {
		if fv.Name() == n {
			v := fx.vals[fv]
			if v.LV != nil {
				if v.LV.K == lvLocal && v.LV.Comp == "" {
					return Val{T: v.LV.T, S: v.LV.Ref}, true
				}
				return Val{T: v.LV.T, LV: v.LV}, true
			}
			pt := fv.Type().Underlying().(*types.Pointer)
			return Val{T: pt.Elem(), LV: fx.derefLV(v, pt.Elem())}, true
		}
	}
	for _, b := range fx.fn.Blocks {
		if !b.Dominates(h) {
			continue
		}
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
				if v, ok := fx.vals[a]; ok {
					if v.LV != nil {
						if v.LV.K == lvLocal && v.LV.Comp == "" {
							return Val{T: v.LV.T, S: v.LV.Ref}, true
						}
						return Val{T: v.LV.T, LV: v.LV}, true
					}
					pt := a.Type().Underlying().(*types.Pointer)
					if opaqueStruct(pt.Elem()) {
						return v, true
					}
					return Val{T: pt.Elem(), LV: fx.derefLV(v, pt.Elem())}, true
				}
			}
		}
	}
	if fx.up != nil {
		return fx.up.lookName(fx.upBlk, n, nil)
	}
	if g, ok := fx.v.ghosts()[n]; ok {
		return g, true
	}
	return Val{}, false
}

func (v *VC) ghosts() map[string]Val {
	m := map[string]Val{}
	if v.con != nil {
		for _, g := range v.con.Ghosts {
			t := v.u.specType(g.Type)
			m[g.Name] = Val{T: t, S: "ghost_" + g.Name}
		}
	}
	return m
}

// iterVar: number of completed iterations (or string position) of a counting loop.
func (fx *Fx) iterVar(h *ssa.BasicBlock, phi map[*ssa.Phi]Val) (Val, bool) {
	for _, p := range phis(h) {
		if p.Comment == "rangeindex" {
			return Val{T: tInt, S: "(+ " + phi[p].S + " 1)"}, true
		}
	}
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok && nx.IsString {
			c := fmt.Sprintf("IT!%d_%s", fx.id, nx.Iter.Name())
			return Val{T: tInt, LV: &LV{K: lvLocal, Comp: c, T: tInt}}, true
		}
	}
	var found *ssa.Phi
	for _, p := range phis(h) {
		if !isIntT(p.Type()) {
			continue
		}
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == p {
				if c, ok := b.Y.(*ssa.Const); ok && c.Int64() == 1 {
					if found == nil {
						found = p
					}
				}
			}
		}
	}
	if found != nil {
		return phi[found], true
	}
	return Val{}, false
}

func (fx *Fx) evalIn(l *Loop, phi map[*ssa.Phi]Val, st State) *Eval {
	v := fx.v
	return &Eval{u: v.u, fx: fx, st: st, old: v.entry, oldLook: v.look0, look: fx.lookAt(l, phi),
		loopSt: l.pre, loopLk: fx.lookAt(l, l.phiPre), vars: map[string]Val{}}
}

// try evaluates, reporting unresolved names as failure.
func try(f func() string) (s string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unresolved:
				s, ok = "unresolved "+x.name, false
			default:
				panic(x)
			}
		}
	}()
	return f(), true
}

func (fx *Fx) loopHead(l *Loop, pre map[*ssa.Phi]Val) {
	v := fx.v
	l.phiPre = pre
	l.pre = fx.st.clone()
	l.preReach = fx.reach
	l.allocPre = fx.st["alloc"]
	v.headers = append(v.headers, fx.reach)
	// what the loop may write
	w := wset{}
	r := &renv{fx: fx, fn: fx.fn, body: l.body, phi: pre, st: l.pre, scan: true}
	var blocks []*ssa.BasicBlock
	for b := range l.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			r.scanInstr(w, in, map[*ssa.Function]bool{fx.fn: true})
		}
	}
	fx.lockWrites(w, blocks)
	// havoc
	st := fx.st.clone()
	alloc := v.fresh("alloc", "Int")
	v.assert(fmt.Sprintf("(>= %s %s)", alloc, l.allocPre))
	st["alloc"] = alloc
	l.targets = map[string][]string{}
	l.unk = map[string]bool{}
	l.frameA, l.frameB = map[string]*Cand{}, map[string]*Cand{}
	for _, c := range sortedKeys(w) {
		x := w[c]
		srt, known := v.sorts[c]
		if !known {
			// cells and iterators created inside the loop
			continue
		}
		if !v.keyed[c] {
			n := v.fresh(c, srt)
			st[c] = n
			if strings.HasPrefix(c, "L!") {
				if t := fx.cellType(c); t != nil {
					v.assume(fx.reach, fx.wf(t, n, alloc))
				}
			}
			if strings.HasPrefix(c, "IT!") {
				// an iterator stays inside its string
				for _, b := range fx.fn.Blocks {
					for _, in := range b.Instrs {
						if rg, ok := in.(*ssa.Range); ok && fmt.Sprintf("IT!%d_%s", fx.id, rg.Name()) == c {
							if sv, ok := fx.vals[rg]; ok {
								v.assume(fx.reach, fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)))", n, n, sv.S))
							}
						}
					}
				}
			}
			continue
		}
		var refs []string
		for _, rr := range x.refs {
			refs = append(refs, v.name2("tgt", "Int", rr))
		}
		if x.unk {
			l.unk[c] = true
		}
		l.targets[c] = append(l.targets[c], x.refs...)
		l.targets[c] = append(l.targets[c], refs...)
		old := fx.get(l.pre, c)
		if !x.unk {
			t := old
			es := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int "), ")")
			for _, rr := range refs {
				t = fmt.Sprintf("(store %s %s %s)", t, rr, v.fresh("hv", es))
			}
			st[c] = v.name2(c, srt, t)
			continue
		}
		n := v.fresh(c, srt)
		var ne []string
		for _, rr := range refs {
			ne = append(ne, fmt.Sprintf("(not (= r %s))", rr))
		}
		// what the loop leaves alone: memory older than the loop, or at least what the contract excludes
		keep := func(c *Cand, bound string, ne []string) {
			v.assert(fmt.Sprintf("(=> %s (forall ((r Int)) (! (=> (and (< r %s) %s) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", c.Lit, bound, strings.Join(append(ne, "true"), " "), n, old, n))
		}
		l.frameA[c] = v.newCand(l.id+": writes to "+c+" stay in new memory", false)
		keep(l.frameA[c], l.allocPre, ne)
		any := false
		ne = nil
		for _, m := range v.mods {
			if m.Comp == c {
				any = any || m.Any
				ne = append(ne, fmt.Sprintf("(not (= r %s))", m.Ref))
			}
		}
		if !any {
			l.frameB[c] = v.newCand(l.id+": writes to "+c+" stay in the frame", false)
			keep(l.frameB[c], v.alloc0, ne)
		}
		st[c] = n
	}
	l.phiH = map[*ssa.Phi]Val{}
	for _, p := range phis(l.h) {
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		if pre[p].S == "" {
			unsup("address or closure carried around a loop")
		}
		if l.keeps(p) {
			l.phiH[p] = pre[p]
			fx.vals[p] = pre[p]
			continue
		}
		n := v.fresh(hint, v.u.sortOf(p.Type()))
		v.assume(fx.reach, fx.wf(p.Type(), n, alloc))
		l.phiH[p] = Val{T: p.Type(), S: n}
		fx.vals[p] = l.phiH[p]
	}
	l.stH = st
	fx.collectCands(l)
	// establish, then assume
	for _, c := range l.cands {
		cond := c.eval(pre, l.pre)
		o := v.oblige("inv-init", c.c.Name, l.preReach, cond, l.h.Instrs[0].Pos(), true)
		o.Cand = c.c
	}
	for _, c := range l.cands {
		cond := c.eval(l.phiH, st)
		v.assert(fmt.Sprintf("(=> (and %s %s) %s)", c.c.Lit, fx.reach, cond))
	}
	for _, x := range l.vcs {
		x.h = v.name2("variant", "Int", x.eval(l.phiH, st))
	}
	fx.st = st.clone()
}

// keeps: the loop hands p on as it is, p only joins values from before the loop
func (l *Loop) keeps(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{p: true}
	var same func(x ssa.Value) bool
	same = func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		q, ok := x.(*ssa.Phi)
		if !ok || !l.body[q.Block()] {
			return false
		}
		seen[q] = true
		for _, e := range q.Edges {
			if !same(e) {
				return false
			}
		}
		return true
	}
	for i, e := range p.Edges {
		if l.body[p.Block().Preds[i]] && !same(e) {
			return false
		}
	}
	return true
}

func (fx *Fx) cellType(c string) types.Type {
	for _, b := range fx.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && fmt.Sprintf("L!%d_%s_%s", fx.id, a.Name(), sanitize(a.Comment)) == c {
				return a.Type().(*types.Pointer).Elem()
			}
		}
	}
	if fx.up != nil {
		return fx.up.cellType(c)
	}
	return nil
}

func (fx *Fx) backEdge(l *Loop, reach string) {
	v := fx.v
	phi := map[*ssa.Phi]Val{}
	for _, p := range phis(l.h) {
		phi[p] = fx.phiFrom(p, fx.cur)
	}
	for _, c := range l.cands {
		cond := c.eval(phi, fx.st)
		o := v.oblige("inv-step", c.c.Name, reach, cond, l.h.Instrs[0].Pos(), true)
		o.Cand = c.c
	}
	if v.cfg.kind("term") && len(l.vcs) > 0 {
		for _, x := range l.vcs {
			b := x.eval(phi, fx.st)
			o := v.oblige("term", l.id+" decreases "+x.vc.Text, reach, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", x.h, b, x.h), l.h.Instrs[0].Pos(), true)
			o.Var = x.vc
		}
	}
}

func (v *VC) newCand(name string, user bool) *Cand {
	v.n++
	c := &Cand{Lit: fmt.Sprintf("cand!%d", v.n), Name: name, User: user}
	v.cands = append(v.cands, c)
	return c
}

func (fx *Fx) addCand(l *Loop, name string, user bool, f func(phi map[*ssa.Phi]Val, st State) string) bool {
	if s, ok := try(func() string { return f(l.phiPre, l.pre) }); !ok {
		if os.Getenv("GOVC_DROPS") == "2" {
			fmt.Fprintln(os.Stderr, l.id, name, s)
		}
		return false
	}
	if _, ok := try(func() string { return f(l.phiH, l.stH) }); !ok {
		return false
	}
	c := fx.v.newCand(l.id+": "+name, user)
	l.cands = append(l.cands, &candInst{c: c, eval: f})
	return true
}

func (fx *Fx) collectCands(l *Loop) {
	v := fx.v
	// 1. automatic ones
	for _, p := range phis(l.h) {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		switch p.Type().Underlying().(type) {
		case *types.Slice:
			init := l.phiPre[p].S
			fx.addCand(l, nm+" is new memory", false, func(phi map[*ssa.Phi]Val, st State) string {
				s := phi[p].S
				return fmt.Sprintf("(or (= (scap %s) 0) (>= (sref %s) %s))", s, s, v.alloc0)
			})
			fx.addCand(l, nm+" keeps its array or owns a fresh one", false, func(phi map[*ssa.Phi]Val, st State) string {
				s := phi[p].S
				return fmt.Sprintf("(or (= (sref %s) (sref %s)) (>= (sref %s) %s) (= (scap %s) 0))", s, init, s, l.allocPre, s)
			})
		case *types.Basic:
			if isIntT(p.Type()) {
				init := l.phiPre[p].S
				up, down := false, false
				for i, e := range p.Edges {
					if !l.body[l.h.Preds[i]] {
						continue
					}
					dirs(e, p, map[ssa.Value]bool{}, &up, &down)
				}
				if up || !down {
					fx.addCand(l, nm+" >= initial", false, func(phi map[*ssa.Phi]Val, st State) string {
						return fmt.Sprintf("(>= %s %s)", phi[p].S, init)
					})
				}
				if down || !up {
					fx.addCand(l, nm+" <= initial", false, func(phi map[*ssa.Phi]Val, st State) string {
						return fmt.Sprintf("(<= %s %s)", phi[p].S, init)
					})
				}
			}
		}
	}
	// 2. from loop conditions
	type cmp struct{ x, y ssa.Value }
	var cmps []cmp
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && isIntT(bo.X.Type()) {
			exits := !l.body[b.Succs[0]] || !l.body[b.Succs[1]]
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				if exits || b == l.h {
					cmps = append(cmps, cmp{bo.X, bo.Y})
				}
			}
		}
	}
	sort.Slice(cmps, func(i, j int) bool {
		a, b := cmps[i], cmps[j]
		return a.x.Name()+a.y.Name() < b.x.Name()+b.y.Name()
	})
	reval := func(x ssa.Value) func(phi map[*ssa.Phi]Val, st State) string {
		return func(phi map[*ssa.Phi]Val, st State) string {
			r := &renv{fx: fx, fn: fx.fn, body: l.body, phi: phi, st: st}
			s, ok := r.eval(x)
			if !ok {
				panic(unresolved{x.Name()})
			}
			return s.S
		}
	}
	for _, c := range cmps {
		for _, d := range []cmp{c, {c.y, c.x}} {
			d := d
			fx.addVar(l, fmt.Sprintf("%s - %s", d.y.Name(), d.x.Name()), func(phi map[*ssa.Phi]Val, st State) string {
				return "(- " + reval(d.y)(phi, st) + " " + reval(d.x)(phi, st) + ")"
			})
		}
		// x <= y at the header, for counters
		if _, isC := c.y.(*ssa.Const); !isC || true {
			x, y := c.x, c.y
			if bo, ok := x.(*ssa.BinOp); ok && bo.Op == token.ADD {
				if p, ok := bo.X.(*ssa.Phi); ok && p.Block() == l.h {
					fx.addCand(l, p.Comment+"+1 <= bound", false, func(phi map[*ssa.Phi]Val, st State) string {
						return fmt.Sprintf("(<= (+ %s 1) %s)", phi[p].S, reval(y)(phi, st))
					})
				}
			}
			if p, ok := x.(*ssa.Phi); ok && p.Block() == l.h {
				fx.addCand(l, p.Comment+" <= bound", false, func(phi map[*ssa.Phi]Val, st State) string {
					return fmt.Sprintf("(<= %s %s)", phi[p].S, reval(y)(phi, st))
				})
				fx.addCand(l, p.Comment+" <= bound+1", false, func(phi map[*ssa.Phi]Val, st State) string {
					return fmt.Sprintf("(<= %s (+ %s 1))", phi[p].S, reval(y)(phi, st))
				})
				fx.addCand(l, p.Comment+" >= bound-1", false, func(phi map[*ssa.Phi]Val, st State) string {
					return fmt.Sprintf("(>= %s (- %s 1))", phi[p].S, reval(y)(phi, st))
				})
			}
		}
	}
	// 3. iterators
	for _, in := range l.h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if nx.IsString {
				c := fmt.Sprintf("IT!%d_%s", fx.id, nx.Iter.Name())
				s := fx.val(nx.Iter).S
				fx.addVar(l, "len - position of range", func(phi map[*ssa.Phi]Val, st State) string {
					return fmt.Sprintf("(- (slen %s) %s)", s, fx.get(st, c))
				})
			} else {
				l.vcs = nil
			}
		}
	}
	// 4. type invariants and variants of pointers in scope
	for _, ti := range v.S.TypeInvs {
		if !v.u.tagOn(ti.Tags) {
			continue
		}
		want := v.u.specType(ti.Type)
		for _, x := range fx.pointersIn(l, want) {
			x := x
			ti := ti
			f := func(phi map[*ssa.Phi]Val, st State) string {
				ev := fx.evalIn(l, phi, st)
				xv := x.v
				if p, ok := x.ssa.(*ssa.Phi); ok {
					if pv, ok := phi[p]; ok {
						xv = pv
					}
				}
				return ev.with(ti.Var, xv).eval(ti.E).S
			}
			if ti.Variant {
				fx.addVar(l, ti.E.String()+" of "+x.name, f)
			} else {
				fx.addCand(l, ti.E.String()+" for "+x.name, false, f)
			}
		}
	}
	// 5. from the contract
	con := v.con
	var cons []*Contract
	if con != nil {
		cons = append(cons, con)
	}
	if c2 := v.S.Contracts[v.P.Names[fx.fn]]; c2 != nil && c2 != con {
		cons = append(cons, c2)
	}
	for _, con := range cons {
		for _, inv := range con.Invs {
			if !v.u.tagOn(inv.Tags) {
				continue
			}
			inv := inv
			if inv.Bind != nil {
				fx.bindCands(l, inv, nil)
				continue
			}
			fx.addCand(l, inv.Text, true, func(phi map[*ssa.Phi]Val, st State) string {
				return fx.foldAt(l, phi, inv, fx.evalIn(l, phi, st)).eval(inv.E).S
			})
		}
		for _, vr := range con.Variants {
			if !v.u.tagOn(vr.Tags) {
				continue
			}
			vr := vr
			fx.addVar(l, vr.Text, func(phi map[*ssa.Phi]Val, st State) string {
				return fx.evalIn(l, phi, st).eval(vr.E).S
			})
		}
	}
	// lock state is preserved by a loop
	for _, m := range v.S.Guards {
		m := m
		if _, ok := v.sorts["Lock_"+m]; ok {
			fx.addCand(l, "lock state of "+m+" unchanged", false, func(phi map[*ssa.Phi]Val, st State) string {
				return fmt.Sprintf("(= %s %s)", fx.get(st, "Lock_"+m), fx.get(l.pre, "Lock_"+m))
			})
		}
	}
	isMapRange := false
	for _, in := range l.h.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			isMapRange = true
		}
	}
	if isMapRange {
		l.vcs = nil
		delete(v.vars, fmt.Sprintf("%s@%d", l.id, fx.id))
		return
	}
	if len(l.vcs) == 0 && v.cfg.kind("term") && con != nil && con.LoopTerm != "" {
		v.trust["termination of a loop in "+v.name+": "+con.LoopTerm] = true
		return
	}
	if len(l.vcs) == 0 && v.cfg.kind("term") {
		v.oblige("term", l.id+": no variant found", fx.reach, "false", l.h.Instrs[0].Pos(), true)
	}
}

func dirs(e ssa.Value, p *ssa.Phi, seen map[ssa.Value]bool, up, down *bool) {
	if seen[e] || e == ssa.Value(p) {
		return
	}
	seen[e] = true
	switch e := e.(type) {
	case *ssa.BinOp:
		if e.Op == token.ADD {
			*up = true
		} else if e.Op == token.SUB {
			*down = true
		}
		dirs(e.X, p, seen, up, down)
	case *ssa.Phi:
		for _, x := range e.Edges {
			dirs(x, p, seen, up, down)
		}
	case *ssa.Const:
		*up, *down = true, true
	default:
		*up, *down = true, true
	}
}

func (fx *Fx) addVar(l *Loop, text string, f func(phi map[*ssa.Phi]Val, st State) string) {
	if !fx.v.cfg.kind("term") {
		return
	}
	if _, ok := try(func() string { return f(l.phiPre, l.pre) }); !ok {
		return
	}
	if _, ok := try(func() string { return f(l.phiH, l.stH) }); !ok {
		return
	}
	vc := &VarCand{Loop: l.id, Text: text}
	key := fmt.Sprintf("%s@%d", l.id, fx.id)
	vc.Loop = key
	fx.v.vars[key] = append(fx.v.vars[key], vc)
	l.vcs = append(l.vcs, &varInst{vc: vc, eval: f})
}

type ptrIn struct {
	name string
	v    Val
	ssa  ssa.Value
}

// pointersIn lists the pointer values of a type available at a loop header.
// bindCands instantiates an invariant for all combinations of variables of the types it names.
func (fx *Fx) bindCands(l *Loop, inv Clause, xs []ptrIn) {
	if inv.NoIter {
		if _, ok := fx.iterVar(l.h, l.phiH); ok {
			return
		}
	}
	if len(xs) < len(inv.Bind) {
		tn, only := strings.CutPrefix(inv.Bind[len(xs)][1], "var ") // var T: changed by this loop or one around it
		for _, x := range fx.pointersIn(l, fx.v.u.specType(tn)) {
			if _, ok := x.ssa.(*ssa.Alloc); only && ok && x.v.LV != nil {
			} else if p, ok := x.ssa.(*ssa.Phi); only && (!ok || fx.loops[p.Block()] == nil || !fx.loops[p.Block()].body[l.h]) {
				continue
			}
			dup := false
			for _, y := range xs {
				dup = dup || y.ssa == x.ssa
			}
			if !dup {
				fx.bindCands(l, inv, append(xs[:len(xs):len(xs)], x))
			}
		}
		return
	}
	var ns []string
	for _, x := range xs {
		ns = append(ns, x.name)
	}
	n := len(fx.v.cands)
	defer func() {
		if len(fx.v.cands) > n {
			fx.v.cands[n].Bind = true
		}
	}()
	fx.addCand(l, inv.Text+" for "+strings.Join(ns, ", "), false, func(phi map[*ssa.Phi]Val, st State) string {
		ev := fx.evalIn(l, phi, st)
		for i, x := range xs {
			xv := x.v
			if p, ok := x.ssa.(*ssa.Phi); ok {
				if pv, ok := phi[p]; ok {
					xv = pv
				}
				if p.Comment == "rangeindex" { // the number of completed iterations, as in a counting loop
					xv = Val{T: xv.T, S: "(+ " + xv.S + " 1)"}
				}
			}
			if xv.LV != nil {
				xv = fx.loadLV(xv.LV, st)
			}
			ev = ev.with(inv.Bind[i][0], xv)
		}
		return fx.foldAt(l, phi, inv, ev).eval(inv.E).S
	})
}

// foldAt: a folded invariant is assumed (at the loop header) without unfolding definitions and proved with it.
func (fx *Fx) foldAt(l *Loop, phi map[*ssa.Phi]Val, inv Clause, ev *Eval) *Eval {
	if inv.Folded && reflect.ValueOf(phi).Pointer() == reflect.ValueOf(l.phiH).Pointer() {
		ev = ev.clone()
		ev.limAll = true
	}
	return ev
}

func (fx *Fx) pointersIn(l *Loop, t types.Type) []ptrIn {
	var out []ptrIn
	seen := map[string]bool{}
	add := func(n string, v Val, x ssa.Value) {
		if v.LV == nil {
			if v.S == "" || seen[v.S] {
				return
			}
			seen[v.S] = true
		}
		out = append(out, ptrIn{n, v, x})
	}
	for _, p := range phis(l.h) {
		if types.Identical(p.Type(), t) {
			add(p.Comment, l.phiH[p], p)
		}
	}
	for _, p := range fx.fn.Params {
		if types.Identical(p.Type(), t) {
			add(p.Name(), fx.vals[p], p)
		}
	}
	for _, b := range fx.fn.Blocks {
		if b == l.h || !b.Dominates(l.h) {
			continue
		}
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.Value); ok && types.Identical(x.Type(), t) {
				if v, ok := fx.vals[x]; ok {
					add(x.Name(), v, x)
				}
			}
			// a local variable kept in memory
			if a, ok := in.(*ssa.Alloc); ok && a.Comment != "complit" && types.Identical(a.Type().Underlying().(*types.Pointer).Elem(), t) {
				if _, isStruct := t.Underlying().(*types.Struct); isStruct {
					if v, ok := fx.vals[a]; ok && v.LV != nil && v.LV.Comp != "" {
						add(a.Comment, Val{T: t, LV: v.LV}, a)
					}
				}
			}
		}
	}
	if fx.up != nil {
		for _, p := range fx.up.fn.Params {
			if types.Identical(p.Type(), t) {
				add(p.Name(), fx.up.vals[p], p)
			}
		}
	}
	return out
}
