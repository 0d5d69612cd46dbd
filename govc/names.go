package main

import (
	"encoding/json"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
)

// nameTable records the names the contracts were written against. Contracts speak of unexported functions, parameters
// and fields by name; one that was renamed since is renamed back in the syntax tree before it is translated, provided
// that the old name is free. Types, positions and everything else of the tree stay as they are in the source.
type nameTable struct {
	Funcs   map[string]nameFunc `json:"funcs"`
	Structs map[string][]string `json:"structs"` // "name type" per field
}

type nameFunc struct {
	Sig    string   `json:"sig"`
	Params []string `json:"params"` // parameters and results
	Locals []string `json:"locals"` // "name type", in order of first declaration
	After  string   `json:"after"`  // the function before it in the file
}

type declInfo struct {
	nameFunc
	decl *ast.FuncDecl
	obj  *types.Func
	vars []*types.Var
	locs map[string][]*types.Var // by "name type"
}

func (x *declInfo) locals(info *types.Info) {
	x.locs = map[string][]*types.Var{}
	if x.decl.Body == nil {
		return
	}
	ast.Inspect(x.decl.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Defs[id].(*types.Var)
		if !ok || v.IsField() || id.Name == "_" {
			return true
		}
		k := id.Name + " " + types.TypeString(v.Type(), bare)
		if x.locs[k] == nil {
			x.Locals = append(x.Locals, k)
		}
		x.locs[k] = append(x.locs[k], v)
		return true
	})
}

func bare(*types.Package) string { return "" }

func (l *loader) decls() (map[string]*declInfo, map[string]*types.TypeName) {
	fs, ts := map[string]*declInfo{}, map[string]*types.TypeName{}
	for path, files := range l.files {
		info := l.infos[path]
		pre := ""
		if path != modPath {
			pre = path + "."
		}
		for _, f := range files {
			after := ""
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o, _ := info.Defs[fd.Name].(*types.Func)
				if o == nil || fd.Name.Name == "init" || fd.Name.Name == "_" {
					continue
				}
				sig := o.Type().(*types.Signature)
				x := &declInfo{decl: fd, obj: o}
				key := pre + fd.Name.Name
				var ty []string
				if r := sig.Recv(); r != nil {
					t := types.TypeString(r.Type(), bare)
					key = pre + "(" + t + ")." + fd.Name.Name
					ty = append(ty, t, "|")
					x.vars = append(x.vars, r)
				}
				for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
					for i := 0; i < tup.Len(); i++ {
						ty = append(ty, types.TypeString(tup.At(i).Type(), bare))
						x.vars = append(x.vars, tup.At(i))
					}
					ty = append(ty, "|")
				}
				for _, v := range x.vars {
					x.Params = append(x.Params, v.Name())
				}
				x.locals(info)
				x.Sig = pre + strings.Join(ty, " ")
				x.After = after
				after = key
				fs[key] = x
			}
		}
		sc := l.types[path].Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if _, ok := tn.Type().Underlying().(*types.Struct); ok {
					ts[pre+n] = tn
				}
			}
		}
	}
	return fs, ts
}

func fieldTexts(tn *types.TypeName) []string {
	st := tn.Type().Underlying().(*types.Struct)
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name()+" "+types.TypeString(st.Field(i).Type(), bare))
	}
	return out
}

func (l *loader) names() *nameTable {
	t := &nameTable{map[string]nameFunc{}, map[string][]string{}}
	fs, ts := l.decls()
	for n, f := range fs {
		t.Funcs[n] = f.nameFunc
	}
	for n, tn := range ts {
		t.Structs[n] = fieldTexts(tn)
	}
	return t
}

func readNames(file string) *nameTable {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	t := &nameTable{}
	if json.Unmarshal(b, t) != nil {
		return nil
	}
	return t
}

// renames finds what was renamed: object -> name in the table. used says whether a name occurs in a tree.
func (l *loader) renames(t *nameTable) (map[types.Object]string, []string) {
	m := map[types.Object]string{}
	var log []string
	fs, ts := l.decls()
	all := map[string]bool{}
	for _, files := range l.files {
		for _, f := range files {
			idents(f, all)
		}
	}
	// functions
	var gone []string
	for n := range t.Funcs {
		if fs[n] == nil {
			gone = append(gone, n)
		}
	}
	sort.Strings(gone)
	was := map[*declInfo]nameFunc{}
	for n, f := range fs {
		if x, ok := t.Funcs[n]; ok {
			was[f] = x
		}
	}
	for _, n := range gone {
		old := n[strings.LastIndex(n, ".")+1:]
		if ast.IsExported(old) || all[old] && !strings.Contains(n, ")") {
			continue
		}
		var cand, near []*declInfo
		for k, f := range fs {
			if _, known := t.Funcs[k]; !known && f.Sig == t.Funcs[n].Sig && m[f.obj] == "" {
				cand = append(cand, f)
				if f.After == t.Funcs[n].After {
					near = append(near, f)
				}
			}
		}
		if len(cand) > 1 {
			cand = near
		}
		if len(cand) == 1 {
			m[cand[0].obj] = old
			was[cand[0]] = t.Funcs[n]
			log = append(log, "function "+cand[0].obj.Name()+" was "+old)
		}
	}
	// one old name for one new name in a function, so that no two variables fall together
	into := map[*declInfo]map[string]string{}
	for f := range was {
		into[f] = map[string]string{}
	}
	// parameters and results
	for f, x := range was {
		if x.Sig != f.Sig {
			continue
		}
		have, had, occurs := map[string]bool{}, map[string]bool{}, map[string]bool{}
		for i := range f.Params {
			have[f.Params[i]], had[x.Params[i]] = true, true
		}
		idents(f.decl, occurs)
		for i, v := range f.vars {
			o, n := x.Params[i], f.Params[i]
			if o != n && o != "" && n != "" && o != "_" && n != "_" && !have[o] && !had[n] && !occurs[o] {
				m[v] = o
				into[f][o] = n
				log = append(log, f.obj.Name()+": parameter "+n+" was "+o)
			}
		}
	}
	// local variables, in order among those of one type
	for f, x := range was {
		occurs, had := map[string]bool{}, map[string]bool{}
		idents(f.decl, occurs)
		gone := map[string][]string{}
		for _, k := range x.Locals {
			a := strings.SplitN(k, " ", 2)
			had[a[0]] = true
			if !occurs[a[0]] {
				gone[a[1]] = append(gone[a[1]], a[0])
			}
		}
		for _, n := range x.Params {
			had[n] = true
		}
		for _, k := range f.Locals {
			a := strings.SplitN(k, " ", 2)
			if had[a[0]] || len(gone[a[1]]) == 0 {
				continue
			}
			o := gone[a[1]][0]
			gone[a[1]] = gone[a[1]][1:]
			if n := into[f][o]; n != "" && n != a[0] {
				continue
			}
			into[f][o] = a[0]
			for _, v := range f.locs[k] {
				m[v] = o
			}
			log = append(log, f.obj.Name()+": variable "+a[0]+" was "+o)
		}
	}
	// fields
	for k, tn := range ts {
		x := t.Structs[k]
		st := tn.Type().Underlying().(*types.Struct)
		if len(x) != st.NumFields() {
			continue
		}
		have, had := map[string]bool{}, map[string]bool{}
		for i := range x {
			have[st.Field(i).Name()] = true
			had[strings.Fields(x[i])[0]] = true
		}
		for i, now := range fieldTexts(tn) {
			a, b := strings.SplitN(x[i], " ", 2), strings.SplitN(now, " ", 2)
			f := st.Field(i)
			if a[0] != b[0] && a[1] == b[1] && !f.Exported() && !ast.IsExported(a[0]) && !f.Embedded() && !have[a[0]] && !had[b[0]] {
				m[f] = a[0]
				log = append(log, k+": field "+b[0]+" was "+a[0])
			}
		}
	}
	sort.Strings(log)
	return m, log
}

func idents(n ast.Node, m map[string]bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
}

// applyNames renames in place and forgets the type information, which no longer fits.
func (l *loader) applyNames(m map[types.Object]string) {
	for p := range l.files {
		info := l.infos[p]
		for id, o := range info.Defs {
			if n := m[o]; o != nil && n != "" {
				id.Name = n
			}
		}
		for id, o := range info.Uses {
			if n := m[o]; n != "" {
				id.Name = n
			}
		}
	}
}
