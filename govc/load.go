package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/netascode/xmldot"

// Program is the real source of the repository in SSA form.
type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path
	Funcs map[string]*ssa.Function
	Names map[*ssa.Function]string
	Src   map[string][]byte

	Renamed []string // names mapped back to those the contracts use
	table   *nameTable

	callees map[*ssa.Function]map[*ssa.Function]bool
	mayLock map[*ssa.Function]bool
	mutexes []string
	repl    map[token.Pos][]string // constant arguments of strings.NewReplacer calls
	replOf  map[ssa.Value]string   // global or call -> name of its table
}

type repoImporter struct {
	std  types.Importer
	repo string
	l    *loader
}

type loader struct {
	fset  *token.FileSet
	repo  string
	std   types.Importer
	types map[string]*types.Package
	files map[string][]*ast.File
	infos map[string]*types.Info
	src   map[string][]byte
	old   map[string][]*ast.File // parsed before, with names mapped back
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return l.load(path)
	}
	return l.std.Import(path)
}

func (l *loader) load(path string) (*types.Package, error) {
	if p, ok := l.types[path]; ok {
		return p, nil
	}
	dir := filepath.Join(l.repo, strings.TrimPrefix(path, modPath))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	files := l.old[path]
	if files != nil {
		names = nil
	}
	for _, n := range names {
		fn := filepath.Join(dir, n)
		b, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(l.fset, fn, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		if skipByBuildTag(f) {
			continue
		}
		l.src[fn] = b
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", "amd64")}
	pkg, err := conf.Check(path, l.fset, files, info)
	if err != nil {
		return nil, err
	}
	l.types[path] = pkg
	l.files[path] = files
	l.infos[path] = info
	return pkg, nil
}

func skipByBuildTag(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:build "))
				if t == "ignore" || t == "verif" || strings.HasPrefix(t, "go1.") == false {
					return true
				}
			}
		}
	}
	return false
}

func loadProgram(repo, specs string) (*Program, error) {
	fset := token.NewFileSet()
	l := &loader{fset: fset, repo: repo, std: importer.ForCompiler(fset, "source", nil), types: map[string]*types.Package{},
		files: map[string][]*ast.File{}, infos: map[string]*types.Info{}, src: map[string][]byte{}}
	if _, err := l.load(modPath); err != nil {
		return nil, err
	}
	table := l.names()
	var renamed []string
	if t := readNames(filepath.Join(specs, "names.json")); t != nil {
		m, log := l.renames(t)
		if len(m) > 0 {
			l.applyNames(m)
			l.old, l.types = l.files, map[string]*types.Package{}
			l.files, l.infos = map[string][]*ast.File{}, map[string]*types.Info{}
			renamed = log
			if _, err := l.load(modPath); err != nil {
				// an old name has another use now: take the source as it is
				l.old, l.types, renamed = nil, map[string]*types.Package{}, nil
				l.files, l.infos = map[string][]*ast.File{}, map[string]*types.Info{}
				if _, err := l.load(modPath); err != nil {
					return nil, err
				}
			}
		}
	}
	// every package of the module that has non-test Go files is loaded through imports; others are examples
	prog := ssa.NewProgram(fset, ssa.GlobalDebug|ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if seen[p] {
				continue
			}
			seen[p] = true
			create(p.Imports())
			if _, ours := l.files[p.Path()]; !ours {
				prog.CreatePackage(p, nil, nil, true)
			}
		}
	}
	var order []string
	for p := range l.files {
		order = append(order, p)
	}
	sort.Strings(order)
	for _, p := range order {
		create([]*types.Package{l.types[p]})
	}
	P := &Program{Fset: fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, Names: map[*ssa.Function]string{}, Src: l.src, Renamed: renamed, table: table}
	for _, p := range order {
		P.Pkgs[p] = prog.CreatePackage(l.types[p], l.files[p], l.infos[p], false)
		P.scanReplacers(l.files[p], l.infos[p])
	}
	for _, p := range order {
		P.Pkgs[p].Build()
	}
	for _, p := range order {
		sp := P.Pkgs[p]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							P.add(f)
						}
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) add(f *ssa.Function) {
	n := funcName(f)
	P.Funcs[n] = f
	P.Names[f] = n
	for _, a := range f.AnonFuncs {
		P.add(a)
	}
}

// funcName gives the short name contracts are keyed by: "Get", "(*xmlParser).peek", "pattern.Match".
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pre := ""
	if f.Pkg != nil && f.Pkg.Pkg.Path() != modPath {
		pre = f.Pkg.Pkg.Name() + "."
		if f.Pkg.Pkg.Path() != modPath+"/internal/"+f.Pkg.Pkg.Name() {
			pre = f.Pkg.Pkg.Path() + "."
		}
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		name := types.TypeString(t, func(*types.Package) string { return "" })
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
			name = types.TypeString(t, func(p *types.Package) string { return p.Path() })
			pre = ""
		}
		return fmt.Sprintf("%s(%s%s).%s", pre, star, name, f.Name())
	}
	return pre + f.Name()
}
