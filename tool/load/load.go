// Package load builds the type-checked program and SSA form of /repo's current working tree.
package load

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Module is the import path prefix of the analysed module.
const Module = "github.com/GottfriedHerold/Bandersnatch"

// Program is the loaded module.
type Program struct {
	Root   string
	Tags   string
	Fset   *token.FileSet
	Pkgs   map[string]*packages.Package // by import path
	Repo   []*packages.Package          // packages of the module, sorted
	SSA    *ssa.Program
	SPkgs  map[string]*ssa.Package
	Broken map[string][]packages.Error // packages with errors
}

// Load loads every package below root (tags: build tags, may be empty).
func Load(root, tags string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: env, Fset: fset}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, Tags: tags, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, Broken: map[string][]packages.Error{}}
	packages.Visit(pk, nil, func(q *packages.Package) {
		p.Pkgs[q.PkgPath] = q
		if len(q.Errors) > 0 {
			p.Broken[q.PkgPath] = q.Errors
		}
	})
	p.Repo = append(p.Repo, pk...)
	sort.Slice(p.Repo, func(i, j int) bool { return p.Repo[i].PkgPath < p.Repo[j].PkgPath })
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	created := map[*packages.Package]bool{}
	var bad = func(q *packages.Package) bool { return q.Types == nil || q.IllTyped }
	packages.Visit(pk, nil, func(q *packages.Package) {
		if created[q] {
			return
		}
		created[q] = true
		if bad(q) {
			return
		}
		sp := prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
		p.SPkgs[q.PkgPath] = sp
	})
	p.SSA = prog
	for path, sp := range p.SPkgs {
		if strings.HasPrefix(path, Module) {
			sp.Build()
		}
	}
	if len(p.Repo) == 0 {
		return nil, fmt.Errorf("no packages found under %s", root)
	}
	return p, nil
}

// Rel makes a position relative to the repository root.
func (p *Program) Rel(pos token.Pos) string {
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return q.String()
}

// Path expands a short package path.
func Path(short string) string {
	if short == "" {
		return Module
	}
	if strings.HasPrefix(short, Module) {
		return short
	}
	return Module + "/" + short
}

// Func finds a function or method: "Name" or "T.Name" (receiver value or pointer).
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[Path(pkg)]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := sp.Pkg.Scope().Lookup(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := types.NewMethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				f := ms.At(k).Obj().(*types.Func)
				if f.Name() == name[i+1:] {
					if fn := p.SSA.FuncValue(f); fn != nil {
						return fn
					}
					return p.SSA.MethodValue(ms.At(k))
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Global finds a package-level variable.
func (p *Program) Global(pkg, name string) *ssa.Global {
	sp := p.SPkgs[Path(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Var(name)
}

// Type finds a named type.
func (p *Program) Type(pkg, name string) types.Type {
	sp := p.SPkgs[Path(pkg)]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Functions lists every function of the module that has source (methods, literals and initialisers included;
// generic functions once, in their generic form), in a fixed order.
func (p *Program) Functions() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.Repo {
		sp := p.SPkgs[q.PkgPath]
		if sp == nil {
			continue
		}
		var fs []*types.Func
		for _, o := range q.TypesInfo.Defs {
			if f, ok := o.(*types.Func); ok {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
		for _, f := range fs {
			add(p.SSA.FuncValue(f))
		}
		add(sp.Func("init"))
	}
	return out
}

// Instance returns the SSA form of a generic function of the module for the given type arguments (nil when they do not fit).
func (p *Program) Instance(fn *ssa.Function, targs ...types.Type) *ssa.Function {
	if fn == nil || fn.Package() == nil || fn.Object() == nil {
		return nil
	}
	pkg := types.NewPackage(fmt.Sprintf("verif/instance%d", len(p.SSA.AllPackages())), "w")
	var names []string
	for i, t := range targs {
		n := fmt.Sprintf("T%d", i)
		names = append(names, n)
		pkg.Scope().Insert(types.NewTypeName(token.NoPos, pkg, n, t))
	}
	src := fmt.Sprintf("package w\nimport g %q\nvar F = g.%s[%s]\n", fn.Package().Pkg.Path(), fn.Name(), strings.Join(names, ","))
	f, err := parser.ParseFile(p.Fset, "instance.go", src, 0)
	if err != nil {
		return nil
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	conf := &types.Config{Importer: fixedImporter{fn.Package().Pkg}}
	if types.NewChecker(conf, p.Fset, pkg, info).Files([]*ast.File{f}) != nil {
		return nil
	}
	sp := p.SSA.CreatePackage(pkg, []*ast.File{f}, info, false)
	sp.Build()
	for _, b := range sp.Func("init").Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Function); ok && g.Origin() == fn {
					return g
				}
			}
		}
	}
	return nil
}

type fixedImporter struct{ pkg *types.Package }

func (i fixedImporter) Import(path string) (*types.Package, error) { return i.pkg, nil }
