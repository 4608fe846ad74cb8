package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/filecoin-project/storetheindex"

// Prog is the type-checked, SSA-converted program under analysis.
type Prog struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // in-repo packages
	SSA    *ssa.Program
	ByPth  map[string]*ssa.Package
	Types  map[string]*types.Package // every loaded package
	Funcs  []*ssa.Function           // all in-repo functions with a body (closures included)
	fnIdx  map[string]*ssa.Function
	NFile  int
	infos  map[*ssa.Function]*fnInfo
	usedFn map[*ssa.Function]bool
	reachC map[*ssa.Function]map[*ssa.Function]bool
	wrapC  map[*ssa.Function]bool
}

func Load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: token.NewFileSet(),
		Env:  os.Environ(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			inRepo := strings.HasPrefix(filename, repo+string(filepath.Separator))
			if inRepo {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !inRepo {
				// Dependencies are needed for their declarations only.
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, Fset: cfg.Fset, ByPth: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, fnIdx: map[string]*ssa.Function{}, infos: map[*ssa.Function]*fnInfo{}}
	var errs []string
	prog := ssa.NewProgram(cfg.Fset, ssa.InstantiateGenerics)
	p.SSA = prog
	var order []*packages.Package
	packages.Visit(pkgs, nil, func(pk *packages.Package) { order = append(order, pk) })
	for _, pk := range order {
		if pk.Types == nil {
			continue
		}
		p.Types[pk.PkgPath] = pk.Types
		if inModule(pk.PkgPath) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
			p.Pkgs = append(p.Pkgs, pk)
			p.NFile += len(pk.Syntax)
			p.ByPth[pk.PkgPath] = prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type errors in %s: %s", repo, strings.Join(errs, "; "))
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, repo)
	}
	prog.Build()
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.InRepo(f) {
			p.Funcs = append(p.Funcs, f)
			p.fnIdx[f.String()] = f
		}
	}
	// Methods of types that are never converted to interfaces are not in
	// AllFunctions: add every declared function and its closures.
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if _, ok := p.fnIdx[f.String()]; !ok {
			p.fnIdx[f.String()] = f
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Pkgs {
		sp := p.ByPth[pk.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func fnPkgPath(f *ssa.Function) string {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		return ""
	}
	return ""
}

// InRepo reports whether f belongs to the repository's module.
func (p *Prog) InRepo(f *ssa.Function) bool { return inModule(fnPkgPath(f)) }

// Pkg returns an in-repo SSA package by path relative to the module.
func (p *Prog) Pkg(rel string) *ssa.Package { return p.ByPth[modPath+"/"+rel] }

// Func finds a package-level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	if pk := p.Pkg(rel); pk != nil {
		return pk.Func(name)
	}
	return nil
}

// Method finds a method declared on a named type (value or pointer receiver).
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	t := pk.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		sel := p.SSA.MethodSets.MethodSet(ty).Lookup(pk.Pkg, name)
		if sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
			if f != nil {
				if o, ok := sel.Obj().(*types.Func); ok {
					if d := p.SSA.FuncValue(o); d != nil && d.Blocks != nil {
						return d
					}
				}
			}
		}
	}
	return nil
}

// Methods lists all declared methods of a named type.
func (p *Prog) Methods(rel, typ string) []*ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil || pk.Type(typ) == nil {
		return nil
	}
	n, ok := pk.Type(typ).Type().(*types.Named)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

// PkgFuncs lists every function with a body (closures and methods included)
// of the in-repo packages with one of the given relative paths.
func (p *Prog) PkgFuncs(rels ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, r := range rels {
		want[modPath+"/"+r] = true
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if want[fnPkgPath(f)] {
			out = append(out, f)
		}
	}
	return out
}

// Loc renders a position relative to the repository.
func (p *Prog) Loc(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Prog) instrLoc(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	pos := i.Pos()
	if !pos.IsValid() {
		if b := i.Block(); b != nil {
			for _, x := range b.Instrs {
				if x.Pos().IsValid() {
					pos = x.Pos()
					break
				}
			}
		}
	}
	if !pos.IsValid() && i.Parent() != nil {
		pos = i.Parent().Pos()
	}
	return p.Loc(pos)
}

// shortFn renders a function name without the module prefix.
func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}
