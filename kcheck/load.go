package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sa6mwa/krypto431"

// Program is the loaded, type-checked module together with its SSA form.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package          // packages of the module
	ByPth map[string]*packages.Package // by import path
	SSA   *ssa.Program
	SPkg  map[string]*ssa.Package
	Funcs []*ssa.Function // every source function of the module, closures included
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e
		if i := strings.IndexByte(e, '='); i >= 0 {
			k = e[:i]
		}
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOOS", "GOARCH", "GOWORK", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GOSUMDB=off")
	return append(env, extra...)
}

// Load type-checks every package of the module in dir and builds SSA for it.
func Load(dir string, goos, arch string) (*Program, error) {
	extra := []string{}
	if goos != "" {
		extra = append(extra, "GOOS="+goos, "GOARCH="+arch)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedExportFile,
		Dir: dir,
		Env: goEnv(extra...),
	}
	// Syntax is only wanted for the module itself; dependencies come in as
	// export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: pkgs[0].Fset, Pkgs: pkgs, SSA: prog,
		ByPth: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	for i, pk := range pkgs {
		p.ByPth[pk.PkgPath] = pk
		p.SPkg[pk.PkgPath] = spkgs[i]
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.SPkg[modPath]
	}
	return p.SPkg[modPath+"/"+rel]
}

func (p *Program) TPkg(rel string) *packages.Package {
	if rel == "" {
		return p.ByPth[modPath]
	}
	return p.ByPth[modPath+"/"+rel]
}

// Func finds a package-level function, or a method as "T.M" / "*T.M" (the
// receiver kind does not matter for the lookup).
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := strings.TrimPrefix(name[:i], "*"), name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return p.SSA.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Struct returns the named struct type of the package.
func (p *Program) Struct(rel, name string) (*types.Named, *types.Struct) {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil, nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil, nil
	}
	n, _ := t.Type().(*types.Named)
	if n == nil {
		return nil, nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func fieldIndex(s *types.Struct, name string) int {
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.Dir+"/"), q.Line)
}

// InModule tells whether a function's source belongs to the analysed module.
func (p *Program) InModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func inModulePkg(pk *types.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

// Files iterates over all syntax files of the module.
func (p *Program) Files(f func(pkgPath string, file *ast.File)) {
	for _, pk := range p.Pkgs {
		for _, fl := range pk.Syntax {
			f(pk.PkgPath, fl)
		}
	}
}
