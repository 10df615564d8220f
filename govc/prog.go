package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  []*ssa.Package
	TPkgs map[string]*types.Package // short name -> package
	Specs *SpecFile
	Funcs map[string]*ssa.Function // key -> function with body in the repository
	gids  map[*ssa.Global]int
	ginit map[*ssa.Global]*ginfo
	repo  string
	mu    sync.Mutex
}

type ginfo struct {
	kind string // zero | const | mut
	val  ssa.Value
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	ps, err := packages.Load(cfg, ".", "./builder", "./server", "./internal/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{Fset: prog.Fset, Prog: prog, Pkgs: sp, TPkgs: map[string]*types.Package{}, Funcs: map[string]*ssa.Function{}, gids: map[*ssa.Global]int{}, ginit: map[*ssa.Global]*ginfo{}, repo: dir}
	var visit func(t *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		k := shortPkg(t)
		if old, ok := p.TPkgs[k]; !ok || len(t.Path()) < len(old.Path()) {
			p.TPkgs[k] = t
		}
		for _, i := range t.Imports() {
			visit(i)
		}
	}
	repoPkg := map[*ssa.Package]bool{}
	for i, q := range ps {
		visit(q.Types)
		repoPkg[sp[i]] = true
	}
	for i, q := range ps {
		_ = i
		p.TPkgs[shortPkg(q.Types)] = q.Types
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg != nil && repoPkg[f.Pkg] && len(f.Blocks) > 0 && f.Parent() == nil && f.Synthetic == "" {
			p.Funcs[funcKey(f)] = f
		}
	}
	// global initialisers
	var gs []*ssa.Global
	for _, s := range sp {
		for _, m := range s.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for i, g := range gs {
		p.gids[g] = i + 1
		p.ginit[g] = &ginfo{kind: "zero"}
	}
	for f := range all {
		if f.Pkg == nil || !repoPkg[f.Pkg] {
			continue
		}
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && p.ginit[g] != nil {
						if isInit && p.ginit[g].kind == "zero" {
							p.ginit[g] = &ginfo{kind: "const", val: st.Val}
						} else {
							p.ginit[g] = &ginfo{kind: "mut"}
						}
						continue
					}
				}
				// address taken or component stores
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || p.ginit[g] == nil {
						continue
					}
					switch y := ins.(type) {
					case *ssa.UnOp:
						if y.Op == token.MUL {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					if len(g.Name()) > 4 && g.Name() == "init$guard" {
						continue
					}
					p.ginit[g] = &ginfo{kind: "mut"}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) globalID(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n, ok := p.gids[g]; ok {
		return n
	}
	n := len(p.gids) + 1
	p.gids[g] = n
	return n
}

func (p *Program) globalInit(g *ssa.Global) (string, ssa.Value) {
	if gi, ok := p.ginit[g]; ok {
		return gi.kind, gi.val
	}
	return "const", nil // globals of other packages are treated as constants
}

func (p *Program) globalByName(n string, pkg *types.Package) (*ssa.Global, bool) {
	for _, s := range p.Pkgs {
		if g, ok := s.Members[n].(*ssa.Global); ok && (pkg == nil || s.Pkg == pkg || shortPkg(s.Pkg) == "jsval") {
			return g, true
		}
	}
	return nil, false
}

func (p *Program) findType(pkg, name string) types.Type {
	t, ok := p.TPkgs[pkg]
	if !ok {
		panic(specErr{"unknown package " + pkg})
	}
	o := t.Scope().Lookup(name)
	if o == nil {
		panic(specErr{"unknown type " + pkg + "." + name})
	}
	return o.Type()
}

func (p *Program) contractPkg(c *Contract) *types.Package {
	n := strings.TrimLeft(c.Name, "(*")
	if i := strings.Index(n, "."); i > 0 {
		return p.TPkgs[n[:i]]
	}
	return nil
}

func (p *Program) ifaceContract(t types.Type, m *types.Func) (*Contract, string) {
	key := ifaceKey(t, m)
	it, ok := t.Underlying().(*types.Interface)
	if ok {
		for i := 0; i < it.NumEmbeddeds(); i++ {
			k := ifaceKey(it.EmbeddedType(i), m)
			if c := p.Specs.Contracts[k]; c != nil {
				return c, k
			}
		}
	}
	return nil, key
}
