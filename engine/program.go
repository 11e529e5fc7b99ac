package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the shared, immutable (except for caches) representation of the code under check.
type Program struct {
	prog     *ssa.Program
	main     *ssa.Package
	byPath   map[string]*ssa.Package
	fns      sync.Map // *ssa.Function -> *CFn
	fnMu     sync.Mutex
	globIdx  map[*ssa.Global]int
	globs    []*ssa.Global
	pkgIdx   map[*ssa.Package]int
	pkgs     []*ssa.Package
	canonMu  sync.RWMutex
	canonM   typeutil.Map
	canonC   map[types.Type]types.Type
	methods  sync.Map // mkey -> *CFn
	implM    sync.Map // ikey -> bool
	replace  map[string]string
	replMu   sync.Mutex
	encoded  sync.Map // *CFn executed -> true
	repoMod  string
	harnPath string
	rtErrT   types.Type
	sizes    types.Sizes
}

type mkey struct {
	t  types.Type
	id string
}
type ikey struct {
	t types.Type
	i types.Type
}

func loadProgram(dir string, overlay map[string][]byte, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     env,
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, byPath: map[string]*ssa.Package{}, globIdx: map[*ssa.Global]int{}, pkgIdx: map[*ssa.Package]int{},
		canonC: map[types.Type]types.Type{}, replace: map[string]string{}}
	P.sizes = types.SizesFor("gc", "amd64")
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		P.byPath[p.Pkg.Path()] = p
		P.pkgIdx[p] = len(P.pkgs)
		P.pkgs = append(P.pkgs, p)
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			P.globIdx[g] = len(P.globs)
			P.globs = append(P.globs, g)
		}
	}
	if rt := P.byPath["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			P.rtErrT = P.canon(o.Type())
		}
	}
	if P.rtErrT == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	return P, nil
}

// canon returns the representative of the type's identity class.
func (P *Program) canon(t types.Type) types.Type {
	P.canonMu.RLock()
	c, ok := P.canonC[t]
	P.canonMu.RUnlock()
	if ok {
		return c
	}
	P.canonMu.Lock()
	defer P.canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if r := P.canonM.At(t); r != nil {
		c = r.(types.Type)
	} else {
		P.canonM.Set(t, t)
		c = t
	}
	P.canonC[t0] = c
	return c
}

func (P *Program) namedType(pkg, name string) types.Type {
	p := P.byPath[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return P.canon(o.Type())
}

func (P *Program) fnByName(pkg, name string) *CFn {
	p := P.byPath[pkg]
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil {
		return nil
	}
	return P.cfn(f)
}

// cfn returns the compiled-function handle.
func (P *Program) cfn(f *ssa.Function) *CFn {
	if c, ok := P.fns.Load(f); ok {
		return c.(*CFn)
	}
	c := &CFn{fn: f, P: P, name: f.String(), pkg: -1}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	pk := f.Pkg
	if pk == nil {
		pk = o.Pkg
	}
	if pk == nil && f.Object() != nil && f.Object().Pkg() != nil {
		pk = P.prog.Package(f.Object().Pkg())
	}
	if pk != nil {
		c.pkg = P.pkgIdx[pk]
		c.pkgPath = pk.Pkg.Path()
	}
	c.isInit = f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && f.Synthetic != ""
	nm := c.name
	if f.Origin() != nil {
		nm = f.Origin().String()
	}
	if h, ok := intrinsics[nm]; ok {
		c.intr = h
	} else if r, ok := P.replace[nm]; ok {
		h := P.byPath[P.harnPath].Func(r)
		if h == nil {
			fmt.Fprintln(os.Stderr, "warning: no harness function", r)
		} else {
			target := h
			c.repl = func() *CFn { return P.cfn(target) }
		}
	}
	got, _ := P.fns.LoadOrStore(f, c)
	return got.(*CFn)
}

// method finds the implementation of a method for a dynamic type.
func (P *Program) method(t types.Type, m *types.Func) *CFn {
	key := mkey{t, m.Id()}
	if c, ok := P.methods.Load(key); ok {
		return c.(*CFn)
	}
	P.fnMu.Lock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = P.prog.MethodValue(sel)
	}
	P.fnMu.Unlock()
	if f == nil {
		panic(engineError{fmt.Sprintf("no method %s for %s", m.Name(), t)})
	}
	c := P.cfn(f)
	P.methods.Store(key, c)
	return c
}

// methodNamed finds a method by name (exported) or nil.
func (P *Program) methodNamed(t types.Type, name string) *CFn {
	P.fnMu.Lock()
	defer P.fnMu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return P.cfn(P.prog.MethodValue(s))
		}
	}
	return nil
}

func (P *Program) implements(t types.Type, i types.Type) bool {
	key := ikey{t, i}
	if r, ok := P.implM.Load(key); ok {
		return r.(bool)
	}
	P.fnMu.Lock()
	r := types.Implements(t, i.Underlying().(*types.Interface))
	P.fnMu.Unlock()
	P.implM.Store(key, r)
	return r
}
