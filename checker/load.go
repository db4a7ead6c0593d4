package main

// Loading of the code under analysis: type-checked packages and their SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program.
type Prog struct {
	sizes map[*ssa.Function][]int
	dir   string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path, module packages only
	tpkgs map[string]*types.Package
	all   map[string]*types.Package // every package, by path
	mod   string

	loops        map[*ssa.Function]*loopInfo
	frozen       map[*types.Var]bool
	frozenOK     bool
	globalUses   map[*ssa.Global]*globalUse
	fns          []*ssa.Function // every function of the module
	resolvedT    map[*ssa.Function][]types.Type
	resolvedOpen map[*ssa.Function]bool
	through      map[string]bool
	effMemo      map[*ssa.Function]*effects
	resolvers    []resolver
	implBy       map[string][]types.Type // module interface -> implementing types
}

func load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Fset: fset, Env: env, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, fset: fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, all: map[string]*types.Package{}, loops: map[*ssa.Function]*loopInfo{}, implBy: map[string][]types.Type{}, resolvedT: map[*ssa.Function][]types.Type{}, resolvedOpen: map[*ssa.Function]bool{}}
	var keep []*packages.Package
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.mod = pk.Module.Path
		}
		if !strings.Contains(pk.PkgPath, "/v0/internal/") && !strings.Contains(pk.PkgPath, "/v0/pkg/") {
			continue // generators, examples: not part of the library
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		keep = append(keep, pk)
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no library packages found in %s", dir)
	}
	packages.Visit(keep, nil, func(pk *packages.Package) {
		if pk.Types != nil {
			p.all[pk.PkgPath] = pk.Types
		}
	})
	prog, spkgs := ssautil.Packages(keep, ssa.BuilderMode(0))
	prog.Build()
	p.prog = prog
	for i, s := range spkgs {
		if s != nil {
			p.pkgs[keep[i].PkgPath] = s
			p.tpkgs[keep[i].PkgPath] = keep[i].Types
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		p.fns = append(p.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, s := range p.sortedPkgs() {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func (p *Prog) sortedPkgs() []*ssa.Package {
	var ks []string
	for k := range p.pkgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*ssa.Package
	for _, k := range ks {
		out = append(out, p.pkgs[k])
	}
	return out
}

func (p *Prog) inModule(pk *types.Package) bool {
	return pk != nil && p.tpkgs[pk.Path()] != nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	q := p.fset.Position(x)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) pkgSuffix(suffix string) *ssa.Package {
	for _, s := range p.sortedPkgs() {
		if strings.HasSuffix(s.Pkg.Path(), suffix) {
			return s
		}
	}
	return nil
}

// iface returns the named public interface of pkg/raml.
func (p *Prog) iface(name string) *types.Named {
	s := p.pkgSuffix("/pkg/raml")
	if s == nil {
		return nil
	}
	o, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// isContainer reports whether t is one of the ordered map interfaces.
func (p *Prog) isContainer(t types.Type) bool {
	if t == nil {
		return false
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		has[it.Method(i).Name()] = true
	}
	return has["Put"] && has["Len"] && has["ForEach"] && has["SerializeOrdered"]
}

// implementers lists the named types of the internal implementation package
// (as T or *T) that implement the interface type.
func (p *Prog) implementers(t types.Type) []types.Type {
	k := typeKey(t)
	if r, ok := p.implBy[k]; ok {
		return r
	}
	it, ok := t.Underlying().(*types.Interface)
	var out []types.Type
	if ok {
		for _, s := range p.sortedPkgs() {
			for _, name := range s.Pkg.Scope().Names() {
				tn, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() || isIface(tn.Type()) {
					continue
				}
				if types.Implements(tn.Type(), it) {
					out = append(out, tn.Type())
				} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
					out = append(out, pt)
				}
			}
		}
	}
	p.implBy[k] = out
	return out
}

// computeFrozen finds the struct fields that are only ever written while the
// struct is being constructed (through an allocation of the same function) and
// whose address is otherwise only used for reading.
func (p *Prog) computeFrozen() {
	if p.frozenOK {
		return
	}
	p.frozenOK = true
	p.frozen = map[*types.Var]bool{}
	mutable := map[*types.Var]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if so, ok := in.(*ssa.Store); ok {
					if st, ok := so.Val.Type().Underlying().(*types.Struct); ok {
						if _, fresh := rootAlloc(so.Addr).(*ssa.Alloc); !fresh {
							for i := 0; i < st.NumFields(); i++ {
								mutable[st.Field(i)] = true
							}
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				fv := st.Field(fa.Field)
				_, fresh := rootAlloc(fa.X).(*ssa.Alloc)
				p.frozen[fv] = true
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					case *ssa.FieldAddr:
					case *ssa.Store:
						if u.Addr == fa && fresh {
							continue
						}
						if u.Addr == fa || u.Val == fa {
							mutable[fv] = true
						}
					case *ssa.Call:
						// a method of an embedded struct called on its address: the
						// callee's own field accesses are examined separately
						if c := u.Call.StaticCallee(); c != nil && c.Signature.Recv() != nil && len(u.Call.Args) > 0 && u.Call.Args[0] == fa && p.inModule(pkgOf(c)) {
							if _, isStruct := fv.Type().Underlying().(*types.Struct); isStruct {
								continue
							}
						}
						mutable[fv] = true
					default:
						mutable[fv] = true
					}
				}
			}
		}
	}
	for f := range mutable {
		delete(p.frozen, f)
	}
}

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(deref(r.Type())); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

// nfiles is the number of source files analysed.
func (p *Prog) nfiles() int {
	m := map[string]bool{}
	for _, fn := range p.fns {
		if f := p.fset.Position(fn.Pos()).Filename; f != "" {
			m[f] = true
		}
	}
	return len(m)
}

// isEmptyIface is interface{}.
func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}
