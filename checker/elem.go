package main

// Elements under analysis: the implementation of a public interface together with
// its constructor. The constructor is analysed to learn how the parts of an
// element are connected and what a fresh element holds.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Elem is an implementation of a public element interface.
type Elem struct {
	name  string
	iface *types.Named
	typ   types.Type // pointer to the implementing struct
	ctor  *ssa.Function
}

// ctorResult is the concrete pointer type a constructor returns.
func ctorResult(fn *ssa.Function) types.Type {
	res := fn.Signature.Results()
	if fn.Signature.Recv() != nil || fn.Signature.Params().Len() != 0 || res.Len() != 1 || fn.Parent() != nil || len(fn.Blocks) == 0 {
		return nil
	}
	t := res.At(0).Type()
	if isIface(t) {
		// the single dynamic type every return boxes
		var dyn types.Type
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				rt, ok := in.(*ssa.Return)
				if !ok || len(rt.Results) != 1 {
					continue
				}
				mi, ok := rt.Results[0].(*ssa.MakeInterface)
				if !ok || dyn != nil && !types.Identical(dyn, mi.X.Type()) {
					return nil
				}
				dyn = mi.X.Type()
			}
		}
		t = dyn
	}
	if t == nil {
		return nil
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n := namedOf(p.Elem())
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return t
}

// ctors lists the constructors of element structs, per struct.
func (p *Prog) ctors() map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	for _, fn := range p.fns {
		t := ctorResult(fn)
		if t == nil || !p.inModule(pkgOf(fn)) || !strings.Contains(pkgOf(fn).Path(), "/internal/") {
			continue
		}
		k := typeKey(t)
		out[k] = append(out[k], fn)
	}
	for _, l := range out {
		sort.SliceStable(l, func(i, j int) bool {
			a, b := strings.HasPrefix(l[i].Name(), "New"), strings.HasPrefix(l[j].Name(), "New")
			return a && !b
		})
	}
	return out
}

// element finds the implementation of a public interface. kind, if not empty, is
// the value its Kind method has to return.
func (p *Prog) element(name, kind string) (*Elem, error) {
	it := p.iface(name)
	if it == nil {
		return nil, fmt.Errorf("no public interface %s", name)
	}
	var cand []*Elem
	cs := p.ctors()
	for _, t := range p.implementers(it) {
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			t = types.NewPointer(t)
		}
		l := cs[typeKey(t)]
		if len(l) == 0 {
			continue
		}
		cand = append(cand, &Elem{name: name, iface: it, typ: t, ctor: l[0]})
	}
	if len(cand) > 1 {
		var same []*Elem
		for _, e := range cand {
			if n := namedOf(deref(e.typ)); n != nil && n.Obj().Name() == name {
				same = append(same, e)
			}
		}
		if len(same) == 1 {
			cand = same
		}
	}
	if len(cand) > 1 && kind != "" {
		var keep []*Elem
		for _, e := range cand {
			r := newFlow(p)
			root, ok := r.enter(e)
			if !ok {
				continue
			}
			v, _, _ := r.method(e, root, "Kind", nil, True, State{})
			if len(v) == 1 {
				if s, ok := constStr(v[0]); ok && s == kind {
					keep = append(keep, e)
				}
			}
		}
		cand = keep
	}
	if len(cand) != 1 {
		return nil, fmt.Errorf("%d implementations of %s", len(cand), name)
	}
	return cand[0], nil
}

func constStr(v Val) (string, bool) {
	t := v.single()
	if t == nil || t.op != "const" {
		return "", false
	}
	s, ok := t.cst, true
	if s.Kind().String() != "String" {
		return "", false
	}
	return strVal(t), ok
}

// fresh analyses the constructor and returns the element and its initial state.
func (r *Flow) construct(e *Elem) (*Term, State, bool) {
	outs, g, st := r.call(e.ctor, nil, nil, True, State{}, e.ctor.Pos())
	if g != True || len(outs) != 1 {
		return nil, nil, false
	}
	t := r.unbox(outs[0]).single()
	if t == nil || t.op != "obj" {
		return nil, nil, false
	}
	return t, st, true
}

// parts lists the objects an element consists of: the structs reachable from it
// through its fields.
func (r *Flow) parts(root *Term, st State) []*Term {
	seen := map[*Term]bool{root: true}
	list := []*Term{root}
	for i := 0; i < len(list); i++ {
		var locs []*Term
		for loc := range st {
			if rootOf(loc) == list[i] && loc.op != "ver" {
				locs = append(locs, loc)
			}
		}
		sort.Slice(locs, func(a, b int) bool { return locs[a].id < locs[b].id })
		for _, loc := range locs {
			for _, c := range r.unbox(st[loc]) {
				if c.t.op == "obj" && !seen[c.t] && r.isStructObj(c.t) {
					seen[c.t] = true
					list = append(list, c.t)
				}
			}
		}
	}
	return list
}

func (r *Flow) isStructObj(t *Term) bool {
	n := namedOf(t.typ)
	if n == nil || !r.P.inModule(n.Obj().Pkg()) {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

// fieldVar is the struct field a location denotes.
func fieldVar(loc *Term) *types.Var {
	if loc.op != "faddr" {
		return nil
	}
	b := loc.args[0][0].t
	t := b.typ
	if t == nil {
		return nil
	}
	if b.op != "obj" {
		t = deref(t)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || loc.idx >= s.NumFields() {
		return nil
	}
	return s.Field(loc.idx)
}

// enter prepares the analysis of methods of an arbitrary element: its parts are
// connected as the constructor connects them, fields that never change have
// their value, and everything else is unknown.
func (r *Flow) enter(e *Elem) (*Term, bool) {
	r.P.computeFrozen()
	root, st, ok := r.construct(e)
	if !ok {
		return nil, false
	}
	ps := r.parts(root, st)
	for _, o := range ps {
		r.roots[o] = true
		r.havoc[o] = true
	}
	for loc, v := range st {
		if !r.roots[rootOf(loc)] || loc.op == "ver" {
			continue
		}
		fv := fieldVar(loc)
		if fv == nil || !r.P.frozen[fv] {
			continue
		}
		keep := true
		for _, c := range v {
			switch c.t.op {
			case "const":
			case "obj", "iface":
				if x := r.unbox(r.one(c.t)).single(); x == nil || !r.roots[x] {
					keep = false
				}
			default:
				keep = false
			}
		}
		if keep {
			r.inits[loc] = v
		}
	}
	r.log, r.fails, r.obls, r.nobl = nil, nil, nil, 0
	return root, true
}

// methodFn is the function implementing a method of an element.
func (r *Flow) methodFn(e *Elem, name string) *ssa.Function {
	ms := r.P.prog.MethodSets.MethodSet(e.typ)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return r.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// method analyses a method of an element.
func (r *Flow) method(e *Elem, root *Term, name string, args []Val, g B, st State) ([]Val, B, State) {
	fn := r.methodFn(e, name)
	if fn == nil {
		r.und["no method "+name+" of "+e.name] = true
		return nil, False, st
	}
	return r.callFn(fn, append([]Val{r.one(root)}, args...), nil, g, st, fn.Pos())
}

// ifaceMethods lists the methods of the public interface.
func (e *Elem) ifaceMethods() []*types.Func {
	it := e.iface.Underlying().(*types.Interface)
	var out []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i))
	}
	return out
}

// getters are the public methods that report something and take nothing.
func (e *Elem) getters() []*types.Func {
	var out []*types.Func
	for _, m := range e.ifaceMethods() {
		s := m.Type().(*types.Signature)
		if s.Params().Len() != 0 || s.Results().Len() != 1 || strings.HasPrefix(m.Name(), "Unset") || boundary(m.Name()) {
			continue
		}
		out = append(out, m)
	}
	return out
}
