package main

// Entry points of the library that are no methods: parse functions, builders and
// the functions that turn a node into a type declaration.

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type entryPoint struct {
	name string
	fn   *ssa.Function
	p    *Prog
}

// publicFns lists the exported functions of the public packages.
func (p *Prog) publicFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.fns {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if pk := pkgOf(fn); pk == nil || !strings.Contains(pk.Path(), "/pkg/") {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// entryPoints lists the public functions that read a document from a reader.
func (p *Prog) entryPoints() []entryPoint {
	var out []entryPoint
	for _, fn := range p.publicFns() {
		s := fn.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 2 || !isErrType(s.Results().At(1).Type()) {
			continue
		}
		if n := namedOf(s.Params().At(0).Type()); n != nil && n.Obj().Name() == "Reader" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
			out = append(out, entryPoint{fn.Name(), fn, p})
		}
	}
	return out
}

func (e entryPoint) run(r *Flow) ([]Val, B, State, bool) {
	in := r.sym("reader", e.fn.Signature.Params().At(0).Type())
	r.nonnil[in] = true
	outs, g, st := r.callFn(e.fn, []Val{r.one(in)}, nil, True, State{}, e.fn.Pos())
	return outs, g, st, len(outs) > 0
}

// builders lists the public functions that create an element out of nothing.
func (p *Prog) builders() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.publicFns() {
		s := fn.Signature
		if s.Params().Len() != 0 || s.Results().Len() != 1 || !isIface(s.Results().At(0).Type()) {
			continue
		}
		if p.isContainer(s.Results().At(0).Type()) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// resolver is a function that turns a node into one of several kinds of element,
// with the kinds of node it is called on.
type resolver struct {
	fn *ssa.Function
	cs classSet
}

// resolverFns lists the resolvers that readers and parse functions call.
func (p *Prog) resolverFns() []resolver {
	if p.resolvers != nil {
		return p.resolvers
	}
	all := map[*ssa.Function]classSet{}
	note := func(r *Flow) {
		for fn, cs := range r.resolvers {
			all[fn] |= cs
		}
	}
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opRead) {
			note(o.r)
		}
	}
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		ep.run(r)
		note(r)
	}
	for fn, cs := range all {
		p.resolvers = append(p.resolvers, resolver{fn, cs})
	}
	sort.Slice(p.resolvers, func(i, j int) bool { return p.resolvers[i].fn.String() < p.resolvers[j].fn.String() })
	return p.resolvers
}

// run analyses a resolver on an arbitrary node of those kinds.
func (rs resolver) run(p *Prog) (r *Flow, decl *Term, outs []Val, g B, st State) {
	r = newFlow(p)
	r.resolve = true
	decl = r.sym("decl", rs.fn.Signature.Params().At(0).Type())
	r.nonnil[decl] = true
	r.clsFixSet[decl] = rs.cs
	outs, g, st = r.callFn(rs.fn, []Val{r.one(decl)}, nil, True, State{}, rs.fn.Pos())
	return
}
