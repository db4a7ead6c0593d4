package main

// The formats: named texts with methods that read and write them.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textTypes are the named texts of the library that YAML can be read into or
// written from.
func (p *Prog) textTypes() []*types.Named {
	var out []*types.Named
	for _, pk := range p.sortedPkgs() {
		sc := pk.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if b, ok := n.Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			for _, m := range []string{"MarshalYAML", "ToYAML", "UnmarshalYAML"} {
				if p.methodOf(n, m) != nil {
					out = append(out, n)
					break
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// methodOf is the method as it is written, of a type or a pointer to it.
func (p *Prog) methodOf(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.prog.FuncValue(m)
		}
	}
	return nil
}

// peel takes the conversions off a text.
func (r *Flow) peel(v Val, st State) Val {
	return r.lift(r.unbox(v), func(t *Term, _ B) Val {
		switch {
		case t.op == "app" && (strings.HasPrefix(t.str, "conv") || t.str == "yamlnode") && len(t.args) > 0:
			return r.peel(t.args[0], st)
		case t.op == "obj" && isNode(t.typ):
			if s, ok := t.typ.Underlying().(*types.Pointer); ok {
				if u, ok := s.Elem().Underlying().(*types.Struct); ok {
					return r.peel(r.nodeText(t, u, st), st)
				}
			}
			if u, ok := t.typ.Underlying().(*types.Struct); ok {
				return r.peel(r.nodeText(t, u, st), st)
			}
		}
		return r.one(t)
	})
}

// nodeText is the text of a node made here.
func (r *Flow) nodeText(n *Term, s *types.Struct, st State) Val {
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == "Value" {
			return r.load(st, r.faddr(n, i, types.NewPointer(f.Type())), f.Type())
		}
	}
	return r.one(n)
}

// textWriters decides that a format is written and printed as its text.
func (p *Prog) textWriters(c *Check) {
	for _, n := range p.textTypes() {
		for _, m := range []string{"String", "ToYAML", "MarshalYAML"} {
			fn := p.methodOf(n, m)
			if fn == nil {
				continue
			}
			r := newFlow(p)
			self := r.sym("format", n)
			arg := r.one(self)
			st := State{}
			if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); ptr {
				o := r.newObj("obj", n, "format")
				r.store(st, o, arg, n, True, true)
				arg = r.one(o)
			}
			outs, g, st := r.callFn(fn, []Val{arg}, nil, True, st, fn.Pos())
			if len(outs) == 0 {
				continue
			}
			if len(outs) == 2 {
				g = r.bdd.And(g, r.nilGuard(outs[1]))
			}
			got := r.peel(r.under(outs[0], g), st)
			bad := r.bdd.Diff(g, r.eq(got, r.one(self)))
			key := typeStr(n) + "/" + m
			c.ob(r, key+"/text", bad == False || r.eqUnder(got, r.one(self), g), fn.Pos(), "%s of %s gives %s when %s", m, typeStr(n), r.printVal(got), r.bdd.String(bad))
			c.used(r)
		}
	}
}

// textReaders decides that a format holds the text of the node it is read from.
func (p *Prog) textReaders(c *Check, kinds bool) {
	for _, n := range p.textTypes() {
		fn := p.methodOf(n, "UnmarshalYAML")
		if fn == nil || fn.Signature.Params().Len() != 1 || !isNodePtr(fn.Signature.Params().At(0).Type()) {
			continue
		}
		if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); !ptr {
			continue
		}
		r := newFlow(p)
		node := r.sym("node", fn.Signature.Params().At(0).Type())
		r.nonnil[node] = true
		o := r.newObj("obj", n, "format")
		st := State{}
		r.store(st, o, r.one(r.sym("before", n)), n, True, true)
		outs, g, st := r.callFn(fn, []Val{r.one(o), r.one(node)}, nil, True, st, fn.Pos())
		if len(outs) != 1 {
			continue
		}
		g = r.bdd.And(g, r.nilGuard(outs[0]))
		key := typeStr(n) + "/UnmarshalYAML"
		if kinds {
			b := r.bdd.Diff(g, r.cls(node, classes(cStr)))
			c.ob(r, key+"/kind", b == False, fn.Pos(), "%s accepts a node that is no text when %s", typeStr(n), r.bdd.String(b))
			c.propagates(r, key, g)
		} else {
			got := r.peel(r.under(r.load(st, o, n), g), st)
			want := r.nodeValue(node, types.Typ[types.String])
			bad := r.bdd.Diff(g, r.eq(got, want))
			c.ob(r, key+"/text", bad == False || r.eqUnder(got, want, g), fn.Pos(), "%s read from a node holds %s", typeStr(n), r.printVal(got))
		}
		c.used(r)
	}
}

// literalText is the text of a node literal that is a string scalar.
func (r *Flow) literalText(n *Term, st State, g B) Val {
	typ := n.typ
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	part := map[string]Val{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		part[f.Name()] = r.under(r.load(st, r.faddr(n, i, types.NewPointer(f.Type())), f.Type()), g)
	}
	kind, tag := part["Kind"].single(), part["Tag"].single()
	if kind == nil || tag == nil {
		return nil
	}
	if k, ok := constInt(kind); !ok || k != 8 { // yaml.ScalarNode
		return nil
	}
	if t, ok := constStr(r.one(tag)); !ok || t != "!!str" {
		return nil
	}
	return part["Value"]
}
