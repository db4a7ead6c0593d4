package main

import (
	"go/token"
	"golang.org/x/tools/go/ssa"
	"sort"

	"go/types"
	"strings"
)

// checkC06: parsing never panics.
func checkC06(p *Prog, c *Check) {
	c.rule = "Every function reachable from the public parse functions is analysed with an arbitrary document (readers of every element kind, from an arbitrary and from a fresh state, for every kind of key and every kind of node; the resolvers; the parse functions themselves). Each instruction that can panic (dereference, method call on a possibly nil value, index, slice, type assertion without ok, explicit panic, nil map store, division) is an obligation: the guard under which it fails must be unsatisfiable. Readers call each other only on strictly deeper nodes, so the recursion ends."
	c.floor = 1200
	c.assume = append(c.assume, "yaml.v3 builds well-formed trees: no nil content, mappings with an even number of content nodes", "xyml's helpers do not panic on well-formed nodes", "values of other implementations of the public interfaces do not occur in documents being parsed")
	done := func(r *Flow, key string, g B) {
		c.ob(r, key+"/no panic", true, 0, "")
		for _, u := range r.unsure {
			c.open(key+"/size", u+" may be negative")
		}
		for _, o := range r.obls {
			in := ""
			if o.fn != nil {
				in = fnName(o.fn)
			}
			c.ob(r, in+"/"+o.kind, false, o.pos, "%s in %s (%s) when %s", o.kind, in, o.text, r.bdd.String(o.g))
		}
		c.used(r)
	}
	gr := newReadGraph(p)
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opNew, opRead) {
			done(o.r, e.name+"/"+o.label, o.g)
			if o.kind == opRead {
				gr.add(c, e.name+"/"+o.label, typeKey(deref(e.typ)), o.r, docSym(o.r))
			}
		}
		sp := specOf(e.name)
		for _, k := range sp.presets() {
			r := newFlow(p)
			root, st, ok := r.construct(e)
			fn := r.methodFn(e, sp.reader)
			if !ok || fn == nil {
				continue
			}
			r.roots[root] = true
			doc := r.sym("doc", fn.Signature.Params().At(0).Type())
			r.nonnil[doc] = true
			r.clsFixSet[doc] = k.cs
			if k.k != nil {
				r.keyFor[doc] = k.k
			}
			_, g, _ := r.method(e, root, sp.reader, []Val{r.one(doc)}, True, st)
			done(r, e.name+"/fresh, read "+k.label, g)
		}
	}
	for _, rs := range p.resolverFns() {
		r, decl, _, g, _ := rs.run(p)
		done(r, rs.fn.Name(), g)
		gr.add(c, rs.fn.Name(), rs.fn.String(), r, decl)
	}
	gr.decide(c)
	n := 0
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		_, g, _, ok := ep.run(r)
		if ok {
			n++
		}
		done(r, ep.name, g)
	}
	if n == 0 {
		c.missing = append(c.missing, "public parse functions")
	}
	rest := map[*ssa.Function]bool{}
	left := p.unreached(c)
	for _, fn := range left {
		rest[fn] = true
	}
	for _, m := range p.mapImpls() {
		if m.ctor != nil && rest[m.ctor] {
			r := newFlow(p)
			r.mapMode = true
			var args []Val
			for _, pr := range m.ctor.Params {
				// callers give sizes that are not negative
				args = append(args, r.one(r.app("len", pr.Type(), r.one(r.sym("some", types.NewSlice(types.Typ[types.Int]))))))
			}
			_, g, _ := r.callFn(m.ctor, args, nil, True, State{}, m.ctor.Pos())
			done(r, m.name+"/new", g)
		}
		ms := p.prog.MethodSets.MethodSet(m.typ)
		for i := 0; i < ms.Len() && m.why == ""; i++ {
			name := ms.At(i).Obj().Name()
			if fn := m.method(name); fn != nil && rest[p.declared(fn)] {
				if f := m.call(name, nil); f != nil {
					done(f.Flow, m.name+"/"+name, f.g)
				}
			}
		}
	}
	for _, fn := range left {
		// what the decoder calls
		if ps := fn.Params; fn.Name() == "UnmarshalYAML" && len(ps) == 2 && isNodePtr(ps[1].Type()) {
			r := newFlow(p)
			recv, doc := r.sym("recv", ps[0].Type()), r.sym("doc", ps[1].Type())
			r.nonnil[recv], r.nonnil[doc] = true, true
			r.roots[recv] = true
			_, g, _ := r.callFn(fn, []Val{r.one(recv), r.one(doc)}, nil, True, State{}, fn.Pos())
			done(r, fnName(fn), g)
		}
	}
	for _, u := range p.unreached(c) {
		c.open(u.String(), "reachable from the parse functions but part of no analysis")
	}
}

// encodable reports whether the YAML encoder has a case for values of type t.
func (p *Prog) encodable(t types.Type) (bool, string) { return p.encodable1(t, 0) }

func (p *Prog) encodable1(t types.Type, d int) (bool, string) {
	t = types.Unalias(t)
	if d > 6 {
		return false, "recursive type"
	}
	if isNodePtr(t) {
		return true, ""
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Kind() == types.UntypedNil || b.Info()&types.IsString != 0 || b.Info()&types.IsBoolean != 0:
			return true, ""
		case b.Info()&types.IsInteger != 0 && b.Kind() != types.Uintptr, b.Info()&types.IsFloat != 0:
			return true, ""
		}
		return false, "no case for " + b.Name()
	}
	if hasToYAML(t) {
		return true, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			return true, "" // decided where values are stored
		}
		for _, im := range p.implementers(t) {
			if ok, why := p.encodable1(im, d+1); !ok {
				return false, why
			}
		}
		return true, ""
	case *types.Pointer:
		return p.encodable1(u.Elem(), d+1)
	case *types.Slice:
		return p.encodable1(u.Elem(), d+1)
	case *types.Array:
		return p.encodable1(u.Elem(), d+1)
	case *types.Map:
		if _, ok := types.Unalias(u.Key()).(*types.Basic); !ok && !isEmptyIface(u.Key()) {
			return false, "map with keys of type " + u.Key().String()
		}
		return p.encodable1(u.Elem(), d+1)
	case *types.Basic:
		return false, typeKey(t) + " has no ToYAML, and the encoder's scalar case takes only the predeclared types"
	}
	return false, typeKey(t) + " has no ToYAML"
}

func hasToYAML(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || f.Name() != "ToYAML" {
			continue
		}
		s := f.Type().(*types.Signature)
		return s.Params().Len() == 0 && s.Results().Len() == 2 && isNodePtr(s.Results().At(0).Type())
	}
	return false
}

// dynTypes are the types a value can have at run time, as far as they are known.
func (r *Flow) dynTypes(v Val, g B) map[string]types.Type {
	out := map[string]types.Type{}
	for _, c := range v {
		if r.bdd.And(c.g, g) == False {
			continue
		}
		t := c.t
		for isApp(t, "some") && len(t.args) == 1 {
			for k, x := range r.dynTypes(t.args[0], g) {
				out[k] = x
			}
			t = nil
			break
		}
		if t == nil || t.op == "nil" || isApp(t, "none") || t.typ == nil {
			continue
		}
		out[typeKey(t.typ)] = t.typ
	}
	return out
}

// dynInto collects the dynamic types of the interface values in what is stored
// under a declared type.
func (r *Flow) dynInto(out map[string]types.Type, v Val, g B, st State, decl types.Type, depth int) map[string]types.Type {
	if depth > 12 {
		return out
	}
	for _, c := range v {
		cg := r.bdd.And(g, c.g)
		if cg == False {
			continue
		}
		switch u := decl.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() == 0 {
				for k, t := range r.dynTypes(r.one(c.t), cg) {
					out[k] = t
				}
			}
		case *types.Pointer:
			if w, ok := st[c.t]; ok && c.t.op == "obj" {
				if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
					r.dynInto(out, w, cg, st, u.Elem(), depth+1)
				}
			}
		case *types.Slice:
			switch {
			case c.t.op == "lit":
				for _, a := range c.t.args {
					r.dynInto(out, a, cg, st, u.Elem(), depth+1)
				}
			case isApp(c.t, "append"):
				r.dynInto(out, c.t.args[0], cg, st, decl, depth+1)
				for _, a := range c.t.args[1:] {
					r.dynInto(out, a, cg, st, u.Elem(), depth+1)
				}
			case isApp(c.t, "concat") || isApp(c.t, "copyof"):
				for _, a := range c.t.args {
					r.dynInto(out, a, cg, st, decl, depth+1)
				}
			}
		}
	}
	return out
}

// nilInto is when a stored value has a nil pointer where the encoder calls ToYAML:
// in a list of elements. In a field it is the writer's to look (PutIfNotNil does).
func (r *Flow) nilInto(v Val, g B, st State, decl types.Type, inList bool, depth int) B {
	out := False
	if depth > 12 {
		return out
	}
	each := func(a Val, cg B, t types.Type, in bool) {
		out = r.bdd.Or(out, r.nilInto(a, cg, st, t, in, depth+1))
	}
	for _, c := range v {
		cg := r.bdd.And(g, c.g)
		if cg == False {
			continue
		}
		switch u := decl.Underlying().(type) {
		case *types.Interface:
			if u.NumMethods() == 0 || !r.P.inModule(pkgOfType(decl)) {
				continue
			}
			// (a nil interface is written as null)
			if inList && c.t.op == "iface" && len(c.t.args) > 0 {
				for _, x := range c.t.args[0] {
					if x.t.op == "nil" {
						out = r.bdd.Or(out, r.bdd.And(cg, x.g))
					}
				}
			}
		case *types.Pointer:
			if inList && c.t.op == "nil" && r.P.inModule(pkgOfType(u.Elem())) {
				out = r.bdd.Or(out, cg)
			}
		case *types.Slice:
			switch {
			case c.t.op == "lit":
				for _, a := range c.t.args {
					each(a, cg, u.Elem(), true)
				}
			case isApp(c.t, "append"):
				each(c.t.args[0], cg, decl, false)
				for _, a := range c.t.args[1:] {
					each(a, cg, u.Elem(), true)
				}
			case isApp(c.t, "concat") || isApp(c.t, "copyof"):
				for _, a := range c.t.args {
					each(a, cg, decl, false)
				}
			}
		}
	}
	return out
}

func pkgOfType(t types.Type) *types.Package {
	if n := namedOf(t); n != nil {
		return n.Obj().Pkg()
	}
	return nil
}

// checkC07: what is stored can be written.
func checkC07(p *Prog, c *Check) {
	c.rule = "Every value a reader, constructor or resolver stores in a field or container whose type is an interface, and every value a writer hands to the encoder, has a dynamic type the encoder has a case for (predeclared scalar, node, slice or map of such, or a type with ToYAML in its method set). Every public serialisation method of every element kind always returns and contains no reachable panic. No reader leaves a nil pointer in a list of elements or as an entry, on which the encoder would call ToYAML."
	c.floor = 800
	c.assume = append(c.assume, "xyml.ToYamlNode handles exactly nil, nodes, Marshalers, predeclared scalars, and slices, maps and pointers of these", "values put in through the API by the user are the user's")
	types0 := func(r *Flow, key, what string, v Val, g B, where *op, ev *Event) {
		for k, t := range r.dynTypes(v, g) {
			ok, why := p.encodable(t)
			pos := where.fn.Pos()
			if ev != nil {
				pos = ev.pos
			}
			c.ob(r, key+"/"+what+" "+k, ok, pos, "%s of %s handles a value of type %s, which cannot be encoded: %s", where.label, where.e.name, k, why)
		}
	}
	p.mapsFail(c)
	for _, e := range p.publicElems() {
		if !hasToYAML(e.typ) && !hasToYAML(types.NewPointer(deref(e.typ))) && specOf(e.name).writer == "ToYAML" {
			c.ob(nil, e.name+"/ToYAML", false, e.ctor.Pos(), "%s has no ToYAML", e.name)
		}
		for _, o := range p.ops(e, opNew, opRead, opWrite) {
			r := o.r
			key := e.name + "/" + o.label
			if o.kind == opWrite {
				c.ob(r, key+"/returns", o.g == True && len(r.obls) == 0, o.fn.Pos(), "%s of %s can panic%s", o.label, e.name, oblText(r))
				c.onlyFails(r, key, o.label+" of "+e.name, o.outs, o.g, o.fn.Pos())
			}
			for _, ev := range r.log {
				if r.bdd.And(ev.g, o.g) == False {
					continue
				}
				switch ev.kind {
				case "put", "replaceorput", "replaceifexists":
					if o.kind != opWrite {
						for _, a := range ev.args {
							types0(r, key, "stored", a, ev.g, o, ev)
							bad := False
							for _, x := range a {
								if x.t.op == "iface" && len(x.t.args) > 0 {
									for _, y := range x.t.args[0] {
										if n := namedOf(deref(x.t.typ)); y.t.op == "nil" && n != nil && p.inModule(n.Obj().Pkg()) {
											bad = r.bdd.Or(bad, r.bdd.AndAll(ev.g, o.g, x.g, y.g))
										}
									}
								}
							}
							c.ob(r, key+"/stored element", bad == False, ev.pos, "%s of %s stores an element that is a nil pointer, on which ToYAML panics, when %s", o.label, e.name, r.bdd.String(bad))
						}
					}
				case "encodeval":
					types0(r, key, "encoded", ev.args[0], ev.g, o, ev)
				}
			}
			if o.kind == opWrite {
				continue
			}
			for loc, v := range o.st {
				if loc.op != "faddr" || loc.typ == nil {
					continue
				}
				if o.kind == opRead {
					bad := r.nilInto(v, o.g, o.st, deref(loc.typ), false, 0)
					c.ob(r, key+"/stored nil", bad == False, o.fn.Pos(), "%s of %s stores nil in %s, where writing calls ToYAML, when %s", o.label, o.e.name, r.print(loc), r.bdd.String(bad))
				}
				for k, t := range r.dynInto(map[string]types.Type{}, v, o.g, o.st, deref(loc.typ), 0) {
					ok, why := p.encodable(t)
					c.ob(r, key+"/stored "+k, ok, o.fn.Pos(), "%s of %s stores a value of type %s, which cannot be encoded: %s", o.label, o.e.name, k, why)
				}
			}
			c.used(r)
		}
	}
}

// serialisers of the ordered maps fail only when an entry does.
func (p *Prog) mapsFail(c *Check) {
	for _, m := range p.mapImpls() {
		if m.why != "" {
			c.open(m.name+"/representation", m.why)
			continue
		}
		for _, name := range []string{"ToYAML", "MarshalYAML", "MarshalJSON"} {
			if fn := m.method(name); fn != nil {
				if f := m.call(name, nil); f != nil {
					c.onlyFails(f.Flow, m.name+"/"+name, name+" of "+m.name, f.outs, f.g, fn.Pos())
					c.used(f.Flow)
				}
			}
		}
	}
}

// onlyFails: an operation that reports an error does so because something it
// called failed, and one that reports none has a result.
func (c *Check) onlyFails(r *Flow, key, label string, outs []Val, g B, pos token.Pos) {
	n := len(outs)
	if n == 0 || r.errOf(outs[n-1]) == nil {
		return
	}
	err := r.errOf(outs[n-1])
	g = r.noFail(g)
	made, unknown := False, False
	for _, cs := range err {
		cg := r.noFail(r.bdd.And(cs.g, g))
		if cg = r.bdd.Diff(cg, r.nilGuard(r.one(cs.t))); cg == False {
			continue
		}
		if cs.t.op == "app" && strings.HasPrefix(cs.t.str, "err:") || cs.t.op == "iface" || cs.t.op == "obj" || cs.t.op == "global" {
			made = r.bdd.Or(made, cg)
		} else {
			unknown = r.bdd.Or(unknown, cg)
		}
	}
	if made == False && unknown != False {
		c.open(key+"/no error of its own", label+" reports an error that is not understood when "+r.bdd.String(unknown))
		return
	}
	c.ob(r, key+"/no error of its own", made == False, pos, "%s reports an error although nothing it calls fails, when %s", label, r.bdd.String(made))
	if n == 2 {
		bad := False
		for _, cs := range outs[0] {
			if u := r.unbox(r.one(cs.t)).single(); u != nil && u.op == "nil" {
				bad = r.bdd.Or(bad, r.bdd.AndAll(g, cs.g, r.nilGuard(err)))
			}
		}
		c.ob(r, key+"/result", bad == False, pos, "%s returns nothing and no error when %s", label, r.bdd.String(bad))
	}
}

// noFail is what remains of a guard when nothing that was called fails.
func (r *Flow) noFail(g B) B {
	for i, k := range r.bdd.keys {
		if g > True && strings.HasPrefix(k, "fail:") {
			g = r.bdd.Cofactor(g, r.bdd.mk(int32(i), False, True), false)
		}
	}
	return g
}

// errOf is v when it is what an operation returns as its error.
func (r *Flow) errOf(v Val) Val {
	for _, c := range v {
		if c.t.op != "nil" && (c.t.typ == nil || !isErrType(c.t.typ) && !implementsError(c.t.typ)) {
			return nil
		}
	}
	return v
}

func implementsError(t types.Type) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e) || types.Implements(types.NewPointer(t), e)
}

// unreached lists the module's functions that parsing may call but no analysis
// of the check looked at.
func (p *Prog) unreached(c *Check) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !p.inModule(pkgOf(fn)) || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		work = append(work, fn)
	}
	for _, ep := range p.entryPoints() {
		add(ep.fn)
	}
	method := func(t types.Type, m *types.Func) {
		if sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
			add(p.prog.MethodValue(sel))
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() {
						for _, t := range p.implementers(cc.Value.Type()) {
							method(t, cc.Method)
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// what a decoder may call on it
					ms := p.prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == "UnmarshalYAML" {
							method(mi.X.Type(), f)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for fn := range seen {
		if !c.fnSeen[fn.String()] && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// declared is the function a method value stands for, also when it is a wrapper
// made for a pointer or an embedding.
func (p *Prog) declared(fn *ssa.Function) *ssa.Function {
	if f, ok := fn.Object().(*types.Func); ok && fn.Synthetic != "" {
		if d := p.prog.FuncValue(f); d != nil {
			return d
		}
	}
	return fn
}
