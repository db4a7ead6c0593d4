package main

import (
	"go/token"
	"strings"
)

// stateOf is what an accessor reports in a state.
func (o *op) get(name string, st State) Val {
	v, _, _ := o.r.method(o.e, o.root, name, nil, True, st.clone())
	if len(v) != 1 {
		return nil
	}
	return o.r.uncopied(v[0])
}

// copyless strips defensive copies of slices.
func (r *Flow) copyless(v Val) Val {
	return r.lift(r.bare(v), func(t *Term, _ B) Val {
		if isApp(t, "copyof") {
			return r.copyless(t.args[0])
		}
		return r.one(t)
	})
}

// checkC03: setters, unsetters, getters.
func checkC03(p *Prog, c *Check) {
	c.rule = "For each element kind and each Set and Unset method of its public interface, analysed from an arbitrary state with an arbitrary argument: the method always returns, returns the element itself, the matching accessor then reports the argument (after Unset: nothing, or an empty collection), every other accessor reports what it did before, and no container or other element is changed."
	c.floor = 6500
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opSet, opSetNil, opUnset) {
			if o.kind == opSetNil && !isEmptyIface(o.fn.Signature.Params().At(0).Type()) {
				continue // see C15; of any type, nil is a value: the YAML null
			}
			r := o.r
			key := e.name + "/" + o.label
			pos := o.fn.Pos()
			c.ob(r, key+"/returns", o.g == True && len(r.obls) == 0, pos, "%s of %s can panic%s", o.label, e.name, oblText(r))
			if len(o.outs) == 1 {
				x := r.unbox(r.under(o.outs[0], o.g)).single()
				c.ob(r, key+"/returns the element", x == o.root, pos, "%s of %s returns %s", o.label, e.name, r.printVal(o.outs[0]))
			}
			if r.methodFn(e, o.target) == nil {
				c.missing = append(c.missing, e.name+"."+o.target)
				continue
			}
			after := r.under(o.get(o.target, o.st), o.g)
			if o.kind == opSet || o.kind == opSetNil {
				a := r.copyless(r.followed(o.st, after))
				want := r.followed(o.st, r.one(o.arg))
				c.ob(r, key+"/"+o.target+" is the argument", r.sameUnder(a, want, o.g), pos, "after %s(v), %s() of %s is %s", o.label, o.target, e.name, r.printVal(after))
				// an option must hold the value
				for _, x := range after {
					if isApp(x.t, "none") && r.bdd.And(x.g, o.g) != False {
						c.ob(r, key+"/"+o.target+" is the argument", false, pos, "after %s(v), %s() of %s is empty", o.label, o.target, e.name)
					}
				}
			} else {
				bad := r.bdd.Diff(o.g, r.emptyState(after))
				c.ob(r, key+"/"+o.target+" is empty", bad == False, pos, "after %s(), %s() of %s is %s", o.label, o.target, e.name, r.printVal(after))
			}
			for _, g := range p.allGetters(e) {
				if aliasGetter(g) == aliasGetter(o.target) || g == "Kind" && o.target != "Kind" && false {
					continue
				}
				a, b := r.under(o.get(g, o.st), o.g), r.under(o.get(g, State{}), o.g)
				c.ob(r, key+"/"+g+" unchanged", r.eqUnder(a, b, o.g), pos, "%s of %s changes %s() to %s", o.label, e.name, g, r.printVal(a))
			}
			for _, ev := range r.log {
				if ev.kind == "elemset" && !newSlice(ev.recv) && r.bdd.And(ev.g, o.g) != False {
					c.ob(r, key+"/no other effect", false, ev.pos, "%s of %s replaces the element %s of %s", o.label, e.name, r.printVal(ev.args[0]), printRecv(r, ev))
				}
				if !changes(ev) || ev.recv != nil && ev.recv.op == "ctr" || ev.recv != nil && r.fresh(ev.recv) && !r.roots[rootOf(ev.recv)] {
					continue
				}
				if r.bdd.And(ev.g, o.g) == False {
					continue
				}
				c.ob(r, key+"/no other effect", false, ev.pos, "%s of %s does %s on %s", o.label, e.name, ev.kind, printRecv(r, ev))
			}
			c.used(r)
		}
	}
}

// newSlice tells whether a slice was made by the operation itself.
func newSlice(t *Term) bool {
	switch {
	case t == nil:
		return false
	case t.op == "nil" || t.op == "lit" || isApp(t, "made"):
		return true
	case isApp(t, "append") || isApp(t, "slice"):
		for _, c := range t.args[0] {
			if !newSlice(c.t) {
				return false
			}
		}
		return true
	}
	return false
}

func oblText(r *Flow) string {
	if len(r.obls) == 0 {
		return ""
	}
	o := r.obls[0]
	return ": " + o.kind + " (" + o.text + ") at " + r.P.pos(o.pos) + " when " + r.bdd.String(o.g)
}

// emptyState is the guard of an accessor's answer being an empty value.
func (r *Flow) emptyState(v Val) B {
	g := False
	for _, c := range r.unbox(v) {
		b := r.absentG(r.one(c.t))
		if c.t.op == "const" && r.isZeroConst(c.t) {
			b = True
		}
		g = r.bdd.Or(g, r.bdd.And(c.g, b))
	}
	return g
}

func (r *Flow) isZeroConst(t *Term) bool {
	switch t.cst.ExactString() {
	case `""`, "0", "false":
		return true
	}
	return false
}

// checkC15: collections are never nil.
func checkC15(p *Prog, c *Check) {
	c.rule = "Induction over the public interface: a fresh element has a non-nil container in every container field of every struct it consists of; every setter (argument arbitrary, and nil), unsetter and reader leaves every container field non-nil; setting a collection to nil leaves a new empty container. Optional values: in every getter, setter, unsetter and writer no dereference of a possibly nil value and no method call on one is reachable."
	c.floor = 2000
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opNew, opSet, opSetNil, opUnset, opRead, opWrite, opGet) {
			r := o.r
			key := e.name + "/" + o.label
			pos := o.fn.Pos()
			if o.kind != opGet && o.kind != opWrite {
				bad := ""
				for loc, v := range o.contFields(o.st) {
					if g := r.bdd.And(o.g, r.nilGuard(v)); g != False {
						bad = r.print(loc) + " when " + r.bdd.String(g)
					}
				}
				c.ob(r, key+"/containers", bad == "", pos, "after %s a container of %s is nil: %s", o.label, e.name, bad)
			}
			if o.kind == opSetNil && r.methodFn(e, o.target) != nil {
				gt := r.methodFn(e, o.target).Signature.Results().At(0).Type()
				after := r.under(o.get(o.target, o.st), o.g)
				if p.isContainer(gt) {
					ok := o.g == True
					for _, x := range r.unbox(after) {
						if x.t.op != "ctr" || r.nonEmptyCtr(x.t) != False {
							ok = false
						}
					}
					c.ob(r, key+"/empty collection", ok && len(after) > 0, pos, "after %s, %s() of %s is %s", o.label, o.target, e.name, r.printVal(after))
				} else if !isEmptyIface(o.fn.Signature.Params().At(0).Type()) { // nil is a value there: the YAML null
					bad := r.bdd.Diff(o.g, r.emptyState(after))
					c.ob(r, key+"/empty", bad == False, pos, "after %s, %s() of %s is %s", o.label, o.target, e.name, r.printVal(after))
				}
			}
			if o.kind != opRead && o.kind != opNew {
				nilObl := ""
				for _, ob := range r.obls {
					nilObl = ob.kind + " (" + ob.text + ") at " + p.pos(ob.pos) + " when " + r.bdd.String(ob.g)
				}
				c.ob(r, key+"/absent values skipped", nilObl == "", pos, "%s of %s: %s", o.label, e.name, nilObl)
			}
			c.used(r)
		}
	}
}

// checkC08: collections are mappings.
func checkC08(p *Prog, c *Check) {
	c.rule = "Every container the library creates in a constructor, setter, unsetter, reader, resolver or writer has its ordered flag set to false, constantly, on every path, by the time the operation ends or the container is encoded; no operation sets the flag of an existing container to anything else."
	c.floor = 600
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opNew, opSet, opSetNil, opUnset, opRead, opWrite) {
			c.flags(o.r, e.name+"/"+o.label, o.outs, o.st, o.g, o.fn.Pos())
			c.used(o.r)
		}
	}
	for _, rs := range p.resolverFns() {
		r, _, outs, g, st := rs.run(p)
		c.flags(r, rs.fn.Name(), outs, st, g, rs.fn.Pos())
		c.used(r)
	}
	for _, fn := range p.builders() {
		r := newFlow(p)
		outs, g, st := r.callFn(fn, nil, nil, True, State{}, fn.Pos())
		c.flags(r, fn.Name(), outs, st, g, fn.Pos())
		c.used(r)
	}
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		if outs, g, st, ok := ep.run(r); ok {
			c.flags(r, ep.name, outs, st, g, ep.fn.Pos())
			c.used(r)
		}
	}
}

// flags decides the ordered flag of every container of an analysis.
func (c *Check) flags(r *Flow, key string, outs []Val, st State, g B, ctrPos token.Pos) {
	var ctrs []*Term
	for _, t := range r.terms {
		if t.op == "ctr" {
			ctrs = append(ctrs, t)
		}
	}
	sortTerms(ctrs)
	isFalse := func(v Val, g B) bool {
		for _, x := range r.unbox(v) {
			if r.bdd.And(x.g, g) == False {
				continue
			}
			if x.t.op != "const" || x.t.cst.ExactString() != "false" {
				return false
			}
		}
		return true
	}
	live := r.liveCtrs(st, outs, g)
	for i, t := range ctrs {
		lg, isLive := live[t]
		if isLive {
			v := r.flag(st, t)
			c.ob(r, key+"/"+ordinal(i)+" new container", isFalse(v, r.bdd.And(g, lg)), ctrPos, "a container created by %s (%s) is written as an ordered sequence: its flag is %s", key, t.alloc, r.printVal(v))
		}
	}
	for _, ev := range r.log {
		if ev.recv == nil || r.bdd.And(ev.g, g) == False {
			continue
		}
		switch {
		case ev.kind == "encode" && ev.recv.op == "ctr" && len(ev.args) > 0:
			c.ob(r, key+"/encoded map", isFalse(ev.args[0], ev.g), ev.pos, "a map encoded by %s is written as an ordered sequence: its flag is %s", key, r.printVal(ev.args[0]))
		case ev.kind == "flag" && ev.recv.op != "ctr":
			c.ob(r, key+"/existing container", isFalse(ev.args[0], ev.g), ev.pos, "%s makes %s be written as an ordered sequence", key, r.print(ev.recv))
		}
	}
}

// liveCtrs are the new containers that something else refers to at the end.
func (r *Flow) liveCtrs(st State, outs []Val, g B) map[*Term]B {
	out := map[*Term]B{}
	add := func(v Val, g B) {
		for _, x := range r.unbox(v) {
			if x.t.op == "ctr" {
				if gg := r.bdd.And(x.g, g); gg != False {
					out[x.t] = r.bdd.Or(out[x.t], gg)
				}
			}
		}
	}
	for loc, v := range st {
		if loc.op == "ver" {
			continue
		}
		if loc.op == "faddr" || loc.op == "global" || loc.op == "eaddr" {
			add(v, True)
		}
	}
	for _, v := range outs {
		add(v, g)
	}
	for _, e := range r.log {
		switch e.kind {
		case "put", "replaceorput", "replaceifexists", "encodeval", "encodeTo":
			for _, a := range e.args {
				add(a, e.g)
			}
		}
	}
	return out
}

// checkC18: defaults of fresh elements.
func checkC18(p *Prog, c *Check) {
	c.rule = "For each element kind the constructor is analysed and every accessor is evaluated on its result; the answer is the constant of the RAML 1.0 table for facets with a default, and absent (empty option, nil, empty string, new empty container) for all others. The public builders return an element of the same implementation whose accessors answer the same."
	c.floor = 380
	for i := range specs {
		sp := &specs[i]
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		os := p.ops(e, opNew)
		if len(os) != 1 {
			c.noElement(p, e, sp)
			continue
		}
		o := os[0]
		c.freshElem(p, o, sp, sp.iface)
		c.used(o.r)
	}
	for _, fn := range p.builders() {
		n := namedOf(fn.Signature.Results().At(0).Type())
		if n == nil || specOf(n.Obj().Name()) == nil {
			continue
		}
		sp := specOf(n.Obj().Name())
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			continue
		}
		r := newFlow(p)
		outs, g, st := r.callFn(fn, nil, nil, True, State{}, fn.Pos())
		var root *Term
		if len(outs) == 1 {
			root = r.unbox(outs[0]).single()
		}
		ok := root != nil && root.op == "obj" && g == True && typeKey(root.typ) == typeKey(deref(e.typ))
		c.ob(r, fn.Name()+"/implementation", ok, fn.Pos(), "%s does not return a new %s", fn.Name(), sp.iface)
		if !ok {
			continue
		}
		r.roots[root] = true
		for _, x := range r.parts(root, st) {
			r.roots[x] = true
		}
		o := &op{kind: opNew, name: fn.Name(), label: fn.Name(), e: e, sp: sp, r: r, root: root, st: st, g: g, fn: fn}
		c.freshElem(p, o, sp, fn.Name())
		c.used(r)
	}
	c.emptyDocument(p)
}

// noElement decides on a constructor that has been found to yield no element.
func (c *Check) noElement(p *Prog, e *Elem, sp *elemSpec) {
	r := newFlow(p)
	outs, g, _ := r.callFn(e.ctor, nil, nil, True, State{}, e.ctor.Pos())
	if len(outs) == 1 {
		if none := r.bdd.And(g, r.nilGuard(outs[0])); none != False {
			c.ob(r, sp.iface+"/constructor", false, e.ctor.Pos(), "%s returns nil instead of a new %s when %s", e.ctor.Name(), sp.iface, r.bdd.String(none))
			return
		}
	}
	c.missing = append(c.missing, sp.iface+" constructor")
}

// emptyDocument decides that a parse function starts from a fresh element and,
// for a library, that a document with nothing in it leaves it at that.
func (c *Check) emptyDocument(p *Prog) {
	for _, ep := range p.entryPoints() {
		n := namedOf(ep.fn.Signature.Results().At(0).Type())
		if n == nil || specOf(n.Obj().Name()) == nil {
			continue
		}
		sp := specOf(n.Obj().Name())
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			continue
		}
		r := newFlow(p)
		outs, g, st, ok := ep.run(r)
		if !ok || len(outs) != 2 {
			continue
		}
		okG := r.bdd.And(g, r.nilGuard(outs[1]))
		root := r.unbox(r.under(outs[0], okG)).single()
		if root == nil || root.op != "obj" || typeKey(root.typ) != typeKey(deref(e.typ)) {
			c.open(ep.name+"/starting point", ep.name+" returns "+r.printVal(outs[0]))
			continue
		}
		r.roots[root] = true
		for _, x := range r.parts(root, st) {
			r.roots[x] = true
		}
		c.freshElem(p, &op{kind: opNew, name: ep.name, label: ep.name, e: e, sp: sp, r: r, root: root, st: st, g: g, fn: ep.fn}, sp, ep.name)
		if sp.iface != "Library" {
			c.used(r)
			continue
		}
		for _, f := range r.fails {
			if f.what != "decode" {
				continue
			}
			rej, told := r.bdd.Diff(f.g, okG), False
			for _, s := range append(r.bdd.Support(rej), r.bdd.Support(okG)...) {
				if strings.Contains(s, "io.EOF") {
					told = r.bdd.Or(told, r.bdd.atomByText(s))
				}
			}
			bad := rej
			if told != False {
				bad = r.bdd.And(rej, told)
			}
			c.ob(r, ep.name+"/empty document", bad == False, f.pos, "%s rejects an empty document (io.EOF) when %s", ep.name, r.bdd.String(bad))
		}
		c.used(r)
	}
}

// ramlDefaults are the defaults of RAML 1.0.
func ramlDefault(sp *elemSpec, f facet) (string, bool) {
	switch f.keys[0] {
	case "required", "strict", "additionalProperties":
		return "true", true
	case "uniqueItems":
		return "false", true
	case "minLength", "minItems":
		return "0", true
	case "maxItems":
		return "2147483647", true
	case "maxLength":
		if sp.iface == "FileType" {
			return "2147483647", true
		}
	case "type":
		if n, ok := typeNames[sp.iface]; ok {
			return `"` + n + `"`, true
		}
	}
	return "", false
}

// typeNames are the RAML names of the built-in types.
var typeNames = map[string]string{
	"AnyType": "any", "ArrayType": "array", "BoolType": "boolean", "DateOnlyType": "date-only", "DatetimeType": "datetime",
	"DatetimeOnlyType": "datetime-only", "FileType": "file", "IntegerType": "integer", "NumberType": "number", "ObjectType": "object",
	"StringType": "string", "TimeOnlyType": "time-only", "NilType": "nil",
}

func (c *Check) freshElem(p *Prog, o *op, sp *elemSpec, name string) {
	r := o.r
	pos := o.fn.Pos()
	for _, f := range sp.facets {
		v := o.get(f.getter, o.st)
		key := name + "/" + f.keys[0]
		b := r.bare(v).single()
		if want, ok := ramlDefault(sp, f); ok {
			got := b != nil && b.op == "const" && b.cst.ExactString() == want
			c.ob(r, key+"/default", got, pos, "%s() of a new %s is %s, the RAML default is %s", f.getter, sp.iface, r.printVal(v), want)
			continue
		}
		if f.keys[0] == "type" {
			continue // custom, union and included types have no name of their own
		}
		ok := r.emptyState(v) == True
		c.ob(r, key+"/unset", ok, pos, "%s() of a new %s is %s", f.getter, sp.iface, r.printVal(v))
	}
	for _, acc := range []string{sp.annots, sp.extra, sp.res} {
		if acc == "" {
			continue
		}
		v := r.unbox(o.get(acc, o.st)).single()
		c.ob(r, name+"/"+acc+"/empty", v != nil && v.op == "ctr" && r.nonEmptyCtr(v) == False, pos, "%s() of a new %s is no new empty container", acc, sp.iface)
	}
}
