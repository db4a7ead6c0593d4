package main

import (
	"go/types"
	"strings"
)

// presence splits an accessor's answer into the guard under which the element has
// a value to write, given what a fresh element reports.
func (w *writing) lossless(getter string, v Val, def *Term) B {
	r := w.r
	g := r.absentG(v)
	if def != nil {
		bv := r.bare(v)
		d := r.intern(Term{op: "const", cst: def.cst, typ: types.Typ[types.Invalid]})
		g = r.bdd.Or(g, r.eq(bv, r.one(d)))
	}
	return g
}

// checkC01: every facet is written back.
func checkC01(p *Prog, c *Check) {
	c.rule = "For each element kind, the guarded value-flow of its serialiser is computed for an arbitrary element. For each facet of the RAML table and the accessor that reports it: wherever the map that is encoded ends up with an entry under the facet's name, its value is the accessor's value; wherever a result is returned without error and without such an entry, the accessor's value is absent, empty or the fresh element's default. Guards are compared as Boolean functions over the branch conditions of the code, so every state of the element is covered; no path is executed. Each of ToYAML, MarshalYAML and ToRAML is held to this, and the text that ToRAML returns is the encoding of that map or value. String, ToYAML and MarshalYAML of the formats give their text."
	c.assume = append(c.assume, "ordered maps write their entries faithfully (C11, C12)", "accessors report what was read (C04)", "xyml.ToYamlNode and yaml.v3 encode values faithfully")
	c.floor = 700
	p.textWriters(c)
	for i := range specs {
		sp := &specs[i]
		ws, err := p.writes(sp)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		for _, w := range ws {
			c.written(p, sp, w)
			c.ob(w.r, sp.iface+w.alt+"/encoding", w.text == "", w.pos, "%s of %s returns a text that is no encoding of the element: %s", w.name, sp.iface, w.text)
			if w.odd {
				c.open(sp.iface+w.alt+"/form", "the form of the result of "+w.name+" is not understood")
			}
			c.used(w.r)
		}
	}
}

// written decides that one of the serialisers writes each facet.
func (c *Check) written(p *Prog, sp *elemSpec, w *writing) {
	var names []string
	for _, f := range sp.facets {
		names = append(names, f.getter)
	}
	def := p.defaults(w.e, names)
	exp := w.expanded()
	r := w.r
	for _, f := range sp.facets {
		key := sp.iface + w.alt + "/" + f.keys[0]
		if r.methodFn(w.e, f.getter) == nil {
			c.missing = append(c.missing, sp.iface+"."+f.getter)
			continue
		}
		want := w.get(f.getter)
		var all, got Val
		pos := w.pos
		for i, k := range f.keys {
			v, ps := w.entry(k)
			if i == 0 || len(all) == 0 {
				pos = ps
			}
			if len(v) > 0 {
				pos = ps
			}
			all = r.union(all, v)
			got = r.union(got, r.under(v, r.bdd.Not(r.defined(got))))
		}
		d := r.bdd.And(r.defined(got), exp)
		if f.shape == shInclude {
			got = w.includeText(got)
		}
		a, b := r.under(r.followed(w.st, got), d), r.under(r.followed(w.st, want), d)
		ok := r.sameUnder(a, b, d)
		c.ob(r, key+"/written value", ok, pos, "the serialiser of %s writes %q as %s but %s() is %s", sp.iface, f.keys[0], r.printVal(a), f.getter, r.printVal(b))
		lost := r.bdd.And(r.bdd.Diff(exp, r.defined(all)), r.bdd.Not(w.lossless(f.getter, want, def[f.getter])))
		c.ob(r, key+"/not omitted", lost == False, pos, "the serialiser of %s leaves %q out although %s() has a value, when %s", sp.iface, f.keys[0], f.getter, r.bdd.String(lost))
	}
}

// sameUnder compares two values under a guard; an absent value is equal to an
// empty one.
func (r *Flow) sameUnder(a, b Val, g B) bool {
	if r.eqUnder(a, b, g) {
		return true
	}
	for _, x := range a {
		for _, y := range b {
			gg := r.bdd.AndAll(g, x.g, y.g)
			if gg == False || x.t == y.t {
				continue
			}
			// both absent
			ax, ay := r.absentG(r.one(x.t)), r.absentG(r.one(y.t))
			if r.bdd.Implies(gg, r.bdd.And(ax, ay)) {
				continue
			}
			if r.bdd.Implies(gg, r.eq(r.one(x.t), r.one(y.t))) {
				continue
			}
			return false
		}
	}
	return r.bdd.Implies(g, r.bdd.And(r.defined(a), r.defined(b)))
}

// includeText is the path of a locally built !include node.
func (w *writing) includeText(v Val) Val {
	r := w.r
	return r.lift(r.bare(v), func(t *Term, _ B) Val {
		if t.op != "obj" || !isNode(t.typ) {
			return r.one(t)
		}
		s, ok := t.typ.Underlying().(*types.Struct)
		if !ok {
			return r.one(t)
		}
		var text Val
		good := true
		for i := 0; i < s.NumFields(); i++ {
			loc := r.faddr(t, i, types.NewPointer(s.Field(i).Type()))
			fv := r.load(w.st, loc, s.Field(i).Type())
			switch s.Field(i).Name() {
			case "Kind":
				k := fv.single()
				n, ok := int64(0), false
				if k != nil && k.op == "const" {
					n, ok = int64Val(k.cst)
				}
				good = good && ok && n == 8
			case "Tag":
				tg, ok := constStr(fv)
				good = good && ok && tg == "!include"
			case "Value":
				text = fv
			}
		}
		if !good || len(text) == 0 {
			return r.one(t)
		}
		return text
	})
}

// checkC19: the short form.
func checkC19(p *Prog, c *Check) {
	c.rule = "For each type and example the guard under which the serialiser returns the short form is compared with the accessors: under it every facet but the short one is absent or has its default, the annotations and extra facets are empty, and the encoded value is the short facet's. Reading a document that is not a mapping stores exactly that value."
	c.assume = append(c.assume, "ordered maps are faithful (C11, C12)")
	c.floor = 150
	for i := range specs {
		sp := &specs[i]
		if sp.short == "" {
			continue
		}
		ws, err := p.writes(sp)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		for _, w := range ws {
			c.shortForm(p, sp, w)
			c.used(w.r)
		}
		p.shortRead(sp, c)
	}
}

// shortForm decides when one of the serialisers may use the short form.
func (c *Check) shortForm(p *Prog, sp *elemSpec, w *writing) {
	var names []string
	for _, f := range sp.facets {
		names = append(names, f.getter)
	}
	def := p.defaults(w.e, names)
	sh := w.short()
	r := w.r
	pos := w.pos
	for _, f := range sp.facets {
		want := w.get(f.getter)
		key := sp.iface + w.alt + "/" + f.keys[0] + "/short form"
		if f.keys[0] == sp.short {
			got := w.shortVal()
			if f.shape == shInclude {
				got = w.includeText(got)
			}
			a, b := r.under(r.followed(w.st, got), sh), r.under(r.followed(w.st, want), sh)
			c.ob(r, key, r.sameUnder(a, b, sh), pos, "the short form of %s is %s but %s() is %s", sp.iface, r.printVal(a), f.getter, r.printVal(b))
			continue
		}
		lost := r.bdd.Diff(sh, w.lossless(f.getter, want, def[f.getter]))
		c.ob(r, key, lost == False, pos, "%s is written in short form although %s() has a value, when %s", sp.iface, f.getter, r.bdd.String(lost))
	}
	for _, acc := range []string{sp.annots, sp.extra} {
		if acc == "" {
			continue
		}
		lost := r.bdd.Diff(sh, r.absentG(w.get(acc)))
		c.ob(r, sp.iface+w.alt+"/"+acc+"/short form", lost == False, pos, "%s is written in short form although it has %s, when %s", sp.iface, acc, r.bdd.String(lost))
	}
}

// shortRead: reading the short form.
func (p *Prog) shortRead(sp *elemSpec, c *Check) {
	e, err := p.element(sp.iface, sp.kind)
	if err != nil {
		return
	}
	var sf facet
	for _, f := range sp.facets {
		if f.keys[0] == sp.short {
			sf = f
		}
	}
	cs := acceptClasses(sf.shape)
	if !sp.example {
		cs = classes(cStr)
		if sf.shape == shInclude {
			cs = classes(cStr, cInclude)
		}
	} else {
		cs &^= classes(cMap)
	}
	rd := p.read(sp, e, nil, cs)
	if rd == nil {
		c.missing = append(c.missing, sp.iface+" reader")
		return
	}
	rd.checkValue(c, sf, rd.doc, sp.iface+"/"+sf.keys[0]+"/short form read")
	c.used(rd.r)
}

func checkSkip(s string) bool { return strings.HasPrefix(s, "-") }
