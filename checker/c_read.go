package main

import (
	"strings"
)

// facetNode analyses one facet with one of its names.
func eachFacet(p *Prog, c *Check, fn func(sp *elemSpec, e *Elem, f facet, k string, rd *reading)) {
	for i := range specs {
		sp := &specs[i]
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		for _, f := range sp.facets {
			for _, k := range f.keys {
				rd := p.read(sp, e, &KeyPreset{"const", k}, classes(cMap))
				if rd == nil {
					c.missing = append(c.missing, sp.iface+" reader")
					continue
				}
				fn(sp, e, f, k, rd)
				c.used(rd.r)
			}
		}
	}
}

// checkC04: a parsed facet is visible.
func checkC04(p *Prog, c *Check) {
	c.rule = "For each element kind and each facet of the RAML table, the reader is analysed for a document whose generic entry has that key (value node unknown, prior element state unknown). Where it returns no error, the facet's accessor reports the value of the node as the table's shape prescribes (for collections: one entry per YAML entry, in order, with its own key); all other accessors report what they did before and no other container is touched; a node of an accepted class that no nested reader rejects is accepted. A format read from a node holds the text of the node."
	c.assume = append(c.assume, "xyml's node helpers and yaml.v3 behave as documented", "ordered maps are faithful (C11)")
	c.floor = 900
	p.textReaders(c, false)
	eachFacet(p, c, func(sp *elemSpec, e *Elem, f facet, k string, rd *reading) {
		r := rd.r
		key := sp.iface + "/" + k
		ns := rd.valNodes()
		if rd.ok == False {
			c.ob(r, key+"/accepted", false, rd.pos, "reading %q of %s always fails: %s", k, sp.iface, r.printVal(rd.outs[0]))
			return
		}
		if len(ns) == 0 {
			c.ob(r, key+"/value", false, rd.pos, "the value of %q is never looked at", k)
			return
		}
		// any of the loops over the document may be the one that stores it
		best := &match{rd: rd, f: f}
		v, was := rd.get(f.getter), rd.was(f.getter)
		hit := false
		var node = ns[0]
		for _, n := range ns {
			m := &match{rd: rd, f: f}
			if m.value(v, n, was) {
				hit, node = true, n
				break
			}
			if best.why == "" {
				best = m
			}
		}
		c.ob(r, key+"/value", hit, rd.where(), "after reading %q, %s() of %s is %s: %s", k, f.getter, sp.iface, cut(r.printVal(v), 300), cut(best.why, 500))
		// nothing else changes
		same := map[string]bool{f.getter: true}
		for _, g := range sp.facets {
			if g.getter == f.getter {
				same[g.keys[0]] = true
			}
		}
		names := map[string]bool{}
		for _, g := range sp.facets {
			names[g.getter] = true
		}
		for _, m := range e.getters() {
			names[m.Name()] = true
		}
		for g := range names {
			if g == f.getter || aliasGetter(g) == aliasGetter(f.getter) {
				continue
			}
			a, b := rd.get(g), r.under(rd.was(g), rd.ok)
			c.ob(r, key+"/"+g+" unchanged", r.eqUnder(a, b, rd.ok), rd.where(), "reading %q of %s changes %s(): %s", k, sp.iface, g, r.printVal(a))
		}
		if hit {
			for _, ev := range r.log {
				if !changes(ev) && (ev.kind != "elemset" || newSlice(ev.recv)) || rd.puts[ev] || r.bdd.And(ev.g, rd.ok) == False {
					continue
				}
				if ev.recv != nil && r.fresh(ev.recv) && !r.roots[rootOf(ev.recv)] {
					continue
				}
				c.ob(r, key+"/no other effect", false, ev.pos, "reading %q of %s also does %s on %s", k, sp.iface, ev.kind, printRecv(r, ev))
			}
			c.ob(r, key+"/no other effect", true, rd.pos, "")
		}
		// acceptance
		switch f.shape {
		case shIntFmt, shNumFmt, shDateFmt:
			return
		}
		acc := rd.accepted(f, node)
		if f.shape == shUint || f.shape == shOptUint {
			acc = r.bdd.And(acc, nonNegative(r, node))
		}
		rej := r.bdd.Diff(acc, rd.ok)
		c.ob(r, key+"/accepted", rej == False, rd.where(), "an acceptable value of %q of %s is rejected when %s", k, sp.iface, r.bdd.String(rej))
	})
}

// accepted is the guard of the value node (and its entries) having an accepted
// class and nothing nested failing.
func (rd *reading) accepted(f facet, n *Term) B {
	r := rd.r
	g := r.bdd.And(rd.g, r.cls(n, acceptClasses(f.shape)))
	ec := entryClasses(f.shape)
	for _, what := range []string{"elem", "val"} {
		for _, x := range r.gens(what, n) {
			seq := True
			if f.shape == shStrsOr {
				seq = r.cls(n, classes(cSeq))
			}
			g = r.bdd.And(g, r.bdd.Or(r.bdd.Not(seq), r.cls(x, ec)))
		}
	}
	for _, x := range r.gens("key", n) {
		g = r.bdd.And(g, r.cls(x, classes(cStr)))
		// keys of nested mappings
	}
	for _, x := range r.gens("val", n) {
		for _, y := range r.gens("key", x) {
			g = r.bdd.And(g, r.cls(y, classes(cStr)))
		}
	}
	for _, fl := range r.fails {
		if strings.HasPrefix(fl.what, "xyml.") && !strings.HasSuffix(fl.what, ":text") {
			continue // because of the class: that is what is to be decided
		}
		g = r.bdd.And(g, r.bdd.Not(fl.g))
	}
	return g
}

func printRecv(r *Flow, ev *Event) string {
	s := ""
	if ev.recv != nil {
		s = r.print(ev.recv)
	}
	if len(ev.args) > 0 {
		s += " " + r.printVal(ev.args[0])
	}
	return cut(s, 200)
}

// aliasGetter maps accessors that are documented to be the same to one name.
func aliasGetter(s string) string {
	switch s {
	case "Schema":
		return "Type"
	case "Schemas":
		return "Types"
	}
	return s
}

// nonNegative is the guard of the integers parsed from a node not being negative.
func nonNegative(r *Flow, n *Term) B {
	g := True
	for _, t := range r.terms {
		if isApp(t, "parseint") && len(t.args) > 0 {
			if x := t.args[0].single(); x != nil && isText(x, n) {
				g = r.bdd.And(g, r.bdd.Not(r.ltConst(t, 0)))
			}
		}
	}
	return g
}
