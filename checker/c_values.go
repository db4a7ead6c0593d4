package main

import (
	"go/types"
	"strings"
)

// checkC09: malformed values are reported.
func checkC09(p *Prog, c *Check) {
	c.rule = "Reader: for each element kind and facet, wherever the reader returns no error, the value node (and every entry of a collection facet, and every key of a map facet) is of a class the RAML table allows; a document of a kind the element cannot be read from is an error. Every operation that can fail (nested readers, type resolution, callbacks, decoding, encoding, output), in every reader, writer, resolver and parse entry point, makes the result an error whenever it fails; the parse functions return no document then."
	c.assume = append(c.assume, "xyml's node helpers report wrong kinds", "an empty library document (io.EOF) is an empty library")
	c.floor = 450
	p.textReaders(c, true)
	eachFacet(p, c, func(sp *elemSpec, e *Elem, f facet, k string, rd *reading) {
		r := rd.r
		key := sp.iface + "/" + k
		ns := rd.valNodes()
		bad := rd.ok
		for _, n := range ns {
			bad = r.bdd.Diff(bad, r.cls(n, acceptClasses(f.shape)))
		}
		if acceptClasses(f.shape) != allClasses {
			c.ob(r, key+"/kind of value", bad == False, rd.where(), "%q of %s accepts a value when %s", k, sp.iface, r.bdd.String(bad))
		}
		for _, n := range ns {
			for _, what := range []string{"elem", "val"} {
				for _, x := range r.gens(what, n) {
					if ec := entryClasses(f.shape); ec != allClasses {
						b := r.bdd.Diff(r.bdd.And(rd.ok, r.bdd.Not(r.emptyGuard(r.one(r.app("content", nil, r.one(n)))))), r.cls(x, ec))
						if f.shape == shStrsOr {
							b = r.bdd.And(b, r.cls(n, classes(cSeq)))
						}
						c.ob(r, key+"/kind of entry", b == False, rd.where(), "an entry of %q of %s is accepted when %s", k, sp.iface, r.bdd.String(b))
					}
				}
			}
			for _, x := range r.gens("key", n) {
				b := r.bdd.AndAll(rd.ok, r.cls(x, classes(cMap, cSeq)), r.bdd.Not(r.emptyGuard(r.one(r.app("content", nil, r.one(n))))))
				c.ob(r, key+"/kind of key", b == False, rd.where(), "an entry of %q of %s with a sequence or mapping key is accepted when %s", k, sp.iface, r.bdd.String(b))
			}
		}
		c.propagates(r, key, rd.ok)
	})
	for i := range specs {
		sp := &specs[i]
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			continue
		}
		for _, k := range []string{"unknown", "annotation", "resource", "scalar", "complex"} {
			rd := p.read(sp, e, &KeyPreset{k, ""}, classes(cMap))
			if rd == nil {
				continue
			}
			c.propagates(rd.r, sp.iface+"/"+k, rd.ok)
			c.used(rd.r)
		}
		// documents that are not mappings
		rd := p.read(sp, e, nil, allClasses&^classes(cMap, cAlias))
		if rd == nil {
			continue
		}
		r := rd.r
		var acc classSet
		switch {
		case sp.example:
			for _, f := range sp.facets {
				if f.keys[0] == sp.short {
					acc = acceptClasses(f.shape)
				}
			}
		case sp.short != "":
			// the resolver only hands scalars to types
			acc = scalarClasses
		}
		b := r.bdd.Diff(rd.ok, r.cls(rd.doc, acc))
		c.ob(r, sp.iface+"/not a mapping/kind of document", b == False, rd.pos, "%s accepts a document when %s", sp.iface, r.bdd.String(b))
		if sp.example {
			// entries of a bare sequence
			for _, f := range sp.facets {
				if f.keys[0] != sp.short {
					continue
				}
				for _, x := range r.gens("elem", rd.doc) {
					if ec := entryClasses(f.shape); ec != allClasses {
						b := r.bdd.Diff(r.bdd.And(rd.ok, r.bdd.Not(r.emptyGuard(r.one(r.app("content", nil, r.one(rd.doc)))))), r.cls(x, ec))
						c.ob(r, sp.iface+"/not a mapping/kind of entry", b == False, rd.pos, "%s accepts an entry when %s", sp.iface, r.bdd.String(b))
					}
				}
			}
		}
		c.propagates(r, sp.iface+"/not a mapping", rd.ok)
		c.used(r)
		// the writer
		if w, err := p.write(sp); err == nil {
			c.propagates(w.r, sp.iface+"/writer", w.ok)
			c.used(w.r)
		} else {
			c.missing = append(c.missing, err.Error())
		}
	}
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opWrite) {
			if n := len(o.outs); n > 0 && isErrType(o.fn.Signature.Results().At(n-1).Type()) {
				c.propagates(o.r, e.name+"/"+o.label, o.r.bdd.And(o.g, o.r.nilGuard(o.outs[n-1])))
				c.used(o.r)
			}
		}
	}
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		outs, g, _, ok := ep.run(r)
		if !ok {
			c.missing = append(c.missing, ep.name)
			continue
		}
		last := outs[len(outs)-1]
		okG := r.bdd.And(g, r.nilGuard(last))
		c.propagates(r, ep.name, okG)
		if len(outs) == 2 {
			bad := r.bdd.Diff(r.bdd.Diff(g, okG), r.nilGuard(outs[0]))
			c.ob(r, ep.name+"/no document with an error", bad == False, ep.fn.Pos(), "%s returns a document together with an error when %s", ep.name, r.bdd.String(bad))
			miss := r.bdd.And(okG, r.nilGuard(outs[0]))
			c.ob(r, ep.name+"/document without error", miss == False, ep.fn.Pos(), "%s returns neither a document nor an error when %s", ep.name, r.bdd.String(miss))
		}
		c.used(r)
	}
	for _, rs := range p.resolverFns() {
		r, decl, outs, g, _ := rs.run(p)
		if len(outs) != 2 {
			continue
		}
		okG := r.bdd.And(g, r.nilGuard(outs[1]))
		c.propagates(r, rs.fn.Name(), okG)
		none := r.bdd.And(okG, r.nilGuard(outs[0]))
		c.ob(r, rs.fn.Name()+"/declaration or error", none == False, rs.fn.Pos(), "%s returns neither a declaration nor an error when %s", rs.fn.Name(), r.bdd.String(none))
		if b := r.bdd.And(okG, r.cls(decl, rs.cs&classes(cInt, cFloat, cBool, cTime, cBin))); rs.cs != 0 {
			c.ob(r, rs.fn.Name()+"/kind of declaration", b == False, rs.fn.Pos(), "%s accepts a declaration that is a number, a truth value, a date or binary data when %s", rs.fn.Name(), r.bdd.String(b))
		}
		c.used(r)
	}
}

// propagates decides that no failure is swallowed.
func (c *Check) propagates(r *Flow, key string, ok B) {
	c.ob(r, key+"/errors", true, 0, "")
	for _, f := range r.fails {
		if strings.HasPrefix(f.what, "xyml.") {
			continue // a kind test; what it leads to is decided by class
		}
		b := r.bdd.And(ok, f.g)
		if b != False && f.what == "decode" {
			b = r.withoutEOF(b)
		}
		c.ob(r, key+"/"+f.what+" error", b == False, f.pos, "no error is returned although %s fails, when %s", f.what, r.bdd.String(b))
	}
}

// withoutEOF removes the case of the error being io.EOF.
func (r *Flow) withoutEOF(b B) B {
	for _, s := range r.bdd.Support(b) {
		if strings.Contains(s, "io.EOF") {
			b = r.bdd.Diff(b, r.bdd.atomByText(s))
		}
	}
	return b
}

// checkC10: numbers.
func checkC10(p *Prog, c *Check) {
	c.rule = "For each numeric facet the value the accessor reports after reading is traced back to the text of the node: integers through a decimal parse at 64 bits and conversions that keep all 64 bits, numbers through a 64-bit float parse (integer and float literals alike). Unsigned facets: no success for a negative value, no rejection of a non-negative one."
	c.assume = append(c.assume, "strconv parses exactly")
	c.floor = 45
	eachFacet(p, c, func(sp *elemSpec, e *Elem, f facet, k string, rd *reading) {
		r := rd.r
		key := sp.iface + "/" + k
		var isInt bool
		switch f.shape {
		case shUint, shOptUint, shOptInt, shInts:
			isInt = true
		case shOptNum, shNums:
		default:
			return
		}
		c.numeric(rd, f, key, isInt)
		if f.shape == shUint || f.shape == shOptUint {
			for _, n := range rd.valNodes() {
				neg := r.bdd.And(rd.ok, r.bdd.Not(nonNegative(r, n)))
				c.ob(r, key+"/negative rejected", neg == False, rd.where(), "%q of %s accepts a negative value", k, sp.iface)
			}
		}
		if n := rd.valNodes(); len(n) > 0 {
			acc := rd.accepted(f, n[0])
			if f.shape == shUint || f.shape == shOptUint {
				acc = r.bdd.And(acc, nonNegative(r, n[0]))
			}
			rej := r.bdd.Diff(acc, rd.ok)
			c.ob(r, key+"/accepted", rej == False, rd.where(), "%q of %s rejects an acceptable number when %s", k, sp.iface, r.bdd.String(rej))
		}
	})
	// short forms
	for i := range specs {
		sp := &specs[i]
		if !sp.example {
			continue
		}
		for _, f := range sp.facets {
			if f.keys[0] != sp.short || f.shape != shOptInt && f.shape != shOptNum {
				continue
			}
			e, err := p.element(sp.iface, sp.kind)
			if err != nil {
				continue
			}
			rd := p.read(sp, e, nil, acceptClasses(f.shape))
			if rd == nil {
				continue
			}
			c.numeric(rd, f, sp.iface+"/short form", f.shape == shOptInt)
			c.used(rd.r)
		}
	}
}

// numeric decides that an accessor's answer is an exact parse.
func (c *Check) numeric(rd *reading, f facet, key string, isInt bool) {
	r := rd.r
	v := r.bare(rd.get(f.getter))
	var leaves []*Term
	var walk func(v Val, d int)
	walk = func(v Val, d int) {
		for _, x := range r.bare(v) {
			if r.bdd.And(x.g, rd.ok) == False {
				continue
			}
			switch {
			case isApp(x.t, "append") && d < 3:
				walk(r.under(x.t.args[1], r.bdd.And(x.g, rd.ok)), d+1)
			case x.t.op == "lit" && d < 3:
				for _, a := range x.t.args {
					walk(r.under(a, r.bdd.And(x.g, rd.ok)), d+1)
				}
			case isApp(x.t, "made"):
				for loc, ev := range rd.st {
					if loc.op == "eaddr" && loc.args[0].single() == x.t {
						walk(r.under(ev, rd.ok), d+1)
					}
				}
			default:
				leaves = append(leaves, x.t)
			}
		}
	}
	walk(v, 0)
	ok, why := len(leaves) > 0, "nothing is stored"
	for _, t := range leaves {
		if w := r.exactNum(t, isInt); w != "" {
			ok, why = false, w
		}
	}
	c.ob(r, key+"/exact", ok, rd.where(), "%s() of %s is not the exact number: %s", f.getter, rd.sp.iface, why)
}

// exactNum says what makes a parsed number inexact.
func (r *Flow) exactNum(t *Term, isInt bool) string {
	full := r.print(t)
	for t.op == "app" && strings.HasPrefix(t.str, "conv:") {
		b, _ := t.typ.Underlying().(*types.Basic)
		if b == nil {
			return full
		}
		if isInt {
			if b.Info()&types.IsInteger == 0 || width(b) < 64 {
				return full + " is narrowed to " + b.Name()
			}
		} else if b.Kind() == types.Float32 {
			return full + " is narrowed to float32"
		} else if b.Info()&types.IsFloat == 0 && width(b) < 64 {
			return full + " is narrowed to " + b.Name()
		}
		x := t.args[0].single()
		if x == nil {
			return full
		}
		t = x
	}
	switch {
	case isApp(t, "parseint"):
		for i, a := range t.args[1:] {
			x := a.single()
			n, ok := int64(0), false
			if x != nil && x.op == "const" {
				n, ok = int64Val(x.cst)
			}
			if i == 0 && (!ok || n != 10 && n != 0) {
				return full + " is not parsed as a decimal number"
			}
			if i == 1 && (!ok || n != 64) {
				return full + " is not parsed at 64 bits"
			}
		}
		return ""
	case isApp(t, "parsefloat") && !isInt:
		for _, a := range t.args[1:] {
			x := a.single()
			n, ok := int64(0), false
			if x != nil && x.op == "const" {
				n, ok = int64Val(x.cst)
			}
			if !ok || n != 64 {
				return full + " is not parsed at 64 bits"
			}
		}
		return ""
	}
	return full + " is no parsed number"
}
