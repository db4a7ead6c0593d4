package main

import (
	"sort"
)

// copied lists the containers whose every entry the writer copies into the map it
// encodes, by their printed name, and whether the copy is complete.
type bulkCopy struct {
	cont *Term
	ok   bool
	why  string
	ev   *Event
}

// bulk finds the copy of a container's entries in the writer.
func (w *writing) bulk(cont *Term) *bulkCopy {
	r := w.r
	if cont == nil {
		return nil
	}
	need := r.bdd.Diff(w.expanded(), r.absentG(r.one(cont)))
	var best *bulkCopy
	for _, e := range w.adds() {
		if e.kind != "put" && e.kind != "replaceorput" || !w.looped(e, nil) {
			continue
		}
		k := r.bare(e.args[0]).single()
		b := &bulkCopy{cont: cont, ev: e}
		if k == nil || k.op != "gen" || k.str != "ckey" || k.args[0].single() != cont {
			continue
		}
		good := true
		for _, c := range r.bare(e.args[1]) {
			if c.t.op != "gen" || c.t.str != "cval" || c.t.args[0].single() != cont || c.t.idx != k.idx {
				if r.bdd.And(c.g, e.g) != False {
					good = false
				}
			}
		}
		lc := k.loop
		switch {
		case !good:
			b.why = "the entries are copied with another value: " + r.printVal(e.args[1])
		case lc == nil || !lc.full:
			b.why = "the loop does not visit every entry"
		case lc.rev:
			b.why = "the entries are copied in reverse order"
		case !r.bdd.Implies(need, e.g):
			b.why = "the entries are not copied when " + r.bdd.String(r.bdd.Diff(need, e.g))
		default:
			b.ok = true
		}
		if best == nil || b.ok {
			best = b
		}
	}
	return best
}

// copiedNames lists the printed names of the completely copied containers.
func (w *writing) copiedNames() map[string]bool {
	out := map[string]bool{}
	for _, e := range w.adds() {
		if len(e.args) == 0 {
			continue
		}
		if k := w.r.bare(e.args[0]).single(); k != nil && k.op == "gen" && k.str == "ckey" {
			if c := k.args[0].single(); c != nil {
				if b := w.bulk(c); b != nil && b.ok {
					out[w.r.print(c)] = true
				}
			}
		}
	}
	return out
}

// checkC02: what is not recognised is kept.
func checkC02(p *Prog, c *Check) {
	c.rule = "Reader: for each element kind, the reader is analysed for entries whose key is none of the constants it compares with, an annotation, a resource, a non-string scalar, or a sequence or mapping; in addition for every constant it compares with that is not a facet of the RAML table. Such an entry is put, under its own key and with its own value node, into a container which the writer copies, always (complex keys: an error, always), and no accessor changes. Writer: every entry of the annotations, resources and extra facets is copied into the encoded map under its own key and with its own value by a loop that visits all of them, whenever the expanded form is written; nothing is removed from the encoded map."
	c.assume = append(c.assume, "ordered maps are faithful (C11, C12)", "an extra facet put through the API does not have the name of a recognised facet")
	c.floor = 300
	for i := range specs {
		sp := &specs[i]
		ws, err := p.writes(sp)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		copied := ws[0].copiedNames()
		for _, w := range ws {
			for n := range copied {
				// what a serialiser that is not understood copies is not known
				if !w.copiedNames()[n] && len(w.r.und) == 0 {
					delete(copied, n)
				}
			}
			c.copies(sp, w)
			c.used(w.r)
		}
		p.unknownKeys(sp, ws[0], copied, c)
	}
}

// copies decides that one of the serialisers copies the containers of an element.
func (c *Check) copies(sp *elemSpec, w *writing) {
	r := w.r
	for _, acc := range []string{sp.annots, sp.extra, sp.res} {
		if acc == "" {
			continue
		}
		v := r.bare(w.get(acc)).single()
		key := sp.iface + w.alt + "/" + acc + "/written"
		if v == nil {
			c.ob(r, key, false, w.pos, "%s() of %s is not one container: %s", acc, sp.iface, r.printVal(w.get(acc)))
			continue
		}
		b := w.bulk(v)
		why := "its entries are not copied into the output"
		pos := w.pos
		if b != nil {
			why = b.why
			pos = b.ev.pos
		}
		c.ob(r, key, b != nil && b.ok, pos, "the serialiser of %s loses %s(): %s", sp.iface, acc, why)
	}
	known := map[string]bool{}
	for _, f := range sp.facets {
		for _, k := range f.keys {
			known[k] = true
		}
	}
	for _, e := range w.adds() {
		bad := e.kind == "delete" || e.kind == "replaceifexists"
		if e.kind == "put" || e.kind == "replaceorput" {
			if k := r.keyOf(e.args[0]); k != nil {
				s, _ := constStr(r.one(k))
				bad = !known[s] && r.bdd.And(e.g, w.expanded()) != False
			}
		}
		if bad {
			c.ob(r, sp.iface+w.alt+"/"+r.printVal(e.args[0])+"/not foreign", false, e.pos, "the serialiser of %s does %s %s, which is no facet, on the encoded map", sp.iface, e.kind, r.printVal(e.args[0]))
		}
	}
	c.ob(r, sp.iface+w.alt+"/encoded map/not foreign", true, w.pos, "")
}

func (p *Prog) unknownKeys(sp *elemSpec, w *writing, copied map[string]bool, c *Check) {
	e := w.e
	known := map[string]bool{}
	for _, f := range sp.facets {
		for _, k := range f.keys {
			known[k] = true
		}
	}
	type job struct {
		k     *KeyPreset
		label string
	}
	jobs := []job{{&KeyPreset{"unknown", ""}, "unknown"}, {&KeyPreset{"scalar", ""}, "scalar"}, {&KeyPreset{"annotation", ""}, "annotation"}, {&KeyPreset{"complex", ""}, "complex"}, {&KeyPreset{"resource", ""}, "resource"}, {&KeyPreset{"const", ""}, "empty"}}
	done := map[string]bool{"": true}
	for i := 0; i < len(jobs); i++ {
		j := jobs[i]
		rd := p.read(sp, e, j.k, classes(cMap))
		if rd == nil {
			c.missing = append(c.missing, sp.iface+" reader")
			return
		}
		r := rd.r
		if len(w.r.und) > 0 { // what the serialiser copies is not known in full
			r.und["the serialiser of "+sp.iface+" is not understood"] = true
		}
		key := sp.iface + "/" + j.label
		var more []string
		for s := range r.keyCmp {
			if !known[s] && !done[s] {
				more = append(more, s)
				done[s] = true
			}
		}
		sort.Strings(more)
		for _, s := range more {
			jobs = append(jobs, job{&KeyPreset{"const", s}, "key " + s})
		}
		c.used(r)
		if j.k.kind == "complex" {
			c.ob(r, key+"/reported", rd.ok == False, rd.where(), "a facet of %s with a sequence or mapping key is accepted and dropped when %s", sp.iface, r.bdd.String(rd.ok))
			continue
		}
		ns := rd.valNodes()
		// the puts of this entry
		target := sp.extra
		switch {
		case j.k.kind == "annotation" && sp.annots != "":
			target = sp.annots
		case j.k.kind == "resource" && sp.res != "":
			target = sp.res
		}
		m := &match{rd: rd, f: facet{shape: shNodeMap}}
		stored, mine := False, map[*Event]bool{}
		for _, ev := range r.log {
			if ev.kind != "put" && ev.kind != "replaceorput" || ev.recv == nil {
				continue
			}
			name := r.print(ev.recv)
			if !copied[name] {
				continue
			}
			if target != "" {
				if t := r.bare(rd.was(target)).single(); t == nil || t != ev.recv {
					m.no("it is put into %s instead of %s()", name, target)
					continue
				}
			}
			var kn *Term
			kt := r.bare(ev.args[0])
			for _, k := range r.gens("key", rd.doc) {
				good := len(kt) > 0
				for _, x := range kt {
					if !isText(x.t, k) && !r.decodedKey(x.t, k, r.bdd.And(x.g, ev.g)) && !(j.k.kind == "const" && isStr(x.t, j.k.text)) && r.bdd.And(x.g, ev.g) != False {
						good = false
					}
				}
				if good {
					kn = k
				}
			}
			if kn == nil {
				m.no("it is put under the key %s", r.printVal(ev.args[0]))
				continue
			}
			if kn.loop == nil || !kn.loop.full || kn.loop.rev {
				m.no("the loop does not visit every entry in order")
				continue
			}
			var n *Term
			for _, x := range ns {
				if x.idx == kn.idx {
					n = x
				}
			}
			if n == nil {
				m.no("its value is not looked at")
				continue
			}
			ann := j.k.kind == "annotation" && sp.annots != ""
			good := m.cases(ev.args[1], ev.g, "the value stored", func(t *Term, g B) bool {
				if t == n {
					return true
				}
				if ann && t.op == "ctr" {
					return m.filled(t, n, r.bdd.And(g, rd.ok), func(x, e *Term, _ B) bool { return x == e })
				}
				return false
			})
			if good {
				stored = r.bdd.Or(stored, ev.g)
				mine[ev] = true
			}
		}
		some := True
		for _, k := range r.gens("key", rd.doc) {
			if k.loop != nil && k.loop.coll != nil {
				some = r.bdd.And(some, r.bdd.Not(r.emptyGuard(r.one(k.loop.coll))))
			}
		}
		lost := r.bdd.Diff(r.bdd.And(rd.ok, some), stored)
		c.ob(r, key+"/kept", lost == False, rd.where(), "an entry of %s with %s is not kept when %s: %s", sp.iface, j.k.String(), r.bdd.String(lost), m.why)
		// acceptance
		acc := rd.g
		if j.k.kind == "annotation" && sp.annots != "" {
			acc = False
			for _, n := range ns {
				g := r.cls(n, classes(cMap))
				for _, x := range r.gens("key", n) {
					g = r.bdd.And(g, r.cls(x, classes(cStr)))
				}
				acc = r.bdd.Or(acc, g)
			}
		}
		rej := r.bdd.Diff(acc, rd.ok)
		c.ob(r, key+"/accepted", rej == False, rd.where(), "an entry of %s with %s is rejected when %s", sp.iface, j.k.String(), r.bdd.String(rej))
		for _, f := range sp.facets {
			a, b := rd.get(f.getter), r.under(rd.was(f.getter), rd.ok)
			c.ob(r, key+"/"+f.getter+" unchanged", r.eqUnder(a, b, rd.ok), rd.where(), "reading an entry of %s with %s changes %s(): %s", sp.iface, j.k.String(), f.getter, r.printVal(a))
		}
		for _, acc := range []string{sp.annots, sp.extra, sp.res} {
			if acc == "" {
				continue
			}
			a, b := rd.get(acc), r.under(rd.was(acc), rd.ok)
			c.ob(r, key+"/"+acc+" unchanged", r.eqUnder(a, b, rd.ok), rd.where(), "reading an entry of %s with %s replaces %s(): %s", sp.iface, j.k.String(), acc, r.printVal(a))
		}
		for _, ev := range r.log {
			if !changes(ev) && (ev.kind != "elemset" || newSlice(ev.recv)) || mine[ev] || rd.puts[ev] || r.bdd.And(ev.g, rd.ok) == False || ev.kind == "read" {
				continue
			}
			if ev.recv != nil && r.fresh(ev.recv) && !r.roots[rootOf(ev.recv)] {
				continue
			}
			c.ob(r, key+"/no other effect", false, ev.pos, "reading an entry of %s with %s also does %s on %s", sp.iface, j.k.String(), ev.kind, printRecv(r, ev))
		}
		c.ob(r, key+"/no other effect", true, rd.pos, "")
	}
}

// decodedKey reports whether t is what the scalar k stands for, under g.
func (r *Flow) decodedKey(t, k *Term, g B) bool {
	is := func(c int) bool { return r.bdd.Implies(g, r.cls(k, classes(c))) }
	if t.op == "nil" {
		return is(cNull)
	}
	if t.op != "app" || len(t.args) == 0 {
		return false
	}
	in := t.args[0].single()
	if in == nil {
		return false
	}
	switch t.str {
	case "decode:any":
		return in == k
	case "conv:int", "conv:int64":
		return r.decodedKey(in, k, g)
	case "parsebool":
		return isText(in, k) && is(cBool)
	case "parseint":
		return isText(in, k) && is(cInt)
	case "parsefloat":
		return isText(in, k) && is(cFloat)
	}
	return false
}
