package main

// The reader of an element, analysed for one kind of map entry at a time, and the
// comparison of what an accessor reports afterwards with what the entry's value
// means for a facet of a given shape.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type reading struct {
	sp     *elemSpec
	e      *Elem
	r      *Flow
	root   *Term
	doc    *Term
	preset *KeyPreset
	outs   []Val
	g      B
	st     State
	ok     B // no error returned
	before map[string]Val
	pos    token.Pos
	puts   map[*Event]bool // events that belong to the facet
}

// read analyses reading a document of the given classes; if it is a mapping, each
// of its entries has a key as given by preset.
func (p *Prog) read(sp *elemSpec, e *Elem, preset *KeyPreset, cs classSet) *reading {
	return p.readWith(sp, e, preset, cs, nil)
}

func (p *Prog) readWith(sp *elemSpec, e *Elem, preset *KeyPreset, cs classSet, prep func(r *Flow)) *reading {
	r := newFlow(p)
	if prep != nil {
		prep(r)
	}
	root, ok := r.enter(e)
	name := sp.reader
	if r.methodFn(e, name) == nil {
		for _, alt := range []string{"UnmarshalRAML", "UnmarshalYAML"} {
			if r.methodFn(e, alt) != nil {
				name = alt
				break
			}
		}
	}
	fn := r.methodFn(e, name)
	if !ok || fn == nil || fn.Signature.Params().Len() != 1 || !isNodePtr(fn.Signature.Params().At(0).Type()) {
		return nil
	}
	rd := &reading{sp: sp, e: e, r: r, root: root, preset: preset, pos: fn.Pos(), before: map[string]Val{}, puts: map[*Event]bool{}}
	rd.doc = r.sym("doc", fn.Signature.Params().At(0).Type())
	r.nonnil[rd.doc] = true
	r.clsFixSet[rd.doc] = cs
	if preset != nil {
		r.keyFor[rd.doc] = preset
	}
	rd.outs, rd.g, rd.st = r.method(e, root, name, []Val{r.one(rd.doc)}, True, State{})
	if len(rd.outs) != 1 {
		return nil
	}
	rd.ok = r.bdd.And(rd.g, r.nilGuard(rd.outs[0]))
	return rd
}

// get is what an accessor reports after reading, as far as no error is returned.
func (rd *reading) get(name string) Val {
	v, _, _ := rd.r.method(rd.e, rd.root, name, nil, True, rd.st.clone())
	if len(v) != 1 {
		return nil
	}
	return rd.r.under(rd.r.uncopied(v[0]), rd.ok)
}

// was is what an accessor reports before reading.
func (rd *reading) was(name string) Val {
	if v, ok := rd.before[name]; ok {
		return v
	}
	v, _, _ := rd.r.method(rd.e, rd.root, name, nil, True, State{})
	if len(v) == 1 {
		rd.before[name] = rd.r.uncopied(v[0])
		return rd.before[name]
	}
	return nil
}

// gens lists the generic entries of a collection of the given kind.
func (r *Flow) gens(what string, n *Term) []*Term {
	var out []*Term
	for _, t := range r.terms {
		if t.op == "gen" && t.str == what && len(t.args) == 1 && t.args[0].single() == n {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// valNodes are the value nodes of the document's entries.
func (rd *reading) valNodes() []*Term { return rd.r.gens("val", rd.doc) }

// acceptClasses is the set of node classes a facet accepts.
func acceptClasses(s shape) classSet {
	switch s {
	case shStr, shOptStr, shIntFmt, shNumFmt, shDateFmt:
		return classes(cStr)
	case shDate:
		return classes(cStr, cTime)
	case shUint, shOptUint, shOptInt:
		return classes(cInt)
	case shOptNum:
		return classes(cInt, cFloat)
	case shBool, shOptBool:
		return classes(cBool)
	case shStrs, shDates, shInts, shNums, shBools, shAnys, shElems:
		return classes(cSeq)
	case shStrsOr:
		return classes(cStr, cSeq)
	case shTypeMap, shFacets, shProps, shExMap, shNodeMap, shStrMap:
		return classes(cMap)
	case shTypeExp, shInclude:
		return classes(cStr, cInclude)
	}
	return allClasses
}

// entryClasses is the set of node classes the entries of a collection facet have.
func entryClasses(s shape) classSet {
	switch s {
	case shStrs, shStrsOr, shStrMap:
		return classes(cStr)
	case shDates:
		return classes(cStr, cTime)
	case shInts:
		return classes(cInt)
	case shNums:
		return classes(cInt, cFloat)
	case shBools:
		return classes(cBool)
	case shFacets:
		return classes(cMap)
	}
	return allClasses
}

// match is the comparison of a value with the meaning of a node.
type match struct {
	rd  *reading
	f   facet
	why string
}

func (m *match) no(format string, a ...interface{}) bool {
	if m.why == "" {
		m.why = fmt.Sprintf(format, a...)
	}
	return false
}

// cases checks a predicate for every case of a value under a guard, and that the
// value is defined there.
func (m *match) cases(v Val, g B, what string, ok func(t *Term, g B) bool) bool {
	r := m.rd.r
	v = r.under(r.bare(v), g)
	if !r.bdd.Implies(g, r.defined(v)) {
		return m.no("%s is not known when %s", what, r.bdd.String(r.bdd.Diff(g, r.defined(v))))
	}
	for _, c := range v {
		gg := r.bdd.And(c.g, g)
		if gg == False {
			continue
		}
		if !ok(c.t, gg) {
			return m.no("%s is %s when %s", what, r.print(c.t), r.bdd.String(c.g))
		}
	}
	return true
}

func isApp(t *Term, name string) bool { return t.op == "app" && t.str == name }

// text reports whether t is the text of node n.
func isText(t *Term, n *Term) bool {
	return isApp(t, "val") && t.args[0].single() == n
}

// scalar reports whether t is the value of a scalar node n for a shape.
func (m *match) scalar(s shape, t *Term, n *Term, g B) bool {
	r := m.rd.r
	switch s {
	case shStr, shOptStr, shStrs, shStrsOr, shStrMap, shTypeExp, shInclude, shDate, shDates, shIntFmt, shNumFmt, shDateFmt:
		for t.op == "app" && strings.HasPrefix(t.str, "conv:") && isStringType(t.typ) {
			x := t.args[0].single()
			if x == nil {
				return false
			}
			t = x
		}
		if isText(t, n) {
			return true
		}
		// a named type wrapping the text
		if t.op == "obj" && t.typ != nil && isStringType(t.typ) {
			v := r.under(r.load(m.rd.st, t, t.typ), g)
			good := len(v) > 0
			for _, c := range r.bare(v) {
				x := c.t
				for x.op == "app" && strings.HasPrefix(x.str, "conv:") {
					if y := x.args[0].single(); y != nil {
						x = y
					} else {
						break
					}
				}
				if !isText(x, n) && !m.constOf(x, n, r.bdd.And(g, c.g)) {
					good = false
				}
			}
			return good
		}
		// a constant that the text has been compared with
		return m.constOf(t, n, g)
	case shUint, shOptUint, shOptInt, shInts:
		for t.op == "app" && strings.HasPrefix(t.str, "conv:") && isInteger(t.typ) {
			x := t.args[0].single()
			if x == nil {
				return false
			}
			t = x
		}
		return (isApp(t, "parseint")) && len(t.args) > 0 && m.isTextV(t.args[0], n)
	case shOptNum, shNums:
		for t.op == "app" && strings.HasPrefix(t.str, "conv:") {
			x := t.args[0].single()
			if x == nil {
				return false
			}
			t = x
		}
		return (isApp(t, "parsefloat") || isApp(t, "parseint")) && len(t.args) > 0 && m.isTextV(t.args[0], n)
	case shBool, shOptBool, shBools:
		return isApp(t, "parsebool") && m.isTextV(t.args[0], n)
	case shAny, shAnys, shNodeMap:
		return t == n
	}
	return false
}

// constOf reports whether t is a constant the node's text equals under g.
func (m *match) constOf(t, n *Term, g B) bool {
	r := m.rd.r
	if t.op != "const" || t.cst.Kind() != constant.String {
		return false
	}
	x := r.app("val", types.Typ[types.String], r.one(n))
	return r.bdd.Implies(g, r.eq(r.one(x), r.one(t)))
}

func (m *match) isTextV(v Val, n *Term) bool {
	t := v.single()
	return t != nil && isText(t, n)
}

// elem reports whether t is a fresh element that read node n.
func (m *match) elem(t *Term, n *Term, g B) bool {
	r := m.rd.r
	if m.f.elem != "" {
		if e, err := r.P.element(m.f.elem, ""); err == nil && t.typ != nil && typeKey(t.typ) != typeKey(deref(e.typ)) {
			return m.no("%s is not the implementation of %s", typeStr(t.typ), m.f.elem)
		}
	}
	if t.op != "obj" {
		return m.no("%s is not a new element", r.print(t))
	}
	rg := False
	for _, e := range r.log {
		if e.kind == "read" && e.recv == t && len(e.args) > 0 && e.args[0].single() == n {
			rg = r.bdd.Or(rg, e.g)
			m.rd.puts[e] = true
		}
	}
	if !r.bdd.Implies(g, rg) {
		return m.no("the new element is not read from the value")
	}
	return true
}

// resolved reports whether t is the type declaration node n denotes.
func (m *match) resolved(t *Term, n *Term) bool {
	for t.op == "app" && t.str == "as" || t.op == "as" {
		x := t.args[0].single()
		if x == nil {
			return false
		}
		t = x
	}
	return isApp(t, "resolve") && t.args[0].single() == n
}

// entryOf is the predicate for one entry of a collection facet.
func (m *match) entryOf(s shape, t, n *Term, g B) bool {
	switch s {
	case shElems, shExMap:
		return m.elem(t, n, g)
	case shTypeMap, shProps:
		return m.resolved(t, n)
	case shFacets:
		return m.typeMapCtr(t, n, g)
	}
	return m.scalar(s, t, n, g)
}

// typeMapCtr reports whether t is a new container that received every entry of the
// mapping n as a type declaration.
func (m *match) typeMapCtr(t, n *Term, g B) bool {
	if t.op != "ctr" {
		return m.no("%s is not a new container", m.rd.r.print(t))
	}
	return m.filled(t, n, g, func(v, e *Term, g B) bool { return m.resolved(v, e) })
}

// filled reports whether container t receives exactly one entry per entry of the
// mapping n under g, in order, with its key, and a value satisfying the predicate.
func (m *match) filled(t, n *Term, g B, pred func(v, e *Term, g B) bool) bool {
	r := m.rd.r
	found := false
	for _, ev := range r.log {
		if ev.recv != t {
			continue
		}
		switch ev.kind {
		case "put", "replaceorput":
		case "delete", "replaceifexists":
			return m.no("entries of %s are removed or replaced", r.print(t))
		default:
			continue
		}
		if r.bdd.And(ev.g, m.rd.ok) == False {
			m.rd.puts[ev] = true
			continue
		}
		// which entry is it
		kt := r.bare(r.under(ev.args[0], ev.g)).single()
		var key *Term
		for _, k := range r.gens("key", n) {
			if kt != nil && isText(kt, k) {
				key = k
			}
		}
		if key == nil {
			return m.no("an entry is put under the key %s", r.printVal(ev.args[0]))
		}
		var val *Term
		for _, v := range r.gens("val", n) {
			if v.idx == key.idx {
				val = v
			}
		}
		if val == nil || key.loop == nil || !key.loop.full || key.loop.rev {
			return m.no("the loop does not visit every entry of the map in order")
		}
		gg := r.bdd.And(g, ev.g)
		if !m.cases(ev.args[1], gg, "the entry's value", func(x *Term, g B) bool { return pred(x, val, g) }) {
			return false
		}
		some := r.bdd.Not(r.emptyGuard(r.one(key.loop.coll)))
		if miss := r.bdd.AndAll(g, some, r.bdd.Not(ev.g)); miss != False && !found {
			return m.no("no entry is put when %s", r.bdd.String(miss))
		}
		found = true
		m.rd.puts[ev] = true
	}
	if !found {
		return m.no("no entry is put into %s", r.print(t))
	}
	return true
}

// sameBacking reports whether t is made of b, by appending or slicing.
func sameBacking(t, b *Term) bool {
	if t == b {
		return true
	}
	if t.op == "app" && len(t.args) > 0 && (t.str == "append" || strings.HasPrefix(t.str, "slice")) {
		for _, c := range t.args[0] {
			if sameBacking(c.t, b) {
				return true
			}
		}
	}
	return false
}

// list reports whether t is base with one element appended per entry of n.
func (m *match) list(s shape, t, n *Term, g B, was Val) bool {
	r := m.rd.r
	// a value or default that is a list is there even if the list is empty
	stays := s == shAnys && (m.f.keys[0] == "value" || m.f.keys[0] == "default")
	base := func(b *Term, g B) bool {
		if b.op == "lit" && len(b.args) == 0 {
			return true
		}
		if stays {
			return m.no("nothing is stored for an empty list")
		}
		if b.op == "nil" {
			return true
		}
		for _, c := range r.bare(was) {
			if c.t == b {
				return true
			}
		}
		return false
	}
	elem := func(v Val, g B) bool {
		var gn *Term
		for _, e := range r.gens("elem", n) {
			mm := &match{rd: m.rd, f: m.f}
			if mm.cases(v, g, "the element", func(x *Term, g B) bool { return mm.entryOf(s, x, e, g) }) {
				gn = e
				break
			} else if m.why == "" {
				m.why = mm.why
			}
		}
		if gn == nil {
			return m.no("the element is %s", r.printVal(v))
		}
		m.why = ""
		if gn.loop == nil || !gn.loop.full || gn.loop.rev {
			return m.no("the loop does not visit every element in order")
		}
		return true
	}
	for _, ev := range r.log {
		if ev.kind != "elemset" || r.bdd.And(ev.g, m.rd.ok) == False {
			continue
		}
		if i := ev.args[0].single(); ev.recv == t && isApp(t, "made") && i != nil && i.op == "ind" && i.loop != nil {
			continue // filled by index
		}
		if ev.recv == nil || sameBacking(t, ev.recv) || sameBacking(ev.recv, t) {
			return m.no("the element %s of the list is replaced at %s", r.printVal(ev.args[0]), r.P.pos(ev.pos))
		}
	}
	switch {
	case t.op == "app" && t.str == "append" && len(t.args) == 2:
		ok := true
		for _, c := range t.args[0] {
			if r.bdd.And(c.g, g) != False && !base(c.t, g) {
				ok = m.no("elements are appended to %s", r.print(c.t))
			}
		}
		return ok && elem(t.args[1], g)
	case t.op == "lit" && len(t.args) == 1:
		return elem(t.args[0], g)
	case t.op == "app" && t.str == "made":
		// a slice of the right length whose elements are assigned in a loop
		if cn := r.app("content", nil, r.one(n)); !r.sameLenV(t.args[0], cn) {
			return m.no("a slice of length %s", r.printVal(t.args[0]))
		}
		for loc, v := range m.rd.st {
			if loc.op == "eaddr" && loc.args[0].single() == t {
				return elem(v, g)
			}
		}
		return m.no("the elements of the new slice are not assigned")
	case base(t, g):
		// nothing appended: only for an empty sequence
		cn := r.app("content", nil, r.one(n))
		if r.bdd.Implies(g, r.emptyGuard(r.one(cn))) {
			return true
		}
		return m.no("no element is appended when %s", r.bdd.String(g))
	}
	return false
}

func (r *Flow) sameLenV(v Val, coll *Term) bool {
	t := v.single()
	return t != nil && r.sameLenT(t, coll)
}

func (r *Flow) sameLenT(t, coll *Term) bool {
	return t.op == "app" && t.str == "len" && t.args[0].single() == coll
}

// value compares an accessor's answer with the meaning of node n.
func (m *match) value(v Val, n *Term, was Val) bool {
	rd, r, s := m.rd, m.rd.r, m.f.shape
	g := rd.ok
	if g == False {
		return m.no("reading always fails")
	}
	present := func(v Val) bool {
		for _, c := range r.unbox(r.under(v, g)) {
			if isApp(c.t, "none") || c.t.op == "nil" {
				return m.no("nothing is stored when %s", r.bdd.String(c.g))
			}
		}
		return true
	}
	switch s {
	case shStrs, shDates, shInts, shNums, shBools, shAnys, shElems:
		return m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool { return m.list(s, t, n, g, was) })
	case shStrsOr:
		return m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool {
			seq := r.bdd.And(g, r.cls(n, classes(cSeq)))
			one := r.bdd.Diff(g, seq)
			if one != False {
				var x Val
				if isApp(t, "append") && len(t.args) == 2 {
					x = t.args[1]
				} else if t.op == "lit" && len(t.args) == 1 {
					x = t.args[0]
				} else {
					return false
				}
				if !m.cases(x, one, "the single entry", func(t *Term, g B) bool { return m.scalar(s, t, n, g) }) {
					return false
				}
			}
			return seq == False || m.list(s, t, n, seq, was)
		})
	case shTypeMap, shProps, shExMap, shNodeMap, shStrMap, shFacets:
		return m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool {
			return m.filled(t, n, g, func(x, e *Term, g B) bool { return m.entryOf(s, x, e, g) })
		})
	case shElem:
		return present(v) && m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool { return m.elem(t, n, g) })
	case shType:
		return present(v) && m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool { return m.resolved(t, n) })
	}
	return present(v) && m.cases(v, g, m.f.getter+"()", func(t *Term, g B) bool { return m.scalar(s, t, n, g) })
}

// checkValue decides whether a facet is visible with the value of node n.
func (rd *reading) checkValue(c *Check, f facet, n *Term, key string) bool {
	m := &match{rd: rd, f: f}
	v := rd.get(f.getter)
	was := rd.was(f.getter)
	ok := m.value(v, n, was)
	return c.ob(rd.r, key, ok, rd.where(), "after reading, %s() of %s is %s: %s", f.getter, rd.sp.iface, cut(rd.r.printVal(v), 300), cut(m.why, 500))
}

// where is a place in the reader to point at: the last event or failure.
func (rd *reading) where() token.Pos {
	for i := len(rd.r.log) - 1; i >= 0; i-- {
		if e := rd.r.log[i]; e.kind != "flag" && e.pos.IsValid() {
			return e.pos
		}
	}
	return rd.pos
}

// contEvents are the events that change containers or other elements.
func changes(e *Event) bool {
	switch e.kind {
	case "put", "delete", "replaceorput", "replaceifexists", "flag", "mapset", "mapdelete", "copy", "sort", "reslice-append", "mapappend", "mapappendnode", "sequenceappend", "sequenceappendnode", "read":
		return true
	}
	return strings.HasPrefix(e.kind, "method:")
}
