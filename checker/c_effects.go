package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// freshTerm reports whether a term denotes memory that was allocated during the
// analysed call.
func (r *Flow) freshTerm(t *Term) bool {
	if t == nil {
		return false
	}
	x := rootOf(t)
	switch x.op {
	case "obj", "ctr", "mapobj":
		if n := namedOf(deref(x.typ)); x.op == "obj" && x.typ != nil && n != nil && !r.P.inModule(n.Obj().Pkg()) && !isNodePtr(types.NewPointer(n)) && !r.roots[x] {
			return true // a buffer or the like
		}
		return !r.roots[x] && !r.havoc[x]
	case "lit", "const", "nil", "struct", "array":
		return true
	case "app":
		switch x.str {
		case "makeslice", "make", "bytes", "conv":
			return true
		case "encoder", "decoder", "stream", "made":
			return true
		case "encode:ToYAML", "encode:MarshalYAML":
			// the node made for a container of this call
			t := x.args[0].single()
			return t != nil && t.op == "ctr"
		}
	}
	return false
}

// freshSlice reports whether the backing array of a slice was allocated during
// the call. An append to a slice that existed before may write behind its end.
func (r *Flow) freshSlice(t *Term) bool {
	switch t.op {
	case "lit", "nil", "const":
		return true
	case "obj":
		return r.freshTerm(t)
	case "app":
		switch t.str {
		case "copyof", "Split", "strings.Split":
			return true
		case "append", "concat", "reslice", "slice", "collect", "filtered":
			if len(t.args) == 0 {
				return true
			}
			ok := true
			for _, c := range t.args[0] {
				ok = ok && r.freshSlice(c.t)
			}
			return ok
		}
		return strings.HasPrefix(t.str, "make") || t.str == "made"
	}
	return false
}

// impure lists what the analysed call changes outside of what it allocated.
// The sink, if any, is the argument the call is meant to fill.
func (r *Flow) impure(g B, st State, sink *Term) []effect {
	var out []effect
	var locs []*Term
	for loc := range st {
		locs = append(locs, loc)
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
	for _, loc := range locs {
		base := loc
		if loc.op == "ver" || loc.op == "mapc" {
			base = loc.args[0].single()
		}
		if base == nil || r.freshTerm(base) || base == sink {
			continue
		}
		if x := rootOf(base); x.op == "eaddr" || x.op == "iaddr" {
			fresh := true
			for _, c := range x.args[0] {
				fresh = fresh && (r.freshSlice(c.t) || r.freshTerm(c.t))
			}
			if fresh {
				continue
			}
		}
		was := r.absent(State{}, loc)
		if !r.eqUnder(st[loc], was, g) {
			out = append(out, effect{what: "changes " + r.print(loc), pos: 0})
		}
	}
	for _, ev := range r.log {
		if ev.recv != nil && ev.recv.op == "iface" && ev.recv.args[0].single() != nil {
			cp := *ev
			cp.recv = ev.recv.args[0].single()
			ev = &cp
		}
		if sink != nil && ev.recv == sink {
			continue
		}
		switch ev.kind {
		case "put", "delete", "replaceorput", "replaceifexists", "flag", "mapset", "mapdelete", "mapappend", "mapappendnode", "sequenceappend", "sequenceappendnode", "read", "write", "encodeTo":
			if ev.recv != nil && r.freshTerm(ev.recv) {
				continue
			}
		case "sort", "copy", "append", "reslice-append":
			if ev.recv != nil && (r.freshTerm(ev.recv) || r.freshSlice(ev.recv)) {
				continue
			}
		default:
			if !strings.HasPrefix(ev.kind, "method:") {
				continue
			}
		}
		on := "something unknown"
		if ev.recv != nil {
			on = r.print(ev.recv)
		}
		out = append(out, effect{what: "does " + ev.kind + " on " + on + " when " + r.bdd.String(ev.g), pos: int(ev.pos), ev: ev})
	}
	return out
}

type effect struct {
	what string
	pos  int
	ev   *Event
}

// checkC13: reading and serialising do not modify the document.
func checkC13(p *Prog, c *Check) {
	c.rule = "For every element kind, each public accessor and each serialisation method, and for every ordered map type, each operation that does not change the map, analysed from an arbitrary state: whatever existed before the call is the same after it. Every memory location (fields, entries of lists, the contents and the flags of containers) that the call may have written must hold what it held before under every guard, and there must be no insertion, deletion, sorting, copy, flag change or append into memory that existed before. Nested elements are serialised by methods that are analysed on their own."
	c.floor = 400
	c.assume = append(c.assume, "callbacks given to ForEach by users, and logging, do not change documents", "the yaml and JSON encoders do not change what they encode")
	done := func(r *Flow, key, what string, g B, st State, sink *Term, pos token.Pos) {
		effs := r.impure(g, st, sink)
		bad := ""
		at := pos
		for _, e := range effs {
			bad = e.what
			if e.ev != nil {
				at = e.ev.pos
			}
			break
		}
		c.ob(r, key+"/unchanged", bad == "", at, "%s %s", what, bad)
		c.used(r)
	}
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opGet, opWrite) {
			done(o.r, e.name+"/"+o.label, o.label+" of "+e.name, o.g, o.st, o.arg, o.fn.Pos())
		}
	}
	ms := p.mapImpls()
	if len(ms) < 15 {
		c.missing = append(c.missing, "ordered map implementations")
	}
	for _, m := range ms {
		if m.why != "" {
			c.open(m.name+"/representation", m.why)
			continue
		}
		for _, name := range m.readOnly() {
			f := m.call(name, nil)
			if f == nil {
				c.open(m.name+"/"+name, "not analysed")
				continue
			}
			done(f.Flow, m.name+"/"+name, name+" of "+m.name, f.g, f.st, nil, f.fn.Pos())
		}
	}
}

// readOnly lists the operations that do not change the map: those that return no
// map (mutators return the map for chaining) and are no readers of documents.
func (m *mapImpl) readOnly() []string {
	var out []string
	ms := m.p.prog.MethodSets.MethodSet(m.typ)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "Unmarshal") {
			continue
		}
		if res := f.Type().(*types.Signature).Results(); n != "ForEach" && res.Len() == 1 && types.Identical(res.At(0).Type(), m.iface) {
			continue
		}
		out = append(out, n)
	}
	return out
}
