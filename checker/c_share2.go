package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// holder is a place that refers to an object when a guard holds.
type holder struct {
	obj  *Term
	g    B
	what string
	ctx  []*LoopCtx // the iterations the place belongs to
	many bool       // each iteration has such a place of its own
	pos  token.Pos
	slot string
}

// writtenThrough lists the pointer types through which the module changes what a
// field points to.
func (p *Prog) writtenThrough() map[string]bool {
	if p.through != nil {
		return p.through
	}
	p.through = map[string]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if u, ok := st.Addr.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.FieldAddr); ok {
						p.through[typeKey(u.Type())] = true
					}
				}
			}
		}
	}
	return p.through
}

// mutable reports whether an object can be changed after it was created, so that
// sharing it matters.
func (r *Flow) mutable(t *Term) bool {
	switch t.op {
	case "ctr", "mapobj":
		return true
	case "obj":
		if t.typ == nil {
			return false
		}
		et := deref(t.typ)
		n := namedOf(et)
		if n != nil && r.P.inModule(n.Obj().Pkg()) {
			if s, ok := n.Underlying().(*types.Struct); ok {
				return s.NumFields() > 0
			}
		}
		if isNodePtr(types.NewPointer(et)) {
			return false
		}
		switch et.Underlying().(type) {
		case *types.Basic:
			return r.P.writtenThrough()[typeKey(types.NewPointer(et))]
		case *types.Struct:
			return n == nil || r.P.inModule(n.Obj().Pkg())
		}
	case "sym", "init":
		if t.typ == nil || isErrType(t.typ) || isNodePtr(t.typ) {
			return false
		}
		switch u := t.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		case *types.Interface:
			return t.op == "sym" || u.NumMethods() > 0
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Struct)
			return ok
		}
	}
	return false
}

// inner lists the objects a value holds, through interfaces and lists.
func (r *Flow) inner(v Val, g B, f func(*Term, B)) {
	seen := map[[2]int]bool{}
	var walk func(v Val, g B, depth int)
	walk = func(v Val, g B, depth int) {
		if depth > 12 {
			return
		}
		for _, c := range v {
			cg := r.bdd.And(g, c.g)
			if cg == False || seen[[2]int{c.t.id, int(cg)}] {
				continue
			}
			seen[[2]int{c.t.id, int(cg)}] = true
			switch c.t.op {
			case "obj", "ctr", "mapobj", "sym", "init":
				f(c.t, cg)
			case "iface", "struct", "array", "lit":
				for _, a := range c.t.args {
					walk(a, cg, depth+1)
				}
			case "app":
				switch c.t.str {
				case "append", "concat", "collect", "reslice", "slice", "filtered", "mapput", "without":
					for _, a := range c.t.args {
						walk(a, cg, depth+1)
					}
				}
			}
		}
	}
	walk(v, g, 0)
}

// holders lists the places reachable from the given values that refer to an
// object that can change.
func (r *Flow) holders(from []Val, g B, st State) []holder {
	var out []holder
	reached := map[*Term]bool{}
	var queue []*Term
	reach := func(t *Term, _ B) {
		if !reached[t] {
			reached[t] = true
			queue = append(queue, t)
		}
	}
	for _, v := range from {
		r.inner(v, g, reach)
	}
	byRoot := map[*Term][]*Term{}
	for loc := range st {
		if loc.op != "ver" {
			byRoot[rootOf(loc)] = append(byRoot[rootOf(loc)], loc)
		}
	}
	byRecv := map[*Term][]*Event{}
	for _, ev := range r.log {
		switch ev.kind {
		case "put", "replaceorput", "replaceifexists", "mapset", "mapappend":
			if ev.recv != nil {
				byRecv[ev.recv] = append(byRecv[ev.recv], ev)
				if ev.recv.op == "init" {
					reach(ev.recv, True) // a container the element had before
				}
			}
		}
	}
	for i := 0; i < len(queue); i++ {
		t := queue[i]
		locs := byRoot[t]
		sort.Slice(locs, func(a, b int) bool { return locs[a].id < locs[b].id })
		for _, loc := range locs {
			r.inner(st[loc], g, func(x *Term, xg B) {
				reach(x, xg)
				if r.mutable(x) && x != t {
					out = append(out, holder{obj: x, g: xg, what: r.print(loc), ctx: t.ctx, many: true, slot: r.print(loc)})
				}
			})
		}
		for _, ev := range byRecv[t] {
			if len(ev.args) == 0 {
				continue
			}
			many := true
			slot := ""
			if len(ev.args) > 1 {
				if k := r.unbox(ev.args[0]).single(); k != nil && k.op == "const" {
					many = false
				}
				slot = r.print(t) + r.printVal(ev.args[0])
			}
			r.inner(ev.args[len(ev.args)-1], r.bdd.And(g, ev.g), func(x *Term, xg B) {
				reach(x, xg)
				if r.mutable(x) && x != t {
					out = append(out, holder{obj: x, g: xg, what: "an entry of " + r.print(t), ctx: ev.ctx, many: many, pos: ev.pos, slot: slot})
				}
			})
		}
	}
	// what was in a field before, and still is
	for _, h := range out {
		if h.obj.op != "init" {
			continue
		}
		if loc := h.obj.args[0].single(); loc != nil && loc.op == "faddr" {
			if _, ok := st[loc]; !ok {
				out = append(out, holder{obj: h.obj, g: True, what: r.print(loc), slot: r.print(loc)})
			}
		}
	}
	return out
}

// again finds an iteration that may store what an earlier iteration stored.
func (r *Flow) again(g B) (string, token.Pos) {
	for _, cv := range r.carried {
		if r.bdd.And(cv.g, g) != False {
			return "an iteration may store what an earlier iteration stored already, so that two entries share it", cv.ev.pos
		}
	}
	return "", 0
}

// carriedVal is a value of an earlier iteration that an iteration stores.
type carriedVal struct {
	ev *Event
	g  B
}

// noteCarried records which values from earlier iterations a loop stores again.
func (r *Flow) noteCarried(from int, lc *LoopCtx) {
	for _, ev := range r.log[from:] {
		switch ev.kind {
		case "put", "replaceorput", "replaceifexists", "mapset", "mapappend", "append":
		default:
			continue
		}
		if len(ev.args) == 0 {
			continue
		}
		if len(ev.args) > 1 {
			if k := r.unbox(ev.args[0]).single(); k != nil && k.op == "const" {
				continue
			}
		}
		for _, c := range r.unbox(ev.args[len(ev.args)-1]) {
			if c.t.op != "lphi" && c.t.op != "lmem" || c.t.typ == nil || c.t.str != strconv.Itoa(lc.id) {
				continue
			}
			g := r.bdd.And(c.g, ev.g)
			n := namedOf(deref(c.t.typ))
			if g == False || n == nil || !r.P.inModule(n.Obj().Pkg()) {
				continue
			}
			switch n.Underlying().(type) {
			case *types.Interface, *types.Struct:
				r.carried = append(r.carried, carriedVal{ev, g})
			}
		}
	}
}

// shared finds an object that two places refer to.
func (r *Flow) shared(from []Val, g B, st State, skip func(*Term) bool) (string, token.Pos) {
	if why, pos := r.again(g); why != "" {
		return why, pos
	}
	hs := r.holders(from, g, st)
	for i, h := range hs {
		if skip(h.obj) {
			continue
		}
		if h.many && h.obj.op != "sym" && h.obj.op != "init" {
			for _, lc := range h.ctx {
				if !inCtx(h.obj, lc) {
					return "one object, " + r.print(h.obj) + ", becomes " + h.what + " in every iteration of a loop, so that the entries share it", h.pos
				}
			}
		}
		for _, k := range hs[:i] {
			if k.obj != h.obj || k.slot == h.slot && k.slot != "" {
				continue
			}
			if r.bdd.And(k.g, h.g) != False {
				pos := h.pos
				if pos == 0 {
					pos = k.pos
				}
				return "one object, " + r.print(h.obj) + ", is both " + k.what + " and " + h.what, pos
			}
		}
	}
	return "", 0
}

// checkC14: documents and elements do not share mutable state.
func checkC14(p *Prog, c *Check) {
	c.rule = "(1) Over the whole module: for every package-level variable, and every variable captured by a function literal made while packages are initialised, the references to its memory are followed through assignments, fields, containers, calls (per context of the arguments) and returns; after initialisation nothing may be written through them, and no exported function or method may give one to callers. (2) For every element kind, the construction, every setter and unsetter, every entry of its reader, every public builder, entry point, resolver and map constructor is analysed; in the resulting heap no object that can change may be referred to from two places under compatible conditions, and nothing allocated outside of a loop may become an entry or part of what each iteration creates. (3) Builders and constructors return an object allocated by the call."
	c.assume = append(c.assume, "callers do not hand one object to two elements themselves")
	c.floor = 300
	p.sharedGlobals(c)
	own := func(r *Flow, root *Term) func(*Term) bool {
		return func(t *Term) bool { return t == root || r.roots[t] }
	}
	for _, e := range p.publicElems() {
		for _, o := range p.ops(e, opNew, opSet, opSetNil, opUnset, opRead) {
			from := append([]Val{o.r.one(o.root)}, o.outs...)
			why, pos := o.r.shared(from, o.g, o.st, own(o.r, o.root))
			if pos == 0 {
				pos = o.fn.Pos()
			}
			c.ob(o.r, e.name+"/"+o.label+"/own-state", why == "", pos, "%s of %s: %s", o.label, e.name, why)
			c.used(o.r)
		}
	}
	fresh := func(r *Flow, key string, outs []Val, g B, st State, pos token.Pos, name string) {
		why, at := r.shared(outs, g, st, func(*Term) bool { return false })
		if at == 0 {
			at = pos
		}
		c.ob(r, key+"/own-state", why == "", at, "%s: %s", name, why)
		bad, open := "", ""
		for _, v := range outs {
			for _, x := range r.unbox(v) {
				if r.bdd.And(x.g, g) == False || x.t.op == "nil" || isErrType(x.t.typ) {
					continue
				}
				switch rt := rootOf(x.t); rt.op {
				case "obj", "ctr", "mapobj":
				case "global":
					bad = "returns " + r.print(x.t)
				default:
					open = "returns " + r.print(x.t)
				}
			}
		}
		if bad == "" && open != "" {
			c.open(key+"/new", open)
		} else {
			c.ob(r, key+"/new", bad == "", pos, "%s does not return an object of its own: it %s", name, bad)
		}
		c.used(r)
	}
	for _, fn := range p.builders() {
		r := newFlow(p)
		outs, g, st := r.callFn(fn, nil, nil, True, State{}, fn.Pos())
		fresh(r, "builder/"+fn.Name(), outs, g, st, fn.Pos(), fn.Name())
	}
	for _, m := range p.mapImpls() {
		if m.ctor == nil {
			continue
		}
		r := newFlow(p)
		r.mapMode = true
		size := r.sym("size", m.ctor.Signature.Params().At(0).Type())
		outs, g, st := r.callFn(m.ctor, []Val{r.one(size)}, nil, True, State{}, m.ctor.Pos())
		fresh(r, "constructor/"+m.name, outs, g, st, m.ctor.Pos(), m.ctor.Name())
	}
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		outs, g, st, ok := ep.run(r)
		if !ok {
			c.open("entry/"+ep.name, "not analysed")
			continue
		}
		why, at := r.shared(outs, g, st, func(*Term) bool { return false })
		if at == 0 {
			at = ep.fn.Pos()
		}
		c.ob(r, "entry/"+ep.name+"/own-state", why == "", at, "%s: %s", ep.name, why)
		c.used(r)
	}
	for _, rs := range p.resolverFns() {
		r, _, outs, g, st := rs.run(p)
		why, at := r.shared(outs, g, st, func(*Term) bool { return false })
		if at == 0 {
			at = rs.fn.Pos()
		}
		c.ob(r, "resolver/"+rs.fn.Name()+"/own-state", why == "", at, "%s: %s", rs.fn.Name(), why)
		c.used(r)
	}
}
