package main

import (
	"go/token"
	"go/types"
)

// canon names the value of the entry found by a search by key as the index does.
func (f *mapFlow) canon(v Val) Val {
	return f.lift(f.unbox(v), func(t *Term, _ B) Val {
		if p, ok := f.elem(t, f.m.vf); ok && f.hits[p] != nil {
			return f.one(f.app("mapget", f.m.val, f.one(f.m0), f.one(f.hits[p])))
		}
		if p, ok := f.elem(t, f.m.kf); ok && f.hits[p] != nil {
			return f.unbox(f.one(f.hits[p]))
		}
		if t.op == "gen" && (t.str == "mkey" || t.str == "mval") && t.loop != nil && t.loop.mapc != nil {
			for p, k := range f.hits {
				if p.loop == t.loop && p.op == "gen" {
					if t.str == "mkey" {
						return f.unbox(f.one(k))
					}
					return f.one(f.app("mapget", f.m.val, f.one(t.loop.mapc), f.one(k)))
				}
			}
		}
		return f.one(t)
	})
}

func (f *mapFlow) same(a, b Val, g B) bool {
	return f.eqUnder(f.canon(a), f.canon(b), g) && f.covers(a, g)
}

// covers reports whether v is defined wherever g holds.
func (f *mapFlow) covers(v Val, g B) bool {
	return f.bdd.Diff(g, f.defined(v)) == False
}

const (
	mSame = iota
	mRemove
	mPut
	mReplace
)

// change decides what an operation does to the order and the index where g holds.
// It returns a description of what is wrong, or "".
func (f *mapFlow) change(g B, kind int, k *Term, v Val) string {
	if g == False {
		return ""
	}
	h := False
	if k != nil {
		h = f.has(k)
	}
	r := f.Flow
	if kind == mReplace {
		if s := f.change(r.bdd.Diff(g, h), mSame, k, nil); s != "" {
			return s
		}
		g = r.bdd.And(g, h)
	}
	isHit := func(p *Term) bool { return k != nil && p != nil && f.hit(p, k) }
	// the order
	ord := f.load(f.st, f.ordLoc, f.m.st.Field(f.m.ord).Type())
	updated := False
	for _, c := range ord {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		ps := f.parts(c.t, cg)
		desc := "the order becomes " + f.print(c.t) + " when " + r.bdd.String(cg)
		entryOK := func(p part, g B) bool {
			if p.what != "entry" {
				return false
			}
			ek, ev, ok := f.entry(p.ent)
			if !ok {
				if i, whole := f.whole(p.ent, f.o0); whole {
					ek, ev, ok = f.entryAt(i, f.m.kf), f.entryAt(i, f.m.vf), true
				}
			}
			return ok && f.same(ek, f.one(k), g) && f.same(ev, v, g)
		}
		removed := func(ps []part, g B) bool {
			if len(ps) == 1 && ps[0].what == "all" {
				return r.bdd.And(g, h) == False
			}
			return len(ps) == 2 && ps[0].what == "below" && ps[1].what == "above" && isHit(ps[0].pos) && isHit(ps[1].pos) && r.bdd.Implies(g, h)
		}
		ok := false
		switch kind {
		case mSame:
			ok = len(ps) == 1 && ps[0].what == "all"
		case mRemove:
			ok = removed(ps, cg)
		case mPut:
			n := len(ps)
			ok = n > 0 && entryOK(ps[n-1], cg) && removed(ps[:n-1], cg)
		case mReplace:
			if len(ps) == 3 && ps[0].what == "below" && ps[2].what == "above" && isHit(ps[0].pos) && isHit(ps[2].pos) && entryOK(ps[1], cg) {
				ok = true
				updated = r.bdd.Or(updated, cg)
			} else {
				ok = len(ps) == 1 && ps[0].what == "all"
			}
		}
		if !ok {
			return desc
		}
	}
	if !f.covers(ord, g) {
		return "the order is unknown"
	}
	// entries changed in place
	for loc, val := range f.st {
		root, field := loc, -1
		if loc.op == "faddr" {
			root, field = loc.args[0].single(), loc.idx
		}
		if root == nil || root.op != "eaddr" {
			continue
		}
		for _, c := range val {
			cg := r.bdd.And(c.g, g)
			if cg == False {
				continue
			}
			if field >= 0 && c.t == f.initOf(loc, c.t.typ) || c.t.op == "init" && c.t.args[0].single() == loc {
				continue
			}
			p := root.args[1].single()
			what := "the entry " + f.print(root) + " becomes " + f.print(c.t) + " when " + r.bdd.String(cg)
			if root.args[0].single() != f.o0 || kind != mReplace || !isHit(p) {
				return what
			}
			switch field {
			case f.m.kf:
				if !f.same(f.one(c.t), f.one(k), cg) {
					return what
				}
			case f.m.vf:
				if !f.same(f.one(c.t), v, cg) {
					return what
				}
				updated = r.bdd.Or(updated, cg)
			default:
				ek, ev, ok := f.entry(c.t)
				if !ok || !f.same(ek, f.one(k), cg) || !f.same(ev, v, cg) {
					return what
				}
				updated = r.bdd.Or(updated, cg)
			}
		}
	}
	if kind == mReplace {
		if miss := r.bdd.Diff(g, updated); miss != False {
			return "the entry of the order is not replaced when " + r.bdd.String(miss)
		}
	}
	// the index
	if i := f.load(f.st, f.idxLoc, f.m.st.Field(f.m.idx).Type()); !f.eqUnder(i, f.one(f.i0), g) {
		f.und["the index is replaced by another map"] = true
		return "the index is replaced by " + f.printVal(i)
	}
	con := f.mapContent(f.st, f.i0)
	for _, c := range con {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		base, set, del, ok := c.t, False, False, true
		var setV Val
		if c.t != f.m0 {
			ok = c.t.op == "app" && (c.t.str == "mset" || c.t.str == "mdel") && k != nil && f.same(c.t.args[1], f.one(k), cg)
			if ok {
				base = c.t.args[0].single()
				if c.t.str == "mset" {
					set, setV = True, c.t.args[2]
				} else {
					del = True
				}
			}
			// what was done before with the same key is overwritten
			for base != nil && base != f.m0 && base.op == "app" && (base.str == "mset" || base.str == "mdel") && f.same(base.args[1], f.one(k), cg) {
				base = base.args[0].single()
			}
		}
		desc := "the index becomes " + f.print(c.t) + " when " + r.bdd.String(cg)
		if !ok || base != f.m0 {
			return desc
		}
		switch kind {
		case mSame:
			ok = set == False && (del == False || r.bdd.And(cg, h) == False)
		case mRemove:
			ok = set == False && (del == True || r.bdd.And(cg, h) == False)
		case mPut, mReplace:
			ok = set == True && f.same(setV, v, cg)
		}
		if !ok {
			return desc
		}
	}
	if !f.covers(con, g) {
		return "the content of the index is unknown"
	}
	return ""
}

// sameGuard reports whether two guards agree wherever g holds.
func (f *mapFlow) sameGuard(a, b, g B) bool {
	return f.bdd.And(g, f.bdd.Or(f.bdd.Diff(a, b), f.bdd.Diff(b, a))) == False
}

// flagKept decides that the ordered flag is what it was.
func (f *mapFlow) flagKept() bool {
	return f.eqUnder(f.load(f.st, f.flgLoc, f.f0.typ), f.one(f.f0), f.g)
}

// checkC11: order and index of the ordered maps.
func checkC11(p *Prog, c *Check) {
	c.rule = "Simulation: the abstract value of a map is one sequence of entries with unique keys; the invariant says that the order field is that sequence and the index has exactly its keys and values. For every map type and every operation, from an arbitrary state with the invariant and arbitrary arguments, the analysis computes the order and the index afterwards and the results as guarded terms over the state before; they must be those of the sequence operation (put: remove the key, append; replace: same position; delete: remove exactly that key; conditional operations: nothing when the condition fails; readers: nothing changes and the answer is read off the sequence). The constructor gives the empty sequence. So the invariant is inductive."
	c.floor = 900
	c.assume = append(c.assume, "keys are comparable and equal to themselves (no NaN)", "the callback of ForEach does not modify the map")
	ms := p.mapImpls()
	if len(ms) < 15 {
		c.missing = append(c.missing, "ordered map implementations")
	}
	for _, m := range ms {
		key := m.name + "/"
		if m.why != "" {
			c.open(key+"representation", m.why)
			continue
		}
		c.newMap(m, key)
		run := func(name string, params, results int, prep func(f *mapFlow), body func(f *mapFlow, ob func(what, bad string))) {
			fn := m.method(name)
			if fn == nil {
				return
			}
			f := m.call(name, prep)
			if f == nil || len(f.args) != params || len(f.outs) != results {
				c.open(key+name, "unexpected signature")
				return
			}
			ob := func(what, bad string) {
				c.ob(f.Flow, key+name+"/"+what, bad == "", fn.Pos(), "%s of %s: %s", name, m.name, bad)
			}
			bad := ""
			if f.g != True || len(f.obls) > 0 {
				bad = "does not always return" + oblText(f.Flow)
			}
			ob("returns", bad)
			body(f, ob)
			if name != "SerializeOrdered" {
				bad = ""
				if !f.flagKept() {
					bad = "changes the ordered flag"
				}
				ob("flag kept", bad)
			}
			for _, ev := range f.log {
				if name != "ForEach" && ev.kind == "callback" {
					ob("no callback", "calls "+f.print(ev.recv))
				}
			}
			c.used(f.Flow)
		}
		self := func(f *mapFlow) string {
			if x := f.unbox(f.under(f.outs[0], f.g)).single(); x != f.root {
				return "returns " + f.printVal(f.outs[0])
			}
			return ""
		}
		result := func(f *mapFlow, i int, g B, want Val) string {
			if !f.same(f.under(f.outs[i], g), want, g) {
				return "returns " + f.printVal(f.outs[i]) + ", not " + f.printVal(want) + ", when " + f.bdd.String(g)
			}
			return ""
		}
		kept := func(f *mapFlow, ob func(what, bad string)) {
			ob("changes nothing", f.change(f.g, mSame, nil, nil))
		}
		val := func(f *mapFlow, k *Term) Val { return f.one(f.app("mapget", m.val, f.one(f.m0), f.one(k))) }
		run("Put", 2, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			ob("puts at the end", f.change(f.g, mPut, f.args[0], f.one(f.args[1])))
			ob("returns the map", self(f))
		})
		run("PutIfNotNil", 2, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			k, v := f.args[0], f.args[1]
			var null B
			var x Val
			if pt, ok := v.typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.val) {
				null, x = f.nilT1(v), f.load(State{}, v, m.val)
			} else if isIface(v.typ) {
				null = f.bdd.Or(f.nilT1(v), f.typedNil(v))
				x = f.derefDyn(State{}, f.one(v))
			} else {
				c.open(key+"PutIfNotNil", "unexpected parameter")
				return
			}
			ob("nothing for nil", f.change(f.bdd.And(f.g, null), mSame, k, nil))
			ob("puts at the end", f.change(f.bdd.Diff(f.g, null), mPut, k, x))
			ob("returns the map", self(f))
		})
		run("ReplaceOrPut", 2, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			k, v := f.args[0], f.args[1]
			h := f.has(k)
			ob("replaces in place", f.change(f.bdd.And(f.g, h), mReplace, k, f.one(v)))
			ob("puts at the end", f.change(f.bdd.Diff(f.g, h), mPut, k, f.one(v)))
			ob("returns the map", self(f))
		})
		run("ReplaceIfExists", 2, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			k, v := f.args[0], f.args[1]
			h := f.has(k)
			ob("replaces in place", f.change(f.bdd.And(f.g, h), mReplace, k, f.one(v)))
			ob("nothing if absent", f.change(f.bdd.Diff(f.g, h), mSame, k, nil))
			ob("returns the map", self(f))
		})
		run("Delete", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			ob("removes exactly the key", f.change(f.g, mRemove, f.args[0], nil))
			ob("returns the map", self(f))
		})
		run("Get", 1, 2, nil, func(f *mapFlow, ob func(what, bad string)) {
			k := f.args[0]
			h := f.has(k)
			ob("present value", result(f, 0, h, val(f, k)))
			ob("absent value", result(f, 0, f.bdd.Not(h), f.zero(m.val)))
			ob("presence", or(result(f, 1, h, f.one(f.boolean(true))), result(f, 1, f.bdd.Not(h), f.one(f.boolean(false)))))
			kept(f, ob)
		})
		run("GetOpt", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			k := f.args[0]
			bad := ""
			for _, x := range f.unbox(f.outs[0]) {
				switch {
				case isApp(x.t, "some") && len(x.t.args) == 1:
					if !f.bdd.Implies(x.g, f.has(k)) || !f.same(x.t.args[0], val(f, k), x.g) {
						bad = "returns " + f.print(x.t) + " when " + f.bdd.String(x.g)
					}
				case isApp(x.t, "none"):
					if f.bdd.And(x.g, f.has(k)) != False {
						bad = "returns nothing when " + f.bdd.String(x.g)
					}
				default:
					bad = "returns " + f.print(x.t)
				}
			}
			ob("option", bad)
			kept(f, ob)
		})
		run("Has", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			ob("presence", result(f, 0, True, f.fromGuard(f.has(f.args[0]))))
			kept(f, ob)
		})
		run("IndexOf", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			k := f.args[0]
			h := f.has(k)
			bad := result(f, 0, f.bdd.Not(h), f.one(f.integer(-1)))
			for _, x := range f.unbox(f.under(f.outs[0], h)) {
				if f.bdd.And(x.g, h) != False && !f.hit(x.t, k) {
					bad = "returns " + f.print(x.t) + " when " + f.bdd.String(f.bdd.And(x.g, h))
				}
			}
			if !f.covers(f.outs[0], True) {
				bad = "has no result"
			}
			ob("position", bad)
			kept(f, ob)
		})
		run("Len", 0, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			bad := ""
			x := f.unbox(f.outs[0]).single()
			if !isLen(x, f.o0) && !isLen(x, f.i0) && !isLen(x, f.m0) {
				bad = "returns " + f.printVal(f.outs[0])
			}
			ob("length", bad)
			kept(f, ob)
		})
		run("At", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			bad := ""
			for _, x := range f.outs[0] {
				k, v, ok := f.entry(x.t)
				if ok {
					kp, ok1 := f.elemV(k, m.kf)
					vp, ok2 := f.elemV(v, m.vf)
					ok = ok1 && ok2 && kp == f.args[0] && vp == f.args[0]
				} else if x.t.op == "init" {
					l := x.t.args[0].single()
					ok = l != nil && l.op == "eaddr" && l.args[0].single() == f.o0 && l.args[1].single() == f.args[0]
				}
				if !ok {
					bad = "returns " + f.print(x.t)
				}
			}
			ob("entry", bad)
			kept(f, ob)
		})
		run("ForEach", 1, 1, func(f *mapFlow) { f.nonnil[f.args[0]] = true }, func(f *mapFlow, ob func(what, bad string)) {
			ob("every entry once, in order", f.visits("callback", f.args[0], True))
			kept(f, ob)
			ob("returns the map", self(f))
		})
		run("SerializeOrdered", 1, 1, nil, func(f *mapFlow, ob func(what, bad string)) {
			kept(f, ob)
			bad := ""
			if v := f.load(f.st, f.flgLoc, f.f0.typ); !f.sameGuard(f.guard(v), f.ordered(f.args[0]), f.g) || !f.covers(v, f.g) {
				bad = "the flag becomes " + f.printVal(f.load(f.st, f.flgLoc, f.f0.typ))
			}
			ob("flag set", bad)
			ob("returns the map", self(f))
		})
	}
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func isLen(x, of *Term) bool {
	return isApp(x, "len") && x.args[0].single() == of || isApp(x, "maplen") && x.args[0].single() == of
}

func (f *mapFlow) elemV(v Val, field int) (*Term, bool) {
	t := f.unbox(v).single()
	if t == nil {
		return nil, false
	}
	return f.elem(t, field)
}

// visits decides that the events of a kind handle every entry exactly once, in
// order, with its own key and value, under exactly g.
func (f *mapFlow) visits(kind string, recv *Term, g B) string {
	n := 0
	for _, ev := range f.log {
		if ev.kind != kind || recv != nil && ev.recv != recv {
			continue
		}
		n++
		if n > 1 {
			return "handles entries at several places"
		}
		if s := f.visitsOne(ev, g); s != "" {
			return s
		}
	}
	if n == 0 {
		return "handles no entry"
	}
	return ""
}

// visitsOne decides that an event happens for every entry once, in order.
func (f *mapFlow) visitsOne(ev *Event, g B) string {
	if len(ev.ctx) != 1 {
		return "is not a plain loop over the entries"
	}
	lc := ev.ctx[0]
	if !lc.full || lc.coll != f.o0 || lc.rev || lc.step != 1 {
		return "does not go through all entries in order"
	}
	if ev.g != g {
		return "skips entries: an entry is handled only when " + f.bdd.String(ev.g)
	}
	if len(ev.args) < 2 {
		return "handles no key and value"
	}
	for i, fld := range []int{f.m.kf, f.m.vf} {
		a := f.plainNode(ev.args[i])
		p, ok := f.elemV(a, fld)
		if ok && (p.op != "ind" || p.loop != lc) {
			ok = false
		}
		if !ok && fld == f.m.vf {
			// looked up by the key of the entry
			if x := f.unbox(a).single(); isApp(x, "mapget") && x.args[0].single() == f.m0 {
				if p, ok2 := f.elemV(x.args[1], f.m.kf); ok2 && p.op == "ind" && p.loop == lc {
					ok = true
				}
			}
		}
		if !ok {
			return "handles " + f.printVal(ev.args[i]) + " as the " + []string{"key", "value"}[i] + " of an entry"
		}
	}
	return ""
}

// plainNode is the value a node was made of.
func (f *mapFlow) plainNode(v Val) Val {
	return f.lift(f.unbox(v), func(t *Term, _ B) Val {
		if isApp(t, "yamlnode") && len(t.args) > 0 {
			return f.plainNode(t.args[0])
		}
		// the node a value makes of itself, as xyml.ToYamlNode would
		if isApp(t, "encode:ToYAML") && len(t.args) > 0 {
			if x := t.args[0].single(); x != nil && isApp(x, "as") && types.IsInterface(x.typ) {
				return f.plainNode(x.args[0])
			}
		}
		return f.one(t)
	})
}

// newMap decides that the constructor yields an empty map.
func (c *Check) newMap(m *mapImpl, key string) {
	if m.ctor == nil {
		c.open(key+"constructor", "not found")
		return
	}
	r := newFlow(m.p)
	r.mapMode = true
	size := r.sym("size", m.ctor.Signature.Params().At(0).Type())
	outs, g, st := r.callFn(m.ctor, []Val{r.one(size)}, nil, True, State{}, m.ctor.Pos())
	f := &mapFlow{Flow: r, m: m}
	bad := ""
	root := (*Term)(nil)
	if len(outs) == 1 {
		root = r.unbox(outs[0]).single()
	}
	switch {
	case root == nil || root.op != "obj" || g == False:
		bad = "does not return a new map"
	default:
		o := r.load(st, r.faddr(root, m.ord, types.NewPointer(m.st.Field(m.ord).Type())), m.st.Field(m.ord).Type())
		for _, x := range o {
			if len(f.parts(x.t, x.g)) != 0 {
				bad = "the order of a new map is " + r.print(x.t)
			}
		}
		i := r.load(st, r.faddr(root, m.idx, types.NewPointer(m.st.Field(m.idx).Type())), m.st.Field(m.idx).Type()).single()
		if i == nil || i.op != "mapobj" {
			bad = "a new map has no index of its own"
		} else if v := r.mapContent(st, i).single(); v == nil || !isApp(v, "mapempty") {
			bad = "the index of a new map is not empty"
		}
	}
	c.ob(r, key+"new/empty", bad == "", m.ctor.Pos(), "%s: %s", m.ctor.Name(), bad)
	c.used(r)
}

var _ token.Pos
