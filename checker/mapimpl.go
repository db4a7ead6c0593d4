package main

// The ordered maps themselves: finding their implementations, analysing one
// operation from an arbitrary state that satisfies the invariant (the keys of the
// order are unique and are the keys of the index, with the same values), and
// bringing the resulting order into a normal form.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type mapImpl struct {
	p     *Prog
	name  string // public interface
	iface types.Type
	typ   types.Type // pointer to the implementation
	st    *types.Struct
	ord   int  // field of the entries
	idx   int  // field of the index
	flag  int  // field of the ordered flag
	inv   bool // the flag is kept negated
	key   types.Type
	val   types.Type
	ent   *types.Struct
	kf    int // field of an entry: key
	vf    int // field of an entry: value
	ctor  *ssa.Function
	why   string
}

// mapImpls lists the ordered map interfaces of the module with their
// implementations.
func (p *Prog) mapImpls() []*mapImpl {
	var out []*mapImpl
	for _, s := range p.sortedPkgs() {
		for _, name := range s.Pkg.Scope().Names() {
			tn, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || !isIface(tn.Type()) || !p.isContainer(tn.Type()) {
				continue
			}
			for _, im := range p.implementers(tn.Type()) {
				m := &mapImpl{p: p, name: name, iface: tn.Type(), typ: im, ord: -1, idx: -1, flag: -1}
				m.fields()
				out = append(out, m)
			}
		}
	}
	for _, fn := range p.publicFns() {
		s := fn.Signature
		if s.Results().Len() != 1 || s.Params().Len() != 1 {
			continue
		}
		for _, m := range out {
			if types.Identical(s.Results().At(0).Type(), m.iface) {
				m.ctor = fn
			}
		}
	}
	for _, m := range out {
		m.inv = m.negated()
	}
	// several interfaces may share an implementation
	best := map[string]*mapImpl{}
	for _, m := range out {
		k := typeKey(m.typ)
		if b := best[k]; b == nil || b.ctor == nil && m.ctor != nil {
			best[k] = m
		}
	}
	out = nil
	for _, m := range best {
		out = append(out, m)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func (m *mapImpl) fields() {
	n := namedOf(deref(m.typ))
	if n == nil {
		m.why = "no named implementation"
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		m.why = "no struct"
		return
	}
	m.st = s
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			e, ok := u.Elem().Underlying().(*types.Struct)
			if !ok || e.NumFields() != 2 || m.ord >= 0 {
				m.why = "slice of something else than entries"
				return
			}
			m.ord, m.ent = i, e
		case *types.Map:
			if m.idx >= 0 {
				m.why = "several indexes"
				return
			}
			m.idx, m.key, m.val = i, u.Key(), u.Elem()
		case *types.Basic:
			if u.Info()&types.IsBoolean == 0 || m.flag >= 0 {
				m.why = "unknown field"
				return
			}
			m.flag = i
		default:
			m.why = "unknown field " + s.Field(i).Name()
			return
		}
	}
	if m.ord < 0 || m.idx < 0 || m.flag < 0 {
		m.why = "no order, index or flag"
		return
	}
	m.kf, m.vf = 0, 1
	if m.ent.Field(1).Name() == "Key" || m.ent.Field(0).Name() == "Val" || m.ent.Field(0).Name() == "Value" {
		m.kf, m.vf = 1, 0
	}
	if !types.Identical(m.ent.Field(m.kf).Type(), m.key) || !types.Identical(m.ent.Field(m.vf).Type(), m.val) {
		m.why = "entries of another type than the index"
	}
}

// negated reports whether the flag field holds the opposite of the ordered
// flag: both the constructor and SerializeOrdered have to agree on it.
func (m *mapImpl) negated() bool {
	if m.why != "" || m.ctor == nil {
		return false
	}
	r := newFlow(m.p)
	r.mapMode = true
	size := r.sym("size", m.ctor.Signature.Params().At(0).Type())
	outs, g, st := r.callFn(m.ctor, []Val{r.one(size)}, nil, True, State{}, m.ctor.Pos())
	if len(outs) != 1 {
		return false
	}
	root := r.unbox(outs[0]).single()
	if root == nil || root.op != "obj" {
		return false
	}
	if v := r.under(r.loadFlag(m, st, root), g).single(); v == nil || v != r.boolean(false) {
		return false
	}
	f := m.call("SerializeOrdered", nil)
	if f == nil || len(f.args) != 1 {
		return false
	}
	v := f.loadFlag(m, f.st, f.root)
	return f.covers(v, f.g) && f.sameGuard(f.guard(v), f.bdd.Not(f.boolGuard(f.args[0])), f.g)
}

// loadFlag is the flag field of a map.
func (r *Flow) loadFlag(m *mapImpl, st State, root *Term) Val {
	ft := m.st.Field(m.flag).Type()
	return r.load(st, r.faddr(root, m.flag, types.NewPointer(ft)), ft)
}

// ordered is the ordered flag a value of the flag field stands for.
func (f *mapFlow) ordered(v *Term) B {
	if f.m.inv {
		return f.bdd.Not(f.boolGuard(v))
	}
	return f.boolGuard(v)
}

// mapFlow is the analysis of one operation.
type mapFlow struct {
	*Flow
	m      *mapImpl
	root   *Term
	ordLoc *Term
	idxLoc *Term
	flgLoc *Term
	o0     *Term // the entries before
	m0     *Term // the content of the index before
	i0     *Term // the index itself
	f0     *Term
	args   []*Term
	outs   []Val
	g      B
	st     State
	fn     *ssa.Function
}

func (m *mapImpl) method(name string) *ssa.Function {
	sel := m.p.prog.MethodSets.MethodSet(m.typ).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return m.p.prog.MethodValue(sel)
}

// enter prepares a state of the map about which only the invariant is known.
func (m *mapImpl) enter() *mapFlow {
	r := newFlow(m.p)
	r.mapMode = true
	f := &mapFlow{Flow: r, m: m}
	f.root = r.sym("m", m.typ)
	r.nonnil[f.root] = true
	r.roots[f.root] = true
	fld := func(i int) *Term { return r.faddr(f.root, i, types.NewPointer(m.st.Field(i).Type())) }
	f.ordLoc, f.idxLoc, f.flgLoc = fld(m.ord), fld(m.idx), fld(m.flag)
	f.o0 = r.load(State{}, f.ordLoc, m.st.Field(m.ord).Type()).single()
	f.i0 = r.load(State{}, f.idxLoc, m.st.Field(m.idx).Type()).single()
	f.f0 = r.load(State{}, f.flgLoc, m.st.Field(m.flag).Type()).single()
	if f.o0 == nil || f.i0 == nil || f.f0 == nil {
		return nil
	}
	r.nonnil[f.i0] = true
	f.m0 = r.mapContent(State{}, f.i0).single()
	r.mapIdx, r.mapOrd = f.m0, f.o0
	r.mapKF = m.kf
	return f
}

// call analyses an operation on arbitrary arguments.
func (m *mapImpl) call(name string, prep func(f *mapFlow)) *mapFlow {
	fn := m.method(name)
	f := m.enter()
	if fn == nil || f == nil {
		return nil
	}
	f.fn = fn
	args := []Val{f.one(f.root)}
	s := fn.Signature
	for i := 0; i < s.Params().Len(); i++ {
		a := f.sym([]string{"a", "b", "c", "d"}[i%4]+"rg", s.Params().At(i).Type())
		f.args = append(f.args, a)
		args = append(args, f.one(a))
	}
	if prep != nil {
		prep(f)
	}
	f.outs, f.g, f.st = f.callFn(fn, args, nil, True, State{}, fn.Pos())
	return f
}

// has is the guard of key k being in the map before the operation.
func (f *mapFlow) has(k *Term) B { return f.hasAtom(f.m0, f.one(k)) }

// hit reports whether t is the position of key k.
func (f *mapFlow) hit(t *Term, k *Term) bool {
	x, ok := f.hits[t]
	return ok && f.unbox(f.one(x)).single() == f.unbox(f.one(k)).single()
}

// part of an order: all entries before, those below or above the position of a
// key, or one entry.
type part struct {
	what string // "all", "below", "above", "entry", "?"
	pos  *Term
	ent  *Term
}

// moved reports the position the entries are moved down to where g holds; ok is
// false if that depends on more than g.
func (f *mapFlow) moved(base *Term, g B) (p *Term, ok bool) {
	all := f.bdd.And(g, f.shiftedBy(f.st, base, nil))
	if all == False {
		return nil, true
	}
	for _, c := range f.st[f.shiftLoc(base)] {
		if c.t.op != "init" && f.bdd.Implies(g, f.shiftedBy(f.st, base, c.t)) {
			return c.t, true
		}
	}
	return nil, false
}

// parts is the normal form of a list of entries where g holds.
func (f *mapFlow) parts(t *Term, g B) []part {
	unmoved := func(t *Term) bool {
		p, ok := f.moved(t, g)
		return ok && p == nil
	}
	switch {
	case t == f.o0:
		if !unmoved(t) {
			return []part{{what: "?"}}
		}
		return []part{{what: "all"}}
	case t.op == "nil", t.op == "lit" && len(t.args) == 0:
		return nil
	case t.op == "lit":
		var out []part
		for _, a := range t.args {
			e := a.single()
			if e == nil {
				return []part{{what: "?"}}
			}
			out = append(out, part{what: "entry", ent: e})
		}
		return out
	case t.op != "app":
		return []part{{what: "?", ent: t}}
	}
	arg := func(i int) *Term {
		if i >= len(t.args) {
			return nil
		}
		return t.args[i].single()
	}
	switch t.str {
	case "made":
		if n := arg(0); n != nil && f.isZero(n) {
			return nil
		}
	case "copyof":
		if a := arg(0); a != nil {
			return f.parts(a, g)
		}
	case "removeAt":
		a, p := arg(0), arg(1)
		if a == f.o0 && p != nil {
			return []part{{what: "below", pos: p}, {what: "above", pos: p}}
		}
	case "slice":
		a, lo, hi := arg(0), arg(1), arg(2)
		if a == nil || lo == nil || hi == nil {
			break
		}
		if f.isZero(lo) && f.isZero(hi) && unmoved(a) {
			return nil
		}
		if a != f.o0 {
			break
		}
		if p, ok := f.moved(a, g); p != nil || !ok {
			if !ok {
				break
			}
			if f.isZero(lo) && hi.op == "app" && hi.str == "-" && hi.args[1].single() == f.integer(1) {
				if l := hi.args[0].single(); l != nil && l.op == "app" && l.str == "len" && l.args[0].single() == a {
					return []part{{what: "below", pos: p}, {what: "above", pos: p}}
				}
			}
			break
		}
		if f.isZero(lo) && (hi.op == "ind" || f.isPos(hi)) {
			return []part{{what: "below", pos: hi}}
		}
		if hi.op == "nil" || hi.op == "app" && hi.str == "len" && hi.args[0].single() == a {
			for p := range f.hits {
				if f.plusOne(p, lo) {
					return []part{{what: "above", pos: p}}
				}
			}
		}
	case "append":
		a, e := arg(0), arg(1)
		if a != nil && e != nil {
			return append(f.parts(a, g), part{what: "entry", ent: e})
		}
	case "concat":
		a, b := arg(0), arg(1)
		if a != nil && b != nil {
			return append(f.parts(a, g), f.parts(b, g)...)
		}
	case "without":
		a, p := arg(0), arg(1)
		if a == f.o0 && p != nil {
			return []part{{what: "below", pos: p}, {what: "above", pos: p}}
		}
	}
	return []part{{what: "?", ent: t}}
}

func (f *mapFlow) isPos(t *Term) bool { _, ok := f.hits[t]; return ok }

// entry takes an entry apart.
func (f *mapFlow) entry(t *Term) (k, v Val, ok bool) {
	if t.op == "struct" && len(t.args) == 2 {
		return t.args[f.m.kf], t.args[f.m.vf], true
	}
	return nil, nil, false
}

// entryAt is a field of the entry at a position before the operation.
func (f *mapFlow) entryAt(i *Term, field int) Val {
	e := f.intern(Term{op: "eaddr", args: []Val{f.one(f.o0), f.one(i)}, typ: types.NewPointer(f.m.ent)})
	return f.load(State{}, f.faddr(e, field, types.NewPointer(f.m.ent.Field(field).Type())), f.m.ent.Field(field).Type())
}

// elem is the value of a field of the entry at a position before the operation.
func (f *mapFlow) elem(t *Term, field int) (pos *Term, ok bool) {
	if t.op != "init" || len(t.args) != 1 {
		return nil, false
	}
	l := t.args[0].single()
	if l == nil || l.op != "faddr" || l.idx != field {
		return nil, false
	}
	b := l.args[0].single()
	if b == nil || b.op != "eaddr" || b.args[0].single() != f.o0 {
		return nil, false
	}
	p := b.args[1].single()
	return p, p != nil
}
