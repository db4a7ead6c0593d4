package main

// Operations of an element: everything the public interface lets a user do to it.
// Each is analysed on its own, from an arbitrary state of the element.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind int

const (
	opNew opKind = iota
	opGet
	opSet
	opSetNil
	opUnset
	opRead
	opWrite
	opOther
)

type op struct {
	kind   opKind
	name   string // method name
	label  string // stable name of the operation
	target string // accessor concerned
	e      *Elem
	sp     *elemSpec
	r      *Flow
	root   *Term
	arg    *Term
	outs   []Val
	g      B
	st     State
	st0    State
	fn     *ssa.Function
}

// publicElems lists the element kinds with a public interface and an
// implementation: those of the table, and any other.
func (p *Prog) publicElems() []*Elem {
	var out []*Elem
	seen := map[string]bool{}
	for i := range specs {
		if e, err := p.element(specs[i].iface, specs[i].kind); err == nil {
			out = append(out, e)
			seen[typeKey(e.typ)] = true
		}
	}
	return out
}

// target is the accessor a mutator concerns.
func (e *Elem) target(m string) string {
	have := map[string]bool{}
	for _, g := range e.getters() {
		have[g.Name()] = true
	}
	for _, pre := range []string{"Set", "Unset", "Override"} {
		if strings.HasPrefix(m, pre) {
			n := strings.TrimPrefix(m, pre)
			if have[n] {
				return n
			}
			if have["Is"+n] {
				return "Is" + n
			}
			if strings.HasPrefix(n, "Is") && have[n[2:]] {
				return n[2:]
			}
			return n
		}
	}
	return ""
}

// enterOp prepares a flow for one operation.
func (p *Prog) enterOp(e *Elem, name string) *op {
	r := newFlow(p)
	root, ok := r.enter(e)
	if !ok {
		return nil
	}
	return &op{name: name, e: e, sp: specOf(e.name), r: r, root: root, fn: r.methodFn(e, name), st0: State{}}
}

// ops analyses the operations of an element of the given kinds.
func (p *Prog) ops(e *Elem, kinds ...opKind) []*op {
	want := map[opKind]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	var out []*op
	add := func(o *op) { out = append(out, o) }
	if want[opNew] {
		r := newFlow(p)
		root, st, ok := r.construct(e)
		o := &op{kind: opNew, name: "new", label: "fresh", e: e, sp: specOf(e.name), r: r, root: root, st: st, g: True, fn: e.ctor, st0: State{}}
		if ok {
			r.roots[root] = true
			for _, x := range r.parts(root, st) {
				r.roots[x] = true
			}
			add(o)
		}
	}
	for _, m := range p.mutators(e) {
		name := m.Name()
		s := m.Type().(*types.Signature)
		switch {
		case s.Params().Len() == 1 && (want[opSet] || want[opSetNil]):
			pt := s.Params().At(0).Type()
			if want[opSet] {
				if o := p.enterOp(e, name); o != nil && o.fn != nil {
					o.kind, o.label, o.target = opSet, name, e.target(name)
					o.arg = o.r.sym("v", pt)
					if nilable(pt) {
						o.r.nonnil[o.arg] = true
					}
					o.outs, o.g, o.st = o.r.method(e, o.root, name, []Val{o.r.one(o.arg)}, True, State{})
					add(o)
				}
			}
			if want[opSetNil] && nilable(pt) {
				if o := p.enterOp(e, name); o != nil && o.fn != nil {
					o.kind, o.label, o.target = opSetNil, name+"(nil)", e.target(name)
					o.arg = o.r.nilT()
					o.outs, o.g, o.st = o.r.method(e, o.root, name, []Val{o.r.one(o.arg)}, True, State{})
					add(o)
				}
			}
		case s.Params().Len() == 0 && want[opUnset]:
			if o := p.enterOp(e, name); o != nil && o.fn != nil {
				o.kind, o.label, o.target = opUnset, name, e.target(name)
				o.outs, o.g, o.st = o.r.method(e, o.root, name, nil, True, State{})
				add(o)
			}
		}
	}
	if want[opGet] {
		for _, m := range p.allGetters(e) {
			if o := p.enterOp(e, m); o != nil && o.fn != nil {
				o.kind, o.label, o.target = opGet, m, m
				o.outs, o.g, o.st = o.r.method(e, o.root, m, nil, True, State{})
				add(o)
			}
		}
	}
	sp := specOf(e.name)
	if want[opRead] && sp != nil {
		for _, k := range sp.presets() {
			rd := p.read(sp, e, k.k, k.cs)
			if rd == nil {
				continue
			}
			add(&op{kind: opRead, name: sp.reader, label: "read " + k.label, e: e, sp: sp, r: rd.r, root: rd.root, outs: rd.outs, g: rd.g, st: rd.st, fn: rd.r.methodFn(e, sp.reader), st0: State{}})
		}
	}
	if want[opWrite] {
		for _, m := range p.writers(e) {
			o := p.enterOp(e, m.Name())
			if o == nil || o.fn == nil {
				continue
			}
			o.kind, o.label = opWrite, m.Name()
			var args []Val
			for i := 0; i < m.Type().(*types.Signature).Params().Len(); i++ {
				a := o.r.sym("arg", m.Type().(*types.Signature).Params().At(i).Type())
				o.r.nonnil[a] = true
				args = append(args, o.r.one(a))
				o.arg = a
			}
			o.outs, o.g, o.st = o.r.method(e, o.root, m.Name(), args, True, State{})
			add(o)
		}
	}
	return out
}

type presetJob struct {
	label string
	k     *KeyPreset
	cs    classSet
}

// presets are the kinds of document an element is analysed for.
func (sp *elemSpec) presets() []presetJob {
	var out []presetJob
	for _, f := range sp.facets {
		for _, k := range f.keys {
			out = append(out, presetJob{k, &KeyPreset{"const", k}, classes(cMap)})
		}
	}
	for _, k := range []string{"unknown", "annotation", "resource", "scalar", "complex"} {
		out = append(out, presetJob{"(" + k + ")", &KeyPreset{k, ""}, classes(cMap)})
	}
	out = append(out, presetJob{"(empty key)", &KeyPreset{"const", ""}, classes(cMap)})
	out = append(out, presetJob{"(no mapping)", nil, allClasses &^ classes(cMap)})
	out = append(out, presetJob{"(any document)", nil, allClasses})
	return out
}

// mutators are the exported methods that change an element: those of the public
// interface, and any others the implementation has.
func (p *Prog) mutators(e *Elem) []*types.Func {
	var out []*types.Func
	all := e.ifaceMethods()
	have := map[string]bool{}
	for _, m := range all {
		have[m.Name()] = true
	}
	ms := p.prog.MethodSets.MethodSet(e.typ)
	for i := 0; i < ms.Len(); i++ {
		if m, ok := ms.At(i).Obj().(*types.Func); ok && m.Exported() && !have[m.Name()] {
			all = append(all, m)
		}
	}
	for _, m := range all {
		s := m.Type().(*types.Signature)
		if s.Results().Len() > 1 || s.Params().Len() > 1 || s.Results().Len() == 0 && !strings.HasPrefix(m.Name(), "Override") {
			continue
		}
		if strings.HasPrefix(m.Name(), "Set") || strings.HasPrefix(m.Name(), "Unset") || strings.HasPrefix(m.Name(), "Override") {
			out = append(out, m)
		}
	}
	return out
}

// allGetters are the public accessors, and those of the property interface.
func (p *Prog) allGetters(e *Elem) []string {
	names := map[string]bool{}
	for _, m := range e.getters() {
		names[m.Name()] = true
	}
	if sp := specOf(e.name); sp != nil {
		r := newFlow(p)
		for _, f := range sp.facets {
			if r.methodFn(e, f.getter) != nil {
				names[f.getter] = true
			}
		}
	}
	var out []string
	for n := range names {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// writers are the public methods that serialise an element.
func (p *Prog) writers(e *Elem) []*types.Func {
	var out []*types.Func
	ms := p.prog.MethodSets.MethodSet(e.typ)
	for i := 0; i < ms.Len(); i++ {
		m, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !m.Exported() {
			continue
		}
		switch m.Name() {
		case "ToYAML", "MarshalYAML", "MarshalRAML", "ToRAML", "WriteRAML", "MarshalJSON":
			out = append(out, m)
		}
	}
	return out
}

// contFields lists the container-typed fields of an element's parts, and the value
// they have in a state.
func (o *op) contFields(st State) map[*Term]Val {
	out := map[*Term]Val{}
	r := o.r
	for x := range r.roots {
		n := namedOf(x.typ)
		if n == nil || x.op != "obj" {
			continue
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		r.eachField(x, s, func(loc *Term, ft types.Type) {
			if r.P.isContainer(ft) {
				v, ok := st[loc]
				if !ok {
					v = r.load(st, loc, ft)
				}
				out[loc] = v
			}
		})
	}
	return out
}

// eachField visits the fields of a struct location, embedded ones included.
func (r *Flow) eachField(base *Term, s *types.Struct, f func(loc *Term, ft types.Type)) {
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		loc := r.faddr(base, i, types.NewPointer(ft))
		if sub, ok := ft.Underlying().(*types.Struct); ok {
			r.eachField(loc, sub, f)
			continue
		}
		f(loc, ft)
	}
}
