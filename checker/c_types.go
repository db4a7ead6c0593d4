package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// typeInfo is what the kinds of type declarations are implemented by.
type typeInfo struct {
	byKind map[string]*Elem // kind -> element
	names  []string         // names of the built-in types
}

func (p *Prog) typeInfo(c *Check) *typeInfo {
	ti := &typeInfo{byKind: map[string]*Elem{}}
	for i := range specs {
		sp := &specs[i]
		if sp.kind == "" {
			continue
		}
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			c.missing = append(c.missing, err.Error())
			continue
		}
		ti.byKind[sp.kind] = e
		if n, ok := typeNames[sp.iface]; ok {
			ti.names = append(ti.names, n)
		}
	}
	sort.Strings(ti.names)
	return ti
}

// checkC05: type declarations resolve to the right kind of type.
func checkC05(p *Prog, c *Check) {
	c.rule = "Every function that turns a declaration node into a type (found through the readers and parse functions that call it) is analysed on: a string node whose text is each built-in name, each other constant the code compares the text with, any other text without and with a bar; a null node; an !include node; and a mapping whose recognised keys are every order of every subset of {type or schema, properties, items, each other key the code compares with}, other keys in between or not, the type value being each of those texts or an !include. On every path the declaration is not rejected, the returned element has the required implementing type, names keep their text as Type(), and a mapping is read into the element that is returned. Kind() of every element is its RAML kind in every state."
	c.assume = append(c.assume, "an explicit string \"!include x\" is an include, as the resolver documents", "type and schema do not both occur in one declaration (RAML forbids it)")
	c.floor = 700
	ti := p.typeInfo(c)
	for i := range specs {
		sp := &specs[i]
		e := ti.byKind[sp.kind]
		if e == nil {
			continue
		}
		r := newFlow(p)
		root, ok := r.enter(e)
		if !ok {
			c.missing = append(c.missing, sp.iface)
			continue
		}
		v, _, _ := r.method(e, root, "Kind", nil, True, State{})
		got := ""
		if len(v) == 1 {
			got = r.printVal(v[0])
		}
		c.ob(r, sp.iface+"/Kind", got == fmt.Sprintf("%q", sp.kind), e.ctor.Pos(), "Kind() of %s is %s, not %q", sp.iface, got, sp.kind)
		c.used(r)
	}
	rs := p.resolverFns()
	n := 0
	for _, x := range rs {
		if !p.yieldsTypes(x, ti) {
			continue
		}
		n++
		t := &typeRes{p: p, c: c, ti: ti, rs: x, name: x.fn.Name()}
		t.strings()
		t.single("null", classes(cNull), "string", "")
		t.single("included", classes(cInclude), "include", "text")
		t.maps()
	}
	if n == 0 {
		c.missing = append(c.missing, "functions that resolve type declarations")
	}
}

// yieldsTypes reports whether a resolver returns type declarations.
func (p *Prog) yieldsTypes(x resolver, ti *typeInfo) bool {
	t := x.fn.Signature.Results().At(0).Type()
	for _, e := range ti.byKind {
		if !types.AssignableTo(e.typ, t) {
			return false
		}
	}
	return true
}

type typeRes struct {
	p    *Prog
	c    *Check
	ti   *typeInfo
	rs   resolver
	name string
}

// want is the kind a type name stands for.
func (t *typeRes) want(name string) string {
	for _, n := range t.ti.names {
		if n == name {
			return n
		}
	}
	if strings.HasPrefix(name, "!include ") {
		return ""
	}
	if strings.Contains(name, "|") {
		return "union"
	}
	return "custom"
}

// run analyses the resolver on a prepared node.
func (t *typeRes) run(prep func(r *Flow, decl *Term)) *typeRun {
	r := newFlow(t.p)
	r.resolve = true
	decl := r.sym("decl", t.rs.fn.Signature.Params().At(0).Type())
	r.nonnil[decl] = true
	prep(r, decl)
	outs, g, st := r.callFn(t.rs.fn, []Val{r.one(decl)}, nil, True, State{}, t.rs.fn.Pos())
	t.c.used(r)
	if len(outs) != 2 {
		r.und["unexpected signature"] = true
		outs = []Val{nil, nil}
		g = False
	}
	return &typeRun{t, r, decl, outs, g, st}
}

type typeRun struct {
	t    *typeRes
	r    *Flow
	decl *Term
	outs []Val
	g    B
	st   State
}

// expect decides what the declaration resolves to.
func (x *typeRun) expect(key, kind, text string) {
	r, c := x.r, x.t.c
	pos := x.t.rs.fn.Pos()
	what := strings.TrimPrefix(key, x.t.name+"/")
	ok := False
	if x.outs[1] != nil {
		ok = r.bdd.And(x.g, r.nilGuard(x.outs[1]))
	}
	may := False // failures of reading the chosen element itself
	for _, f := range r.fails {
		if strings.HasPrefix(f.what, "read:") {
			may = r.bdd.Or(may, f.g)
		}
	}
	rej := r.bdd.Diff(r.bdd.Not(ok), may)
	c.ob(r, key+"/accepted", rej == False, pos, "%s: a declaration that is %s is rejected when %s", x.t.name, what, r.bdd.String(rej))
	e := x.t.ti.byKind[kind]
	bad := ""
	badPos := pos
	var objs []Case
	for _, cs := range r.unbox(x.outs[0]) {
		cg := r.bdd.And(cs.g, ok)
		if cg == False {
			continue
		}
		objs = append(objs, Case{cg, cs.t})
		ty := cs.t.typ
		if cs.t.op == "obj" && ty != nil {
			ty = types.NewPointer(ty)
		}
		if cs.t.op == "nil" || ty == nil || e == nil || typeKey(ty) != typeKey(e.typ) {
			bad = fmt.Sprintf("%s resolves to %s when %s, not to the %s type", what, r.print(cs.t), r.bdd.String(cg), kind)
		}
	}
	if ok != False && len(objs) == 0 {
		bad = what + " resolves to nothing known"
	}
	c.ob(r, key+"/kind", bad == "", badPos, "%s: %s", x.t.name, bad)
	if bad != "" || e == nil {
		return
	}
	if text != "" {
		bad = ""
		for _, o := range objs {
			r.roots[o.t] = true
			v, g, _ := r.method(e, o.t, "Type", nil, o.g, x.st)
			if len(v) != 1 {
				bad = "has no Type()"
				continue
			}
			for _, cs := range r.bare(v[0]) {
				if r.bdd.And(cs.g, g) == False {
					continue
				}
				good := false
				if text == "text" {
					good = cs.t == r.nodeValue(x.decl, types.Typ[types.String]).single()
				} else {
					s, isS := constStr(r.one(cs.t))
					good = isS && s == text
				}
				if !good {
					bad = fmt.Sprintf("Type() of what %s resolves to is %s when %s", what, r.print(cs.t), r.bdd.String(r.bdd.And(cs.g, g)))
				}
			}
		}
		c.ob(r, key+"/type name", bad == "", pos, "%s: %s", x.t.name, bad)
	}
}

func (t *typeRes) strings() {
	todo := append([]string{}, t.ti.names...)
	done := map[string]bool{}
	for _, n := range todo {
		done[n] = true
	}
	more := func(r *Flow) {
		var l []string
		for s := range r.nameCmp {
			if !done[s] {
				done[s] = true
				l = append(l, s)
			}
		}
		sort.Strings(l)
		todo = append(todo, l...)
	}
	for _, k := range []struct{ pre, kind string }{{"name", "custom"}, {"name|", "union"}} {
		x := t.run(func(r *Flow, d *Term) { r.nodePre[d] = &KeyPreset{k.pre, ""} })
		x.expect(t.name+"/"+map[string]string{"name": "any other name", "name|": "an expression with a bar"}[k.pre], k.kind, "text")
		more(x.r)
	}
	for i := 0; i < len(todo); i++ {
		n := todo[i]
		kind := t.want(n)
		if kind == "" {
			continue
		}
		x := t.run(func(r *Flow, d *Term) { r.nodePre[d] = &KeyPreset{"const", n} })
		x.expect(fmt.Sprintf("%s/the name %q", t.name, n), kind, n)
	}
}

func (t *typeRes) single(what string, cs classSet, kind, text string) {
	x := t.run(func(r *Flow, d *Term) { r.clsFixSet[d] = cs })
	x.expect(t.name+"/"+what, kind, text)
}

// orders lists every order of every subset of the keys.
func orders(keys []string) [][]string {
	out := [][]string{{}}
	var rec func(cur []string, used int)
	rec = func(cur []string, used int) {
		for i, k := range keys {
			if used&(1<<i) != 0 {
				continue
			}
			nx := append(append([]string{}, cur...), k)
			out = append(out, nx)
			rec(nx, used|1<<i)
		}
	}
	rec(nil, 0)
	return out
}

func (t *typeRes) maps() {
	type val struct {
		label string
		pre   *KeyPreset
		kind  string
	}
	vals := []val{
		{"any other name", &KeyPreset{"name", ""}, "custom"},
		{"an expression with a bar", &KeyPreset{"name|", ""}, "union"},
		{"an include", &KeyPreset{"include", ""}, "include"},
	}
	done := map[string]bool{"type": true, "schema": true, "properties": true, "items": true}
	doneName := map[string]bool{}
	for _, n := range t.ti.names {
		vals = append(vals, val{fmt.Sprintf("%q", n), &KeyPreset{"const", n}, n})
		doneName[n] = true
	}
	one := func(order []string, other bool, v *val) *typeRun {
		x := t.run(func(r *Flow, d *Term) {
			r.clsFixSet[d] = classes(cMap)
			r.seq = &seqMode{node: d, order: order, other: other, byLC: map[int]*KeyPreset{}, lcs: map[string]*LoopCtx{}, vals: map[string]*KeyPreset{}}
			if v != nil {
				r.seq.vals["type"], r.seq.vals["schema"] = v.pre, v.pre
			}
		})
		label := "a mapping with " + strings.Join(order, ", ")
		if len(order) == 0 {
			label = "a mapping without recognised keys"
		}
		if other {
			label += " and other keys"
		}
		kind := "string"
		has := map[string]bool{}
		for _, k := range order {
			has[k] = true
		}
		switch {
		case v != nil:
			kind = v.kind
			label += ", the type being " + v.label
		case has["properties"]:
			kind = "object"
		case has["items"]:
			kind = "array"
		}
		x.expect(t.name+"/"+label, kind, "")
		x.filled(t.name+"/"+label, label)
		return x
	}
	extra := []string{"properties", "items"}
	keyExtra := func(r *Flow) {
		var l []string
		for s := range r.keyCmp {
			if !done[s] && len(extra) < 5 {
				done[s] = true
				l = append(l, s)
			}
		}
		sort.Strings(l)
		extra = append(extra, l...)
	}
	for i := 0; i < 2; i++ { // the second time with the keys found in the first
		n := len(extra)
		for _, o := range orders(extra) {
			keyExtra(one(o, true, nil).r)
			if len(o) > 0 {
				one(o, false, nil)
			}
		}
		if len(extra) == n {
			break
		}
	}
	for vi := 0; vi < len(vals); vi++ {
		v := vals[vi]
		for _, tk := range []string{"type", "schema"} {
			for _, o := range orders(append([]string{tk}, extra...)) {
				has := false
				for _, k := range o {
					has = has || k == tk
				}
				if !has {
					continue
				}
				x := one(o, true, &v)
				var l []string
				for s := range x.r.nameCmp {
					if !doneName[s] && t.want(s) != "" {
						doneName[s] = true
						l = append(l, s)
					}
				}
				sort.Strings(l)
				for _, s := range l {
					vals = append(vals, val{fmt.Sprintf("%q", s), &KeyPreset{"const", s}, t.want(s)})
				}
			}
		}
	}
}

// filled: the declaration is read into the element that is returned.
func (x *typeRun) filled(key, label string) {
	r := x.r
	ok := False
	if x.outs[1] != nil {
		ok = r.bdd.And(x.g, r.nilGuard(x.outs[1]))
	}
	bad := ""
	for _, o := range r.unbox(x.outs[0]) {
		og := r.bdd.And(o.g, ok)
		if og == False {
			continue
		}
		read := False
		for _, ev := range r.log {
			if ev.kind == "read" && ev.recv == o.t && len(ev.args) == 1 && ev.args[0].single() == x.decl && len(ev.ctx) == 0 {
				read = r.bdd.Or(read, ev.g)
			}
		}
		if miss := r.bdd.Diff(og, read); miss != False {
			bad = "the facets of " + label + " are not read into the element when " + r.bdd.String(miss)
		}
	}
	x.t.c.ob(r, key+"/read", bad == "", x.t.rs.fn.Pos(), "%s: %s", x.t.name, bad)
}
