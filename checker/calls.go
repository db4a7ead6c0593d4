package main

// Calls: dispatch, summaries of other elements' readers and writers, the ordered
// maps as abstract containers, and the contracts of the dependencies.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// doCall analyses a call instruction.
func (r *Flow) doCall(a *act, c *ssa.CallCommon, in ssa.Instruction, g B, st State) ([]Val, B, State) {
	pos := in.Pos()
	var args []Val
	for _, x := range c.Args {
		args = append(args, r.valOf(a, x))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(a, b, c, args, g, st, pos)
	}
	if c.IsInvoke() {
		recv := r.valOf(a, c.Value)
		return r.perCase(recv, c.Signature().Results(), g, st, func(t *Term, cg B, cst State) ([]Val, B, State) {
			return r.invoke(t, c, args, cg, cst, pos)
		})
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, r.valOf(a, b))
			}
		}
		return r.callFn(fn, args, bind, g, st, pos)
	}
	fv := r.valOf(a, c.Value)
	return r.perCase(fv, c.Signature().Results(), g, st, func(t *Term, cg B, cst State) ([]Val, B, State) {
		return r.callValue(t, c.Signature(), args, cg, cst, pos)
	})
}

// perCase runs a call for every case of a guarded value and joins the outcomes.
func (r *Flow) perCase(v Val, res *types.Tuple, g B, st State, f func(t *Term, g B, st State) ([]Val, B, State)) ([]Val, B, State) {
	if len(v) == 1 && r.bdd.Implies(g, v[0].g) {
		return f(v[0].t, g, st)
	}
	var es []edge
	var outs [][]Val
	for _, c := range v {
		cg := r.bdd.And(g, c.g)
		if cg == False {
			continue
		}
		o, og, ost := f(c.t, cg, st.clone())
		if og == False {
			continue
		}
		es = append(es, edge{g: og, st: ost})
		outs = append(outs, o)
	}
	if len(es) == 0 {
		return r.zeroResults(res), False, st
	}
	jg, jst := r.join(es)
	n := res.Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		var vs []Val
		var gs []B
		for k := range outs {
			vs = append(vs, outs[k][i])
			gs = append(gs, es[k].g)
		}
		if len(vs) == 1 {
			out[i] = vs[0]
		} else {
			out[i] = r.merge(vs, gs)
		}
	}
	return out, jg, jst
}

// callValue calls a function value.
func (r *Flow) callValue(t *Term, sig *types.Signature, args []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	switch t.op {
	case "closure":
		return r.callFn(t.fn, args, t.args, g, st, pos)
	case "func":
		return r.callFn(t.fn, args, nil, g, st, pos)
	case "nil":
		r.oblige("nil dereference", "call of a nil function", True, g, pos)
		return r.zeroResults(sig.Results()), False, st
	}
	r.event("callback", t, g, pos, args...)
	if !r.mapMode {
		r.undecided(pos, "call of an unknown function value")
	}
	return r.errResults("callback", sig.Results(), append([]Val{r.one(t)}, args...), g, pos, true), g, st
}

// errResults are the results of a call that yields unknown values; a trailing
// error result becomes an independent failure.
func (r *Flow) errResults(name string, res *types.Tuple, args []Val, g B, pos token.Pos, canFail bool) []Val {
	out := make([]Val, res.Len())
	var failed B = False
	if n := res.Len(); n > 0 && isErrType(res.At(n-1).Type()) && canFail {
		key := name
		for _, a := range args {
			key += "|" + r.valKey(a)
		}
		for _, c := range r.ctx {
			key += fmt.Sprintf("@%d", c.id)
		}
		failed = r.bdd.Var("fail:"+key, name+" fails")
		r.fail(name, r.bdd.And(g, failed), pos)
		e := r.app("err:"+name, res.At(n-1).Type(), args...)
		out[n-1] = r.ite(failed, r.one(e), r.one(r.nilT()))
	}
	for i := range out {
		if out[i] != nil {
			continue
		}
		n := name
		if res.Len() > 1 && i > 0 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		v := r.one(r.app(n, res.At(i).Type(), args...))
		if failed != False {
			v = r.ite(failed, r.zero(res.At(i).Type()), v)
		}
		out[i] = v
	}
	return out
}

// partial is errResults for an operation that may have done a part of its work
// when it fails.
func (r *Flow) partial(name string, res *types.Tuple, args []Val, g B, pos token.Pos) []Val {
	out := r.errResults(name, res, args, g, pos, true)
	if len(out) == 2 {
		out[0] = r.one(r.app(name+":count", res.At(0).Type(), args...))
	}
	return out
}

// boundary reports whether a method is the reading or writing entry of an
// element: analysed on its own, summarised where it is called.
func boundary(name string) bool {
	switch name {
	case "UnmarshalRAML", "UnmarshalYAML", "ToYAML", "MarshalYAML", "MarshalRAML", "ToRAML":
		return true
	}
	return false
}

// isElementType reports whether t (or *t) is an element implementation: a struct
// type implementing a public element interface.
func (p *Prog) isElementType(t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil || !p.inModule(n.Obj().Pkg()) {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(n.Obj().Pkg(), "UnmarshalRAML") != nil || ms.Lookup(n.Obj().Pkg(), "UnmarshalYAML") != nil || ms.Lookup(n.Obj().Pkg(), "ToYAML") != nil
}

// invoke calls an interface method on one receiver term.
func (r *Flow) invoke(t *Term, c *ssa.CallCommon, args []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	name := c.Method.Name()
	res := c.Signature().Results()
	switch t.op {
	case "nil":
		r.oblige("nil dereference", "method "+name+" called on nil", True, g, pos)
		return r.zeroResults(res), False, st
	case "ctr":
		return r.container(t, name, c.Signature(), args, g, st, pos)
	case "iface":
		sel := r.P.prog.MethodSets.MethodSet(t.typ).Lookup(c.Method.Pkg(), name)
		if sel == nil {
			break
		}
		fn := r.P.prog.MethodValue(sel)
		if fn == nil {
			break
		}
		in := t.args[0]
		if r.P.isElementType(t.typ) && boundary(name) {
			if x := in.single(); x == nil || !r.roots[x] {
				return r.elementCall(r.one(t), name, c.Signature(), args, g, st, pos)
			}
		}
		return r.callFn(fn, append([]Val{in}, args...), nil, g, st, pos)
	}
	ng := r.nilT1(t)
	if ng != False {
		r.oblige("nil dereference", "method "+name+" of "+r.print(t), ng, g, pos)
		g = r.bdd.Diff(g, ng)
		if g == False {
			return r.zeroResults(res), False, st
		}
	}
	it := c.Value.Type()
	if r.P.isContainer(it) || t.typ != nil && isIface(t.typ) && r.P.isContainer(t.typ) {
		// the call may go through a narrower interface the container satisfies
		return r.container(t, name, c.Signature(), args, g, st, pos)
	}
	if boundary(name) {
		return r.elementCall(r.one(t), name, c.Signature(), args, g, st, pos)
	}
	if name == "Write" || name == "WriteString" {
		r.event("write", t, g, pos, args...)
		return r.partial("write", res, append([]Val{r.one(t)}, args...), g, pos), g, st
	}
	if name == "Error" || name == "String" {
		return []Val{r.one(r.app("text", types.Typ[types.String], r.one(t)))}, g, st
	}
	if res.Len() >= 1 && len(args) == 0 && !strings.HasPrefix(name, "Unset") {
		// a getter of another element
		return r.errResults("get:"+name, res, []Val{r.one(t)}, g, pos, true), g, st
	}
	r.event("method:"+name, t, g, pos, args...)
	return r.errResults("method:"+name, res, append([]Val{r.one(t)}, args...), g, pos, true), g, st
}

// elementCall summarises reading or writing of another element.
func (r *Flow) elementCall(recv Val, name string, sig *types.Signature, args []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	rt := recv.single()
	if rt != nil && rt.op == "iface" {
		if in := rt.args[0].single(); in != nil && in.op == "obj" {
			rt = in
		}
	}
	kind := "encode"
	if strings.HasPrefix(name, "Unmarshal") {
		kind = "read"
	}
	if name == "MarshalRAML" {
		kind = "marshal"
	}
	if rt == nil && len(recv) > 1 {
		for _, c := range r.unbox(recv) {
			r.event(kind, c.t, r.bdd.And(g, c.g), pos, args...)
		}
	} else {
		r.event(kind, rt, g, pos, args...)
	}
	all := args
	if rt != nil {
		all = append([]Val{r.one(rt)}, args...)
	}
	if kind == "read" && rt != nil && rt.op == "obj" {
		// what the element holds afterwards
	}
	return r.errResults(kind+":"+name, sig.Results(), all, g, pos, true), g, st
}

// isResolver reports whether fn turns a node into one of several kinds of
// element.
func (r *Flow) isResolver(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || !isNodePtr(s.Params().At(0).Type()) || !isErrType(s.Results().At(1).Type()) {
		return false
	}
	t := s.Results().At(0).Type()
	if namedOf(t) == nil || !isIface(t) || r.P.isContainer(t) {
		return false
	}
	if it := t.Underlying().(*types.Interface); it.NumMethods() == 0 {
		return false
	}
	n := 0
	for _, x := range r.P.implementers(t) {
		if !r.P.isElementType(x) {
			return false
		}
		n++
	}
	return n >= 2
}

// containerCtor reports whether fn is a plain constructor of an ordered map: it
// allocates the implementation and calls nothing but such constructors.
func (r *Flow) containerCtor(fn *ssa.Function, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return false
	}
	rt := fn.Signature.Results().At(0).Type()
	if !r.P.isContainer(rt) && !r.P.implContainer(rt) {
		return false
	}
	pk := pkgOf(fn)
	if pk == nil || !strings.HasSuffix(pk.Path(), "/pkg/raml") {
		return false
	}
	found := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if r.P.implContainer(in.Type()) {
					found = true
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				c := in.Call.StaticCallee()
				if c == nil || !r.containerCtor(c, depth+1) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// implContainer reports whether t is a pointer to a struct implementing one of
// the ordered map interfaces.
func (p *Prog) implContainer(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	if n == nil || !p.inModule(n.Obj().Pkg()) {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	ms := types.NewMethodSet(t)
	for _, m := range []string{"Put", "ForEach", "SerializeOrdered", "ReplaceIfExists"} {
		if ms.Lookup(n.Obj().Pkg(), m) == nil {
			return false
		}
	}
	return true
}

// callFn calls a known function.
// callFn analyses a call of fn. A construct the engine fails on leaves what
// depends on it undecided.
func (r *Flow) callFn(fn *ssa.Function, args, bind []Val, g B, st State, pos token.Pos) (out []Val, og B, ost State) {
	stack, cur := r.stack, r.cur
	defer func() {
		if e := recover(); e != nil {
			r.stack, r.cur = stack, cur
			r.undecided(pos, "analysis of %s failed: %v", fn, e)
			out, og, ost = r.zeroResults(fn.Signature.Results()), g, st
		}
	}()
	return r.callFn1(fn, args, bind, g, st, pos)
}

func (r *Flow) callFn1(fn *ssa.Function, args, bind []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	res := fn.Signature.Results()
	if g == False {
		return r.zeroResults(res), False, st
	}
	pk := pkgOf(fn)
	if fn.Synthetic == "package initializer" {
		return r.zeroResults(res), g, st
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return r.call(fn, args, bind, g, st, pos)
	}
	if r.P.inModule(pk) {
		if !r.mapMode && r.containerCtor(fn, 0) {
			t := fn.Signature.Results().At(0).Type()
			for _, i := range r.P.sizeParams(fn) {
				r.sizeCheck("size", args[i], g, pos)
			}
			o := r.newObj("ctr", t, r.P.pos(pos))
			st[r.flagLoc(o)] = r.one(r.boolean(true))
			st[r.verLoc(o)] = r.one(r.app("empty", nil, r.one(o)))
			return []Val{r.one(o)}, g, st
		}
		if rv := fn.Signature.Recv(); rv != nil && boundary(fn.Name()) && r.P.isElementType(rv.Type()) && len(args) > 0 {
			x := args[0].single()
			if x == nil || !r.rootish(x) {
				v := args[0]
				return r.elementCall(v, fn.Name(), fn.Signature, args[1:], g, st, pos)
			}
		}
		if !r.resolve && r.isResolver(fn) {
			r.resolvers[fn] |= r.classesOf(args[0], g)
			return r.resolveCall(fn, args, res, g, st, pos)
		}
		return r.call(fn, args, bind, g, st, pos)
	}
	out, og, ost, ok := r.intrinsic(fn, args, g, st, pos)
	if ok {
		return out, og, ost
	}
	r.undecided(pos, "call of %s, whose effect is not known", fn)
	return r.errResults(fn.String(), res, args, g, pos, true), g, st
}

// rootish reports whether a receiver belongs to an element under analysis: the
// element itself, a part of it, or a copy of it.
func (r *Flow) rootish(x *Term) bool {
	if r.roots[x] || r.roots[rootOf(x)] {
		return true
	}
	if x.op == "struct" {
		for _, a := range x.args {
			for _, c := range a {
				if c.t.op == "init" {
					if l := c.t.args[0].single(); l != nil && r.roots[rootOf(l)] {
						return true
					}
				}
				if r.roots[c.t] {
					return true
				}
				if c.t.op == "iface" {
					if y := c.t.args[0].single(); y != nil && r.roots[y] {
						return true
					}
				}
				if c.t.op == "struct" && r.rootish(c.t) {
					return true
				}
			}
		}
	}
	if x.op == "obj" && r.copies[x] {
		return true
	}
	return false
}

// resolveCall summarises the resolution of a type declaration.
func (r *Flow) resolveCall(fn *ssa.Function, args []Val, res *types.Tuple, g B, st State, pos token.Pos) ([]Val, B, State) {
	r.event("resolve", nil, g, pos, args...)
	out := r.errResults("resolve", res, args, g, pos, true)
	if len(out) > 0 {
		for _, c := range out[0] {
			if isApp(c.t, "resolve") {
				r.resolvedBy[c.t] = fn
			}
		}
	}
	return out, g, st
}

// resolvedTypes are the types of the elements a resolver returns.
func (p *Prog) resolvedTypes(fn *ssa.Function) []types.Type {
	if ts, ok := p.resolvedT[fn]; ok {
		return ts
	}
	static := fn.Signature.Results().At(0).Type()
	p.resolvedT[fn] = p.implementers(static)
	r := newFlow(p)
	r.resolve = true
	n := r.sym("decl", fn.Signature.Params().At(0).Type())
	r.nonnil[n] = true
	outs, g, _ := r.callFn(fn, []Val{r.one(n)}, nil, True, State{}, fn.Pos())
	if len(outs) == 0 || len(r.und) > 0 {
		p.resolvedOpen[fn] = true
		return p.resolvedT[fn]
	}
	seen := map[string]bool{}
	var ts []types.Type
	for _, c := range outs[0] {
		if r.bdd.And(c.g, g) == False || c.t.op == "nil" {
			continue
		}
		t := c.t.typ
		if t == nil || isIface(t) {
			p.resolvedOpen[fn] = true
			return p.resolvedT[fn]
		}
		if c.t.op == "obj" {
			t = types.NewPointer(t)
		}
		if !seen[typeKey(t)] {
			seen[typeKey(t)] = true
			ts = append(ts, t)
		}
	}
	p.resolvedT[fn] = ts
	return ts
}

/* ---------- abstract ordered maps ---------- */

func (r *Flow) verLoc(c *Term) *Term {
	return r.intern(Term{op: "ver", args: []Val{r.one(c)}})
}
func (r *Flow) flagLoc(c *Term) *Term {
	return r.intern(Term{op: "ver", str: "flag", args: []Val{r.one(c)}})
}

func (r *Flow) initVer(k *Term) *Term {
	if k.str == "flag" {
		return r.app("ordered0", types.Typ[types.Bool], k.args[0])
	}
	return r.app("ver0", nil, k.args[0])
}

func (r *Flow) ver(st State, c *Term) Val {
	l := r.verLoc(c)
	if v, ok := st[l]; ok {
		return v
	}
	return r.one(r.initVer(l))
}

func (r *Flow) bump(st State, c *Term, g B) {
	r.uid++
	l := r.verLoc(c)
	n := r.app(fmt.Sprintf("v%d", r.uid), nil, r.one(c))
	st[l] = r.one(n)
}

// unbox removes interface boxes around a value.
func (r *Flow) unbox(v Val) Val {
	any := false
	for _, c := range v {
		if c.t.op == "iface" {
			any = true
		}
	}
	if !any {
		return v
	}
	return r.unbox(r.lift(v, func(t *Term, _ B) Val {
		if t.op == "iface" {
			return t.args[0]
		}
		return r.one(t)
	}))
}

// isNilDyn is the guard of gomp.IsNil: nil, or an interface holding a nil
// pointer, map or slice.
func (r *Flow) isNilDyn(v Val) B {
	g := False
	for _, c := range v {
		var b B
		if c.t.op == "iface" {
			if nilable(c.t.typ) {
				b = r.isNilDyn(c.t.args[0])
			} else {
				b = False
			}
		} else {
			b = r.nilT1(c.t)
			if r.mapMode && c.t.typ != nil && isIface(c.t.typ) {
				b = r.bdd.Or(b, r.typedNil(c.t))
			}
		}
		g = r.bdd.Or(g, r.bdd.And(c.g, b))
	}
	return g
}

// typedNil is the guard of an interface holding a nil pointer.
func (r *Flow) typedNil(t *Term) B {
	return r.bdd.Var(fmt.Sprintf("typednil#%d", t.id), r.print(t)+" holds a nil pointer")
}

// derefDyn is gomp.Deref: one pointer level of a dynamic value.
func (r *Flow) derefDyn(st State, v Val) Val {
	return r.lift(v, func(t *Term, _ B) Val {
		if t.op == "iface" {
			if pt, ok := t.typ.Underlying().(*types.Pointer); ok {
				return r.lift(t.args[0], func(p *Term, _ B) Val {
					if p.op == "nil" {
						return r.one(p)
					}
					if p.op == "obj" && r.P.isElementType(t.typ) {
						return r.one(r.intern(Term{op: "iface", typ: pt.Elem(), args: []Val{r.one(r.app("derefed", pt.Elem(), r.one(p)))}}))
					}
					return r.one(r.mkIface(pt.Elem(), r.load(st, p, pt.Elem())))
				})
			}
			return r.one(t)
		}
		if t.op == "ctr" || t.op == "nil" || r.P.isContainer(t.typ) {
			return r.one(t)
		}
		if t.typ != nil && isIface(t.typ) {
			return r.one(r.app("derefed", t.typ, r.one(t)))
		}
		return r.one(t)
	})
}

// container models one operation of an ordered map.
func (r *Flow) container(c *Term, name string, sig *types.Signature, args []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	res := sig.Results()
	self := []Val{r.one(c)}
	switch name {
	case "Put", "ReplaceOrPut", "ReplaceIfExists", "Delete":
		r.event(strings.ToLower(name), c, g, pos, args...)
		r.bump(st, c, g)
		return self, g, st
	case "PutIfNotNil":
		v := args[1]
		ng := r.isNilDyn(v)
		put := r.bdd.Diff(g, ng)
		if put != False {
			r.event("put", c, put, pos, args[0], r.derefPtr(st, v, sig.Params().At(1).Type()))
			if put == g {
				r.bump(st, c, g)
			} else {
				old := r.ver(st, c)
				r.bump(st, c, g)
				l := r.verLoc(c)
				st[l] = r.ite(put, st[l], old)
			}
		}
		return self, g, st
	case "SerializeOrdered":
		l := r.flagLoc(c)
		st[l] = args[0]
		r.event("flag", c, g, pos, args...)
		return self, g, st
	case "Len":
		if c.op == "ctr" {
			return []Val{r.one(r.intern(Term{op: "app", str: "count", idx: len(r.log), typ: types.Typ[types.Int], args: []Val{r.one(c), r.ver(st, c)}}))}, g, st
		}
		return []Val{r.one(r.clen(c, r.ver(st, c)))}, g, st
	case "Has":
		if c.op == "ctr" {
			if b, ok := r.hasKey(c, args[0]); ok {
				return []Val{r.fromGuard(b)}, g, st
			}
		}
		return []Val{r.one(r.app("chas", types.Typ[types.Bool], r.one(c), r.ver(st, c), args[0]))}, g, st
	case "Get", "GetOpt":
		if c.op == "ctr" {
			if v, ok := r.getKey(c, args[0]); ok {
				has := r.defined(v)
				if name == "GetOpt" {
					some := r.lift(v, func(t *Term, _ B) Val { return r.one(r.app("some", nil, r.one(t))) })
					return []Val{r.union(some, r.under(r.one(r.app("none", nil)), r.bdd.Not(has)))}, g, st
				}
				full := r.union(v, r.under(r.zero(res.At(0).Type()), r.bdd.Not(has)))
				return []Val{full, r.fromGuard(has)}, g, st
			}
		}
		return r.errResults("c"+strings.ToLower(name), res, []Val{r.one(c), r.ver(st, c), args[0]}, g, pos, false), g, st
	case "IndexOf":
		return r.errResults("cindexof", res, []Val{r.one(c), r.ver(st, c), args[0]}, g, pos, false), g, st
	case "At":
		i := args[0].single()
		if i != nil && i.op == "ind" && i.idx == 0 && i.loop != nil && i.loop.coll == c {
			e := r.intern(Term{op: "app", str: "entry", idx: i.loop.id, typ: res.At(0).Type(), args: []Val{r.one(c)}})
			e.loop = i.loop
			return []Val{r.one(e)}, g, st
		}
		r.event("at", c, g, pos, args...)
		if c.op == "ctr" {
			r.undecided(pos, "entry by position of a map being built")
		}
		return r.errResults("centry", res, []Val{r.one(c), r.ver(st, c), args[0]}, g, pos, false), g, st
	case "ForEach":
		f := args[0].single()
		fs, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
		if f == nil || !ok {
			r.undecided(pos, "ForEach with an unknown function")
			return self, g, st
		}
		og, ost, _ := r.iterate("foreach", c, 1, g, st, func(lc *LoopCtx, g B, st State) (B, State) {
			k := r.centry("ckey", c, lc, fs.Params().At(0).Type())
			v := r.centry("cval", c, lc, fs.Params().At(1).Type())
			_, ng, nst := r.callValue(f, fs, []Val{r.one(k), r.one(v)}, g, st.clone(), pos)
			return ng, nst
		})
		return self, og, ost
	case "ToYAML", "MarshalYAML", "MarshalJSON":
		r.event("encode", c, g, pos, r.flag(st, c))
		return r.errResults("encode:"+name, res, []Val{r.one(c), r.ver(st, c)}, g, pos, true), g, st
	}
	r.undecided(pos, "unknown container method %s", name)
	return r.errResults("c:"+name, res, append([]Val{r.one(c)}, args...), g, pos, true), g, st
}

func (r *Flow) flag(st State, c *Term) Val {
	l := r.flagLoc(c)
	if v, ok := st[l]; ok {
		return v
	}
	return r.one(r.initVer(l))
}

func (r *Flow) clen(c *Term, ver Val) *Term {
	return r.app("clen", types.Typ[types.Int], r.one(c), ver)
}

func (r *Flow) centry(what string, c *Term, lc *LoopCtx, typ types.Type) *Term {
	n := r.intern(Term{op: "gen", str: what, idx: lc.id, typ: typ, args: []Val{r.one(c)}})
	n.loop = lc
	return n
}

// derefPtr is what PutIfNotNil stores: typed maps take a pointer to their value,
// untyped maps any value, of which a pointer is followed once.
func (r *Flow) derefPtr(st State, v Val, pt types.Type) Val {
	if p, ok := pt.Underlying().(*types.Pointer); ok {
		return r.lift(v, func(t *Term, _ B) Val {
			if t.op == "nil" {
				return r.one(t)
			}
			return r.load(st, t, p.Elem())
		})
	}
	return r.derefDyn(st, v)
}

// keyOf is the constant key of a container operation.
func (r *Flow) keyOf(v Val) *Term {
	t := r.unbox(v).single()
	if t != nil && t.op == "const" {
		return t
	}
	return nil
}

// puts lists the additions to a fresh container up to an event index.
func (r *Flow) puts(c *Term, upto int) (keys []*Term, guard map[*Term]B, bulk []*Event, ok bool) {
	guard = map[*Term]B{}
	ok = true
	for _, e := range r.log[:upto] {
		if e.recv != c {
			continue
		}
		switch e.kind {
		case "put":
			k := r.keyOf(e.args[0])
			if k == nil || len(e.ctx) > 0 && !sameCtx(e.ctx, c.ctx) {
				bulk = append(bulk, e)
				continue
			}
			if _, seen := guard[k]; !seen {
				keys = append(keys, k)
				guard[k] = False
			}
			guard[k] = r.bdd.Or(guard[k], e.g)
		case "delete", "replaceorput":
			ok = false
		}
	}
	return
}

func sameCtx(a, b []*LoopCtx) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// bulkGuard is the guard of a bulk copy adding at least one entry.
func (r *Flow) bulkGuard(e *Event, c *Term) B {
	g := True
	n := 0
	for _, lc := range e.ctx {
		if inCtx(c, lc) {
			continue
		}
		n++
		if lc.coll == nil {
			return r.bdd.Var(fmt.Sprintf("bulk#%d", lc.id), "some entry")
		}
		if lc.kind == "foreach" || r.P.isContainer(lc.coll.typ) {
			g = r.bdd.And(g, r.bdd.Not(r.eqConst(r.clen(lc.coll, r.one(r.app("ver0", nil, r.one(lc.coll)))), r.integer(0))))
		} else {
			g = r.bdd.And(g, r.bdd.Not(r.emptyGuard(r.one(lc.coll))))
		}
	}
	return r.bdd.And(g, e.g)
}

// countGuard is the guard of a fresh container having (fewer than) n entries.
func (r *Flow) countGuard(x *Term, op string, n int64) B {
	c := x.args[0].single()
	if c == nil || x.idx > len(r.log) {
		return r.bdd.Var(fmt.Sprintf("%s#%d?%d", op, x.id, n), r.print(x)+" "+op+" "+fmt.Sprint(n))
	}
	keys, guard, bulk, ok := r.puts(c, x.idx)
	if !ok {
		return r.bdd.Var(fmt.Sprintf("%s#%d?%d", op, x.id, n), r.print(x)+" "+op+" "+fmt.Sprint(n))
	}
	// dist[i] is the guard of exactly i constant keys being present
	dist := []B{True}
	for _, k := range keys {
		next := make([]B, len(dist)+1)
		for i := range next {
			next[i] = False
		}
		for i, d := range dist {
			next[i] = r.bdd.Or(next[i], r.bdd.Diff(d, guard[k]))
			next[i+1] = r.bdd.Or(next[i+1], r.bdd.And(d, guard[k]))
		}
		dist = next
	}
	some := False
	for _, e := range bulk {
		some = r.bdd.Or(some, r.bulkGuard(e, c))
	}
	out := False
	for i, d := range dist {
		hit := int64(i) == n && op == "eq" || int64(i) < n && op == "lt"
		if hit {
			out = r.bdd.Or(out, r.bdd.Diff(d, some))
		}
		// with bulk entries the count is at least one more
		if int64(i) < n && (op == "eq" || int64(i)+1 < n) {
			v := r.bdd.Var(fmt.Sprintf("bulkcount#%d#%s%d", x.id, op, n), "entries copied make the count "+op+" "+fmt.Sprint(n))
			out = r.bdd.Or(out, r.bdd.AndAll(d, some, v))
		}
	}
	return out
}

// hasKey decides whether a fresh container holds a constant key.
func (r *Flow) hasKey(c *Term, k Val) (B, bool) {
	key := r.keyOf(k)
	if key == nil {
		return False, false
	}
	_, guard, _, ok := r.puts(c, len(r.log))
	if !ok {
		return False, false
	}
	g, seen := guard[key]
	if !seen {
		return False, true
	}
	return g, true
}

// getKey is the value a fresh container holds under a constant key.
func (r *Flow) getKey(c *Term, k Val) (Val, bool) {
	key := r.keyOf(k)
	if key == nil {
		return nil, false
	}
	var out Val
	for _, e := range r.log {
		if e.recv != c {
			continue
		}
		switch e.kind {
		case "put":
			if r.keyOf(e.args[0]) == key {
				out = r.union(r.under(e.args[1], e.g), r.under(out, r.bdd.Not(e.g)))
			}
		case "delete", "replaceorput", "replaceifexists":
			return nil, false
		}
	}
	return out, true
}

/* ---------- builtins ---------- */

func (r *Flow) builtin(a *act, b *ssa.Builtin, c *ssa.CallCommon, args []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	switch b.Name() {
	case "len", "cap":
		at := c.Args[0].Type()
		v := r.lift(args[0], func(t *Term, _ B) Val { return r.one(r.lenOf(t, at)) })
		return []Val{v}, g, st
	case "append":
		var v Val
		if len(args) == 1 {
			return []Val{args[0]}, g, st
		}
		st2 := st
		v = r.appendVal(args[0], args[1], c.Args[0].Type(), g, st2, pos)
		return []Val{v}, g, st
	case "copy":
		r.event("copy", args[0].single(), g, pos, args...)
		if r.mapMode {
			r.copyInto(args[0], args[1], g, st)
		} else {
			r.undecided(pos, "copy")
		}
		return []Val{r.one(r.app("copied", types.Typ[types.Int], args...))}, g, st
	case "delete":
		for _, x := range args[0] {
			if x.t.op == "nil" {
				continue
			}
			l := r.mapcLoc(x.t)
			old := r.mapContent(st, x.t)
			st[l] = r.ite(r.bdd.And(g, x.g), r.lift(old, func(o *Term, _ B) Val { return r.one(r.mdel(o, args[1])) }), old)
			if r.bdd.Implies(g, x.g) {
				st[l] = r.lift(old, func(o *Term, _ B) Val { return r.one(r.mdel(o, args[1])) })
			}
			r.event("mapdelete", x.t, r.bdd.And(g, x.g), pos, args[1])
		}
		return nil, g, st
	case "ssa:wrapnilchk":
		ng := r.nilGuard(args[0])
		if ng != False {
			r.oblige("nil dereference", "method of a nil value", ng, g, pos)
			g = r.bdd.Diff(g, ng)
		}
		return []Val{args[0]}, g, st
	case "print", "println":
		return nil, g, st
	case "recover":
		return []Val{r.one(r.nilT())}, g, st
	case "min", "max":
		return []Val{r.one(r.app(b.Name(), c.Signature().Results().At(0).Type(), args...))}, g, st
	case "clear":
		r.event("clear", args[0].single(), g, pos)
		r.undecided(pos, "clear")
		return nil, g, st
	}
	r.undecided(pos, "builtin %s", b.Name())
	return r.errResults(b.Name(), c.Signature().Results(), args, g, pos, false), g, st
}

func (r *Flow) lenOf(t *Term, at types.Type) *Term {
	switch t.op {
	case "nil":
		return r.integer(0)
	case "const":
		if t.cst.Kind() == constant.String {
			return r.integer(int64(len(constant.StringVal(t.cst))))
		}
	case "lit":
		return r.integer(int64(len(t.args)))
	case "app":
		if c := t.args; t.str == "copyof" && len(c) == 1 && c[0].single() != nil {
			return r.lenOf(c[0].single(), at)
		}
	}
	if ar, ok := deref(at).Underlying().(*types.Array); ok {
		return r.integer(ar.Len())
	}
	return r.app("len", types.Typ[types.Int], r.one(t))
}

// appendVal is append(s, more...). Appending to a reslice of existing storage
// overwrites that storage.
func (r *Flow) appendVal(s, more Val, typ types.Type, g B, st State, pos token.Pos) Val {
	et := types.Type(types.Typ[types.Invalid])
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		et = sl.Elem()
	}
	return r.lift(s, func(x *Term, _ B) Val {
		return r.lift(more, func(m *Term, _ B) Val {
			if m.op == "nil" {
				return r.one(x)
			}
			if x.op == "app" && x.str == "slice" {
				// O[:p] ++ O[p+1:]
				if m.op == "app" && m.str == "slice" && r.valKey(x.args[0]) == r.valKey(m.args[0]) {
					lo, hi, mlo := x.args[1].single(), x.args[2].single(), m.args[1].single()
					mhi := m.args[2].single()
					if lo != nil && hi != nil && mlo != nil && mhi != nil && r.isZero(lo) && mhi == r.nilT() && r.plusOne(hi, mlo) {
						return r.one(r.app("removeAt", typ, x.args[0], r.one(hi)))
					}
				}
				r.event("reslice-append", x, g, pos, r.one(m))
			}
			if x.op != "nil" && x.op != "lit" {
				r.event("append", x, g, pos, r.one(m))
			}
			if m.op == "lit" {
				out := x
				for _, e := range m.args {
					if out.op == "lit" {
						out = r.intern(Term{op: "lit", typ: typ, args: append(append([]Val{}, out.args...), e)})
						continue
					}
					if out.op == "nil" {
						out = r.intern(Term{op: "lit", typ: typ, args: []Val{e}})
						continue
					}
					out = r.app("append", typ, r.one(out), e)
				}
				return r.one(out)
			}
			_ = et
			if !r.mapMode && isApp(m, "append") && len(m.args) == 2 {
				return r.joined(x, m, typ)
			}
			if x.op == "nil" || x.op == "lit" && len(x.args) == 0 {
				return r.one(r.app("copyof", typ, r.one(m)))
			}
			return r.one(r.app("concat", typ, r.one(x), r.one(m)))
		})
	})
}

// joined is x followed by the elements of m, where m was made by appending.
func (r *Flow) joined(x, m *Term, typ types.Type) Val {
	switch {
	case m.op == "nil", m.op == "lit" && len(m.args) == 0:
		return r.one(x)
	case isApp(m, "append") && len(m.args) == 2:
		b := r.lift(m.args[0], func(t *Term, _ B) Val { return r.joined(x, t, typ) })
		return r.one(r.app("append", typ, b, m.args[1]))
	case x.op == "nil", x.op == "lit" && len(x.args) == 0:
		return r.one(r.app("copyof", typ, r.one(m)))
	}
	return r.one(r.app("concat", typ, r.one(x), r.one(m)))
}

func (r *Flow) isZero(t *Term) bool {
	n, ok := constInt(t)
	return ok && n == 0
}

// plusOne reports whether y is x+1.
func (r *Flow) plusOne(x, y *Term) bool {
	if x.op == "ind" && y.op == "ind" && x.str == y.str {
		return y.idx == x.idx+1
	}
	if y.op == "app" && y.str == "+" {
		if y.args[0].single() == x && y.args[1].single() == r.integer(1) {
			return true
		}
		if y.args[1].single() == x && y.args[0].single() == r.integer(1) {
			return true
		}
	}
	return false
}

/* ---------- element access ---------- */

func (r *Flow) strIndex(s, i Val, g B, pos token.Pos) Val {
	r.boundsCheck(s, i, g, pos, true)
	return r.lift(s, func(t *Term, _ B) Val {
		return r.lift(i, func(n *Term, _ B) Val {
			if t.op == "const" && n.op == "const" {
				x := constant.StringVal(t.cst)
				if k, ok := constInt(n); ok && k >= 0 && int(k) < len(x) {
					return r.one(r.cst(constant.MakeInt64(int64(x[k])), types.Typ[types.Uint8]))
				}
			}
			return r.one(r.app("strat", types.Typ[types.Uint8], r.one(t), r.one(n)))
		})
	})
}

// boundsCheck obliges an index to be within the bounds of a string or slice.
func (r *Flow) boundsCheck(s, i Val, g B, pos token.Pos, isStr bool) {
	r.nobl++
	for _, x := range s {
		for _, y := range i {
			cg := r.bdd.AndAll(g, x.g, y.g)
			if cg == False {
				continue
			}
			bad := r.outOfBounds(x.t, y.t, cg)
			if bad == False {
				continue
			}
			r.oblige("index out of range", r.print(x.t)+"["+r.print(y.t)+"]", bad, cg, pos)
			r.nobl--
		}
	}
}

func (r *Flow) outOfBounds(s, i *Term, g B) B {
	if base, from := restOf(s); base != nil {
		if n, ok := constInt(i); ok && n >= 0 {
			return r.outOfBounds(base, r.ind(from.loop, from.idx+int(n), from.typ), g)
		}
	}
	if i.op == "ind" && i.loop != nil {
		lc := i.loop
		if lc.coll == s && s != nil {
			if i.idx >= 0 && i.idx < lc.step {
				if i.idx == 0 || i.idx <= lc.below {
					return False
				}
				// second half of a key/value pair
				if s.op == "app" && s.str == "content" {
					if n := s.args[0].single(); n != nil && lc.step == 2 {
						return r.bdd.Not(r.cls(n, classes(cMap)))
					}
				}
			}
			return r.bdd.Var(fmt.Sprintf("oob#%d#%d", s.id, i.id), r.print(i)+" is outside "+r.print(s))
		}
		if r.mapMode {
			return False
		}
		if r.sameLen(lc.coll, s) {
			return False
		}
	}
	if n, ok := constInt(i); ok {
		if n < 0 {
			return True
		}
		l := r.lenOf(s, types.NewSlice(types.Typ[types.Int]))
		if l.op == "const" {
			m, _ := constInt(l)
			if n >= m {
				return True
			}
			return False
		}
		return r.ltConst(l, n+1)
	}
	if r.mapMode {
		return False
	}
	l := r.lenOf(s, types.NewSlice(types.Typ[types.Int]))
	if i.op == "app" && i.str == "-" && i.args[0].single() == l {
		if k := i.args[1].single(); k != nil {
			if n, ok := constInt(k); ok && n >= 1 {
				return r.ltConst(l, n)
			}
		}
	}
	// a slice made with the length of the collection iterated over
	r.softObl = true
	return r.bdd.Var(fmt.Sprintf("oob#%d#%d", s.id, i.id), r.print(i)+" is outside "+r.print(s))
}

// sameLen reports whether s was made with the length of coll.
func (r *Flow) sameLen(coll, s *Term) bool {
	if coll == nil || s == nil {
		return false
	}
	if s.op == "app" && s.str == "made" {
		if l := s.args[0].single(); l != nil && l.op == "app" && (l.str == "len" || l.str == "clen") {
			return l.args[0].single() == coll
		}
	}
	return false
}

func (r *Flow) indexAddr(a *act, in *ssa.IndexAddr, g B) Val {
	x, i := r.valOf(a, in.X), r.valOf(a, in.Index)
	if _, ok := in.X.Type().Underlying().(*types.Pointer); ok { // array
		return r.lift(x, func(t *Term, _ B) Val { return r.one(r.iaddr(t, i, in.Type())) })
	}
	ng := False
	for _, c := range x {
		if c.t.op == "nil" {
			ng = r.bdd.Or(ng, c.g)
		}
	}
	if ng != False {
		r.oblige("index out of range", "index of an empty slice", ng, g, in.Pos())
	}
	r.boundsCheck(r.mkval(filterNil(x)), i, g, in.Pos(), false)
	return r.lift(x, func(t *Term, _ B) Val {
		return r.lift(i, func(n *Term, _ B) Val {
			if t.op == "obj" || t.op == "nil" {
				return r.one(r.iaddr(t, r.one(n), in.Type()))
			}
			if base, from := restOf(t); base != nil {
				if k, ok := constInt(n); ok && k >= 0 {
					t, n = base, r.ind(from.loop, from.idx+int(k), from.typ)
				}
			}
			return r.one(r.intern(Term{op: "eaddr", typ: in.Type(), args: []Val{r.one(t), r.one(n)}}))
		})
	})
}

func filterNil(v Val) []Case {
	var out []Case
	for _, c := range v {
		if c.t.op != "nil" {
			out = append(out, c)
		}
	}
	return out
}

func (r *Flow) slice(a *act, in *ssa.Slice, g B, st State) Val {
	x := r.valOf(a, in.X)
	opt := func(v ssa.Value, d Val) Val {
		if v == nil {
			return d
		}
		return r.valOf(a, v)
	}
	lo, hi := opt(in.Low, r.one(r.integer(0))), opt(in.High, r.one(r.nilT()))
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok { // array
		ar, _ := pt.Elem().Underlying().(*types.Array)
		return r.lift(x, func(t *Term, _ B) Val {
			if ar != nil && ar.Len() <= 64 && (in.Low == nil || r.isZeroV(lo)) {
				n := ar.Len()
				if h := hi.single(); h != nil && h.op == "const" {
					n, _ = constInt(h)
				} else if h == nil || h.op != "nil" {
					return r.one(r.app("slice", in.Type(), r.one(t), lo, hi))
				}
				args := make([]Val, n)
				for i := range args {
					args[i] = r.load(st, r.iaddr(t, r.one(r.integer(int64(i))), types.NewPointer(ar.Elem())), ar.Elem())
				}
				return r.one(r.intern(Term{op: "lit", typ: in.Type(), args: args}))
			}
			return r.one(r.app("slice", in.Type(), r.one(t), lo, hi))
		})
	}
	isStr := isStringType(in.X.Type())
	return r.lift(x, func(t *Term, tg B) Val {
		return r.lift(lo, func(l *Term, _ B) Val {
			return r.lift(hi, func(h *Term, _ B) Val {
				if isStr {
					if t.op == "const" && l.op == "const" && (h.op == "const" || h.op == "nil") {
						s := constant.StringVal(t.cst)
						i, _ := constInt(l)
						j := int64(len(s))
						if h.op == "const" {
							j, _ = constInt(h)
						}
						if 0 <= i && i <= j && j <= int64(len(s)) {
							return r.one(r.str(s[i:j]))
						}
					}
					r.sliceBounds(t, l, h, r.bdd.And(g, tg), in.Pos())
					return r.one(r.app("substr", types.Typ[types.String], r.one(t), r.one(l), r.one(h)))
				}
				if t.op == "nil" {
					return r.one(t)
				}
				if r.isZero(l) && (h.op == "nil" || h.op == "app" && h.str == "len" && h.args[0].single() == t) {
					return r.one(t)
				}
				if base, from := restOf(t); base != nil && h.op == "nil" {
					if k, ok := constInt(l); ok && k >= 0 {
						at := r.ind(from.loop, from.idx+int(k), from.typ)
						if bad := r.outOfBounds(base, r.ind(from.loop, at.idx-1, from.typ), r.bdd.And(g, tg)); bad != False {
							r.oblige("slice bounds out of range", r.print(t), bad, r.bdd.And(g, tg), in.Pos())
						}
						return r.one(r.app("slice", in.Type(), r.one(base), r.one(at), r.one(h)))
					}
				}
				if !r.mapMode {
					r.sliceBounds(t, l, h, r.bdd.And(g, tg), in.Pos())
				}
				return r.one(r.app("slice", in.Type(), r.one(t), r.one(l), r.one(h)))
			})
		})
	})
}

func (r *Flow) isZeroV(v Val) bool {
	t := v.single()
	return t != nil && r.isZero(t)
}

// sliceBounds obliges constant slice bounds to be within the length.
func (r *Flow) sliceBounds(t, l, h *Term, g B, pos token.Pos) {
	n, ok := constInt(h)
	if !ok {
		n, ok = constInt(l)
	}
	if !ok {
		return
	}
	if n == 0 {
		return
	}
	ln := r.lenOf(t, types.NewSlice(types.Typ[types.Int]))
	bad := False
	if ln.op == "const" {
		if m, _ := constInt(ln); m < n {
			bad = True
		}
	} else {
		bad = r.ltConst(ln, n)
		if t.typ != nil && isStringType(t.typ) {
			// a string known to start with a prefix is at least that long
			for k := int64(0); k < 1; k++ {
				bad = r.notPrefixed(t, n, bad)
			}
		}
	}
	r.oblige("slice bounds out of range", r.print(t), bad, g, pos)
}

// notPrefixed drops from bad the cases in which t starts with a known prefix of
// at least n bytes.
func (r *Flow) notPrefixed(t *Term, n int64, bad B) B {
	pre := fmt.Sprintf("prefix#%d=", t.id)
	for k, v := range r.bdd.vars {
		if strings.HasPrefix(k, pre) && int64(len(k)-len(pre)) >= n {
			bad = r.bdd.Diff(bad, r.bdd.mk(v, False, True))
		}
	}
	return bad
}

func (r *Flow) makeSlice(in *ssa.MakeSlice, n Val, g B) Val {
	if r.isZeroV(n) {
		return r.one(r.intern(Term{op: "lit", typ: in.Type()}))
	}
	return r.one(r.app("made", in.Type(), n))
}

/* ---------- type assertions ---------- */

func (r *Flow) typeAssert(a *act, in *ssa.TypeAssert, g B) (Val, B) {
	x := r.valOf(a, in.X)
	T := in.AssertedType
	ok := False
	var vals []Case
	for _, c := range x {
		holds, v := r.assertT(c.t, in.X.Type(), T)
		og := r.bdd.And(c.g, holds)
		ok = r.bdd.Or(ok, og)
		for _, d := range v {
			if y := r.bdd.And(og, d.g); y != False {
				vals = append(vals, Case{y, d.t})
			}
		}
	}
	if in.CommaOk {
		v := r.mkval(vals)
		v = r.union(v, r.under(r.zero(T), r.bdd.Not(ok)))
		return r.tuple([]Val{v, r.fromGuard(ok)}, in.Type()), g
	}
	bad := r.bdd.Not(ok)
	// outside of the guards of x nothing is claimed
	bad = r.bdd.And(bad, r.defined(x))
	r.oblige("failing type assertion", "to "+typeStr(T)+" of "+r.printVal(x), bad, g, in.Pos())
	g = r.bdd.Diff(g, bad)
	return r.mkval(vals), g
}

func (r *Flow) assertT(t *Term, static, T types.Type) (B, Val) {
	switch t.op {
	case "nil":
		return False, nil
	case "iface":
		if isIface(T) {
			if types.Implements(t.typ, T.Underlying().(*types.Interface)) {
				return True, r.one(t)
			}
			return False, nil
		}
		if types.Identical(t.typ, T) {
			return True, t.args[0]
		}
		return False, nil
	case "ctr":
		if isIface(T) {
			if types.Identical(t.typ.Underlying(), T.Underlying()) || types.AssignableTo(t.typ, T) {
				return True, r.one(t)
			}
			return False, nil
		}
	case "app":
		if t.str == "derefed" {
			break
		}
		if t.str == "resolve" && isIface(T) {
			all := true
			for _, im := range r.resolvedOf(t) {
				if !types.Implements(im, T.Underlying().(*types.Interface)) {
					all = false
				}
			}
			if all {
				return True, r.one(t)
			}
			if r.P.resolvedOpen[r.resolvedBy[t]] {
				r.softObl = true // which types the resolver returns is not known
			}
		}
	}
	if isIface(T) && t.typ != nil && types.AssignableTo(t.typ, T) {
		return r.bdd.Not(r.nilT1(t)), r.one(t)
	}
	g := r.bdd.Var(fmt.Sprintf("is#%d#%s", t.id, typeKey(T)), r.print(t)+" is a "+typeStr(T))
	return r.bdd.Diff(g, r.nilT1(t)), r.one(r.app("as", T, r.one(t)))
}

/* ---------- Go maps ---------- */

func (r *Flow) mapcLoc(m *Term) *Term {
	return r.intern(Term{op: "mapc", args: []Val{r.one(m)}})
}

func (r *Flow) initMapc(k *Term) *Term {
	if v := r.ginit[k].single(); v != nil {
		return v
	}
	if m := k.args[0].single(); m != nil && m.op == "mapobj" {
		return r.app("mapempty", nil)
	}
	return r.app("mapc0", nil, k.args[0])
}

func (r *Flow) mapContent(st State, m *Term) Val {
	l := r.mapcLoc(m)
	if v, ok := st[l]; ok {
		return v
	}
	return r.one(r.initMapc(l))
}

func (r *Flow) mset(o *Term, k, v Val) *Term {
	for o.op == "app" && (o.str == "mset" || o.str == "mdel") && r.valKey(o.args[1]) == r.valKey(k) {
		x := o.args[0].single()
		if x == nil {
			break
		}
		o = x
	}
	return r.app("mset", nil, r.one(o), k, v)
}

func (r *Flow) mdel(o *Term, k Val) *Term {
	for o.op == "app" && (o.str == "mset" || o.str == "mdel") && r.valKey(o.args[1]) == r.valKey(k) {
		x := o.args[0].single()
		if x == nil {
			break
		}
		o = x
	}
	return r.app("mdel", nil, r.one(o), k)
}

func (r *Flow) mapUpdate(a *act, in *ssa.MapUpdate, g B, st State) B {
	m, k, v := r.valOf(a, in.Map), r.valOf(a, in.Key), r.valOf(a, in.Value)
	if ng := r.nilGuardDef(m); ng != False {
		r.oblige("nil dereference", "store in a nil map", ng, g, in.Pos())
		g = r.bdd.Diff(g, ng)
	}
	for _, c := range m {
		if c.t.op == "nil" {
			continue
		}
		cg := r.bdd.And(g, c.g)
		r.event("mapset", c.t, cg, in.Pos(), k, v)
		l := r.mapcLoc(c.t)
		old := r.mapContent(st, c.t)
		nv := r.lift(old, func(o *Term, _ B) Val { return r.one(r.mset(o, k, v)) })
		if r.bdd.Implies(g, c.g) {
			st[l] = nv
		} else {
			st[l] = r.ite(cg, nv, old)
		}
	}
	return g
}

// nilGuardDef is the guard under which a value is definitely nil.
func (r *Flow) nilGuardDef(v Val) B {
	g := False
	for _, c := range v {
		if c.t.op == "nil" {
			g = r.bdd.Or(g, c.g)
		}
	}
	return g
}

func (r *Flow) lookup(a *act, in *ssa.Lookup, g B, st State) Val {
	x, k := r.valOf(a, in.X), r.valOf(a, in.Index)
	if isStringType(in.X.Type()) {
		return r.strIndex(x, k, g, in.Pos())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	has := False
	v := r.lift(x, func(m *Term, mg B) Val {
		if m.op == "nil" {
			return r.zero(mt.Elem())
		}
		if m.op == "init" {
			if gl := m.args[0].single(); gl != nil && gl.op == "global" {
				// package-level table
			}
		}
		return r.lift(r.mapContent(st, m), func(c *Term, cg B) Val {
			val, h := r.mget(c, k, mt.Elem())
			has = r.bdd.Or(has, r.bdd.AndAll(mg, cg, h))
			return val
		})
	})
	if in.CommaOk {
		return r.tuple([]Val{v, r.fromGuard(has)}, in.Type())
	}
	return v
}

// mget looks a key up in a map content term.
func (r *Flow) mget(c *Term, k Val, et types.Type) (Val, B) {
	if c.op == "app" {
		switch c.str {
		case "mapempty":
			return r.zero(et), False
		case "mset":
			same := r.eq(c.args[1], k)
			var rest Val
			rh := False
			if same != True {
				rest = r.lift(c.args[0], func(o *Term, og B) Val {
					v, h := r.mget(o, k, et)
					rh = r.bdd.Or(rh, r.bdd.And(og, h))
					return v
				})
			}
			return r.ite(same, c.args[2], rest), r.bdd.Or(same, rh)
		case "mdel":
			same := r.eq(c.args[1], k)
			rh := False
			rest := r.lift(c.args[0], func(o *Term, og B) Val {
				v, h := r.mget(o, k, et)
				rh = r.bdd.Or(rh, r.bdd.And(og, h))
				return v
			})
			return r.ite(same, r.zero(et), rest), r.bdd.Diff(rh, same)
		}
	}
	h := r.hasAtom(c, k)
	return r.ite(h, r.one(r.app("mapget", et, r.one(c), k)), r.zero(et)), h
}

func (r *Flow) hasAtom(c *Term, k Val) B {
	b := r.bdd.Var(fmt.Sprintf("has#%d#%s", c.id, r.valKey(r.unbox(k))), r.print(c)+" has "+r.printVal(k))
	if r.mapMode && c == r.mapIdx {
		r.hasAny = r.bdd.Or(r.hasAny, b)
	}
	return b
}

// keyAtom: the ordered maps keep the keys of the entries unique and the same as
// the keys of the index, so the entry at which a search by a key stops exists
// exactly when the index has that key. Inside the loop the generic iteration is
// at that entry or at another one; after it, the entry was met iff there is one.
func (r *Flow) keyAtom(x, y *Term) B {
	if !r.mapMode || r.mapOrd == nil {
		return -1
	}
	pos := func(t *Term) *Term {
		if t.op != "init" {
			return nil
		}
		l := t.args[0].single()
		if l == nil || l.op != "faddr" || l.idx != r.mapKF {
			return nil
		}
		b := l.args[0].single()
		if b == nil || b.op != "eaddr" || b.args[0].single() != r.mapOrd {
			return nil
		}
		i := b.args[1].single()
		if i == nil || i.op != "ind" || i.loop == nil || !i.loop.full || i.loop.step != 1 || i.loop.coll != r.mapOrd {
			return nil
		}
		return i
	}
	key := func(t *Term) *Term {
		if p := pos(t); p != nil {
			return p
		}
		if t.op == "gen" && t.str == "mkey" && t.loop != nil && t.loop.mapc != nil && t.loop.full {
			return t
		}
		return nil
	}
	p := key(x)
	if p == nil {
		x, y = y, x
		p = key(x)
	}
	if p == nil || key(y) != nil {
		return -1
	}
	r.hits[p] = y
	h := r.bdd.Var(fmt.Sprintf("hit#%d#%s", p.loop.id, r.valKey(r.unbox(r.one(y)))), "the entry is that of "+r.print(y))
	r.hitVar[p] = h
	return r.bdd.And(h, r.hitHas(p, y))
}

// hitHas is the guard of the map searched in the loop of p having the key.
func (r *Flow) hitHas(p, key *Term) B {
	if p.loop.mapc != nil {
		return r.hasAtom(p.loop.mapc, r.one(key))
	}
	return r.hasAtom(r.mapIdx, r.one(key))
}

// copyInto models copy(O[p:], O[p+1:]) on the entries of a map.
func (r *Flow) copyInto(dst, src Val, g B, st State) {
	d, s := dst.single(), src.single()
	if d == nil || s == nil || d.op != "app" || d.str != "slice" || s.op != "app" || s.str != "slice" || r.valKey(d.args[0]) != r.valKey(s.args[0]) {
		r.und["copy with unknown arguments"] = true
		return
	}
	base, p, q := d.args[0].single(), d.args[1].single(), s.args[1].single()
	if base == nil || p == nil || q == nil || !r.plusOne(p, q) || d.args[2].single() != r.nilT() || s.args[2].single() != r.nilT() {
		r.und["copy with unknown arguments"] = true
		return
	}
	loc := r.shiftLoc(base)
	if r.bdd.And(g, r.shiftedBy(st, base, nil)) != False {
		r.und["entries moved twice"] = true
	}
	r.store(st, loc, r.one(p), types.Typ[types.Int], g, false)
}

// shiftLoc is where a state records that entries were moved one place down.
func (r *Flow) shiftLoc(base *Term) *Term {
	return r.intern(Term{op: "shift", args: []Val{r.one(base)}, typ: types.NewPointer(types.Typ[types.Int])})
}

// shiftedBy is the guard of the entries of base having been moved down to p, or
// to anywhere.
func (r *Flow) shiftedBy(st State, base, p *Term) B {
	g := False
	for _, c := range st[r.shiftLoc(base)] {
		if c.t.op != "init" && (p == nil || c.t == p) {
			g = r.bdd.Or(g, c.g)
		}
	}
	return g
}

func (r *Flow) resolvedOf(t *Term) []types.Type {
	if fn := r.resolvedBy[t]; fn != nil {
		return r.P.resolvedTypes(fn)
	}
	return r.P.implementers(t.typ)
}

// classesOf are the kinds of node v can be under g.
func (r *Flow) classesOf(v Val, g B) classSet {
	out := classSet(0)
	for _, c := range v {
		for k := 0; k < nClasses; k++ {
			cs := classes(k)
			if out&cs == 0 && r.bdd.AndAll(g, c.g, r.cls(c.t, cs)) != False {
				out |= cs
			}
		}
	}
	return out
}
