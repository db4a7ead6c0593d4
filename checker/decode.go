package main

// yaml.Node.Decode into variables of the predeclared types.

import (
	"fmt"
	"go/token"
	"go/types"
)

// nodeDecode models n.Decode(&x) for a string, boolean, signed integer or float
// x, or a pointer to one. ok is false for anything else.
func (r *Flow) nodeDecode(node, dst Val, res *types.Tuple, g B, st State, pos token.Pos) ([]Val, B, bool) {
	n := r.unbox(node).single()
	var p *Term
	var elem types.Type
	if len(dst) == 1 && dst[0].t.op == "iface" {
		if pt, ok := dst[0].t.typ.Underlying().(*types.Pointer); ok {
			p, elem = dst[0].t.args[0].single(), pt.Elem()
		}
	}
	if n == nil || p == nil || p.op == "nil" || elem == nil {
		return nil, g, false
	}
	if it, ok := elem.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		return r.decodeAny(n, p, elem, node, res, g, st, pos)
	}
	t, ptr := elem, false
	if pt, ok := elem.Underlying().(*types.Pointer); ok {
		t, ptr = pt.Elem(), true
	}
	if _, named := t.(*types.Named); named {
		return nil, g, false // may have its own way of being decoded
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return nil, g, false
	}
	text := r.nodeValue(n, types.Typ[types.String])
	unparsed := func() B {
		return r.bdd.Var(fmt.Sprintf("fail:decode:%s#%d", b.Name(), n.id), "text of "+r.print(n)+" is no "+b.Name())
	}
	null := r.cls(n, classes(cNull))
	good := False // beside null
	var val Val
	switch info := b.Info(); {
	case info&types.IsString != 0:
		good, val = r.cls(n, scalarClasses&^classes(cNull)), text
	case info&types.IsBoolean != 0:
		f := unparsed()
		good = r.bdd.Diff(r.cls(n, classes(cBool, cStr)), f)
		val = r.ite(r.cls(n, classes(cBool)), r.one(r.app("parsebool", t, text)), r.one(r.app("decode:bool", t, text)))
	case info&types.IsUnsigned != 0:
		return nil, g, false
	case info&types.IsInteger != 0:
		f := unparsed()
		good = r.bdd.Diff(r.cls(n, classes(cInt, cFloat)), f)
		i := Val(r.one(r.app("parseint", types.Typ[types.Int64], text)))
		if b.Kind() != types.Int64 {
			i = r.one(r.app("conv:"+b.Name(), t, i))
		}
		val = r.ite(r.cls(n, classes(cInt)), i, r.one(r.app("decode:truncated", t, text)))
	case info&types.IsFloat != 0:
		f := unparsed()
		good = r.bdd.Diff(r.cls(n, classes(cInt, cFloat)), f)
		i := Val(r.one(r.app("parsefloat", types.Typ[types.Float64], text)))
		if b.Kind() == types.Float32 {
			i = r.one(r.app("conv:float32", t, i))
		}
		val = i
	default:
		return nil, g, false
	}
	if val == nil {
		return nil, g, false
	}
	bad := r.bdd.Not(r.bdd.Or(good, null))
	g = r.derefCheck(node, g, pos)
	r.fail("decode", r.bdd.And(g, bad), pos)
	if ptr {
		o := r.newObj("obj", t, r.P.pos(pos))
		r.store(st, o, val, t, g, true)
		r.store(st, p, r.one(o), elem, r.bdd.And(g, good), false)
		r.store(st, p, r.one(r.nilT()), elem, r.bdd.And(g, null), false)
	} else {
		r.store(st, p, val, elem, r.bdd.And(g, good), false)
	}
	e := r.app("err:decode", res.At(0).Type(), node)
	return []Val{r.ite(bad, r.one(e), r.one(r.nilT()))}, g, true
}

// decodeAny models n.Decode(&x) for an x of type interface{}.
func (r *Flow) decodeAny(n, p *Term, elem types.Type, node Val, res *types.Tuple, g B, st State, pos token.Pos) ([]Val, B, bool) {
	text := r.nodeValue(n, types.Typ[types.String])
	if text == nil {
		return nil, g, false
	}
	any := types.NewInterfaceType(nil, nil)
	made := func(t types.Type, v Val) Val { return r.one(r.mkIface(t, v)) }
	app := func(what string, t types.Type) Val { return r.one(r.app("decode:"+what, t, r.one(n))) }
	f := r.bdd.Var(fmt.Sprintf("fail:decode:any#%d", n.id), r.print(n)+" cannot be decoded")
	bad := r.bdd.And(f, r.cls(n, classes(cMap, cSeq, cAlias)))
	g = r.derefCheck(node, g, pos)
	r.fail("decode", r.bdd.And(g, bad), pos)
	seq, mp := types.NewSlice(any), types.NewMap(types.Typ[types.String], any)
	v := r.one(r.app("decode:any", elem, r.one(n)))
	for _, c := range []struct {
		cs classSet
		v  Val
	}{
		{classes(cMap), made(mp, app("map", mp))},
		{classes(cSeq), made(seq, app("seq", seq))},
		{classes(cNull), r.one(r.nilT())},
		{classes(cBool), made(types.Typ[types.Bool], r.one(r.app("parsebool", types.Typ[types.Bool], text)))},
		{classes(cInt), made(types.Typ[types.Int], r.one(r.app("conv:int", types.Typ[types.Int], r.one(r.app("parseint", types.Typ[types.Int64], text)))))},
		{classes(cFloat), made(types.Typ[types.Float64], r.one(r.app("parsefloat", types.Typ[types.Float64], text)))},
		{classes(cStr, cInclude, cOther, cBin), made(types.Typ[types.String], text)},
	} {
		v = r.ite(r.cls(n, c.cs), c.v, v)
	}
	r.store(st, p, v, elem, r.bdd.Diff(g, bad), false)
	e := r.app("err:decode", res.At(0).Type(), node)
	return []Val{r.ite(bad, r.one(e), r.one(r.nilT()))}, g, true
}
