package main

// Recursion inside one analysis: a call that repeats one still running.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// repeats demands that a recursive call differs from every call of the function
// still running: in an argument, or in what memory holds. It returns the guard
// under which the call does differ.
func (r *Flow) repeats(fn *ssa.Function, args []Val, g B, st State, pos token.Pos) B {
	bad := False
	for a := r.cur; a != nil; a = a.caller {
		if a.fn != fn || len(a.args) != len(args) || a.st0 == nil {
			continue
		}
		same := g
		for i := range args {
			if same == False {
				break
			}
			same = r.bdd.And(same, r.sameVal(args[i], a.args[i], st, a.st0))
		}
		if same == False || !r.sameMemory(st, a.st0, same) {
			continue
		}
		bad = r.bdd.Or(bad, same)
	}
	if bad != False {
		r.oblige("endless recursion", fnName(fn)+" calls itself again with the same arguments", bad, g, pos)
	}
	return r.bdd.Diff(g, bad)
}

// sameVal is the condition under which two values are the same, up to the
// identity of copies.
func (r *Flow) sameVal(x, y Val, stx, sty State) B {
	out := False
	for _, c := range x {
		for _, d := range y {
			if g := r.bdd.And(c.g, d.g); g != False && r.sameTerm(c.t, d.t, stx, sty, 0) {
				out = r.bdd.Or(out, g)
			}
		}
	}
	return out
}

func (r *Flow) sameTerm(x, y *Term, stx, sty State, depth int) bool {
	if x == y {
		return true
	}
	if depth > 4 || x.typ == nil || y.typ == nil || !types.Identical(x.typ, y.typ) {
		return false
	}
	all := func(a, b []Val) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			p, q := a[i].single(), b[i].single()
			if r.valKey(a[i]) == r.valKey(b[i]) {
				continue
			}
			if p == nil || q == nil || !r.sameTerm(p, q, stx, sty, depth+1) {
				return false
			}
		}
		return true
	}
	switch {
	case x.op == "iface" && y.op == "iface", x.op == "struct" && y.op == "struct":
		return all(x.args, y.args)
	case x.op == "obj" && y.op == "obj":
		// two copies of the same thing
		t := deref(x.typ)
		if s, ok := t.Underlying().(*types.Struct); !ok || s.NumFields() == 0 {
			return false
		}
		return all([]Val{r.load(stx, x, t)}, []Val{r.load(sty, y, t)})
	}
	return false
}

// sameMemory reports whether what memory holds at st is what it held at st0,
// apart from objects made since.
func (r *Flow) sameMemory(st, st0 State, g B) bool {
	for loc, v := range st {
		o, ok := st0[loc]
		if !ok {
			if x := rootOf(loc); x.op == "obj" || x.op == "ctr" || x.op == "eaddr" {
				continue
			}
			o = r.absent(st0, loc)
		}
		if !r.eqUnder(o, v, g) {
			return false
		}
	}
	return true
}

type partRel int

const (
	partUnknown partRel = iota
	partSame
	partBelow
	partAlias
)

// partOf relates a node to another it was reached from: the same, a part of its
// content, or something behind an alias in it.
func (r *Flow) partOf(x, of *Term) partRel {
	below, alias := false, false
	for {
		if x == of {
			switch {
			case alias:
				return partAlias
			case below:
				return partBelow
			}
			return partSame
		}
		var n *Term
		switch {
		case x.op == "gen" && len(x.args) > 0:
			n = x.args[0].single()
			below = true
		case isApp(x, "elem") && len(x.args) > 0:
			s := x.args[0].single()
			for s != nil && (isApp(s, "slice") || isApp(s, "reslice") || isApp(s, "tail")) && len(s.args) > 0 {
				s = s.args[0].single()
			}
			if s == nil || !isApp(s, "content") {
				return partUnknown
			}
			n = s.args[0].single()
			below = true
		case x.op == "init":
			if l := x.args[0].single(); l != nil && l.op == "faddr" {
				b := l.args[0][0].t
				if b.typ != nil && isNodePtr(b.typ) && r.fieldOf(b, l.idx) == "Alias" {
					n = b
					alias = true
				}
			}
		}
		if n == nil {
			return partUnknown
		}
		x = n
	}
}
