package main

// Sizes given to make and keys of maps: negative ones and those that cannot be
// compared panic.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// negative is the guard of t being below n. Where it cannot be computed, sure is
// false; a length that may be zero is taken as the witness of a difference.
func (r *Flow) below(t *Term, n int64, g B) (bad B, sure bool) {
	if t.op == "const" {
		v, ok := int64Val(t.cst)
		if !ok {
			return False, false
		}
		if v < n {
			return True, true
		}
		return False, true
	}
	if t.nonneg() && n <= 0 || t.op == "ind" && int64(t.idx) >= n {
		return False, true
	}
	if t.op == "app" && len(t.args) == 2 && (t.str == "+" || !t.nonneg()) && t.str != "strindex" {
		x, y := t.args[0].single(), t.args[1].single()
		if x == nil || y == nil {
			return False, false
		}
		c, isC := constInt(y)
		if cx, ok := constInt(x); ok && !isC && (t.str == "+" || t.str == "*") {
			x, y, c, isC = y, x, cx, true
		}
		switch t.str {
		case "+":
			if isC {
				return r.below(x, n-c, g)
			}
			b1, s1 := r.below(x, n, g)
			b2, s2 := r.below(y, 0, g)
			if s1 && s2 && b1 == False && b2 == False {
				return False, true
			}
			b1, s1 = r.below(x, 0, g)
			b2, s2 = r.below(y, n, g)
			if s1 && s2 && b1 == False && b2 == False {
				return False, true
			}
			for _, o := range [][2]*Term{{x, y}, {y, x}} {
				// the other one being zero is a witness
				if !o[1].nonneg() {
					continue
				}
				b, _ := r.below(o[0], n, g)
				b = r.bdd.And(b, r.ltConst(o[1], 1))
				if r.possible(r.bdd.And(b, g)) {
					return b, true
				}
			}
			return False, false
		case "-":
			if isC {
				return r.below(x, n+c, g)
			}
			if cx, ok := constInt(x); ok && y.nonneg() {
				if cx-n+1 <= 0 {
					return True, true
				}
				b := r.bdd.And(r.bdd.Not(r.ltConst(y, cx-n+1)), r.bdd.Not(r.ltConst(y, 1)))
				return b, true
			}
			if x.nonneg() && y.nonneg() && x != y && n <= 0 {
				// nothing of the one and something of the other is a witness
				b := r.bdd.AndAll(r.ltConst(x, 1), r.bdd.Not(r.ltConst(y, 1-n)), r.ltConst(t, n), r.pairVar("lt", x, y), r.bdd.Not(r.pairVar("lt", y, x)))
				if r.possible(r.bdd.And(b, g)) {
					return b, true
				}
			}
			return False, false
		case "*":
			if isC && c > 0 {
				if n <= 0 {
					return r.below(x, n/c, g)
				}
				return r.below(x, (n+c-1)/c, g)
			}
			if b1, s1 := r.below(x, 0, g); s1 && b1 == False && n <= 0 {
				b2, s2 := r.below(y, 0, g)
				return False, s2 && b2 == False
			}
			return False, false
		case "/", ">>":
			if isC && t.str == ">>" && c >= 0 && c < 30 {
				c = 1 << uint(c)
			}
			if !isC || c <= 0 {
				return False, false
			}
			if b, s := r.below(x, 0, g); !s || b != False {
				if n <= 0 {
					return r.below(x, 0, g)
				}
				return False, false
			}
			if n <= 0 {
				return False, true
			}
			// some small length
			b, _ := r.below(x, 1, g)
			if b = r.bdd.And(b, g); r.possible(b) {
				return b, true
			}
			b, s := r.below(x, n*c, g)
			if r.bdd.And(b, g) == False {
				return False, s
			}
			return False, false
		}
		return False, false
	}
	if t.op == "app" && (t.str == "len" || t.str == "clen" || t.str == "strindex") {
		b := r.ltConst(t, n)
		if n <= 1 || r.bdd.And(b, g) == False {
			return b, true
		}
		// zero is the witness
		z := r.bdd.And(r.ltConst(t, 1), g)
		if r.possible(z) {
			return r.bdd.And(b, z), true
		}
		return False, false
	}
	if t.op == "init" && isInteger(t.typ) && !isUnsigned(t.typ) {
		return r.ltConst(t, n), true
	}
	return False, false
}

// possible tells whether a condition can hold.
func (r *Flow) possible(g B) bool {
	return g != False && r.bdd.And(g, r.axioms()) != False
}

// sizeCheck is the obligation of a size not being negative.
func (r *Flow) sizeCheck(what string, n Val, g B, pos token.Pos) {
	for _, c := range n {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		bad, sure := r.below(c.t, 0, cg)
		if !sure && r.possible(cg) {
			r.unsure = append(r.unsure, what+" "+r.print(c.t)+" at "+r.P.pos(pos))
		}
		r.oblige("negative size", what+" "+r.print(c.t), bad, cg, pos)
	}
}

// sizeParams are the parameters of a constructor that become sizes of slices.
func (p *Prog) sizeParams(fn *ssa.Function) []int {
	if s, ok := p.sizes[fn]; ok {
		return s
	}
	if p.sizes == nil {
		p.sizes = map[*ssa.Function][]int{}
	}
	p.sizes[fn] = nil
	is := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MakeSlice:
				is[in.Len], is[in.Cap] = true, true
			case *ssa.Call:
				if c := in.Call.StaticCallee(); c != nil && p.inModule(pkgOf(c)) {
					for _, i := range p.sizeParams(c) {
						is[in.Call.Args[i]] = true
					}
				}
			}
		}
	}
	var out []int
	for i, pr := range fn.Params {
		if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && is[pr] {
			out = append(out, i)
		}
	}
	p.sizes[fn] = out
	return out
}

// hashable is the obligation of a key having a dynamic type that can be compared.
func (r *Flow) hashable(k Val, g B, pos token.Pos) {
	for _, c := range k {
		if c.t.op == "iface" && !types.Comparable(c.t.typ) {
			r.oblige("unhashable key", "key of type "+typeStr(c.t.typ), c.g, g, pos)
		}
	}
}
