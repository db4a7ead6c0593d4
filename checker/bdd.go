package main

// Reduced ordered binary decision diagrams. Guards of the value-flow analysis
// are boolean functions over canonical program atoms; a BDD gives every guard a
// unique representation, so implication and equality of guards are exact and no
// path is ever enumerated.

import (
	"fmt"
	"sort"
	"strings"
)

type B int32

const (
	False B = 0
	True  B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type BDD struct {
	nodes []bnode
	uniq  map[bnode]B
	memo  map[[3]B]B
	atoms []string // variable -> printable atom
	keys  []string // variable -> identity
	vars  map[string]int32
}

func NewBDD() *BDD {
	b := &BDD{uniq: map[bnode]B{}, memo: map[[3]B]B{}, vars: map[string]int32{}}
	b.nodes = append(b.nodes, bnode{1 << 30, 0, 0}, bnode{1 << 30, 1, 1})
	return b
}

func (b *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if r, ok := b.uniq[n]; ok {
		return r
	}
	r := B(len(b.nodes))
	b.nodes = append(b.nodes, n)
	b.uniq[n] = r
	return r
}

// Var returns the guard of the atom with the given identity; text is only used
// for printing.
func (b *BDD) Var(key, text string) B {
	v, ok := b.vars[key]
	if !ok {
		v = int32(len(b.atoms))
		b.vars[key] = v
		b.atoms = append(b.atoms, text)
		b.keys = append(b.keys, key)
	}
	return b.mk(v, False, True)
}

// Cofactor fixes one atom of a guard.
func (b *BDD) Cofactor(f, atom B, val bool) B {
	v := b.nodes[atom].v
	memo := map[B]B{}
	var walk func(B) B
	walk = func(x B) B {
		if x <= 1 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		var r B
		switch {
		case n.v > v:
			r = x
		case n.v == v && val:
			r = n.hi
		case n.v == v:
			r = n.lo
		default:
			r = b.mk(n.v, walk(n.lo), walk(n.hi))
		}
		memo[x] = r
		return r
	}
	return walk(f)
}

// Exists removes an atom from a guard by existential abstraction.
func (b *BDD) Exists(f, atom B) B {
	return b.Or(b.Cofactor(f, atom, true), b.Cofactor(f, atom, false))
}

func (b *BDD) Ite(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := b.memo[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if x := b.nodes[g].v; x < v {
		v = x
	}
	if x := b.nodes[h].v; x < v {
		v = x
	}
	c := func(x B, hi bool) B {
		n := b.nodes[x]
		if n.v != v {
			return x
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	r := b.mk(v, b.Ite(c(f, false), c(g, false), c(h, false)), b.Ite(c(f, true), c(g, true), c(h, true)))
	b.memo[k] = r
	return r
}

func (b *BDD) And(f, g B) B { return b.Ite(f, g, False) }
func (b *BDD) Or(f, g B) B  { return b.Ite(f, True, g) }
func (b *BDD) Not(f B) B    { return b.Ite(f, False, True) }
func (b *BDD) Diff(f, g B) B {
	return b.And(f, b.Not(g))
}
func (b *BDD) Implies(f, g B) bool { return b.Diff(f, g) == False }

func (b *BDD) AndAll(xs ...B) B {
	r := True
	for _, x := range xs {
		r = b.And(r, x)
	}
	return r
}

// Support returns the atoms a guard depends on.
func (b *BDD) Support(f B) []string {
	seen := map[B]bool{}
	vs := map[int32]bool{}
	var walk func(B)
	walk = func(x B) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		n := b.nodes[x]
		vs[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	var out []string
	for v := range vs {
		out = append(out, b.atoms[v])
	}
	sort.Strings(out)
	return out
}

// String renders a guard as a disjunction of at most a few conjunctions.
func (b *BDD) String(f B) string {
	if f == True {
		return "always"
	}
	if f == False {
		return "never"
	}
	var terms []string
	var walk func(B, []string)
	walk = func(x B, acc []string) {
		if len(terms) > 3 || x == False {
			return
		}
		if x == True {
			terms = append(terms, strings.Join(acc, " && "))
			return
		}
		n := b.nodes[x]
		walk(n.hi, append(append([]string{}, acc...), b.atoms[n.v]))
		walk(n.lo, append(append([]string{}, acc...), "!("+b.atoms[n.v]+")"))
	}
	walk(f, nil)
	if len(terms) > 3 {
		return strings.Join(terms[:3], " || ") + fmt.Sprintf(" || ... (%d atoms)", len(b.Support(f)))
	}
	return strings.Join(terms, " || ")
}

// atomByText returns the guard of an atom given its printed form.
func (b *BDD) atomByText(s string) B {
	for v, t := range b.atoms {
		if t == s {
			return b.mk(int32(v), False, True)
		}
	}
	return False
}
