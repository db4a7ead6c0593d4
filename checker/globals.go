package main

// Package-level tables: variables that are given their value by the package
// initialiser and are only read afterwards.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalUse is what is known about a package-level variable of the module.
type globalUse struct {
	g       *ssa.Global
	written []ssa.Instruction // places outside initialisers where it may change
}

// globals lists the package-level variables of the module with their uses.
func (p *Prog) globals() map[*ssa.Global]*globalUse {
	if p.globalUses != nil {
		return p.globalUses
	}
	p.globalUses = map[*ssa.Global]*globalUse{}
	for _, pk := range p.prog.AllPackages() {
		if !p.inModule(pk.Pkg) {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				p.globalUses[g] = &globalUse{g: g}
			}
		}
	}
	for _, fn := range p.fns {
		inInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || p.globalUses[g] == nil {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && inInit && st.Addr == g {
						continue
					}
					if w := addrReadOnly(in, g); w != nil && !(inInit && w.Parent() == fn) {
						p.globalUses[g].written = append(p.globalUses[g].written, w)
					}
				}
			}
		}
	}
	return p.globalUses
}

// frozenGlobal reports whether a variable never changes after initialisation.
func (p *Prog) frozenGlobal(g *ssa.Global) bool {
	u := p.globals()[g]
	return u != nil && len(u.written) == 0
}

// addrReadOnly returns an instruction through which the memory at an address may
// change, given a use of the address; nil if there is none.
func addrReadOnly(in ssa.Instruction, addr ssa.Value) ssa.Instruction {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.UnOp:
		return valueReadOnly(in)
	case *ssa.FieldAddr:
		return usesReadOnly(in, addrReadOnly)
	case *ssa.IndexAddr:
		if in.X == addr {
			return usesReadOnly(in, addrReadOnly)
		}
	case *ssa.Slice:
		if in.X == addr {
			return valueReadOnly(in)
		}
	}
	return in
}

func usesReadOnly(v ssa.Value, f func(ssa.Instruction, ssa.Value) ssa.Instruction) ssa.Instruction {
	for _, u := range *v.Referrers() {
		if w := f(u, v); w != nil {
			return w
		}
	}
	return nil
}

// valueReadOnly returns an instruction through which memory reachable from a
// value may change.
func valueReadOnly(v ssa.Value) ssa.Instruction {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	case *types.Array, *types.Struct:
		return nil
	default:
		return nil // a scalar, function, interface or pointer: the variable itself is only read
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef, *ssa.Range:
		case *ssa.Lookup:
			if u.X != v {
				return u
			}
			if u.CommaOk {
				for _, x := range *u.Referrers() {
					if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
						if w := valueReadOnly(e); w != nil {
							return w
						}
					}
				}
			} else if w := valueReadOnly(u); w != nil {
				return w
			}
		case *ssa.IndexAddr:
			if w := usesReadOnly(u, addrReadOnly); w != nil {
				return w
			}
		case *ssa.Slice:
			if w := valueReadOnly(u); w != nil {
				return w
			}
		case *ssa.BinOp:
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return u
			}
		default:
			return u
		}
	}
	return nil
}

// initGlobals makes the contents of the tables of a package known.
func (r *Flow) initGlobals(g *ssa.Global) {
	pk := g.Pkg
	if pk == nil || r.ginited[pk] || r.inInit || !r.P.frozenGlobal(g) {
		return
	}
	fn := pk.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	r.ginited[pk] = true
	log, fails, obls, nobl, und := r.log, r.fails, r.obls, r.nobl, r.und
	ctx, stack, cur, curG := r.ctx, r.stack, r.cur, r.curG
	seq := r.seq
	r.und = map[string]bool{}
	r.ctx, r.stack, r.cur, r.seq, r.inInit = nil, nil, nil, nil, true
	_, _, st := r.call(fn, nil, nil, True, State{}, fn.Pos())
	r.log, r.fails, r.obls, r.nobl, r.und = log, fails, obls, nobl, und
	r.ctx, r.stack, r.cur, r.curG, r.seq, r.inInit = ctx, stack, cur, curG, seq, false
	for gl := range r.P.globals() {
		if gl.Pkg != pk || !r.P.frozenGlobal(gl) {
			continue
		}
		t := r.intern(Term{op: "global", str: gl.String(), typ: gl.Type()})
		for loc, v := range st {
			if rootOf(loc) == t {
				r.ginit[loc] = v
			}
		}
	}
	for loc, v := range st {
		switch rt := rootOf(loc); {
		case loc.op == "mapc":
			r.ginit[loc] = v
		case rt.op == "obj" && rt.typ != nil:
			if _, ok := rt.typ.Underlying().(*types.Array); ok {
				r.ginit[loc] = v
			} else if _, ok := deref(rt.typ).Underlying().(*types.Array); ok {
				r.ginit[loc] = v
			} else {
				r.havoc[rt] = true
			}
		}
	}
}
