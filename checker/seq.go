package main

// Key-order analysis: a loop over the entries of one mapping is analysed for
// every set of recognised keys the mapping may have and every order of them; the
// remaining entries are a class of their own that may occur anywhere, any number
// of times.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type seqMode struct {
	node  *Term                 // the mapping
	order []string              // recognised keys in order of appearance
	vals  map[string]*KeyPreset // what the values of recognised keys are
	other bool                  // whether other keys may occur in between
	byLC  map[int]*KeyPreset
	lcs   map[string]*LoopCtx
	n     int
}

func (s *seqMode) ctxFor(r *Flow, coll *Term, key string, loopID string) *LoopCtx {
	k := loopID + "|" + key
	if lc, ok := s.lcs[k]; ok {
		return lc
	}
	lc := r.newLoop("map", coll, 2)
	lc.full = true
	s.lcs[k] = lc
	if key == "" {
		s.byLC[lc.id] = &KeyPreset{kind: "unknown"}
	} else {
		s.byLC[lc.id] = &KeyPreset{kind: "const", text: key}
	}
	return lc
}

type seqState struct {
	g    B
	st   State
	phis map[*ssa.Phi]Val
}

// run drives step over the key sequence; step analyses one iteration.
func (s *seqMode) run(r *Flow, coll *Term, loopID string, in seqState, step func(lc *LoopCtx, in seqState) seqState) seqState {
	others := func(cur seqState) seqState {
		if !s.other {
			return cur
		}
		for i := 0; i < 6; i++ {
			if cur.g == False {
				return cur
			}
			lc := s.ctxFor(r, coll, "", loopID)
			s.n++
			more := r.bdd.Var(fmt.Sprintf("more-others#%d#%s", s.n, loopID), "another unrecognised key")
			nx := step(lc, seqState{r.bdd.And(cur.g, more), cur.st.clone(), cur.phis})
			a, b := r.bdd.Diff(cur.g, more), nx.g
			if r.sameSeq(cur, nx) {
				return seqState{r.bdd.Or(a, b), cur.st, cur.phis}
			}
			jg, jst := r.join([]edge{{g: a, st: cur.st}, {g: b, st: nx.st}})
			ph := map[*ssa.Phi]Val{}
			for p := range cur.phis {
				ph[p] = r.merge([]Val{cur.phis[p], nx.phis[p]}, []B{a, b})
			}
			cur = seqState{jg, jst, ph}
		}
		r.und["key order analysis does not converge"] = true
		return cur
	}
	cur := others(in)
	for _, k := range s.order {
		if cur.g == False {
			break
		}
		cur = step(s.ctxFor(r, coll, k, loopID), cur)
		cur = others(cur)
	}
	return cur
}

func (r *Flow) sameSeq(a, b seqState) bool {
	if b.g == False {
		return true
	}
	for p, v := range a.phis {
		if !r.eqUnder(v, b.phis[p], b.g) {
			return false
		}
	}
	for loc, v := range b.st {
		if loc.op == "eaddr" {
			continue
		}
		o, ok := a.st[loc]
		if !ok {
			if len(rootOf(loc).ctx) > 0 {
				continue
			}
			o = r.absent(a.st, loc)
		}
		if !r.eqUnder(o, v, b.g) {
			return false
		}
	}
	return true
}

// seqIterate is iterate in key-order mode.
func (r *Flow) seqIterate(coll *Term, g B, st State, body func(lc *LoopCtx, g B, st State) (B, State)) (B, State) {
	r.loopUID++
	out := r.seq.run(r, coll, fmt.Sprint("c", r.loopUID), seqState{g, st, nil}, func(lc *LoopCtx, in seqState) seqState {
		r.pushLoop(lc)
		bg, bst := body(lc, in.g, in.st)
		r.popLoop()
		return seqState{bg, bst, nil}
	})
	return out.g, out.st
}

// seqLoop is loop in key-order mode; ok is false if the loop is not a recognised
// loop over the mapping's entries.
func (r *Flow) seqLoop(a *act, L *loop, in []edge) (map[*ssa.BasicBlock][]edge, bool) {
	g0, st0 := r.join(in)
	var indPhi *ssa.Phi
	phi0 := map[*ssa.Phi]Val{}
	for _, ins := range L.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		var gs []B
		for _, e := range in {
			vs = append(vs, r.valOf(a, p.Edges[e.pred]))
			gs = append(gs, e.g)
		}
		v := vs[0]
		if len(vs) > 1 {
			v = r.merge(vs, gs)
		}
		if st := r.inductionStep(p, L); st == 2 && indPhi == nil && r.isZeroV(v) {
			indPhi = p
			continue
		}
		phi0[p] = v
	}
	if indPhi == nil {
		return nil, false
	}
	coll := r.app("content", nil, r.one(r.seq.node))
	// does the loop's condition range over this mapping? try one pass
	exits := map[*ssa.BasicBlock][]edge{}
	ok := true
	var domain *ssa.If
	var exitTo *ssa.BasicBlock
	r.loopUID++
	id := fmt.Sprint("l", r.loopUID)
	var lastPhis map[*ssa.Phi]Val
	saveM := r.mark(a)
	out := r.seq.run(r, coll, id, seqState{g0, st0, phi0}, func(lc *LoopCtx, in seqState) seqState {
		if !ok {
			return seqState{}
		}
		iv := r.intern(Term{op: "ind", str: fmt.Sprintf("%d", lc.id), idx: 0, typ: types.Typ[types.Int]})
		iv.loop = lc
		cl := &curLoop{a: a, L: L, lc: lc, inits: map[*Term]Val{iv: r.one(r.integer(0))}}
		phis := map[*ssa.Phi]Val{indPhi: r.one(iv)}
		for p, v := range in.phis {
			phis[p] = v
		}
		save := a.nphi
		a.nphi = phis
		a.loops = append(a.loops, cl)
		r.pushLoop(lc)
		ex, back := r.region(a, L, L.head, []edge{{pred: -1, g: in.g, st: in.st}})
		r.popLoop()
		a.loops = a.loops[:len(a.loops)-1]
		a.nphi = save
		if !cl.ok || cl.lc.coll == nil || cl.lc.coll.op != "app" || cl.lc.coll.str != "content" || cl.lc.coll.args[0].single() != r.seq.node {
			ok = false
			return seqState{}
		}
		domain, exitTo = cl.domain, cl.exitTo
		for to, es := range ex {
			exits[to] = append(exits[to], r.bindPhis(a, L, to, es)...)
		}
		if len(back) == 0 {
			return seqState{}
		}
		bg, bst := r.join(back)
		nph := map[*ssa.Phi]Val{}
		for p := range phi0 {
			var vs []Val
			var gs []B
			for _, e := range back {
				vs = append(vs, r.valOf(a, p.Edges[e.pred]))
				gs = append(gs, e.g)
			}
			if len(vs) == 1 {
				nph[p] = vs[0]
			} else {
				nph[p] = r.merge(vs, gs)
			}
		}
		return seqState{bg, bst, nph}
	})
	if !ok {
		r.reset(saveM, a)
		return nil, false
	}
	lastPhis = out.phis
	if domain == nil {
		// no iteration was analysed: the mapping is empty; analyse the head only
		return nil, false
	}
	if out.g != False {
		snap := map[ssa.Value]Val{}
		for p, v := range lastPhis {
			snap[p] = v
		}
		e := edge{from: domain.Block(), pred: predIndex(domain.Block(), exitTo, 0), g: out.g, st: out.st}
		for _, ins := range exitTo.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				if v, ok := snap[p.Edges[e.pred]]; ok {
					snap[p] = v
				}
			}
		}
		e.snap = snap
		exits[exitTo] = append(exits[exitTo], e)
	}
	r.settle(a, L, exits)
	return exits, true
}

// bindPhis remembers, for edges leaving a loop, what the variables were.
func (r *Flow) bindPhis(a *act, L *loop, to *ssa.BasicBlock, es []edge) []edge {
	for i := range es {
		m := map[ssa.Value]Val{}
		for _, ins := range L.head.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				m[p] = r.valOf(a, p)
			}
		}
		for _, ins := range to.Instrs {
			if p, ok := ins.(*ssa.Phi); ok && es[i].pred >= 0 && es[i].pred < len(p.Edges) {
				m[p] = r.valOf(a, p.Edges[es[i].pred])
			}
		}
		for _, v := range liveOut(a.fn, L) {
			if x, ok := a.env[v]; ok {
				m[v] = x
			}
		}
		es[i].snap = m
	}
	return es
}

// liveOut lists the values computed in a loop that are used behind it.
func liveOut(fn *ssa.Function, L *loop) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		if !L.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if p, isPhi := ins.(*ssa.Phi); isPhi && p.Block() == L.head {
				continue
			}
			for _, u := range *v.Referrers() {
				if !L.blocks[u.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

// settle gives the variables and values of a loop, as seen behind it, what they
// were on the edge that was taken.
func (r *Flow) settle(a *act, L *loop, exits map[*ssa.BasicBlock][]edge) {
	var vals []ssa.Value
	for _, ins := range L.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, p)
	}
	vals = append(vals, liveOut(a.fn, L)...)
	for _, p := range vals {
		var vs []Val
		var gs []B
		for _, b := range a.fn.Blocks {
			for _, e := range exits[b] {
				if v, ok := e.snap[p]; ok {
					vs = append(vs, v)
					gs = append(gs, e.g)
				}
			}
		}
		switch len(vs) {
		case 0:
		case 1:
			a.env[p] = vs[0]
		default:
			a.env[p] = r.merge(vs, gs)
		}
	}
}

const maxTrips = 64

// tripBound is the number of iterations of a loop that counts up to a constant.
func (r *Flow) tripBound(a *act, L *loop, phi0 map[*ssa.Phi]Val, st State) int {
	if len(L.head.Instrs) == 0 {
		return 0
	}
	f, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	b, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	num := func(v Val) (int64, bool) {
		t := v.single()
		if t == nil {
			return 0, false
		}
		return constInt(t)
	}
	for p, v := range phi0 {
		step := r.inductionStep(p, L)
		from, ok := num(v)
		if step == 0 || !ok {
			continue
		}
		for _, y := range []ssa.Value{b.X, b.Y} {
			if n, ok := r.constAt(a, L, y, st); ok {
				d := (n - from) / int64(step)
				if d >= 0 && d <= maxTrips {
					return int(d) + 2
				}
			}
		}
	}
	return 0
}

// neverIn reports whether the loop compares a counter with a length in a way that
// does not hold of its first value.
func neverIn(L *loop, phi0 map[*ssa.Phi]Val) bool {
	f, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len"
	}
	first := func(v ssa.Value) (int64, bool) {
		p, ok := v.(*ssa.Phi)
		if !ok {
			return 0, false
		}
		x, ok := phi0[p]
		if !ok || x.single() == nil {
			return 0, false
		}
		return constInt(x.single())
	}
	x, y, op := b.X, b.Y, b.Op
	if isLen(x) {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
	}
	n, ok := first(x)
	if !ok || !isLen(y) {
		return false
	}
	if !L.blocks[L.head.Succs[0]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[op]
	}
	return op == token.GTR && n <= 0 || op == token.GEQ && n < 0
}

// constAt evaluates a loop bound.
func (r *Flow) constAt(a *act, L *loop, v ssa.Value, st State) (int64, bool) {
	var x Val
	switch c := v.(type) {
	case *ssa.Const:
		x = r.valOf(a, c)
	case *ssa.Call:
		if L.blocks[c.Block()] {
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return 0, false
			}
			var s Val
			switch o := c.Call.Args[0].(type) {
			case *ssa.UnOp:
				g, ok := o.X.(*ssa.Global)
				if !ok {
					return 0, false
				}
				s = r.loadVal(st, r.valOf(a, g), o.Type())
			default:
				in, ok := o.(ssa.Instruction)
				if !ok || L.blocks[in.Block()] {
					return 0, false
				}
				s = r.valOf(a, o)
			}
			t := s.single()
			if t == nil {
				return 0, false
			}
			x = r.one(r.lenOf(t, c.Call.Args[0].Type()))
		} else {
			x = r.valOf(a, c)
		}
	default:
		in, ok := v.(ssa.Instruction)
		if !ok || L.blocks[in.Block()] {
			return 0, false
		}
		x = r.valOf(a, v)
	}
	t := x.single()
	if t == nil {
		return 0, false
	}
	return constInt(t)
}

// tableLoop analyses a loop over a table of known length entry by entry.
func (r *Flow) tableLoop(a *act, L *loop, in []edge) (map[*ssa.BasicBlock][]edge, bool) {
	g0, st0 := r.join(in)
	phi0 := map[*ssa.Phi]Val{}
	for _, ins := range L.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		var gs []B
		for _, e := range in {
			vs = append(vs, r.valOf(a, p.Edges[e.pred]))
			gs = append(gs, e.g)
		}
		v := vs[0]
		if len(vs) > 1 {
			v = r.merge(vs, gs)
		}
		phi0[p] = v
	}
	trips := r.tripBound(a, L, phi0, st0)
	if trips == 0 && neverIn(L, phi0) {
		trips = 1
	}
	if trips == 0 {
		return nil, false
	}
	saveM := r.mark(a)
	exits := map[*ssa.BasicBlock][]edge{}
	cur := seqState{g0, st0, phi0}
	for i := 0; i <= trips; i++ {
		save := a.nphi
		a.nphi = cur.phis
		ex, back := r.region(a, L, L.head, []edge{{pred: -1, g: cur.g, st: cur.st.clone()}})
		a.nphi = save
		for to, es := range ex {
			exits[to] = append(exits[to], r.bindPhis(a, L, to, es)...)
		}
		if len(back) == 0 {
			r.settle(a, L, exits)
			return exits, true
		}
		bg, bst := r.join(back)
		if bg == False {
			r.settle(a, L, exits)
			return exits, true
		}
		nph := map[*ssa.Phi]Val{}
		for p := range phi0 {
			var vs []Val
			var gs []B
			for _, e := range back {
				vs = append(vs, r.valOf(a, p.Edges[e.pred]))
				gs = append(gs, e.g)
			}
			if len(vs) == 1 {
				nph[p] = vs[0]
			} else {
				nph[p] = r.merge(vs, gs)
			}
		}
		cur = seqState{bg, bst, nph}
	}
	r.reset(saveM, a)
	return nil, false
}
