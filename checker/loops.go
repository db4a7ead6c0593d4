package main

// Loops are summarised by one generic iteration: locations and variables that
// the body changes get a symbol for "the value the previous iterations left",
// the body is analysed to a fixpoint of that set, and the effect of the loop is
// the effect of the generic iteration. Nothing is unrolled. A decision taken
// inside the body on such a symbol stays visible in the guards, so behaviour that
// depends on the iteration history is never mistaken for uniform behaviour.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*loop
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := p.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, q := range x.Preds {
						up(q)
					}
				}
				up(b)
			}
		}
	}
	p.loops[fn] = li
	return li
}

// curLoop is the loop whose body is being analysed.
type curLoop struct {
	a      *act
	L      *loop
	lc     *LoopCtx
	inits  map[*Term]Val // induction symbol -> start value
	domain *ssa.If
	exitTo *ssa.BasicBlock
	base   int64
	ok     bool
}

func (r *Flow) pushLoop(lc *LoopCtx) { r.ctx = append(r.ctx, lc) }
func (r *Flow) popLoop()             { r.ctx = r.ctx[:len(r.ctx)-1] }

func (r *Flow) newLoop(kind string, coll *Term, step int) *LoopCtx {
	r.loopUID++
	return &LoopCtx{id: r.loopUID, kind: kind, coll: coll, step: step}
}

type mark struct{ log, fails, obls, nobl, rets int }

func (r *Flow) mark(a *act) mark {
	m := mark{len(r.log), len(r.fails), len(r.obls), r.nobl, 0}
	if a != nil {
		m.rets = len(a.rets)
	}
	return m
}

func (r *Flow) reset(m mark, a *act) {
	r.log, r.fails, r.obls, r.nobl = r.log[:m.log], r.fails[:m.fails], r.obls[:m.obls], m.nobl
	if a != nil {
		a.rets = a.rets[:m.rets]
	}
}

// isErrType reports whether t is the error interface.
func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}

// passResult is the outcome of analysing a loop body once.
type passResult struct {
	g    B
	st   State
	phis map[*ssa.Phi]Val
}

// summarise runs the body to a fixpoint over what it carries from iteration to
// iteration. It returns the state and variables after the loop and the
// substitution that expresses loop symbols by their values before the loop.
func (r *Flow) summarise(a *act, lc *LoopCtx, st0 State, phi0 map[*ssa.Phi]Val, forced map[*ssa.Phi]Val,
	pass func(st State, phis map[*ssa.Phi]Val) passResult) (passResult, map[*Term]Val, bool) {

	symPhi := map[*ssa.Phi]*Term{}
	symMem := map[*Term]*Term{}
	lostErr := map[string]bool{}
	errPhi, errMem := map[*ssa.Phi]bool{}, map[*Term]bool{}
	var phiList []*ssa.Phi
	for p := range phi0 {
		phiList = append(phiList, p)
	}
	sort.Slice(phiList, func(i, j int) bool { return phiList[i].Name() < phiList[j].Name() })
	m := r.mark(a)
	uid, luid := r.uid, r.loopUID
	var res passResult
	finalErr := false
	for iter := 0; ; iter++ {
		r.reset(m, a)
		r.uid, r.loopUID = uid, luid
		st := st0.clone()
		for loc, s := range symMem {
			if finalErr && errMem[loc] {
				continue
			}
			st[loc] = r.one(s)
		}
		phis := map[*ssa.Phi]Val{}
		for p, v := range forced {
			phis[p] = v
		}
		for p, v := range phi0 {
			phis[p] = v
			if s := symPhi[p]; s != nil && !(finalErr && errPhi[p]) {
				phis[p] = r.one(s)
			}
		}
		head := st.clone()
		r.pushLoop(lc)
		res = pass(st, phis)
		r.popLoop()
		if finalErr || iter > 8 {
			break
		}
		changed := false
		if res.g != False {
			for _, p := range phiList {
				if symPhi[p] != nil {
					continue
				}
				if !r.eqUnder(phi0[p], res.phis[p], res.g) {
					s := r.intern(Term{op: "lphi", str: fmt.Sprintf("%d", lc.id), idx: p.Block().Index*100 + idxOf(p), typ: p.Type()})
					symPhi[p] = s
					changed = true
				}
			}
			var locs []*Term
			for loc := range res.st {
				locs = append(locs, loc)
			}
			sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
			for _, loc := range locs {
				if symMem[loc] != nil || inCtx(rootOf(loc), lc) || loc.op == "eaddr" || rootOf(loc).op == "eaddr" {
					continue
				}
				old, ok := head[loc]
				if !ok {
					old = r.absent(head, loc)
				}
				if !r.eqUnder(old, res.st[loc], res.g) {
					s := r.intern(Term{op: "lmem", str: fmt.Sprintf("%d", lc.id), idx: loc.id, typ: deref2(loc.typ)})
					symMem[loc] = s
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// error variables: the generic iteration is one that no earlier error
		// stopped, provided the body never overwrites a pending error
		again := false
		check := func(s *Term, back Val, init Val, name string) bool {
			if t := init.single(); t == nil || t.op != "nil" {
				return false
			}
			ng := r.bdd.Diff(res.g, r.nilT1(s))
			if ng == False || r.eqUnder(back, r.one(s), ng) {
				again = true
				return true
			}
			lostErr[name] = true
			return false
		}
		for p, s := range symPhi {
			if isErrType(p.Type()) {
				errPhi[p] = check(s, res.phis[p], phi0[p], p.Name())
			}
		}
		for loc, s := range symMem {
			if isErrType(deref2(loc.typ)) {
				init, ok := st0[loc]
				if !ok {
					init = r.absent(st0, loc)
				}
				errMem[loc] = check(s, res.st[loc], init, r.print(loc))
			}
		}
		if again {
			finalErr = true
			continue
		}
		break
	}
	sub := map[*Term]Val{}
	kept := map[*Term]Val{} // loop symbol -> what the loop leaves
	if r.mapMode && res.g != False && lc.full && lc.step == 1 && !lc.rev && lc.coll != nil && lc.coll == r.mapOrd {
		for p, s := range symPhi {
			if v, ok := r.filtered(s, phi0[p], res.phis[p], res.g, lc); ok {
				kept[s] = v
			}
		}
		for loc, s := range symMem {
			v, ok := st0[loc]
			if !ok {
				v = r.absent(st0, loc)
			}
			if v, ok := r.filtered(s, v, res.st[loc], res.g, lc); ok {
				kept[s] = v
			}
		}
	}
	// what iterations at other entries than that of a searched key leave behind
	var vars []B
	for p, h := range r.hitVar {
		if p.loop == lc {
			vars = append(vars, h)
		}
	}
	lost := func(s *Term, back Val) bool {
		if len(vars) == 0 || res.g == False || kept[s] != nil {
			return false
		}
		g := res.g
		for _, h := range vars {
			g = r.bdd.Diff(g, h)
		}
		return !r.eqUnder(back, r.one(s), g)
	}
	for p, s := range symPhi {
		if lost(s, res.phis[p]) {
			kept[s] = r.one(r.app("left", s.typ, r.one(s)))
		}
	}
	for loc, s := range symMem {
		if lost(s, res.st[loc]) {
			kept[s] = r.one(r.app("left", s.typ, r.one(s)))
		}
	}
	for p, s := range symPhi {
		sub[s] = phi0[p]
		if isErrType(p.Type()) && !errPhi[p] && res.g != False {
			if _, ok := res.phis[p]; ok {
				res.phis[p] = r.one(r.app("lost-error", p.Type(), r.one(s)))
			}
		}
	}
	for loc, s := range symMem {
		v, ok := st0[loc]
		if !ok {
			v = r.absent(st0, loc)
		}
		sub[s] = v
		if isErrType(deref2(loc.typ)) && !errMem[loc] && res.g != False {
			res.st[loc] = r.one(r.app("lost-error", deref2(loc.typ), r.one(s)))
		}
	}
	if len(sub) > 0 {
		r.noteCarried(m.log, lc)
		memo := map[*Term]Val{}
		for i := m.log; i < len(r.log); i++ {
			e := *r.log[i]
			for j := range e.args {
				e.args = append([]Val{}, e.args...)
				e.args[j] = r.subst(e.args[j], sub, memo)
			}
			if e.recv != nil {
				if t := r.subst(r.one(e.recv), sub, memo).single(); t != nil {
					e.recv = t
				}
			}
			r.log[i] = &e
		}
		if res.g != False {
			for loc, v := range res.st {
				res.st[loc] = r.subst(v, sub, memo)
			}
			for p, v := range res.phis {
				res.phis[p] = r.subst(v, sub, memo)
			}
			for p, s := range symPhi {
				if v, ok := kept[s]; ok {
					res.phis[p] = v
				}
			}
			for loc, s := range symMem {
				if v, ok := kept[s]; ok {
					res.st[loc] = v
				}
			}
		}
		if a != nil {
			for i := m.rets; i < len(a.rets); i++ {
				for j, v := range a.rets[i].vals {
					a.rets[i].vals[j] = r.subst(v, sub, memo)
				}
				for loc, v := range a.rets[i].st {
					a.rets[i].st[loc] = r.subst(v, sub, memo)
				}
			}
		}
	}
	return res, sub, true
}

// filtered recognises the list s that a loop over the entries of a map extends
// by every entry, or by every entry but that of a key.
func (r *Flow) filtered(s *Term, init, back Val, g B, lc *LoopCtx) (Val, bool) {
	i0 := init.single()
	if i0 == nil || s.typ == nil {
		return nil, false
	}
	if _, ok := s.typ.Underlying().(*types.Slice); !ok {
		return nil, false
	}
	skip, add := False, False
	for _, c := range back {
		cg := r.bdd.And(c.g, g)
		switch {
		case cg == False:
		case c.t == s:
			skip = r.bdd.Or(skip, cg)
		case isApp(c.t, "append") && c.t.args[0].single() == s && r.wholeInd(c.t.args[1].single(), lc.coll, lc):
			add = r.bdd.Or(add, cg)
		default:
			return nil, false
		}
	}
	if r.bdd.Or(skip, add) != g {
		return nil, false
	}
	all := r.app("concat", s.typ, init, r.one(lc.coll))
	if skip == False {
		return r.one(all), true
	}
	for p, k := range r.hits {
		if p.loop != lc {
			continue
		}
		h := r.hitHas(p, k)
		if r.bdd.AndAll(g, h, r.hitVar[p]) != skip {
			continue
		}
		but := r.app("concat", s.typ, init, r.one(r.app("without", s.typ, r.one(lc.coll), r.one(p))))
		return r.mkval([]Case{{r.bdd.And(g, h), but}, {r.bdd.Diff(g, h), all}}), true
	}
	return nil, false
}

// whole recognises the entry at a position of a list before the operation.
func (r *Flow) whole(e, coll *Term) (*Term, bool) {
	if e == nil {
		return nil, false
	}
	at := func(l *Term) *Term {
		if l == nil || l.op != "eaddr" || l.args[0].single() != coll {
			return nil
		}
		return l.args[1].single()
	}
	if e.op == "init" {
		i := at(e.args[0].single())
		return i, i != nil
	}
	if e.op != "struct" {
		return nil, false
	}
	var pos *Term
	for n, a := range e.args {
		x := a.single()
		if x == nil || x.op != "init" {
			return nil, false
		}
		l := x.args[0].single()
		if l == nil || l.op != "faddr" || l.idx != n {
			return nil, false
		}
		i := at(l.args[0].single())
		if i == nil || pos != nil && pos != i {
			return nil, false
		}
		pos = i
	}
	return pos, pos != nil
}

func (r *Flow) wholeInd(e, coll *Term, lc *LoopCtx) bool {
	i, ok := r.whole(e, coll)
	return ok && i.op == "ind" && i.loop == lc
}

func idxOf(p *ssa.Phi) int {
	for i, in := range p.Block().Instrs {
		if in == p {
			return i
		}
	}
	return 0
}

func inCtx(t *Term, lc *LoopCtx) bool {
	for _, c := range t.ctx {
		if c == lc {
			return true
		}
	}
	return false
}

// eqUnder compares two values where g holds.
func (r *Flow) eqUnder(x, y Val, g B) bool {
	if r.valKey(x) == r.valKey(y) {
		return true
	}
	for _, c := range x {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		for _, d := range y {
			if d.t == c.t {
				continue
			}
			if r.bdd.And(cg, d.g) != False {
				return false
			}
		}
	}
	return true
}

// subst replaces loop symbols inside a value.
func (r *Flow) subst(v Val, sub map[*Term]Val, memo map[*Term]Val) Val {
	changed := false
	var cs []Case
	for _, c := range v {
		n := r.substT(c.t, sub, memo)
		if len(n) == 1 && n[0].t == c.t {
			cs = append(cs, c)
			continue
		}
		changed = true
		for _, d := range n {
			if g := r.bdd.And(c.g, d.g); g != False {
				cs = append(cs, Case{g, d.t})
			}
		}
	}
	if !changed {
		return v
	}
	return r.mkval(cs)
}

func (r *Flow) substT(t *Term, sub map[*Term]Val, memo map[*Term]Val) Val {
	if v, ok := sub[t]; ok {
		return v
	}
	if len(t.args) == 0 {
		return r.one(t)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	memo[t] = r.one(t)
	changed := false
	args := make([]Val, len(t.args))
	for i, a := range t.args {
		args[i] = r.subst(a, sub, memo)
		if r.valKey(args[i]) != r.valKey(a) {
			changed = true
		}
	}
	if !changed {
		return r.one(t)
	}
	if t.op == "faddr" && args[0].single() == nil {
		v := r.lift(args[0], func(b *Term, _ B) Val {
			n := *t
			n.args = []Val{r.one(b)}
			n.txt = ""
			return r.one(r.intern(n))
		})
		memo[t] = v
		return v
	}
	n := *t
	n.args = args
	n.txt = ""
	x := r.intern(n)
	if r.nonnil[t] {
		r.nonnil[x] = true
	}
	memo[t] = r.one(x)
	return r.one(x)
}

// loop summarises a natural loop and returns the edges leaving it.
func (r *Flow) loop(a *act, L *loop, in []edge) map[*ssa.BasicBlock][]edge {
	if ex, ok := r.tableLoop(a, L, in); ok {
		return ex
	}
	if r.seq != nil {
		if ex, ok := r.seqLoop(a, L, in); ok {
			return ex
		}
	}
	g0, st0 := r.join(in)
	lc := r.newLoop("for", nil, 1)
	cl := &curLoop{a: a, L: L, lc: lc, inits: map[*Term]Val{}}
	phi0, forced := map[*ssa.Phi]Val{}, map[*ssa.Phi]Val{}
	indPhi := map[*ssa.Phi]bool{}
	for _, ins := range L.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		var gs []B
		for _, e := range in {
			vs = append(vs, r.valOf(a, p.Edges[e.pred]))
			gs = append(gs, e.g)
		}
		v := vs[0]
		if len(vs) > 1 {
			v = r.merge(vs, gs)
		}
		if step := r.inductionStep(p, L); step != 0 {
			off := 0
			s := step
			if s < 0 {
				s = -s
			}
			if t := v.single(); t != nil && t.op == "const" && t.cst.Kind() == constant.Int {
				if n, _ := int64Val(t.cst); n == -1 && step == 1 || n == 1 && step == 2 {
					off = int(n)
				}
			}
			iv := r.ind(lc, off, p.Type())
			lc.step = s
			if step < 0 {
				lc.rev = true
			}
			cl.inits[iv] = v
			forced[p] = r.one(iv)
			indPhi[p] = true
			if len(forced) > 1 {
				r.undecided(p.Pos(), "several induction variables in %s", a.fn)
			}
			continue
		}
		if step := shrinkStep(p, L); step > 0 && len(forced) == 0 {
			if t := v.single(); t != nil && t.op != "nil" && t.op != "lit" {
				// for len(s) > 0 { ... s = s[step:] }
				iv := r.ind(lc, 0, types.Typ[types.Int])
				lc.step = step
				cl.inits[iv] = r.one(r.integer(0))
				forced[p] = r.one(r.app("slice", p.Type(), r.one(t), r.one(iv), r.one(r.nilT())))
				indPhi[p] = true
				continue
			}
		}
		phi0[p] = v
	}
	var exits map[*ssa.BasicBlock][]edge
	pass := func(st State, phis map[*ssa.Phi]Val) passResult {
		cl.domain, cl.ok = nil, false
		save := a.nphi
		a.nphi = phis
		a.loops = append(a.loops, cl)
		var back []edge
		exits, back = r.region(a, L, L.head, []edge{{pred: -1, g: g0, st: st}})
		a.loops = a.loops[:len(a.loops)-1]
		a.nphi = save
		res := passResult{phis: map[*ssa.Phi]Val{}}
		if len(back) == 0 {
			return res
		}
		res.g, res.st = r.join(back)
		for p := range phi0 {
			var vs []Val
			var gs []B
			for _, e := range back {
				vs = append(vs, r.valOf(a, p.Edges[e.pred]))
				gs = append(gs, e.g)
			}
			if len(vs) == 1 {
				res.phis[p] = vs[0]
			} else {
				res.phis[p] = r.merge(vs, gs)
			}
		}
		return res
	}
	m0 := r.mark(a)
	res, sub, _ := r.summarise(a, lc, st0, phi0, forced, pass)
	if !cl.ok {
		r.undecided(headPos(L.head), "loop without a recognised range in %s", a.fn)
	}
	r.met(a, L, lc, m0, &res, exits)
	memo := map[*Term]Val{}
	for to, es := range exits {
		for i := range es {
			st := State{}
			for loc, v := range es[i].st {
				st[loc] = r.subst(v, sub, memo)
			}
			es[i].st = st
		}
		exits[to] = es
	}
	earlyG := False
	for _, es := range exits {
		for _, e := range es {
			earlyG = r.bdd.Or(earlyG, e.g)
		}
	}
	if cl.domain != nil && cl.exitTo != nil {
		b := cl.domain.Block()
		nth := 0
		ng, nst := res.g, res.st
		if res.g == False && earlyG != False {
			// every iteration leaves the loop: it ends normally only when there is
			// nothing to iterate over
			ng = r.bdd.And(g0, r.bdd.Var(fmt.Sprintf("noiter#%d", lc.id), "no iteration at "+r.P.pos(headPos(L.head))))
			if lc.full && lc.coll != nil && isApp(lc.coll, "content") {
				if n := lc.coll.args[0].single(); n != nil && r.keyFor[n] != nil {
					ng = False // the mapping has the entry asked about
				}
			}
			for p, k := range r.hits {
				if p.loop == lc { // the map has the key, so it has entries
					ng = r.bdd.Diff(ng, r.hitHas(p, k))
				}
			}
			for to, es := range exits {
				for i := range es {
					es[i].g = r.bdd.Diff(es[i].g, ng)
				}
				exits[to] = es
			}
			nst = st0.clone()
			for p, v := range phi0 {
				res.phis[p] = v
			}
		}
		if ng != False {
			exits[cl.exitTo] = append(exits[cl.exitTo], edge{from: b, pred: predIndex(b, cl.exitTo, nth), g: ng, st: nst})
		}
		for p := range phi0 {
			cur := r.subst(r.valOf(a, p), sub, memo)
			if v, ok := res.phis[p]; ok && ng != False {
				cur = r.merge([]Val{cur, v}, []B{r.bdd.Diff(earlyG, ng), ng})
			}
			a.env[p] = cur
		}
	} else {
		for p := range phi0 {
			a.env[p] = r.subst(r.valOf(a, p), sub, memo)
		}
	}
	// values defined in the body and used after the loop
	for _, b := range a.fn.Blocks {
		if !L.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if _, isPhi := ins.(*ssa.Phi); isPhi && b == L.head {
					continue
				}
				if x, ok := a.env[v]; ok && len(sub) > 0 {
					a.env[v] = r.subst(x, sub, memo)
				}
			}
		}
	}
	return exits
}

// met ends the search of the entries of a map by key: the iteration at the entry
// of the key took place iff the map has the key, and what the body does at other
// entries took place there.
func (r *Flow) met(a *act, L *loop, lc *LoopCtx, m mark, res *passResult, exits map[*ssa.BasicBlock][]edge) {
	var vars []B
	for p, h := range r.hitVar {
		if p.loop == lc {
			vars = append(vars, h)
		}
	}
	if len(vars) == 0 {
		return
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	fix := func(g B, val bool) B {
		for _, h := range vars {
			g = r.bdd.Cofactor(g, h, val)
		}
		return g
	}
	// elsewhere
	other := State{}
	miss := fix(res.g, false)
	if miss != False {
		for loc, v := range res.st {
			if rt := rootOf(loc); rt.op != "eaddr" {
				continue
			}
			nv := r.cofactorVal(v, fix, false, map[*Term]Val{})
			old := r.one(r.initOf(loc, deref2(loc.typ)))
			if !r.eqUnder(nv, old, miss) {
				o := r.intern(Term{op: "eaddr", str: "other", args: rootOf(loc).args, typ: loc.typ, idx: loc.idx})
				other[o] = nv
			}
		}
	}
	memo := map[*Term]Val{}
	val := func(v Val) Val { return r.cofactorVal(v, fix, true, memo) }
	state := func(st State) State {
		out := State{}
		for loc, v := range st {
			out[loc] = val(v)
		}
		for loc, v := range other {
			out[loc] = v
		}
		return out
	}
	// an entry other than the one searched for may end the loop as well
	left := False
	for _, es := range exits {
		for _, e := range es {
			left = r.bdd.Or(left, fix(e.g, false))
		}
	}
	if left != False {
		left = r.bdd.And(left, r.bdd.Var(fmt.Sprintf("left#%d", lc.id), "the loop ends at another entry"))
	}
	for to, es := range exits {
		var keep []edge
		for _, e := range es {
			if g := r.bdd.And(left, fix(e.g, false)); g != False {
				o := e
				o.g, o.st = g, State{}
				for loc, v := range e.st {
					o.st[loc] = r.cofactorVal(v, fix, false, map[*Term]Val{})
				}
				keep = append(keep, o)
			}
			if e.g = r.bdd.Diff(fix(e.g, true), left); e.g != False {
				e.st = state(e.st)
				keep = append(keep, e)
			}
		}
		exits[to] = keep
	}
	res.g = r.bdd.Diff(fix(res.g, true), left)
	if res.st != nil {
		res.st = state(res.st)
	}
	for p, v := range res.phis {
		res.phis[p] = val(v)
	}
	for _, b := range a.fn.Blocks {
		if !L.blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if x, ok := a.env[v]; ok {
					a.env[v] = val(x)
				}
			}
		}
	}
	for i := m.log; i < len(r.log); i++ {
		e := *r.log[i]
		e.g = fix(e.g, true)
		e.args = append([]Val{}, e.args...)
		for j := range e.args {
			e.args[j] = val(e.args[j])
		}
		r.log[i] = &e
	}
	for i := m.fails; i < len(r.fails); i++ {
		r.fails[i].g = fix(r.fails[i].g, true)
	}
	for i := m.obls; i < len(r.obls); i++ {
		r.obls[i].g = fix(r.obls[i].g, true)
	}
	for i := m.rets; i < len(a.rets); i++ {
		x := &a.rets[i]
		x.g = fix(x.g, true)
		x.st = state(x.st)
		for j := range x.vals {
			x.vals[j] = val(x.vals[j])
		}
	}
}

// cofactorVal fixes atoms in the guards of a value.
func (r *Flow) cofactorVal(v Val, fix func(B, bool) B, b bool, memo map[*Term]Val) Val {
	var cs []Case
	for _, c := range v {
		g := fix(c.g, b)
		if g == False {
			continue
		}
		for _, d := range r.cofactorTerm(c.t, fix, b, memo) {
			if x := r.bdd.And(g, d.g); x != False {
				cs = append(cs, Case{x, d.t})
			}
		}
	}
	return r.mkval(cs)
}

func (r *Flow) cofactorTerm(t *Term, fix func(B, bool) B, b bool, memo map[*Term]Val) Val {
	if len(t.args) == 0 {
		return r.one(t)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	memo[t] = r.one(t)
	changed := false
	args := make([]Val, len(t.args))
	for i, a := range t.args {
		args[i] = r.cofactorVal(a, fix, b, memo)
		if r.valKey(args[i]) != r.valKey(a) {
			changed = true
		}
	}
	if changed {
		n := *t
		n.args, n.txt = args, ""
		x := r.intern(n)
		if r.nonnil[t] {
			r.nonnil[x] = true
		}
		memo[t] = r.one(x)
	}
	return memo[t]
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// ind is the induction variable of a loop plus off.
func (r *Flow) ind(lc *LoopCtx, off int, typ types.Type) *Term {
	iv := r.intern(Term{op: "ind", str: fmt.Sprintf("%d", lc.id), idx: off, typ: typ})
	iv.loop = lc
	return iv
}

// restOf takes a term apart that is the rest of a slice from a position of the
// loop on.
func restOf(t *Term) (base, from *Term) {
	if !isApp(t, "slice") || len(t.args) != 3 {
		return nil, nil
	}
	b, lo, hi := t.args[0].single(), t.args[1].single(), t.args[2].single()
	if b == nil || lo == nil || hi == nil || lo.op != "ind" || lo.loop == nil || hi.op != "nil" {
		return nil, nil
	}
	return b, lo
}

// shrinkStep recognises s = phi(init, s[c:]) in a loop bounded by len(s).
func shrinkStep(p *ssa.Phi, L *loop) int {
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return 0
	}
	step := 0
	for i, e := range p.Edges {
		if !L.blocks[p.Block().Preds[i]] {
			continue
		}
		sl, ok := e.(*ssa.Slice)
		if !ok || sl.X != ssa.Value(p) || sl.Low == nil || sl.High != nil || sl.Max != nil {
			return 0
		}
		c, ok := sl.Low.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		n, _ := int64Val(c.Value)
		if n < 1 || n > 8 || step != 0 && step != int(n) {
			return 0
		}
		step = int(n)
	}
	for b := range L.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || L.blocks[b.Succs[0]] && L.blocks[b.Succs[1]] {
			continue
		}
		if c, ok := f.Cond.(*ssa.BinOp); ok && (lenOfPhi(c.X, p) || lenOfPhi(c.Y, p)) {
			return step
		}
	}
	return 0
}

func lenOfPhi(v ssa.Value, p *ssa.Phi) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && len(c.Call.Args) == 1 && c.Call.Args[0] == ssa.Value(p)
}

// inductionStep recognises i = phi(init, i+c).
func (r *Flow) inductionStep(p *ssa.Phi, L *loop) int {
	step := 0
	for i, e := range p.Edges {
		if !L.blocks[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return 0
		}
		var c *ssa.Const
		if b.X == ssa.Value(p) {
			c, _ = b.Y.(*ssa.Const)
		} else if b.Y == ssa.Value(p) && b.Op == token.ADD {
			c, _ = b.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0
		}
		n, _ := int64Val(c.Value)
		if b.Op == token.SUB {
			n = -n
		}
		if step != 0 && step != int(n) {
			return 0
		}
		step = int(n)
	}
	// it must bound the loop: some exit condition of the loop compares it
	if !boundsLoop(p, L) {
		return 0
	}
	return step
}

func boundsLoop(p *ssa.Phi, L *loop) bool {
	for b := range L.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (L.blocks[b.Succs[0]] && L.blocks[b.Succs[1]]) {
			continue
		}
		c, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, o := range []ssa.Value{c.X, c.Y} {
			if o == ssa.Value(p) {
				return true
			}
			if bo, ok := o.(*ssa.BinOp); ok && (bo.X == ssa.Value(p) || bo.Y == ssa.Value(p)) {
				return true
			}
		}
	}
	return false
}

// first reports whether an iteration does nothing before block b but test
// conditions that would end the loop.
func (l *loop) first(b *ssa.BasicBlock) bool {
	for x := l.head; x != b; {
		var next *ssa.BasicBlock
		for _, in := range x.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			case *ssa.If:
				t, f := x.Succs[0], x.Succs[1]
				switch {
				case l.blocks[t] && !l.blocks[f]:
					next = t
				case l.blocks[f] && !l.blocks[t]:
					next = f
				default:
					return false
				}
			case *ssa.Jump:
				next = x.Succs[0]
			default:
				return false
			}
		}
		if next == nil || next == l.head || !l.blocks[next] {
			return false
		}
		x = next
	}
	return true
}

// domainOf decides whether a branch is the range condition of the loop being
// analysed: 1 the true edge stays in the loop, -1 the false edge does, 0 neither.
func (r *Flow) domainOf(a *act, in *ssa.If) int {
	if len(a.loops) == 0 {
		return 0
	}
	cl := a.loops[len(a.loops)-1]
	b := in.Block()
	if !cl.L.blocks[b] {
		return 0
	}
	t, f := cl.L.blocks[b.Succs[0]], cl.L.blocks[b.Succs[1]]
	if t == f {
		return 0
	}
	dir, out := 1, b.Succs[1]
	if f {
		dir, out = -1, b.Succs[0]
	}
	accept := func(coll *Term, full bool) int {
		cl.lc.coll = coll
		cl.lc.full = full && cl.L.first(b)
		cl.domain, cl.exitTo, cl.ok = in, out, true
		return dir
	}
	if x, ok := in.Cond.(*ssa.Extract); ok {
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 {
			it := r.valOf(a, nx.Iter).single()
			if it != nil && it.op == "app" && it.str == "range" {
				cl.lc.kind = "map"
				return accept(it.args[0].single(), true)
			}
		}
	}
	c, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	op := c.Op
	if dir < 0 {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	x, y := r.valOf(a, c.X).single(), r.valOf(a, c.Y).single()
	if x == nil || y == nil {
		return 0
	}
	mine := func(t *Term) bool { return t.op == "ind" && t.loop == cl.lc }
	if mine(y) && !mine(x) {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	for swap := 0; swap < 2; swap++ {
		if isApp(x, "len") && len(x.args) == 1 {
			if t := x.args[0].single(); t != nil {
				if base, from := restOf(t); base != nil && mine(from) {
					n, ok := constInt(y)
					k := int64(from.idx) + n
					switch {
					case !ok:
						return 0
					case op == token.GEQ:
						k--
					case op == token.GTR, op == token.NEQ && n == 0:
					default:
						return 0
					}
					cl.lc.below = int(k)
					return accept(base, k == 0 || k == 1 && cl.lc.step == 2)
				}
			}
		}
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	if !mine(x) {
		return 0
	}
	var start *Term
	for s, v := range cl.inits {
		if s.loop == cl.lc {
			start = v.single()
		}
	}
	if start == nil {
		return 0
	}
	lenOf := func(t *Term) *Term {
		if t.op == "app" && (t.str == "len" || t.str == "clen") {
			return t.args[0].single()
		}
		if t.op == "const" {
			return nil
		}
		return nil
	}
	k := int64(x.idx)
	startN, isConst := int64(0), false
	if start.op == "const" {
		startN, isConst = constInt(start)
	}
	if !cl.lc.rev {
		base := int64(0)
		if isConst && startN == -1 && x.idx >= -1 {
			base = -1
		}
		_ = base
		up := isConst && (startN == 0 || startN == -1 && cl.lc.step == 1 || startN == 1 && cl.lc.step == 2)
		n := y
		switch op {
		case token.LSS, token.NEQ:
		case token.LEQ:
			// i <= len-1
			if y.op == "app" && y.str == "-" && y.args[1].single() == r.integer(1) {
				n = y.args[0].single()
			} else {
				return accept(lenOfOrNil(lenOf, y), false)
			}
		default:
			return 0
		}
		s := lenOf(n)
		full := up && s != nil && (k == 0 || k == 1 && cl.lc.step == 2)
		if n.op == "const" {
			return accept(nil, false)
		}
		if s != nil && op != token.NEQ {
			cl.lc.below = int(k)
		}
		return accept(s, full)
	}
	// counting down from len-1 to 0
	if op == token.GEQ || op == token.GTR {
		n, isC := constInt(y)
		var s *Term
		if start.op == "app" && start.str == "-" && start.args[1].single() == r.integer(1) {
			if l := start.args[0].single(); l != nil {
				s = lenOf(l)
			}
		}
		full := s != nil && isC && k == 0 && cl.lc.step == 1 && (op == token.GEQ && n == 0 || op == token.GTR && n == -1)
		return accept(s, full)
	}
	return 0
}

func lenOfOrNil(f func(*Term) *Term, t *Term) *Term { return f(t) }

func constInt(t *Term) (int64, bool) {
	if t == nil || t.op != "const" || t.cst.Kind() != constant.Int {
		return 0, false
	}
	return int64Val(t.cst)
}

// iterate summarises a call of fn for each entry of a collection.
func (r *Flow) iterate(kind string, coll *Term, step int, g B, st State, body func(lc *LoopCtx, g B, st State) (B, State)) (B, State, *LoopCtx) {
	lc := r.newLoop(kind, coll, step)
	lc.full = true
	res, _, _ := r.summarise(nil, lc, st, nil, nil, func(s State, _ map[*ssa.Phi]Val) passResult {
		bg, bst := body(lc, g, s)
		return passResult{g: bg, st: bst}
	})
	if res.g == False {
		return False, st, lc
	}
	return res.g, res.st, lc
}

func (r *Flow) next(a *act, in *ssa.Next, st State) Val {
	it := r.valOf(a, in.Iter).single()
	var lc *LoopCtx
	if len(a.loops) > 0 {
		lc = a.loops[len(a.loops)-1].lc
	}
	tt := in.Type().(*types.Tuple)
	if it == nil || lc == nil || it.op != "app" || it.str != "range" {
		r.undecided(in.Pos(), "unsupported range")
		return r.tuple([]Val{r.one(r.app("nextok", types.Typ[types.Bool])), r.one(r.app("nextk", tt.At(1).Type())), r.one(r.app("nextv", tt.At(2).Type()))}, in.Type())
	}
	m := it.args[0].single()
	mk := func(what string, t types.Type) Val {
		n := r.intern(Term{op: "gen", str: what, idx: lc.id, typ: t, args: []Val{r.one(m)}})
		n.loop = lc
		return r.one(n)
	}
	if in.IsString {
		r.undecided(in.Pos(), "range over a string")
	}
	mt, _ := m.typ.Underlying().(*types.Map)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if mt != nil {
		kt, vt = mt.Key(), mt.Elem()
	}
	if c := r.mapContent(st, m).single(); r.mapMode && c != nil && c.op == "app" && c.str == "mapc0" {
		lc.mapc = c
	}
	r.event("maprange", m, r.curG, in.Pos())
	return r.tuple([]Val{r.one(r.app("nextok", types.Typ[types.Bool], r.one(m))), mk("mkey", kt), mk("mval", vt)}, in.Type())
}

func trimAmp(s string) string { return strings.TrimPrefix(s, "&") }
