package main

// The guarded value-flow analysis: a forward dataflow over SSA in which every
// value is a set of origin terms with disjoint guards, states are joined at
// merge points by guard, calls into the module are summarised in context, and
// loops are summarised by a generic iteration (loops.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State maps abstract locations to guarded values; an absent location still has
// its initial content.
type State map[*Term]Val

func (s State) clone() State {
	n := make(State, len(s)+8)
	for k, v := range s {
		n[k] = v
	}
	return n
}

// Event is an effect that is not a memory store: a container operation, a call
// of another element's reader or writer, an output operation.
type Event struct {
	kind string
	recv *Term
	args []Val
	g    B
	ctx  []*LoopCtx
	pos  token.Pos
	fn   *ssa.Function
	root bool
}

// Fail is a point at which reading or writing can fail.
type Fail struct {
	what string
	g    B
	pos  token.Pos
	fn   *ssa.Function
}

// Obl is a panic obligation that local facts do not discharge.
type Obl struct {
	kind string
	text string
	g    B
	pos  token.Pos
	fn   *ssa.Function
}

type edge struct {
	from *ssa.BasicBlock
	pred int
	g    B
	st   State
	snap map[ssa.Value]Val
}

type act struct {
	fn     *ssa.Function
	args   []Val
	st0    State
	env    map[ssa.Value]Val
	caller *act
	depth  int
	rets   []retEdge
	nphi   map[*ssa.Phi]Val // forced header phi values
	defers []*ssa.Defer
	loops  []*curLoop
}

type retEdge struct {
	g    B
	st   State
	vals []Val
}

// Flow is one analysis.
type Flow struct {
	P     *Prog
	bdd   *BDD
	terms map[string]*Term

	log   []*Event
	fails []Fail
	obls  []Obl
	nobl  int
	und   map[string]bool

	uid     int
	loopUID int
	ctx     []*LoopCtx
	stack   []*ssa.Function
	steps   int
	cur     *act

	nonnil    map[*Term]bool
	keyFor    map[*Term]*KeyPreset // per mapping node: what its generic key is
	clsFixSet map[*Term]classSet   // classes a node may have
	eqReg     map[*Term][]*Term
	ltReg     map[*Term]map[int64]B
	ltTerm    map[*Term]bool
	keyCmp    map[string]bool      // constants compared with an unknown key
	nameCmp   map[string]bool      // constants compared with an unknown type name
	nodePre   map[*Term]*KeyPreset // what is known about the text of a node
	roots     map[*Term]bool       // objects whose methods are analysed, not summarised
	mapMode   bool                 // analysing the ordered maps themselves
	inlineMu  bool                 // analyse nested readers/writers instead of recording them
	entry     *ssa.Function
	pending   map[*Term]bool // loop symbols of loops being summarised
	seq       *seqMode
	failAtom  map[string]B
	resolve   bool // analyse resolver functions instead of summarising them
	inits     State
	base      B
	visited   map[*ssa.Function]bool
	instrs    int
	curG      B

	resolvers  map[*ssa.Function]classSet
	resolvedBy map[*Term]*ssa.Function
	copies     map[*Term]bool   // local copies of the element under analysis
	havoc      map[*Term]bool   // objects whose fields have arbitrary content
	nodeKind   map[*Term]string // nodes made by the YAML helpers
	softObl    bool
	unsure     []string // sizes that could not be bounded
	carried    []carriedVal
	ginit      State // contents of package-level tables
	ginited    map[*ssa.Package]bool
	inInit     bool
	mapIdx     *Term           // content of the index of the map under analysis
	mapOrd     *Term           // its entries
	hasAny     B               // it has some key asked for
	mapKF      int             // field of an entry that is the key
	hits       map[*Term]*Term // positions found by searching for a key
	hitVar     map[*Term]B     // position found by a search -> the iteration is at it
}

func newFlow(p *Prog) *Flow {
	return &Flow{P: p, bdd: NewBDD(), terms: map[string]*Term{}, und: map[string]bool{},
		nonnil: map[*Term]bool{}, keyFor: map[*Term]*KeyPreset{}, clsFixSet: map[*Term]classSet{},
		eqReg: map[*Term][]*Term{}, ltReg: map[*Term]map[int64]B{}, ltTerm: map[*Term]bool{}, keyCmp: map[string]bool{}, nameCmp: map[string]bool{}, nodePre: map[*Term]*KeyPreset{},
		roots: map[*Term]bool{}, pending: map[*Term]bool{}, failAtom: map[string]B{}, inits: State{}, ginit: State{}, ginited: map[*ssa.Package]bool{}, base: True,
		visited: map[*ssa.Function]bool{}, resolvers: map[*ssa.Function]classSet{}, resolvedBy: map[*Term]*ssa.Function{}, copies: map[*Term]bool{},
		havoc: map[*Term]bool{}, nodeKind: map[*Term]string{}, hits: map[*Term]*Term{}, hitVar: map[*Term]B{}}
}

func (r *Flow) undecided(pos token.Pos, format string, a ...interface{}) {
	r.und[fmt.Sprintf(format, a...)+" at "+r.P.pos(pos)] = true
}

func (r *Flow) undList() []string {
	var out []string
	for k := range r.und {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (r *Flow) event(kind string, recv *Term, g B, pos token.Pos, args ...Val) {
	if g == False {
		return
	}
	var fn *ssa.Function
	if len(r.stack) > 0 {
		fn = r.stack[len(r.stack)-1]
	}
	switch kind {
	case "put", "replaceorput", "replaceifexists", "delete", "mapset":
		r.hashable(args[0], g, pos)
	}
	r.log = append(r.log, &Event{kind: kind, recv: recv, args: args, g: g, ctx: append([]*LoopCtx{}, r.ctx...), pos: pos, fn: fn})
}

func (r *Flow) fail(what string, g B, pos token.Pos) {
	if g == False {
		return
	}
	var fn *ssa.Function
	if len(r.stack) > 0 {
		fn = r.stack[len(r.stack)-1]
	}
	r.fails = append(r.fails, Fail{what, g, pos, fn})
}

// oblige records that bad must be impossible under g.
func (r *Flow) oblige(kind, text string, bad B, g B, pos token.Pos) {
	r.nobl++
	b := r.bdd.And(bad, g)
	if b == False {
		return
	}
	b = r.bdd.And(b, r.axioms())
	if b == False {
		return
	}
	var fn *ssa.Function
	if len(r.stack) > 0 {
		fn = r.stack[len(r.stack)-1]
	}
	r.obls = append(r.obls, Obl{kind, text, b, pos, fn})
}

// axioms is the conjunction of the arithmetic facts relating threshold atoms of
// the same quantity.
func (r *Flow) axioms() B {
	ax := True
	if r.mapMode && r.mapOrd != nil && r.hasAny != False {
		// a map that has a key has an entry
		some := r.bdd.AndAll(r.bdd.Not(r.nilT1(r.mapOrd)), r.bdd.Not(r.ltConst(r.app("len", types.Typ[types.Int], r.one(r.mapOrd)), 1)))
		ax = r.bdd.Or(r.bdd.Not(r.hasAny), some)
	}
	for _, m := range r.ltReg {
		if len(m) < 2 {
			continue
		}
		var ks []int64
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for i := 0; i+1 < len(ks); i++ {
			ax = r.bdd.And(ax, r.bdd.Or(r.bdd.Not(m[ks[i]]), m[ks[i+1]]))
		}
	}
	return ax
}

func (r *Flow) newObj(op string, typ types.Type, where string) *Term {
	r.uid++
	t := r.intern(Term{op: op, typ: typ, str: fmt.Sprintf("%d", r.uid)})
	t.ctx = append([]*LoopCtx{}, r.ctx...)
	t.alloc = where
	return t
}

// rootOf returns the object, global or symbolic pointer a location belongs to.
func rootOf(loc *Term) *Term {
	for loc.op == "faddr" || loc.op == "iaddr" || loc.op == "ver" || loc.op == "mapc" {
		loc = loc.args[0][0].t
	}
	return loc
}

func (r *Flow) fresh(loc *Term) bool {
	x := rootOf(loc)
	if x.op == "eaddr" {
		b := x.args[0].single()
		return b != nil && b.op == "obj"
	}
	return x.op == "obj" || x.op == "ctr" || x.op == "mapobj"
}

func (r *Flow) zero(typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return r.one(r.str(""))
		case u.Info()&types.IsBoolean != 0:
			return r.one(r.boolean(false))
		case u.Info()&types.IsNumeric != 0:
			return r.one(r.integer(0))
		}
		return r.one(r.nilT())
	case *types.Struct:
		args := make([]Val, u.NumFields())
		for i := range args {
			args[i] = r.zero(u.Field(i).Type())
		}
		return r.one(r.intern(Term{op: "struct", typ: typ, args: args}))
	case *types.Array:
		if u.Len() > 64 {
			return r.one(r.app("zero", typ))
		}
		args := make([]Val, u.Len())
		for i := range args {
			args[i] = r.zero(u.Elem())
		}
		return r.one(r.intern(Term{op: "array", typ: typ, args: args}))
	case *types.Tuple:
		args := make([]Val, u.Len())
		for i := range args {
			args[i] = r.zero(u.At(i).Type())
		}
		return r.one(r.intern(Term{op: "tuple", typ: typ, args: args}))
	}
	return r.one(r.nilT())
}

// initial is the content of a location nobody has written to yet.
func (r *Flow) initial(loc *Term, typ types.Type) Val {
	if v, ok := r.inits[loc]; ok {
		return v
	}
	if v, ok := r.ginit[loc]; ok {
		return v
	}
	x := rootOf(loc)
	if x.op == "global" && strings.HasSuffix(x.str, "init$guard") {
		return r.one(r.boolean(false))
	}
	if x.op == "obj" && !r.havoc[x] {
		return r.zero(typ)
	}
	return r.readSym(loc, typ)
}

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return isNode(p.Elem())
}

func isNode(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "gopkg.in/yaml")
}

// readSym is the content of a location of symbolic memory.
func (r *Flow) readSym(loc *Term, typ types.Type) Val {
	if loc.op == "faddr" {
		b := loc.args[0][0].t
		if b.typ != nil && isNodePtr(b.typ) {
			switch r.fieldOf(b, loc.idx) {
			case "Kind":
				return r.one(r.app("kind", typ, r.one(b)))
			case "Tag":
				return r.one(r.app("tag", typ, r.one(b)))
			case "Value":
				return r.nodeValue(b, typ)
			case "Content":
				return r.one(r.app("content", typ, r.one(b)))
			case "Alias":
				// set for aliases, and never to another alias
				t := r.initOf(loc, typ)
				r.nonnil[t] = true
				if _, ok := r.clsFixSet[t]; !ok {
					r.clsFixSet[t] = allClasses &^ classes(cAlias)
				}
				return r.ite(r.cls(b, classes(cAlias)), r.one(t), r.one(r.nilT()))
			}
		}
	}
	if loc.op == "eaddr" {
		return r.elemAt(loc, typ)
	}
	t := r.initOf(loc, typ)
	if r.P.isContainer(typ) {
		r.nonnil[t] = true
	}
	return r.one(t)
}

// elemAt is the element of a slice that nobody has written to.
func (r *Flow) elemAt(loc *Term, typ types.Type) Val {
	idx := loc.args[1]
	return r.lift(loc.args[0], func(s *Term, _ B) Val {
		return r.lift(idx, func(i *Term, _ B) Val {
			if s.op == "app" && s.str == "content" && i.op == "ind" {
				n := s.args[0].single()
				lc := i.loop
				if n != nil && lc != nil && lc.coll == s {
					switch {
					case lc.step == 2 && i.idx == 0:
						return r.one(r.gen("key", n, lc, typ))
					case lc.step == 2 && i.idx == 1:
						return r.one(r.gen("val", n, lc, typ))
					case lc.step == 1 && i.idx == 0:
						return r.one(r.gen("elem", n, lc, typ))
					}
				}
			}
			if s.op == "lit" && i.op == "const" {
				if n, ok := int64Val(i.cst); ok && n >= 0 && int(n) < len(s.args) {
					return s.args[n]
				}
			}
			if s.op == "app" && s.str == "append" && i.op == "const" {
				// elements appended to an empty literal
			}
			t := r.app("elem", typ, r.one(s), r.one(i))
			if isNodePtr(typ) {
				r.nonnil[t] = true
			}
			return r.one(t)
		})
	})
}

// gen is a generic entry of a YAML collection in a loop.
func (r *Flow) gen(what string, n *Term, lc *LoopCtx, typ types.Type) *Term {
	t := r.intern(Term{op: "gen", str: what, idx: lc.id, typ: typ, args: []Val{r.one(n)}})
	t.loop = lc
	r.nonnil[t] = true
	return t
}

func (r *Flow) load(st State, loc *Term, typ types.Type) Val {
	if s, ok := typ.Underlying().(*types.Struct); ok && loc.op != "eaddrRO" {
		if v, ok := st[loc]; ok {
			return v
		}
		if loc.op == "eaddr" && !r.hasFields(st, loc) {
			if v := r.elemStruct(loc, typ); v != nil {
				return v
			}
		}
		args := make([]Val, s.NumFields())
		for i := range args {
			args[i] = r.load(st, r.faddr(loc, i, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
		}
		return r.one(r.intern(Term{op: "struct", typ: typ, args: args}))
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 {
		args := make([]Val, a.Len())
		for i := range args {
			args[i] = r.load(st, r.iaddr(loc, r.one(r.integer(int64(i))), types.NewPointer(a.Elem())), a.Elem())
		}
		return r.one(r.intern(Term{op: "array", typ: typ, args: args}))
	}
	if v, ok := st[loc]; ok {
		return v
	}
	if loc.op == "faddr" {
		// field of an element of a slice
		b := loc.args[0][0].t
		if b.op == "eaddr" {
			if v, ok := st[b]; ok {
				return r.field(v, loc.idx, typ)
			}
			if v := r.elemStruct(b, deref(b.typ)); v != nil {
				return r.field(v, loc.idx, typ)
			}
		}
	}
	return r.initial(loc, typ)
}

func (r *Flow) hasFields(st State, loc *Term) bool {
	for l := range st {
		if l.op == "faddr" && l.args[0][0].t == loc {
			return true
		}
	}
	return false
}

// elemStruct is the struct element of a slice term whose elements are known.
func (r *Flow) elemStruct(loc *Term, typ types.Type) Val {
	s, i := loc.args[0].single(), loc.args[1].single()
	if s != nil && i != nil && s.op == "lit" && i.op == "const" {
		if n, ok := int64Val(i.cst); ok && n >= 0 && int(n) < len(s.args) {
			return s.args[n]
		}
	}
	return nil
}

func (r *Flow) iaddr(base *Term, idx Val, typ types.Type) *Term {
	return r.intern(Term{op: "iaddr", typ: typ, args: []Val{r.one(base), idx}})
}

func (r *Flow) store(st State, loc *Term, v Val, typ types.Type, g B, whole bool) {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			r.store(st, r.faddr(loc, i, types.NewPointer(s.Field(i).Type())), r.field(v, i, s.Field(i).Type()), s.Field(i).Type(), g, whole)
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 {
		for i := 0; i < int(a.Len()); i++ {
			r.store(st, r.iaddr(loc, r.one(r.integer(int64(i))), types.NewPointer(a.Elem())), r.field(v, i, a.Elem()), a.Elem(), g, whole)
		}
		return
	}
	if !whole {
		v = r.ite(g, v, r.load(st, loc, typ))
	}
	st[loc] = v
}

func (r *Flow) field(v Val, i int, typ types.Type) Val {
	return r.lift(v, func(t *Term, _ B) Val {
		if (t.op == "struct" || t.op == "array" || t.op == "tuple" || t.op == "lit") && i < len(t.args) {
			return t.args[i]
		}
		n := r.app(fmt.Sprintf("field%d", i), typ, r.one(t))
		if t.op == "app" && strings.HasPrefix(t.str, "entry") {
			// entry of a container
			if i == 0 {
				return r.one(r.entryPart("ckey", t, typ))
			}
			return r.one(r.entryPart("cval", t, typ))
		}
		return r.one(n)
	})
}

func (r *Flow) entryPart(what string, e *Term, typ types.Type) *Term {
	c := e.args[0][0].t
	n := r.intern(Term{op: "gen", str: what, idx: e.idx, typ: typ, args: []Val{r.one(c)}})
	n.loop = e.loop
	return n
}

// join merges the states of several edges.
func (r *Flow) join(es []edge) (B, State) {
	if len(es) == 1 {
		return es[0].g, es[0].st
	}
	g := False
	for _, e := range es {
		g = r.bdd.Or(g, e.g)
	}
	keys := map[*Term]bool{}
	for _, e := range es {
		for k := range e.st {
			keys[k] = true
		}
	}
	out := make(State, len(keys)+8)
	for k := range keys {
		var vs []Val
		var gs []B
		same := true
		for _, e := range es {
			v, ok := e.st[k]
			if !ok {
				v = r.absent(e.st, k)
			}
			vs = append(vs, v)
			gs = append(gs, e.g)
			if len(vs) > 1 && r.valKey(vs[0]) != r.valKey(v) {
				same = false
			}
		}
		if same {
			out[k] = vs[0]
			continue
		}
		out[k] = r.merge(vs, gs)
	}
	return g, out
}

func (r *Flow) absent(st State, k *Term) Val {
	if k.op == "ver" {
		return r.one(r.initVer(k))
	}
	if k.op == "mapc" {
		return r.one(r.initMapc(k))
	}
	return r.initial(k, deref2(k.typ))
}

// deref2 is the type stored at a location whose term carries a pointer type.
func deref2(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// merge unites values under disjoint guards; a value that is the same on every
// edge needs no guard.
func (r *Flow) merge(vs []Val, gs []B) Val {
	var cs []Case
	for i := range vs {
		cs = append(cs, r.under(vs[i], gs[i])...)
	}
	v := r.mkval(cs)
	if len(v) == 1 {
		return r.one(v[0].t)
	}
	return v
}

const maxDepth = 60
const maxSteps = 6000000

// rereads summarises a recursive call of a function that reads a node into what
// it is given: like the reading of any element, analysed on its own.
func (r *Flow) rereads(fn *ssa.Function, args []Val, g B, st State, pos token.Pos) ([]Val, bool) {
	res := fn.Signature.Results()
	if res.Len() == 0 || res.Len() > 2 || fn.Parent() != nil || len(args) != len(fn.Params) {
		return nil, false
	}
	var node Val
	var into []*Term
	for i, pr := range fn.Params {
		switch {
		case isNodePtr(pr.Type()):
			if node != nil {
				return nil, false
			}
			node = args[i]
		case r.P.isContainer(pr.Type()):
			t := r.unbox(args[i]).single()
			if t == nil {
				return nil, false
			}
			into = append(into, t)
		default:
			return nil, false
		}
	}
	if node == nil || len(into) > 1 {
		return nil, false
	}
	for a := r.cur; a != nil; a = a.caller {
		if a.fn != fn {
			continue
		}
		same, around := False, False
		for _, p := range fn.Params {
			if !isNodePtr(p.Type()) {
				continue
			}
			for _, x := range r.unbox(node) {
				for _, y := range r.unbox(a.env[p]) {
					xg := r.bdd.AndAll(x.g, y.g, g)
					if xg == False {
						continue
					}
					switch r.partOf(x.t, y.t) {
					case partSame:
						same = r.bdd.Or(same, xg)
					case partAlias:
						if r.classesOf(r.one(x.t), xg)&classes(cMap, cSeq) != 0 {
							around = r.bdd.Or(around, xg)
						}
					case partUnknown:
						r.undecided(pos, "recursive call of %s on a node not known to be part of the one it was called with", fn)
					}
				}
			}
		}
		r.oblige("endless recursion", "reads the node it was called with again", same, g, pos)
		r.oblige("endless recursion", "follows an alias, which may lead back to the node it was called with", around, g, pos)
		break
	}
	all := []Val{node}
	var c *Term
	if len(into) == 1 {
		c = into[0]
		all = append([]Val{r.one(c)}, node)
		old := r.ver(st, c)
		r.bump(st, c, g)
		l := r.verLoc(c)
		st[l] = r.ite(g, st[l], old)
	}
	r.event("read", c, g, pos, node)
	return r.errResults("read:"+fnName(fn), res, all, g, pos, true), true
}

// call analyses fn in the given context.
func (r *Flow) call(fn *ssa.Function, args, bind []Val, g B, st State, pos token.Pos) ([]Val, B, State) {
	res := fn.Signature.Results()
	n := 0
	for _, f := range r.stack {
		if f == fn {
			n++
		}
	}
	if g == False {
		return r.zeroResults(res), False, st
	}
	if n >= 1 {
		if g = r.repeats(fn, append(append([]Val{}, args...), bind...), g, st, pos); g == False {
			return r.zeroResults(res), False, st
		}
		if out, ok := r.rereads(fn, args, g, st, pos); ok {
			return out, g, st
		}
	}
	if n >= 3 || len(r.stack) > maxDepth || r.steps > maxSteps {
		r.undecided(pos, "recursive or too deep call of %s", fn)
		return r.opaqueResults("rec:"+fn.String(), res, args), g, st
	}
	if len(fn.Blocks) == 0 {
		r.undecided(pos, "no body for %s", fn)
		return r.opaqueResults(fn.String(), res, args), g, st
	}
	a := &act{fn: fn, env: map[ssa.Value]Val{}, caller: r.cur, st0: st, args: append(append([]Val{}, args...), bind...)}
	for i, p := range fn.Params {
		if i < len(args) {
			a.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			a.env[f] = bind[i]
		}
	}
	r.visited[fn] = true
	r.stack = append(r.stack, fn)
	save := r.cur
	r.cur = a
	r.region(a, nil, fn.Blocks[0], []edge{{pred: -1, g: g, st: st.clone()}})
	r.cur = save
	r.stack = r.stack[:len(r.stack)-1]
	if len(a.rets) == 0 {
		return r.zeroResults(res), False, st
	}
	var es []edge
	for _, x := range a.rets {
		es = append(es, edge{g: x.g, st: x.st})
	}
	rg, rst := r.join(es)
	out := make([]Val, res.Len())
	for i := range out {
		var vs []Val
		var gs []B
		for _, x := range a.rets {
			vs = append(vs, x.vals[i])
			gs = append(gs, x.g)
		}
		if len(vs) == 1 {
			out[i] = vs[0]
		} else {
			out[i] = r.merge(vs, gs)
		}
	}
	return out, rg, rst
}

func (r *Flow) zeroResults(res *types.Tuple) []Val {
	out := make([]Val, res.Len())
	for i := range out {
		out[i] = r.zero(res.At(i).Type())
	}
	return out
}

func (r *Flow) opaqueResults(name string, res *types.Tuple, args []Val) []Val {
	out := make([]Val, res.Len())
	for i := range out {
		n := name
		if res.Len() > 1 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		out[i] = r.one(r.app(n, res.At(i).Type(), args...))
	}
	return out
}

// region propagates states through the blocks of a loop body or function. It
// returns the edges leaving the region and, for loops, the back edges.
func (r *Flow) region(a *act, L *loop, head *ssa.BasicBlock, in []edge) (exits map[*ssa.BasicBlock][]edge, back []edge) {
	li := r.P.loopsOf(a.fn)
	exits = map[*ssa.BasicBlock][]edge{}
	pend := map[*ssa.BasicBlock][]edge{head: in}
	for _, b := range li.rpo {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		if L != nil && !L.blocks[b] {
			continue
		}
		delete(pend, b)
		if inner := li.header[b]; inner != nil && inner != L {
			for to, xs := range r.loop(a, inner, es) {
				if L != nil && to == L.head {
					back = append(back, xs...)
				} else if L != nil && !L.blocks[to] {
					exits[to] = append(exits[to], xs...)
				} else {
					pend[to] = append(pend[to], xs...)
				}
			}
			continue
		}
		g, st := r.join(es)
		if len(es) == 1 {
			st = st.clone()
		}
		out := r.block(a, b, es, g, st)
		for _, o := range out {
			if o.g == False {
				continue
			}
			to := o.to
			if L != nil && to == L.head {
				back = append(back, o.edge)
			} else if L != nil && !L.blocks[to] {
				exits[to] = append(exits[to], o.edge)
			} else {
				pend[to] = append(pend[to], o.edge)
			}
		}
	}
	return exits, back
}

type outEdge struct {
	edge
	to *ssa.BasicBlock
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

func (r *Flow) block(a *act, b *ssa.BasicBlock, es []edge, g B, st State) []outEdge {
	// phis first, in parallel
	newPhi := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := a.nphi[phi]; ok {
			newPhi[phi] = v
			continue
		}
		var vs []Val
		var gs []B
		for _, e := range es {
			if v, ok := e.snap[phi]; ok {
				vs = append(vs, v)
				gs = append(gs, e.g)
				continue
			}
			if e.pred < 0 || e.pred >= len(phi.Edges) {
				continue
			}
			vs = append(vs, r.valOf(a, phi.Edges[e.pred]))
			gs = append(gs, e.g)
		}
		if len(vs) == 1 {
			newPhi[phi] = vs[0]
		} else {
			newPhi[phi] = r.merge(vs, gs)
		}
	}
	for p, v := range newPhi {
		a.env[p] = v
	}
	for _, in := range b.Instrs {
		if g == False {
			return nil
		}
		r.steps++
		r.instrs++
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := r.guard(r.valOf(a, in.Cond))
			t, f := b.Succs[0], b.Succs[1]
			nth := 0
			if t == f {
				nth = 1
			}
			tg, fg := r.bdd.And(g, c), r.bdd.Diff(g, c)
			if d := r.domainOf(a, in); d != 0 {
				// the condition that bounds the iteration of a recognised loop
				if d > 0 {
					return []outEdge{{edge{from: b, pred: predIndex(b, t, 0), g: g, st: st}, t}}
				}
				return []outEdge{{edge{from: b, pred: predIndex(b, f, nth), g: g, st: st}, f}}
			}
			st2 := st
			if tg != False && fg != False {
				st2 = st.clone()
			}
			return []outEdge{{edge{from: b, pred: predIndex(b, t, 0), g: tg, st: st}, t}, {edge{from: b, pred: predIndex(b, f, nth), g: fg, st: st2}, f}}
		case *ssa.Jump:
			return []outEdge{{edge{from: b, pred: predIndex(b, b.Succs[0], 0), g: g, st: st}, b.Succs[0]}}
		case *ssa.Return:
			vals := make([]Val, len(in.Results))
			for i, x := range in.Results {
				vals[i] = r.valOf(a, x)
			}
			a.rets = append(a.rets, retEdge{g, st, vals})
			return nil
		case *ssa.Panic:
			r.oblige("panic", "explicit panic", True, g, in.Pos())
			return nil
		default:
			g, st = r.instr(a, in, g, st)
		}
	}
	return nil
}

func (r *Flow) valOf(a *act, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return r.zero(v.Type())
		}
		return r.one(r.cst(v.Value, v.Type()))
	case *ssa.Global:
		t := r.intern(Term{op: "global", str: v.String(), typ: v.Type()})
		r.nonnil[t] = true
		r.initGlobals(v)
		return r.one(t)
	case *ssa.Function:
		return r.one(r.intern(Term{op: "func", fn: v, typ: v.Type()}))
	}
	x, ok := a.env[v]
	if !ok || x == nil {
		// a value that is not defined on any analysed edge
		return r.one(r.app("undef:"+v.Name(), v.Type()))
	}
	return x
}

func (r *Flow) instr(a *act, in ssa.Instruction, g B, st State) (B, State) {
	r.curG = g
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := r.newObj("obj", in.Type().Underlying().(*types.Pointer).Elem(), r.P.pos(in.Pos()))
		o.heap = in.Heap
		a.env[in] = r.one(o)
	case *ssa.BinOp:
		a.env[in] = r.binop(in, r.valOf(a, in.X), r.valOf(a, in.Y), g)
	case *ssa.UnOp:
		x := r.valOf(a, in.X)
		switch in.Op {
		case token.MUL:
			g = r.derefCheck(x, g, in.Pos())
			a.env[in] = r.loadVal(st, x, in.Type())
		case token.NOT:
			a.env[in] = r.fromGuard(r.bdd.Not(r.guard(x)))
		case token.SUB:
			a.env[in] = r.lift(x, func(t *Term, _ B) Val {
				if t.op == "const" && t.cst.Kind() != constant.String && t.cst.Kind() != constant.Bool {
					return r.one(r.cst(constant.UnaryOp(token.SUB, t.cst, 0), in.Type()))
				}
				return r.one(r.app("neg", in.Type(), r.one(t)))
			})
		default:
			r.undecided(in.Pos(), "unsupported operation %s", in.Op)
			a.env[in] = r.one(r.app("op"+in.Op.String(), in.Type(), x))
		}
	case *ssa.ChangeType:
		a.env[in] = r.valOf(a, in.X)
	case *ssa.ChangeInterface:
		a.env[in] = r.valOf(a, in.X)
	case *ssa.Convert:
		a.env[in] = r.convert(r.valOf(a, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		x := r.valOf(a, in.X)
		typ := in.X.Type()
		a.env[in] = r.lift(x, func(t *Term, _ B) Val { return r.one(r.mkIface(typ, r.one(t))) })
	case *ssa.Extract:
		a.env[in] = r.field(r.valOf(a, in.Tuple), in.Index, in.Type())
	case *ssa.Field:
		a.env[in] = r.field(r.valOf(a, in.X), in.Field, in.Type())
	case *ssa.FieldAddr:
		x := r.valOf(a, in.X)
		g = r.derefCheck(x, g, in.Pos())
		a.env[in] = r.lift(x, func(t *Term, _ B) Val { return r.one(r.faddr(t, in.Field, in.Type())) })
	case *ssa.Index:
		if isStringType(in.X.Type()) {
			a.env[in] = r.strIndex(r.valOf(a, in.X), r.valOf(a, in.Index), g, in.Pos())
			break
		}
		idx := r.valOf(a, in.Index).single()
		if idx != nil && idx.op == "const" {
			n, _ := int64Val(idx.cst)
			a.env[in] = r.field(r.valOf(a, in.X), int(n), in.Type())
		} else {
			r.undecided(in.Pos(), "index of an array value")
			a.env[in] = r.one(r.app("index", in.Type(), r.valOf(a, in.X), r.valOf(a, in.Index)))
		}
	case *ssa.IndexAddr:
		a.env[in] = r.indexAddr(a, in, g)
	case *ssa.Lookup:
		a.env[in] = r.lookup(a, in, g, st)
	case *ssa.Slice:
		a.env[in] = r.slice(a, in, g, st)
	case *ssa.TypeAssert:
		var v Val
		v, g = r.typeAssert(a, in, g)
		a.env[in] = v
	case *ssa.MakeSlice:
		r.sizeCheck("length", r.valOf(a, in.Len), g, in.Pos())
		if in.Cap != in.Len {
			r.sizeCheck("capacity", r.valOf(a, in.Cap), g, in.Pos())
		}
		a.env[in] = r.makeSlice(in, r.valOf(a, in.Len), g)
	case *ssa.MakeMap:
		m := r.newObj("mapobj", in.Type(), r.P.pos(in.Pos()))
		a.env[in] = r.one(m)
	case *ssa.MakeClosure:
		args := make([]Val, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = r.valOf(a, b)
		}
		a.env[in] = r.one(r.intern(Term{op: "closure", fn: in.Fn.(*ssa.Function), args: args, typ: in.Type()}))
	case *ssa.Store:
		addr := r.valOf(a, in.Addr)
		v := r.valOf(a, in.Val)
		g = r.derefCheck(addr, g, in.Pos())
		if x, o := v.single(), addr.single(); x != nil && o != nil && x.op == "struct" && o.op == "obj" && r.rootish(x) {
			r.copies[o] = true
		}
		for _, c := range addr {
			if c.t.op == "nil" {
				continue
			}
			if c.t.op == "eaddr" {
				if eg := r.bdd.And(g, c.g); !r.eqUnder(v, r.load(st, c.t, in.Val.Type()), eg) {
					r.event("elemset", c.t.args[0].single(), eg, in.Pos(), c.t.args[1], v)
				}
			}
			r.store(st, c.t, v, in.Val.Type(), c.g, len(addr) == 1)
		}
	case *ssa.MapUpdate:
		g = r.mapUpdate(a, in, g, st)
	case *ssa.Call:
		var res []Val
		res, g, st = r.doCall(a, &in.Call, in, g, st)
		if in.Call.Signature().Results().Len() == 1 {
			if len(res) == 1 {
				a.env[in] = res[0]
			}
		} else if len(res) > 1 {
			a.env[in] = r.tuple(res, in.Type())
		}
	case *ssa.Range:
		a.env[in] = r.lift(r.valOf(a, in.X), func(t *Term, _ B) Val { return r.one(r.app("range", in.X.Type(), r.one(t))) })
	case *ssa.Next:
		a.env[in] = r.next(a, in, st)
	case *ssa.Defer:
		r.deferCall(a, in)
	case *ssa.RunDefers:
		g, st = r.runDefers(a, g, st)
	default:
		r.undecided(in.Pos(), "unsupported instruction %T in %s", in, a.fn)
		if v, ok := in.(ssa.Value); ok {
			a.env[v] = r.one(r.app(fmt.Sprintf("unsupported:%T", in), v.Type()))
		}
	}
	return g, st
}

func (r *Flow) deferCall(a *act, in *ssa.Defer) {
	a.defers = append(a.defers, in)
}

func (r *Flow) runDefers(a *act, g B, st State) (B, State) {
	for i := len(a.defers) - 1; i >= 0; i-- {
		d := a.defers[i]
		_, g, st = r.doCall(a, &d.Call, d, g, st)
	}
	return g, st
}

func (r *Flow) tuple(vs []Val, typ types.Type) Val {
	return r.one(r.intern(Term{op: "tuple", typ: typ, args: vs}))
}

// mkIface boxes a value in an interface.
func (r *Flow) mkIface(typ types.Type, v Val) *Term {
	if t := v.single(); t != nil && t.op == "ctr" {
		return t
	}
	return r.intern(Term{op: "iface", typ: typ, args: []Val{v}})
}

func (r *Flow) loadVal(st State, x Val, typ types.Type) Val {
	return r.lift(x, func(t *Term, _ B) Val {
		if t.op == "nil" {
			return r.one(r.app("deref-nil", typ))
		}
		return r.load(st, t, typ)
	})
}

// derefCheck obliges a pointer to be non-nil and continues without the nil case.
func (r *Flow) derefCheck(x Val, g B, pos token.Pos) B {
	ng := r.nilGuard(x)
	if ng == False {
		return g
	}
	r.oblige("nil dereference", r.printVal(x), ng, g, pos)
	return r.bdd.Diff(g, ng)
}

func (r *Flow) nilGuard(v Val) B {
	g := False
	for _, c := range v {
		g = r.bdd.Or(g, r.bdd.And(c.g, r.nilT1(c.t)))
	}
	return g
}

func (r *Flow) nilT1(t *Term) B {
	switch t.op {
	case "nil":
		return True
	case "obj", "ctr", "mapobj", "faddr", "iaddr", "eaddr", "closure", "func", "struct", "iface", "const", "global", "gen", "lit", "ind", "tuple", "array":
		if t.op == "gen" && (t.str == "ckey" || t.str == "cval" || t.str == "mkey" || t.str == "mval") {
			break
		}
		return False
	}
	if r.nonnil[t] {
		return False
	}
	if t.op == "app" {
		switch t.str {
		case "append":
			if len(t.args) > 1 {
				return False
			}
		case "copyof":
			if len(t.args) == 1 {
				return r.nilGuard(t.args[0])
			}
		case "maybe", "some", "none", "resolve", "errorf", "err":
			return False
		}
		if strings.HasPrefix(t.str, "err:") || strings.HasPrefix(t.str, "encode:") {
			return False
		}
	}
	if t.op == "app" && t.str == "collect" {
		return False
	}
	return r.bdd.Var(fmt.Sprintf("nil#%d", t.id), r.print(t)+" == nil")
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// convert models numeric and string conversions; conversions that keep every
// bit of a 64-bit integer are the identity unless they change signedness.
func (r *Flow) convert(x Val, from, to types.Type) Val {
	return r.lift(x, func(t *Term, _ B) Val {
		fb, fok := from.Underlying().(*types.Basic)
		tb, tok := to.Underlying().(*types.Basic)
		if types.Identical(from.Underlying(), to.Underlying()) {
			return r.one(t)
		}
		if fok && tok {
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return r.one(t)
			}
			if t.op == "const" && t.cst.Kind() != constant.String && t.cst.Kind() != constant.Bool && tb.Info()&types.IsNumeric != 0 {
				c := t.cst
				if tb.Info()&types.IsInteger != 0 {
					if c2 := constant.ToInt(c); c2.Kind() == constant.Int {
						return r.one(r.cst(c2, to))
					}
				} else {
					return r.one(r.cst(c, to))
				}
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString == 0 {
				fw, tw := width(fb), width(tb)
				fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
				if fu == tu && tw >= fw {
					return r.one(t)
				}
				if t.op == "app" && t.str == "conv:uint" && tw == 64 && !tu {
					return t.args[0] // there and back
				}
				if tw == 64 && fw == 64 && tu {
					return r.one(r.app("conv:uint", types.Typ[types.Uint64], r.one(t)))
				}
			}
		}
		return r.one(r.app("conv:"+typeStr(to), to, r.one(t)))
	})
}

func width(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (r *Flow) binop(in *ssa.BinOp, x, y Val, g B) Val {
	switch in.Op {
	case token.EQL:
		return r.fromGuard(r.eq(x, y))
	case token.NEQ:
		return r.fromGuard(r.bdd.Not(r.eq(x, y)))
	case token.LSS:
		return r.fromGuard(r.lt(x, y, in.X.Type()))
	case token.GTR:
		return r.fromGuard(r.lt(y, x, in.X.Type()))
	case token.LEQ:
		return r.fromGuard(r.bdd.Not(r.lt(y, x, in.X.Type())))
	case token.GEQ:
		return r.fromGuard(r.bdd.Not(r.lt(x, y, in.X.Type())))
	}
	return r.lift(x, func(s *Term, _ B) Val {
		return r.lift(y, func(t *Term, _ B) Val {
			if s.op == "const" && t.op == "const" {
				if in.Op == token.QUO && isInteger(in.Type()) {
					if signOf(t.cst) != 0 {
						return r.one(r.cst(constant.BinaryOp(s.cst, token.QUO_ASSIGN, t.cst), in.Type()))
					}
				} else if in.Op == token.SHL || in.Op == token.SHR {
					if n, ok := constant.Uint64Val(t.cst); ok {
						return r.one(r.cst(constant.Shift(s.cst, in.Op, uint(n)), in.Type()))
					}
				} else if in.Op != token.QUO && in.Op != token.REM || signOf(t.cst) != 0 {
					return r.one(r.cst(constant.BinaryOp(s.cst, in.Op, t.cst), in.Type()))
				}
			}
			if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.Type()) {
				r.oblige("division by zero", r.print(t), r.eqT(t, r.integer(0)), g, in.Pos())
			}
			if s.op == "ind" && (in.Op == token.REM || in.Op == token.AND) {
				r.undecided(in.Pos(), "remainder of an index")
			}
			if in.Op == token.ADD || in.Op == token.SUB {
				if v := r.indPlus(s, t, in.Op); v != nil {
					return r.one(v)
				}
				if t.op == "const" && t.cst.Kind() == constant.Int && signOf(t.cst) == 0 && isInteger(in.Type()) {
					return r.one(s)
				}
				if in.Op == token.ADD && s.op == "const" && s.cst.Kind() == constant.Int && signOf(s.cst) == 0 && isInteger(in.Type()) {
					return r.one(t)
				}
			}
			return r.one(r.app(in.Op.String(), in.Type(), r.one(s), r.one(t)))
		})
	})
}

// indPlus adds a constant to an induction variable.
func (r *Flow) indPlus(s, t *Term, op token.Token) *Term {
	if s.op == "const" && op == token.ADD {
		s, t = t, s
	}
	if s.op != "ind" || t.op != "const" {
		return nil
	}
	n, ok := int64Val(t.cst)
	if !ok {
		return nil
	}
	if op == token.SUB {
		n = -n
	}
	x := r.intern(Term{op: "ind", str: s.str, idx: s.idx + int(n), typ: s.typ})
	x.loop = s.loop
	return x
}

func (r *Flow) eq(x, y Val) B {
	g := False
	for _, c := range x {
		for _, d := range y {
			cd := r.bdd.And(c.g, d.g)
			if cd == False {
				continue
			}
			g = r.bdd.Or(g, r.bdd.And(cd, r.eqT(c.t, d.t)))
		}
	}
	return g
}

func nilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (r *Flow) eqT(x, y *Term) B {
	if x == y {
		return True
	}
	if x.op == "nil" {
		return r.nilT1(y)
	}
	if y.op == "nil" {
		return r.nilT1(x)
	}
	if x.op == "const" && y.op == "const" {
		if sameConst(x.cst, y.cst) {
			return True
		}
		return False
	}
	if x.op == "iface" && y.op == "iface" {
		if !types.Identical(x.typ, y.typ) {
			return False
		}
		return r.eq(x.args[0], y.args[0])
	}
	if x.op == "iface" && !isIface(y.typ) && y.op != "iface" {
		return r.eq(x.args[0], r.one(y))
	}
	if y.op == "iface" && !isIface(x.typ) && x.op != "iface" {
		return r.eq(y.args[0], r.one(x))
	}
	if x.op == "const" {
		x, y = y, x
	}
	if x.op == "iface" {
		x, y = y, x
	}
	if y.op == "iface" { // symbolic interface compared with a boxed value
		if in := y.args[0].single(); in != nil {
			if in.op == "const" {
				return r.eqConst(x, in)
			}
			return r.pairVar("eq", x, in)
		}
	}
	if y.op == "const" {
		return r.eqConst(x, y)
	}
	if x.op == "struct" && y.op == "struct" && len(x.args) == len(y.args) {
		g := True
		for i := range x.args {
			g = r.bdd.And(g, r.eq(x.args[i], y.args[i]))
		}
		return g
	}
	if x.op == "closure" || x.op == "func" || y.op == "closure" || y.op == "func" {
		return False
	}
	xo, yo := x.op == "obj" || x.op == "ctr" || x.op == "mapobj", y.op == "obj" || y.op == "ctr" || y.op == "mapobj"
	if xo && yo {
		return False
	}
	if xo && (y.op == "init" || y.op == "sym" || y.op == "gen") || yo && (x.op == "init" || x.op == "sym" || x.op == "gen") {
		return False // a new object differs from everything that existed before
	}
	if isBool(x.typ) && isBool(y.typ) {
		a, b := r.boolGuard(x), r.boolGuard(y)
		return r.bdd.Or(r.bdd.And(a, b), r.bdd.And(r.bdd.Not(a), r.bdd.Not(b)))
	}
	if b := r.keyAtom(x, y); b >= 0 {
		return b
	}
	return r.pairVar("eq", x, y)
}

func (r *Flow) pairVar(op string, x, y *Term) B {
	if op == "eq" && x.id > y.id {
		x, y = y, x
	}
	return r.bdd.Var(fmt.Sprintf("%s#%d#%d", op, x.id, y.id), r.print(x)+" "+op+" "+r.print(y))
}

// eqConst is the guard of a term being equal to a constant.
func (r *Flow) eqConst(x, c *Term) B {
	if x.op == "app" {
		switch x.str {
		case "kind":
			if n := x.args[0].single(); n != nil {
				return r.kindGuard(n, c)
			}
		case "tag", "longtag", "shorttag":
			if n := x.args[0].single(); n != nil && c.cst.Kind() == constant.String {
				return r.tagGuard(n, x.str, constant.StringVal(c.cst))
			}
		case "strcount":
			if n, ok := int64Val(c.cst); ok && n == 0 {
				return r.bdd.Not(r.containsGuard(x.args[0], x.args[1].single()))
			}
		case "len":
			if s := x.args[0].single(); s != nil && isApp(s, "strsplit") {
				switch n, _ := int64Val(c.cst); n {
				case 0:
					return False
				case 1:
					return r.bdd.Not(r.containsGuard(s.args[0], s.args[1].single()))
				}
			}
			if n, ok := int64Val(c.cst); ok && n == 0 {
				return r.emptyGuard(x.args[0])
			}
		case "conv:uint", "int:conv":
			return r.eq(x.args[0], r.one(c))
		case "+":
			// a sum of lengths is zero when each of them is
			if n, ok := int64Val(c.cst); ok && n == 0 && !isUnsigned(x.typ) && x.nonneg() {
				return r.bdd.And(r.eq(x.args[0], r.one(c)), r.eq(x.args[1], r.one(c)))
			}
		case "strat":
			if i := x.args[1].single(); i != nil && i.op == "const" && signOf(i.cst) == 0 {
				if n, ok := int64Val(c.cst); ok {
					return r.prefixGuard(x.args[0], string(rune(n)))
				}
			}
		case "substr":
			lo, hi := x.args[1].single(), x.args[2].single()
			if c.cst.Kind() == constant.String && lo != nil && lo.op == "const" && signOf(lo.cst) == 0 && hi != nil && hi.op == "const" {
				if n, ok := int64Val(hi.cst); ok && int(n) == len(constant.StringVal(c.cst)) {
					return r.prefixGuard(x.args[0], constant.StringVal(c.cst))
				}
			}
		case "strindex":
			if n, ok := int64Val(c.cst); ok {
				sub := x.args[1].single()
				if n == -1 {
					return r.bdd.Not(r.containsGuard(x.args[0], sub))
				}
				if n == 0 && sub != nil && sub.op == "const" {
					return r.prefixGuard(x.args[0], constant.StringVal(sub.cst))
				}
			}
		}
		if x.str == "count" {
			if n, ok := int64Val(c.cst); ok {
				return r.countGuard(x, "eq", n)
			}
		}
		if x.nonneg() && c.cst.Kind() == constant.Int && signOf(c.cst) < 0 {
			return False
		}
		if x.str == "len" || x.str == "clen" {
			if n, ok := int64Val(c.cst); ok && n >= 1 {
				return r.bdd.Diff(r.ltConst(x, n+1), r.ltConst(x, n))
			}
		}
	}
	if isUnsigned(x.typ) && c.cst.Kind() == constant.Int && signOf(c.cst) < 0 {
		return False
	}
	if x.op == "ind" {
		if c.cst.Kind() == constant.Int && signOf(c.cst) < 0 && x.idx >= 0 {
			return False
		}
	}
	if x.op == "app" && x.str == "val" && c.cst.Kind() == constant.String {
		if n := x.args[0].single(); n != nil {
			if b, ok := r.presetEq(n, constant.StringVal(c.cst)); ok {
				return b
			}
		}
	}
	if c.cst.Kind() == constant.Bool {
		b := r.boolGuard(x)
		if constant.BoolVal(c.cst) {
			return b
		}
		return r.bdd.Not(b)
	}
	// constants of one term are mutually exclusive: chain them by priority
	reg := r.eqReg[x]
	g := True
	for i, k := range reg {
		v := r.bdd.Var(fmt.Sprintf("eq#%d=%d", x.id, k.id), r.print(x)+" == "+r.print(k))
		if k == c {
			_ = i
			return r.bdd.And(g, v)
		}
		g = r.bdd.Diff(g, v)
	}
	r.eqReg[x] = append(reg, c)
	v := r.bdd.Var(fmt.Sprintf("eq#%d=%d", x.id, c.id), r.print(x)+" == "+r.print(c))
	return r.bdd.And(g, v)
}

func (t *Term) nonneg() bool {
	if t.op == "app" {
		switch t.str {
		case "len", "clen", "cap", "count", "strcount":
			return true
		case "+":
			return len(t.args) == 2 && allNonneg(t.args[0]) && allNonneg(t.args[1])
		}
	}
	if t.op == "ind" && t.idx >= 0 {
		return true
	}
	return isUnsigned(t.typ)
}

// allNonneg reports whether every alternative of v is a length.
func allNonneg(v Val) bool {
	for _, c := range v {
		if c.t.op == "const" || !c.t.nonneg() {
			return false
		}
	}
	return len(v) > 0
}

// emptyGuard is the guard of a string, slice or map having length zero.
func (r *Flow) emptyGuard(v Val) B {
	g := False
	for _, c := range v {
		var e B
		t := c.t
		switch {
		case t.op == "const" && t.cst.Kind() == constant.String:
			e = False
			if constant.StringVal(t.cst) == "" {
				e = True
			}
		case t.op == "nil":
			e = True
		case t.op == "lit":
			e = False
			if len(t.args) == 0 {
				e = True
			}
		case t.op == "app" && t.str == "append":
			e = False
			if len(t.args) < 2 {
				e = r.emptyGuard(t.args[0])
			}
		case t.typ != nil && isStringType(t.typ):
			e = r.eqConst(t, r.str(""))
		case t.op == "obj" || t.op == "mapobj":
			e = r.bdd.Var(fmt.Sprintf("empty#%d", t.id), "len("+r.print(t)+") == 0")
		default:
			e = r.bdd.Or(r.nilT1(t), r.bdd.Var(fmt.Sprintf("empty#%d", t.id), "len("+r.print(t)+") == 0"))
		}
		g = r.bdd.Or(g, r.bdd.And(c.g, e))
	}
	return g
}

func (r *Flow) lt(x, y Val, typ types.Type) B {
	g := False
	for _, c := range x {
		for _, d := range y {
			cd := r.bdd.And(c.g, d.g)
			if cd == False {
				continue
			}
			g = r.bdd.Or(g, r.bdd.And(cd, r.ltT(c.t, d.t, typ)))
		}
	}
	return g
}

func (r *Flow) ltT(x, y *Term, typ types.Type) B {
	if x == y {
		return False
	}
	if x.op == "const" && y.op == "const" {
		if constant.Compare(x.cst, token.LSS, y.cst) {
			return True
		}
		return False
	}
	if x.op == "ind" && y.op == "ind" && x.str == y.str {
		if x.idx < y.idx {
			return True
		}
		return False
	}
	if isInteger(typ) {
		if y.op == "const" {
			if n, ok := int64Val(y.cst); ok {
				return r.ltConst(x, n)
			}
		}
		if x.op == "const" {
			if n, ok := int64Val(x.cst); ok {
				return r.bdd.Not(r.ltConst(y, n+1))
			}
		}
		if x.op == "ind" && y.op == "app" && y.str == "len" && x.loop != nil {
			if s := y.args[0].single(); s != nil && s == x.loop.coll {
				if x.idx < x.loop.step {
					return True
				}
			}
		}
	}
	return r.pairVar("lt", x, y)
}

// ltConst is the guard of x < n.
func (r *Flow) ltConst(x *Term, n int64) B {
	if x.nonneg() {
		if n <= 0 {
			return False
		}
		if n == 1 {
			return r.eqConst(x, r.integer(0))
		}
	}
	if x.op == "ind" && int64(x.idx) >= n {
		return False
	}
	if x.op == "app" && x.str == "conv:uint" && n >= 0 {
		if in := x.args[0].single(); in != nil {
			// unsigned comparison of a value known to be signed
			return r.bdd.And(r.bdd.Not(r.ltConst(in, 0)), r.ltConst(in, n))
		}
	}
	if x.op == "app" && (x.str == "-" || x.str == "+") && len(x.args) == 2 {
		// a length and a constant
		l, m := x.args[0].single(), x.args[1].single()
		if l != nil && m != nil {
			cl, okL := constInt(l)
			cm, okM := constInt(m)
			switch {
			case x.str == "-" && okM && l.nonneg():
				return r.ltConst(l, n+cm)
			case x.str == "-" && okL && m.nonneg():
				return r.bdd.Not(r.ltConst(m, cl-n+1))
			case x.str == "+" && okM && l.nonneg():
				return r.ltConst(l, n-cm)
			case x.str == "+" && okL && m.nonneg():
				return r.ltConst(m, n-cl)
			}
		}
	}
	if x.op == "app" && x.str == "strindex" {
		switch {
		case n < 0:
			return False
		case n == 0:
			return r.eqConst(x, r.integer(-1))
		case n == 1:
			return r.bdd.Or(r.eqConst(x, r.integer(-1)), r.eqConst(x, r.integer(0)))
		}
	}
	if x.op == "app" && x.str == "count" {
		return r.countGuard(x, "lt", n)
	}
	if x.op == "app" && x.str == "len" && n <= 2 {
		if s := x.args[0].single(); s != nil && isApp(s, "strsplit") {
			if n <= 1 {
				return False
			}
			return r.bdd.Not(r.containsGuard(s.args[0], s.args[1].single()))
		}
	}
	if x.op == "app" && x.str == "len" {
		if s := x.args[0].single(); s != nil && s.op == "const" && s.cst.Kind() == constant.String {
			if int64(len(constant.StringVal(s.cst))) < n {
				return True
			}
			return False
		}
		if s := x.args[0].single(); s != nil && s.op == "lit" {
			if int64(len(s.args)) < n {
				return True
			}
			return False
		}
	}
	v := r.bdd.Var(fmt.Sprintf("lt#%d<%d", x.id, n), fmt.Sprintf("%s < %d", r.print(x), n))
	m := r.ltReg[x]
	if m == nil {
		m = map[int64]B{}
		r.ltReg[x] = m
		if x.nonneg() {
			m[1] = r.eqConst(x, r.integer(0))
		}
	}
	m[n] = v
	return v
}

func (r *Flow) sub(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
