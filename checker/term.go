package main

// Abstract values of the value-flow analysis: hash-consed terms describing where
// a value comes from, and guarded values (a term per disjoint guard) that are
// merged at control-flow joins.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Term struct {
	id   int
	op   string
	str  string
	idx  int
	cst  constant.Value
	typ  types.Type
	args []Val
	fn   *ssa.Function
	ctx  []*LoopCtx // for allocations: the iterations it happened in
	loop *LoopCtx   // for induction variables and generic entries
	heap bool
	txt  string

	alloc string
}

type Case struct {
	g B
	t *Term
}

// Val is a guarded value: disjoint guards, sorted by term.
type Val []Case

type LoopCtx struct {
	id    int
	coll  *Term // the collection iterated over, if recognised
	kind  string
	rev   bool
	step  int
	below int   // the position and this are below the length
	full  bool  // visits every entry, in order
	mapc  *Term // the content of the Go map ranged over
}

func (v Val) single() *Term {
	if len(v) == 1 {
		return v[0].t
	}
	return nil
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func (r *Flow) valKey(v Val) string {
	var sb strings.Builder
	for _, c := range v {
		sb.WriteString(strconv.Itoa(int(c.g)))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(c.t.id))
		sb.WriteByte(',')
	}
	return sb.String()
}

func (r *Flow) intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.str)
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.idx))
	sb.WriteByte('|')
	if t.cst != nil {
		sb.WriteString(t.cst.Kind().String())
		sb.WriteString(t.cst.ExactString())
	} else if t.op != "nil" {
		sb.WriteString(typeKey(t.typ))
	}
	sb.WriteByte('|')
	if t.fn != nil {
		fmt.Fprintf(&sb, "%p", t.fn)
	}
	for _, a := range t.args {
		sb.WriteByte('[')
		sb.WriteString(r.valKey(a))
		sb.WriteByte(']')
	}
	k := sb.String()
	if x, ok := r.terms[k]; ok {
		return x
	}
	n := t
	n.id = len(r.terms) + 1
	r.terms[k] = &n
	return &n
}

func (r *Flow) one(t *Term) Val { return Val{{True, t}} }

func (r *Flow) cst(c constant.Value, typ types.Type) *Term {
	if c.Kind() == constant.Float {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			c = i
		}
	}
	return r.intern(Term{op: "const", cst: c, typ: typ})
}
func (r *Flow) str(s string) *Term { return r.cst(constant.MakeString(s), types.Typ[types.String]) }
func (r *Flow) boolean(b bool) *Term {
	return r.cst(constant.MakeBool(b), types.Typ[types.Bool])
}
func (r *Flow) integer(n int64) *Term { return r.cst(constant.MakeInt64(n), types.Typ[types.Int]) }
func (r *Flow) nilT() *Term           { return r.intern(Term{op: "nil"}) }
func (r *Flow) app(name string, typ types.Type, args ...Val) *Term {
	if name == "content" && typ == nil && len(args) == 1 {
		if n := args[0].single(); n != nil && n.typ != nil && isNodePtr(n.typ) {
			typ = types.NewSlice(n.typ)
		}
	}
	return r.intern(Term{op: "app", str: name, typ: typ, args: args})
}
func (r *Flow) sym(name string, typ types.Type) *Term {
	return r.intern(Term{op: "sym", str: name, typ: typ})
}
func (r *Flow) faddr(base *Term, idx int, typ types.Type) *Term {
	return r.intern(Term{op: "faddr", idx: idx, typ: typ, args: []Val{r.one(base)}})
}
func (r *Flow) initOf(loc *Term, typ types.Type) *Term {
	return r.intern(Term{op: "init", typ: typ, args: []Val{r.one(loc)}})
}

// mkval normalises a list of guarded terms (guards assumed disjoint).
func (r *Flow) mkval(cs []Case) Val {
	if len(cs) == 1 {
		if cs[0].g == False {
			return nil
		}
		return Val(cs)
	}
	m := map[*Term]B{}
	for _, c := range cs {
		if c.g == False {
			continue
		}
		if g, ok := m[c.t]; ok {
			m[c.t] = r.bdd.Or(g, c.g)
		} else {
			m[c.t] = c.g
		}
	}
	out := make(Val, 0, len(m))
	for t, g := range m {
		out = append(out, Case{g, t})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	return out
}

// under restricts a value to a guard.
func (r *Flow) under(v Val, g B) Val {
	if g == True {
		return v
	}
	out := make([]Case, 0, len(v))
	for _, c := range v {
		if x := r.bdd.And(c.g, g); x != False {
			out = append(out, Case{x, c.t})
		}
	}
	return r.mkval(out)
}

// defined is the guard under which the value is defined.
func (r *Flow) defined(v Val) B {
	g := False
	for _, c := range v {
		g = r.bdd.Or(g, c.g)
	}
	return g
}

func (r *Flow) union(vs ...Val) Val {
	var cs []Case
	for _, v := range vs {
		cs = append(cs, v...)
	}
	return r.mkval(cs)
}

// ite selects a under g and b elsewhere.
func (r *Flow) ite(g B, a, b Val) Val {
	return r.union(r.under(a, g), r.under(b, r.bdd.Not(g)))
}

func (r *Flow) lift(v Val, f func(t *Term, g B) Val) Val {
	if len(v) == 1 && v[0].g == True {
		return f(v[0].t, True)
	}
	var cs []Case
	for _, c := range v {
		for _, d := range f(c.t, c.g) {
			if g := r.bdd.And(c.g, d.g); g != False {
				cs = append(cs, Case{g, d.t})
			}
		}
	}
	return r.mkval(cs)
}

// guard turns a boolean value into a guard.
func (r *Flow) guard(v Val) B {
	g := False
	for _, c := range v {
		g = r.bdd.Or(g, r.bdd.And(c.g, r.boolGuard(c.t)))
	}
	return g
}

func (r *Flow) boolGuard(t *Term) B {
	if t.op == "const" && t.cst.Kind() == constant.Bool {
		if constant.BoolVal(t.cst) {
			return True
		}
		return False
	}
	if t.op == "guard" {
		return B(t.idx)
	}
	return r.bdd.Var(fmt.Sprintf("bool#%d", t.id), r.print(t))
}

// fromGuard is the boolean value of a guard.
func (r *Flow) fromGuard(g B) Val {
	if g == True {
		return r.one(r.boolean(true))
	}
	if g == False {
		return r.one(r.boolean(false))
	}
	return r.mkval([]Case{{g, r.boolean(true)}, {r.bdd.Not(g), r.boolean(false)}})
}

func (r *Flow) printVal(v Val) string {
	if len(v) == 0 {
		return "<undefined>"
	}
	if len(v) == 1 {
		return r.print(v[0].t)
	}
	var parts []string
	for _, c := range v {
		parts = append(parts, fmt.Sprintf("%s if %s", r.print(c.t), r.bdd.String(c.g)))
	}
	return "{" + strings.Join(parts, "; ") + "}"
}

func fieldName(base types.Type, idx int) string {
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	if s, ok := base.Underlying().(*types.Struct); ok && idx < s.NumFields() {
		return s.Field(idx).Name()
	}
	return strconv.Itoa(idx)
}

func (r *Flow) print(t *Term) string {
	if t.txt != "" {
		return t.txt
	}
	var s string
	switch t.op {
	case "const":
		s = t.cst.ExactString()
	case "nil":
		s = "nil"
	case "sym":
		s = t.str
	case "obj":
		s = "new " + typeStr(t.typ) + "#" + t.str
	case "faddr":
		b := t.args[0][0].t
		s = "&" + strings.TrimPrefix(r.print(b), "&") + "." + r.fieldOf(b, t.idx)
	case "init":
		s = strings.TrimPrefix(r.printVal(t.args[0]), "&")
	case "iface":
		s = r.printVal(t.args[0])
		if s == "" {
			s = "iface"
		}
	case "ind":
		s = "index" + t.str
		if t.idx != 0 {
			s += fmt.Sprintf("%+d", t.idx)
		}
	case "closure", "func":
		s = t.fn.String()
	case "guard":
		s = r.bdd.String(B(t.idx))
	default:
		var as []string
		for _, a := range t.args {
			as = append(as, r.printVal(a))
		}
		n := t.str
		if t.op != "app" {
			n = t.op + n
		}
		s = n + "(" + strings.Join(as, ", ") + ")"
	}
	if len(s) > 400 {
		s = s[:400] + "~" + strconv.Itoa(t.id)
	}
	t.txt = s
	return s
}

func (r *Flow) fieldOf(b *Term, idx int) string {
	t := b.typ
	if b.op == "obj" {
		return fieldName(t, idx)
	}
	if t == nil {
		return strconv.Itoa(idx)
	}
	if b.op == "faddr" || b.op == "iaddr" || b.op == "eaddr" || b.op == "global" {
		return fieldName(t, idx)
	}
	return fieldName(t, idx)
}

func sortTerms(l []*Term) {
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
}

func ordinal(i int) string { return "#" + strconv.Itoa(i+1) }
