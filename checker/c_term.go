package main

// checkC20: parsing, using and serialising end.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func checkC20(p *Prog, c *Check) {
	c.rule = "Loops: every loop of the library ranges over entries, counts towards a bound the loop does not change, or takes from a list or text until it is empty; an iteration that changes nothing is a violation. Recursion: no analysed call repeats a call still running (same arguments, same memory); readers hand on only parts of their node, never the node itself round a cycle of readers, and never what an alias in it stands for; serialisers never hand the encoder the element being serialised, or a copy; methods the formatter calls do not format their own receiver."
	c.floor = 800
	c.assume = append(c.assume, "functions given by the caller return", "elements built by the caller do not contain themselves", "xyml and yaml.v3 functions return, and call each callback once per entry")
	c.loopsEnd(p)
	flown := map[*ssa.Function]bool{}
	done := func(r *Flow, key string) {
		c.ob(r, key+"/recursion", true, 0, "")
		for _, o := range r.obls {
			if o.kind == "endless recursion" && o.g != False {
				c.ob(r, fnName(o.fn)+"/recursion", false, o.pos, "%s %s when %s", fnName(o.fn), o.text, r.bdd.String(o.g))
			}
		}
		for _, u := range r.undList() {
			if strings.Contains(u, "recursive") {
				c.open(key+"/recursion", u)
			}
		}
		for fn := range r.visited {
			flown[fn] = true
		}
		c.used(r)
	}
	gr := newReadGraph(p)
	for _, e := range p.publicElems() {
		hs := map[string][]handing{}
		for _, o := range p.ops(e, opNew, opGet, opSet, opSetNil, opUnset, opRead, opWrite, opOther) {
			key := e.name + "/" + o.label
			done(o.r, key)
			switch o.kind {
			case opRead:
				gr.add(c, key, typeKey(deref(e.typ)), o.r, docSym(o.r))
			case opWrite:
				hs[o.name] = c.handsItself(o)
			}
		}
		c.handsRound(e, hs)
	}
	for _, rs := range p.resolverFns() {
		r, decl, _, _, _ := rs.run(p)
		done(r, rs.fn.Name())
		gr.add(c, rs.fn.Name(), rs.fn.String(), r, decl)
	}
	for _, ep := range p.entryPoints() {
		r := newFlow(p)
		ep.run(r)
		done(r, ep.name)
	}
	for _, m := range p.mapImpls() {
		if m.why != "" {
			continue
		}
		ms := p.prog.MethodSets.MethodSet(m.typ)
		for i := 0; i < ms.Len(); i++ {
			if !ms.At(i).Obj().Exported() {
				continue
			}
			if f := m.call(ms.At(i).Obj().Name(), nil); f != nil {
				done(f.Flow, m.name+"/"+ms.At(i).Obj().Name())
			}
		}
	}
	gr.decide(c)
	c.comesBack(p)
	c.selfCalls(p, flown)
}

// selfCalls notes functions that call themselves and are part of no analysis.
func (c *Check) selfCalls(p *Prog, flown map[*ssa.Function]bool) {
	calls := func(fn *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && p.inModule(pkgOf(f)) {
						out = append(out, f)
					}
				}
			}
		}
		return out
	}
	for _, fn := range p.fns {
		if flown[fn] {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var round func(f *ssa.Function) bool
		round = func(f *ssa.Function) bool {
			for _, g := range calls(f) {
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if round(g) {
						return true
					}
				}
			}
			return false
		}
		if round(fn) {
			c.open(fnName(fn)+"/recursion", "calls itself and is part of no analysis")
			continue
		}
		c.ob(nil, fnName(fn)+"/no recursion", true, 0, "")
	}
}

func docSym(r *Flow) *Term {
	for t := range r.clsFixSet {
		if t.op == "sym" && t.str == "doc" {
			return t
		}
	}
	return nil
}

// readGraph says which readers hand their node to which others.
type readGraph struct {
	p      *Prog
	same   map[string]map[string]readEdge // the node itself
	all    map[string]map[string]bool     // the node or what is below
	behind []readEdge                     // what an alias stands for
}

func newReadGraph(p *Prog) *readGraph {
	return &readGraph{p: p, same: map[string]map[string]readEdge{}, all: map[string]map[string]bool{}}
}

type readEdge struct {
	from, to string
	pos      token.Pos
	cs       classSet
	r        *Flow
	key      string
}

func (gr *readGraph) add(c *Check, key, from string, r *Flow, doc *Term) {
	if gr.same[from] == nil {
		gr.same[from], gr.all[from] = map[string]readEdge{}, map[string]bool{}
	}
	if doc == nil {
		return
	}
	for _, ev := range r.log {
		if ev.kind != "read" && ev.kind != "resolve" {
			continue
		}
		for _, to := range gr.callees(r, ev) {
			gr.all[from][to] = true
			for _, a := range ev.args {
				for _, x := range r.unbox(a) {
					g := r.bdd.And(x.g, ev.g)
					if g == False || x.t.typ == nil || !isNodePtr(x.t.typ) {
						continue
					}
					e := readEdge{from, to, ev.pos, r.classesOf(r.one(x.t), g), r, key}
					switch r.partOf(x.t, doc) {
					case partSame:
						if o, ok := gr.same[from][to]; ok {
							e.cs |= o.cs
						}
						gr.same[from][to] = e
					case partAlias:
						gr.behind = append(gr.behind, e)
					case partUnknown:
						if r.fresh(x.t) {
							continue
						}
						c.open(key+"/descends", "at "+gr.p.pos(ev.pos)+" reads "+r.print(x.t)+", not known to be part of the node")
					}
				}
			}
		}
	}
}

// callees names what reads the node of an event.
func (gr *readGraph) callees(r *Flow, ev *Event) []string {
	if ev.kind == "resolve" {
		var out []string
		for fn := range r.resolvers {
			out = append(out, fn.String())
		}
		sort.Strings(out)
		return out
	}
	if ev.recv == nil || ev.recv.typ == nil {
		return nil
	}
	t := ev.recv.typ
	if isIface(t) {
		var out []string
		for _, im := range gr.p.implementers(t) {
			out = append(out, typeKey(deref(im)))
		}
		return out
	}
	return []string{typeKey(deref(t))}
}

func (gr *readGraph) reaches(from, to string) bool {
	seen := map[string]bool{}
	var visit func(k string) bool
	visit = func(k string) bool {
		if k == to {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for n := range gr.all[k] {
			if visit(n) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

func (gr *readGraph) decide(c *Check) {
	var froms []string
	for f := range gr.same {
		froms = append(froms, f)
	}
	sort.Strings(froms)
	for _, f := range froms {
		// cycles on the same node through f
		bad := ""
		var at token.Pos
		var flow *Flow
		var walk func(k string, cs classSet, path []string, seen map[string]bool)
		walk = func(k string, cs classSet, path []string, seen map[string]bool) {
			var tos []string
			for t := range gr.same[k] {
				tos = append(tos, t)
			}
			sort.Strings(tos)
			for _, t := range tos {
				e := gr.same[k][t]
				n := cs & e.cs
				if n == 0 || bad != "" {
					continue
				}
				if t == f {
					bad = strings.Join(append(path, short(t)), " → ")
					at = e.pos
					flow = e.r
					return
				}
				if !seen[t] {
					seen[t] = true
					walk(t, n, append(path, short(t)), seen)
				}
			}
		}
		walk(f, allClasses, []string{short(f)}, map[string]bool{f: true})
		c.ob(flow, short(f)+"/same node", bad == "", at, "reading goes round on one node: %s", bad)
	}
	sort.Slice(gr.behind, func(i, j int) bool { return gr.behind[i].pos < gr.behind[j].pos })
	for _, e := range gr.behind {
		ok := e.cs&classes(cMap, cSeq) == 0 || !gr.reaches(e.to, e.from)
		c.ob(e.r, short(e.from)+"/alias", ok, e.pos, "%s reads what an alias stands for with %s, which leads back to %s: an anchor may contain its own alias", short(e.from), short(e.to), short(e.from))
	}
}

func short(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// handing is a place where a serialiser hands the element itself to an encoder,
// and the method the encoder calls on it.
type handing struct {
	o   *op
	to  string
	g   B
	pos token.Pos
}

// handsItself lists where a serialiser hands the element itself to an encoder.
func (c *Check) handsItself(o *op) []handing {
	r := o.r
	var out []handing
	var self func(t *Term, g B, d int) B
	self = func(t *Term, g B, d int) B {
		if t == nil || g == False || d > 5 {
			return False
		}
		if t.typ != nil && (t == o.root || t.op == "iface" || t.op == "obj" || t.op == "struct") && typeKey(deref(t.typ)) == typeKey(deref(o.e.typ)) && hasEncoder(r.P, t.typ) {
			x := t
			if t.op == "iface" {
				x = t.args[0].single()
			}
			if x != nil && (x == o.root || r.copyOf(x, o.root, o.st)) {
				return g
			}
			return False
		}
		out := False
		if t.op == "lit" || t.op == "iface" || isApp(t, "append") || isApp(t, "concat") {
			for _, a := range t.args {
				for _, cs := range a {
					out = r.bdd.Or(out, self(cs.t, r.bdd.And(g, cs.g), d+1))
				}
			}
		}
		return out
	}
	val := func(v Val, g B, pos token.Pos, to string) {
		for _, cs := range v {
			if b := self(cs.t, r.bdd.And(g, cs.g), 0); b != False {
				out = append(out, handing{o, to, b, pos})
			}
		}
	}
	for _, ev := range r.log {
		to := "ToYAML"
		switch ev.kind {
		case "encode", "encodeTo":
			to = "MarshalYAML"
		case "encodeval", "marshal", "put", "replaceorput", "mapappend", "mapappendnode", "sequenceappend", "sequenceappendnode":
		default:
			continue
		}
		if ev.recv != nil {
			val(r.one(ev.recv), ev.g, ev.pos, to)
		}
		for _, a := range ev.args {
			val(a, ev.g, ev.pos, to)
		}
	}
	if o.name == "MarshalYAML" && len(o.outs) > 0 {
		val(o.outs[0], o.g, o.fn.Pos(), "MarshalYAML")
	}
	return out
}

// handsRound decides that handing an element on never leads back to the method
// that does.
func (c *Check) handsRound(e *Elem, hs map[string][]handing) {
	var names []string
	for n := range hs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		bad := False
		var at handing
		for _, h := range hs[n] {
			seen := map[string]bool{}
			var back func(m string) bool
			back = func(m string) bool {
				if m == n {
					return true
				}
				if seen[m] {
					return false
				}
				seen[m] = true
				for _, k := range hs[m] {
					if back(k.to) {
						return true
					}
				}
				return false
			}
			if back(h.to) {
				bad = h.o.r.bdd.Or(bad, h.g)
				at = h
			}
		}
		var r *Flow
		text := ""
		if at.o != nil {
			r = at.o.r
			text = r.bdd.String(bad)
		}
		c.ob(r, e.name+"/"+n+"/hands on parts", bad == False, at.pos, "%s of %s hands the element itself to the encoder, which calls %s on it and so comes back, when %s", n, e.name, at.to, text)
	}
}

func hasEncoder(p *Prog, t types.Type) bool {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "ToYAML", "MarshalYAML", "MarshalRAML":
			return true
		}
	}
	return false
}

// copyOf reports whether x holds what root held at the start.
func (r *Flow) copyOf(x, root *Term, st State) bool {
	if x == root {
		return true
	}
	if root.typ == nil {
		return false
	}
	t := deref(root.typ)
	var v Val
	switch x.op {
	case "obj":
		if x.typ == nil || typeKey(deref(x.typ)) != typeKey(t) {
			return false
		}
		v = r.load(st, x, t)
	case "struct":
		v = r.one(x)
	default:
		return false
	}
	return r.valKey(v) == r.valKey(r.load(State{}, root, t))
}

// comesBack decides that no method hands its receiver to a library that calls the
// same method on it again: printing, encoding and decoding.
func (c *Check) comesBack(p *Prog) {
	type edge struct {
		to   *ssa.Function
		pos  token.Pos
		back bool // through a library
	}
	edges := map[*ssa.Function][]edge{}
	var fns []*ssa.Function
	for _, fn := range p.fns {
		if fn.Signature.Recv() == nil || len(fn.Params) == 0 || len(fn.Blocks) == 0 {
			continue
		}
		recv := fn.Params[0]
		fns = append(fns, fn)
		add := func(x ssa.Value, names []string, pos token.Pos) {
			if !sameThing(x, recv) {
				return
			}
			for _, n := range names {
				if sel := p.prog.MethodSets.MethodSet(x.Type()).Lookup(pkgOf(fn), n); sel != nil {
					if to := p.declared(p.prog.MethodValue(sel)); to != nil {
						edges[fn] = append(edges[fn], edge{to, pos, true})
					}
					return
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && fn.Name() == "MarshalYAML" && len(ret.Results) == 2 {
					if mi, ok := ret.Results[0].(*ssa.MakeInterface); ok {
						add(mi.X, []string{"MarshalYAML"}, ret.Pos())
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || pkgOf(f) == nil {
					continue
				}
				if p.inModule(pkgOf(f)) {
					if f.Signature.Recv() != nil && len(call.Common().Args) > 0 && sameThing(call.Common().Args[0], recv) {
						edges[fn] = append(edges[fn], edge{p.declared(f), call.Pos(), false})
					}
					continue
				}
				names := callsBack(f, call.Common())
				if len(names) == 0 || !sameInput(fn, call.Common()) {
					continue
				}
				for _, a := range call.Common().Args {
					for _, x := range passed(a) {
						add(x, names, call.Pos())
					}
				}
			}
		}
	}
	for _, fn := range fns {
		var bad *edge
		for i, e := range edges[fn] {
			if !e.back || bad != nil {
				continue
			}
			seen := map[*ssa.Function]bool{}
			var reach func(f *ssa.Function) bool
			reach = func(f *ssa.Function) bool {
				if f == fn {
					return true
				}
				if f == nil || seen[f] {
					return false
				}
				seen[f] = true
				for _, e := range edges[f] {
					if reach(e.to) {
						return true
					}
				}
				return false
			}
			if reach(e.to) {
				bad = &edges[fn][i]
			}
		}
		if bad == nil {
			c.ob(nil, fnName(fn)+"/hands on parts", true, 0, "")
			continue
		}
		c.ob(nil, fnName(fn)+"/hands on parts", false, bad.pos, "%s hands its receiver to a library that calls %s on it, which comes back to %s", fnName(fn), fnName(bad.to), fnName(fn))
	}
}

// callsBack names the methods a library function calls on what it is given.
func callsBack(f *ssa.Function, cc *ssa.CallCommon) []string {
	pk := pkgOf(f).Path()
	switch {
	case pk == "fmt":
		format := ""
		for _, a := range cc.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				format = constant.StringVal(k.Value)
			}
		}
		if strings.HasSuffix(f.Name(), "f") && !verbPrints(format) {
			return nil
		}
		return []string{"Error", "String"}
	case pk == "encoding/json" && strings.Contains(f.Name(), "nmarshal") || pk == "encoding/json" && f.Name() == "Decode":
		return []string{"UnmarshalJSON"}
	case pk == "encoding/json":
		return []string{"MarshalJSON", "MarshalText"}
	case strings.HasPrefix(pk, "gopkg.in/yaml") && (f.Name() == "Unmarshal" || f.Name() == "Decode"):
		return []string{"UnmarshalYAML"}
	case strings.HasPrefix(pk, "gopkg.in/yaml"):
		return []string{"MarshalYAML"}
	case strings.HasSuffix(pk, "/xyml"):
		return []string{"ToYAML", "MarshalYAML"}
	}
	return nil
}

// sameInput reports whether a call that decodes is given what its caller was
// given, and not a part of it.
func sameInput(fn *ssa.Function, cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f.Name() != "Decode" && f.Name() != "Unmarshal" {
		return true
	}
	if len(cc.Args) == 0 || len(fn.Params) < 2 {
		return false
	}
	return sameThing(cc.Args[0], fn.Params[1])
}

// passed are the values an argument hands on: itself, or the elements of a list
// of arguments.
func passed(a ssa.Value) []ssa.Value {
	switch a := a.(type) {
	case *ssa.MakeInterface:
		return []ssa.Value{a.X}
	case *ssa.ChangeInterface:
		return passed(a.X)
	case *ssa.Slice:
		al, ok := a.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		var out []ssa.Value
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, passed(st.Val)...)
				}
			}
		}
		return out
	}
	return nil
}

func verbPrints(format string) bool {
	if format == "" {
		return true
	}
	return strings.ContainsAny(format, "svqxX") && strings.Contains(format, "%")
}

// sameThing reports whether v is x, what x points to, or a copy of it.
func sameThing(v, x ssa.Value) bool {
	for i := 0; i < 6; i++ {
		if v == x {
			return true
		}
		switch w := v.(type) {
		case *ssa.UnOp:
			v = w.X
		case *ssa.Alloc:
			for _, u := range *w.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == w && s.Val == x {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}
