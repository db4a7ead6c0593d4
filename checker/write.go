package main

// The writer of an element, analysed once: what it returns, in which form, and
// which value it finally writes under which key, each with the guard under which
// it does.

import (
	"go/token"
	"go/types"
	"strings"
)

// form is one way the writer's result is made.
type form struct {
	g     B     // under this guard
	ctr   *Term // the map that is encoded, for the expanded form
	upto  int   // events before the encoding
	short Val   // the value that is encoded, for the short form
	what  string
}

type writing struct {
	sp    *elemSpec
	e     *Elem
	r     *Flow
	root  *Term
	st    State
	outs  []Val
	ok    B // no error returned
	forms []form
	odd   bool // results of an unknown form
	pos   token.Pos
	nfail int
	name  string // of the method
	alt   string // suffix of keys for another method than the usual one
	text  string // a text that is returned although it is no encoding
}

// write analyses the writer of an element in an arbitrary state.
func (p *Prog) write(sp *elemSpec) (*writing, error) {
	e, err := p.element(sp.iface, sp.kind)
	if err != nil {
		return nil, err
	}
	r := newFlow(p)
	for _, name := range []string{sp.writer, "ToYAML", "MarshalYAML"} {
		if r.methodFn(e, name) != nil {
			return p.writeBy(sp, e, name)
		}
	}
	return nil, errf("%s has no YAML writer", sp.iface)
}

// writes analyses each of the methods that serialise an element, the one that
// write analyses first.
func (p *Prog) writes(sp *elemSpec) ([]*writing, error) {
	w, err := p.write(sp)
	if err != nil {
		return nil, err
	}
	out := []*writing{w}
	for _, name := range []string{"ToYAML", "MarshalYAML", "ToRAML"} {
		if name == w.name || w.r.methodFn(w.e, name) == nil {
			continue
		}
		w2, err := p.writeBy(sp, w.e, name)
		if err != nil {
			return nil, err
		}
		w2.alt = "/" + name
		out = append(out, w2)
	}
	return out, nil
}

func (p *Prog) writeBy(sp *elemSpec, e *Elem, name string) (*writing, error) {
	r := newFlow(p)
	root, ok := r.enter(e)
	if !ok {
		return nil, errf("the constructor of %s is not understood", sp.iface)
	}
	fn := r.methodFn(e, name)
	outs, g, st := r.method(e, root, name, nil, True, State{})
	w := &writing{sp: sp, e: e, r: r, root: root, st: st, outs: outs, pos: fn.Pos(), name: name}
	if len(outs) != 2 {
		return nil, errf("%s.%s: unexpected results", sp.iface, name)
	}
	w.ok = r.bdd.And(g, r.nilGuard(outs[1]))
	if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
		w.addText(r.under(outs[0], w.ok), w.ok)
		return w, nil
	}
	for _, c := range r.unbox(r.under(outs[0], w.ok)) {
		w.addForm(c.t, c.g)
	}
	return w, nil
}

// addText finds what the text returned is the encoding of.
func (w *writing) addText(v Val, g B) {
	r := w.r
	s := &streamer{r: r}
	for _, c := range r.unbox(v) {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		t := c.t
		for t.op == "app" && strings.HasPrefix(t.str, "conv") && len(t.args) == 1 && t.args[0].single() != nil {
			t = t.args[0].single()
		}
		if t.op == "app" && strings.HasPrefix(t.str, "Marshal") && len(t.args) > 0 {
			for _, x := range r.unbox(r.under(t.args[0], cg)) {
				w.addForm(x.t, r.bdd.And(cg, x.g))
			}
			continue
		}
		for _, ps := range s.pieces(r.one(t), cg, 0) {
			var content []*Term
			text, odd, pg := "", s.und != "", cg
			for _, x := range ps {
				pg = r.bdd.And(pg, x.g)
				switch x.kind {
				case "text":
					text += x.text
				case "content":
					content = append(content, x.val)
				default:
					odd = true
				}
			}
			switch {
			case pg == False:
			case odd || len(content) > 1 || len(content) == 1 && content[0] == nil:
				w.odd = true
				r.und["the writer of "+w.sp.iface+" returns "+r.print(c.t)] = true
			case len(content) == 0 || strings.TrimSpace(text) != "":
				w.text = r.print(c.t) + " when " + r.bdd.String(pg)
			default:
				w.addForm(content[0], pg)
			}
		}
	}
}

func (w *writing) addForm(t *Term, g B) {
	r := w.r
	switch {
	case t.op == "ctr":
		w.forms = append(w.forms, form{g: g, ctr: t, upto: len(r.log), what: "map"})
		return
	case t.op == "obj" && isNode(t.typ):
		if r.nodeKind[t] != "" {
			w.forms = append(w.forms, form{g: g, ctr: t, upto: len(r.log), what: "node"})
			return
		}
		v := r.one(t)
		if x := r.literalText(t, w.st, g); x != nil {
			v = x
		}
		w.forms = append(w.forms, form{g: g, short: v, what: "value"})
		return
	case t.op == "app" && len(t.str) > 7 && t.str[:7] == "encode:" && len(t.args) > 0:
		if c := t.args[0].single(); c != nil && c.op == "ctr" {
			w.forms = append(w.forms, form{g: g, ctr: c, upto: w.encodedAt(c), what: "map"})
			return
		}
	case t.op == "app" && t.str == "yamlnode" && len(t.args) > 0:
		// a node made of a value; an expanded map may be encoded this way too
		for _, c := range r.unbox(t.args[0]) {
			gg := r.bdd.And(g, c.g)
			if gg == False {
				continue
			}
			if c.t.op == "ctr" {
				w.forms = append(w.forms, form{g: gg, ctr: c.t, upto: w.encodedAt(c.t), what: "map"})
				continue
			}
			w.forms = append(w.forms, form{g: gg, short: r.one(c.t), what: "value"})
		}
		return
	}
	w.odd = true
	r.und["the writer of "+w.sp.iface+" returns "+r.print(t)] = true
}

// encodedAt is the number of events before the last encoding of a map.
func (w *writing) encodedAt(c *Term) int {
	for i := len(w.r.log) - 1; i >= 0; i-- {
		e := w.r.log[i]
		if e.kind == "encode" && e.recv == c {
			return i
		}
		if e.kind == "encodeval" && len(e.args) > 0 && w.r.unbox(e.args[0]).single() == c {
			return i
		}
	}
	return len(w.r.log)
}

// expanded and short are the guards of the two forms.
func (w *writing) expanded() B {
	g := False
	for _, f := range w.forms {
		if f.ctr != nil {
			g = w.r.bdd.Or(g, f.g)
		}
	}
	return g
}

func (w *writing) short() B {
	g := False
	for _, f := range w.forms {
		if f.ctr == nil {
			g = w.r.bdd.Or(g, f.g)
		}
	}
	return g
}

// shortVal is the value of the short form.
func (w *writing) shortVal() Val {
	var v Val
	for _, f := range w.forms {
		if f.ctr == nil {
			v = w.r.union(v, w.r.under(f.short, f.g))
		}
	}
	return v
}

// entry is the value finally written under a key in the expanded form, undefined
// where the key is not written; pos is a place that writes it.
func (w *writing) entry(key string) (Val, token.Pos) {
	r := w.r
	var out Val
	pos := w.pos
	for _, f := range w.forms {
		if f.ctr == nil {
			continue
		}
		var cur Val
		for _, e := range w.events(f.ctr, f.upto, 0) {
			switch e.kind {
			case "put", "replaceorput", "mapappend", "mapappendnode":
				if k := r.keyOf(e.args[0]); k != nil && isStr(k, key) && !w.looped(e, f.ctr) {
					cur = r.ite(e.g, e.args[1], cur)
					pos = e.pos
				}
			case "replaceifexists":
				if k := r.keyOf(e.args[0]); k != nil && isStr(k, key) {
					cur = r.ite(r.bdd.And(e.g, r.defined(cur)), e.args[1], cur)
				}
			case "delete":
				if k := r.keyOf(e.args[0]); k != nil && isStr(k, key) {
					cur = r.under(cur, r.bdd.Not(e.g))
				}
			}
		}
		out = r.union(out, r.under(cur, f.g))
	}
	return out, pos
}

func isStr(t *Term, s string) bool {
	v, ok := constStr(Val{{True, t}})
	return ok && v == s
}

// looped reports whether an event happens in an iteration the map itself does not
// belong to.
func (w *writing) looped(e *Event, ctr *Term) bool {
	for _, lc := range e.ctx {
		if ctr == nil || !inCtx(ctr, lc) {
			return true
		}
	}
	return false
}

// puts lists the additions to the encoded map.
func (w *writing) adds() []*Event {
	var out []*Event
	for _, f := range w.forms {
		if f.ctr == nil {
			continue
		}
		for _, e := range w.events(f.ctr, f.upto, 0) {
			switch e.kind {
			case "put", "replaceorput", "replaceifexists", "mapappend", "mapappendnode", "delete":
				out = append(out, e)
			}
		}
	}
	return out
}

// events lists what happens to a map up to a point of the log. A complete copy of
// another new map counts as what happened to that map.
func (w *writing) events(ctr *Term, upto int, depth int) []*Event {
	r := w.r
	var out []*Event
	for i, e := range r.log[:upto] {
		if e.recv != ctr {
			continue
		}
		if src := w.copyOf(e); src != nil && depth < 3 {
			for _, x := range w.events(src, i, depth+1) {
				y := *x
				if y.g = r.bdd.And(x.g, e.g); y.g != False {
					out = append(out, &y)
				}
			}
			continue
		}
		out = append(out, e)
	}
	return out
}

// copyOf is the new map an event copies all entries of, if it does.
func (w *writing) copyOf(e *Event) *Term {
	if e.kind != "put" && e.kind != "replaceorput" && e.kind != "mapappend" || len(e.args) != 2 {
		return nil
	}
	k, v := w.r.bare(e.args[0]).single(), w.r.bare(e.args[1]).single()
	if k == nil || v == nil || k.op != "gen" || k.str != "ckey" || v.op != "gen" || v.str != "cval" || k.idx != v.idx {
		return nil
	}
	src := k.args[0].single()
	if src == nil || src.op != "ctr" || v.args[0].single() != src || k.loop == nil || !k.loop.full || k.loop.rev {
		return nil
	}
	return src
}

// get is what an accessor reports in the same state.
func (w *writing) get(name string) Val {
	v, _, _ := w.r.method(w.e, w.root, name, nil, True, State{})
	if len(v) != 1 {
		return nil
	}
	return w.r.uncopied(v[0])
}

// bare strips what does not change the meaning of a value: interface boxes,
// options, and the dereferencing of an element before it is encoded.
func (r *Flow) bare(v Val) Val {
	v = r.unbox(v)
	return r.lift(v, func(t *Term, _ B) Val {
		if t.op == "app" && (t.str == "some" || t.str == "derefed" || t.str == "copyof") && len(t.args) == 1 {
			return r.bare(t.args[0])
		}
		if t.op == "app" && t.str == "none" {
			return r.one(r.nilT())
		}
		if t.op == "const" {
			return r.one(r.intern(Term{op: "const", cst: t.cst, typ: types.Typ[types.Invalid]}))
		}
		return r.one(t)
	})
}

// uncopied strips copies of lists, which report what the original does.
func (r *Flow) uncopied(v Val) Val {
	return r.lift(v, func(t *Term, _ B) Val {
		if isApp(t, "copyof") {
			return r.uncopied(t.args[0])
		}
		return r.one(t)
	})
}

// followed is a value as the encoder sees it: plain pointers are followed, nil
// pointers are nothing.
func (r *Flow) followed(st State, v Val) Val {
	return r.lift(r.bare(v), func(t *Term, _ B) Val {
		if t.typ == nil || t.op == "obj" || t.op == "ctr" || isNodePtr(t.typ) || r.P.isElementType(t.typ) || r.P.isContainer(t.typ) {
			return r.one(t)
		}
		pt, ok := t.typ.Underlying().(*types.Pointer)
		if !ok {
			return r.one(t)
		}
		return r.ite(r.nilT1(t), r.one(r.nilT()), r.bare(r.load(st, t, pt.Elem())))
	})
}

// absentG is the guard of an accessor reporting no value: no option, nil, an empty
// collection.
func (r *Flow) absentG(v Val) B {
	g := False
	for _, c := range r.unbox(v) {
		var b B
		switch {
		case c.t.op == "app" && c.t.str == "none":
			b = True
		case c.t.op == "app" && c.t.str == "some":
			b = False
		case r.P.isContainer(c.t.typ) || c.t.op == "ctr":
			if c.t.op == "ctr" {
				b = r.bdd.Not(r.nonEmptyCtr(c.t))
			} else {
				b = r.bdd.Or(r.nilT1(c.t), r.eqConst(r.clen(c.t, r.one(r.app("ver0", nil, r.one(c.t)))), r.integer(0)))
			}
		case c.t.typ != nil && isSliceT(c.t.typ):
			b = r.emptyGuard(r.one(c.t))
		default:
			b = r.nilT1(c.t)
		}
		g = r.bdd.Or(g, r.bdd.And(c.g, b))
	}
	return g
}

// nonEmptyCtr is the guard of a fresh container having received something.
func (r *Flow) nonEmptyCtr(c *Term) B {
	g := False
	for _, e := range r.log {
		if e.recv == c && (e.kind == "put" || e.kind == "replaceorput") {
			g = r.bdd.Or(g, e.g)
		}
	}
	return g
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// defaults is what each accessor reports for a fresh element, where that is a
// constant.
func (p *Prog) defaults(e *Elem, names []string) map[string]*Term {
	out := map[string]*Term{}
	r := newFlow(p)
	root, st, ok := r.construct(e)
	if !ok {
		return out
	}
	r.roots[root] = true
	for _, o := range r.parts(root, st) {
		r.roots[o] = true
	}
	for _, n := range names {
		if r.methodFn(e, n) == nil {
			continue
		}
		v, _, _ := r.method(e, root, n, nil, True, st.clone())
		if len(v) != 1 {
			continue
		}
		t := r.bare(v[0]).single()
		if t != nil && t.op == "const" {
			out[n] = t
		}
	}
	return out
}
