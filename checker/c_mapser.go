package main

import (
	"go/types"
	"reflect"
	"strings"
)

// checkC12: serialisation of the ordered maps.
func checkC12(p *Prog, c *Check) {
	c.rule = "For every map type and each of ToYAML, MarshalYAML and MarshalJSON, from an arbitrary state: whenever the operation reports no error, the returned node is a mapping built in that call to which a loop over all entries, in order, appends for every entry its own key and value (ordered form: an ordered-map sequence to which the loop appends one fresh one-entry mapping per entry); the JSON form encodes the list of entries itself (whose fields are encoded under distinct names), or a map made in that call into which every entry is put under its text. No failure of an append or of the encoder is followed by a return without error. Nothing else touches the result."
	c.floor = 300
	c.assume = append(c.assume, "xyml.MapAppend, SequenceAppend, ToYamlNode and the JSON encoder do what they document", "yaml.v3 writes the content of a node in order")
	ms := p.mapImpls()
	if len(ms) < 15 {
		c.missing = append(c.missing, "ordered map implementations")
	}
	for _, m := range ms {
		if m.why != "" {
			c.open(m.name+"/representation", m.why)
			continue
		}
		c.defaultOrder(m)
		for _, name := range []string{"ToYAML", "MarshalYAML", "MarshalJSON"} {
			fn := m.method(name)
			if fn == nil {
				continue
			}
			key := m.name + "/" + name + "/"
			f := m.call(name, nil)
			if f == nil || len(f.outs) != 2 {
				c.open(key+"form", "unexpected signature")
				continue
			}
			ok := f.bdd.And(f.g, f.nilGuard(f.outs[1]))
			c.propagates(f.Flow, key+"failures", ok)
			ob := func(what, bad string) {
				c.ob(f.Flow, key+what, bad == "", fn.Pos(), "%s of %s: %s", name, m.name, bad)
			}
			flag := f.ordered(f.f0)
			if name == "MarshalJSON" {
				ob("ordered JSON", f.jsonList(f.bdd.And(ok, flag)))
				ob("JSON object", f.jsonMap(f.bdd.Diff(ok, flag)))
				ob("entry names", m.entryNames())
			} else {
				ob("ordered form", f.yamlForm(f.bdd.And(ok, flag), true))
				ob("mapping", f.yamlForm(f.bdd.Diff(ok, flag), false))
			}
			ob("succeeds", f.canSucceed(ok, flag))
			c.used(f.Flow)
		}
	}
}

// defaultOrder decides that a new map is serialised in its ordered form, the
// documented default.
func (c *Check) defaultOrder(m *mapImpl) {
	if m.ctor == nil {
		return
	}
	r := newFlow(m.p)
	r.mapMode = true
	size := r.sym("size", m.ctor.Signature.Params().At(0).Type())
	outs, g, st := r.callFn(m.ctor, []Val{r.one(size)}, nil, True, State{}, m.ctor.Pos())
	if len(outs) == 1 {
		if root := r.unbox(outs[0]).single(); root != nil && root.op == "obj" {
			v := r.under(r.loadFlag(m, st, root), g)
			t := v.single()
			c.ob(r, m.name+"/new/ordered by default", t != nil && t == r.boolean(!m.inv), m.ctor.Pos(), "%s: the ordered flag of a new map is %s, documented default true", m.ctor.Name(), r.printVal(v))
			c.used(r)
		}
	}
}

func (f *mapFlow) canSucceed(ok, flag B) string {
	if f.bdd.And(ok, flag) == False || f.bdd.Diff(ok, flag) == False {
		return "never succeeds"
	}
	return ""
}

// yamlForm decides the node that is returned where g holds.
func (f *mapFlow) yamlForm(g B, ordered bool) string {
	if g == False {
		return ""
	}
	if !f.covers(f.outs[0], g) {
		return "returns nothing known"
	}
	for _, x := range f.unbox(f.outs[0]) {
		xg := f.bdd.And(x.g, g)
		if xg == False {
			continue
		}
		want := map[bool]string{true: "OrderedMap", false: "Map"}[ordered]
		if x.t.op != "obj" || f.nodeKind[x.t] == "" {
			return "returns " + f.print(x.t) + " when " + f.bdd.String(xg)
		}
		if f.nodeKind[x.t] != want {
			return "returns a node for a " + f.nodeKind[x.t] + " when " + f.bdd.String(xg)
		}
		if len(x.t.ctx) != 0 {
			return "returns a node made in a loop"
		}
		if !ordered {
			if s := f.appended(x.t, xg, nil); s != "" {
				return s
			}
			continue
		}
		evs, s := f.nodeEvents(x.t, xg, "sequenceappend")
		if s != "" {
			return s
		}
		if s := f.onceEach(evs, xg, func(ev *Event, eg B) string {
			lc := ev.ctx[0]
			for _, e := range f.unbox(ev.args[0]) {
				if f.bdd.And(e.g, eg) == False {
					continue
				}
				if e.t.op != "obj" || f.nodeKind[e.t] != "Map" || !inCtx(e.t, lc) {
					return "an entry of the ordered form is " + f.print(e.t)
				}
				if s := f.appended(e.t, f.bdd.And(e.g, eg), lc); s != "" {
					return s
				}
			}
			return ""
		}); s != "" {
			return s
		}
	}
	return ""
}

// nodeEvents are the changes to a node where g holds.
func (f *mapFlow) nodeEvents(n *Term, g B, kind string) ([]*Event, string) {
	var out []*Event
	for _, ev := range f.log {
		if ev.recv != n || f.bdd.And(ev.g, g) == False {
			continue
		}
		if strings.TrimSuffix(ev.kind, "node") != kind {
			return nil, "does " + ev.kind + " on the result"
		}
		out = append(out, ev)
	}
	// the fields of the node are only set by the helpers
	for loc := range f.st {
		if loc.op == "faddr" && loc.args[0].single() == n {
			if nm := fieldName(n.typ, loc.idx); nm != "HeadComment" && nm != "LineComment" && nm != "FootComment" && nm != "Style" && nm != "Line" && nm != "Column" {
				f.und["the "+nm+" of a result node is set directly"] = true
			}
		}
	}
	return out, ""
}

// appended decides that where g holds every entry is appended to the node exactly
// once, in order. With a loop it is the node of one entry of that loop.
func (f *mapFlow) appended(n *Term, g B, in *LoopCtx) string {
	evs, s := f.nodeEvents(n, g, "mapappend")
	if s != "" {
		return s
	}
	return f.onceEach(evs, g, func(ev *Event, eg B) string {
		if in != nil && ev.ctx[0] != in {
			return "fills the mapping of an entry in another loop"
		}
		return f.own(ev)
	})
}

// onceEach decides that exactly one of the events happens for every entry, in
// order, where g holds, and checks each.
func (f *mapFlow) onceEach(evs []*Event, g B, each func(ev *Event, eg B) string) string {
	if len(evs) == 0 {
		return "writes no entry when " + f.bdd.String(g)
	}
	var lc *LoopCtx
	seen := False
	for _, ev := range evs {
		if len(ev.ctx) != 1 {
			return "is not a plain loop over the entries"
		}
		if lc != nil && ev.ctx[0] != lc {
			return "writes entries in several loops"
		}
		lc = ev.ctx[0]
		if !lc.full || lc.coll != f.o0 || lc.rev || lc.step != 1 {
			return "does not go through all entries in order"
		}
		eg := f.bdd.And(ev.g, g)
		if f.bdd.And(seen, eg) != False {
			return "writes an entry twice when " + f.bdd.String(f.bdd.And(seen, eg))
		}
		seen = f.bdd.Or(seen, eg)
		if s := each(ev, eg); s != "" {
			return s
		}
	}
	if miss := f.bdd.Diff(g, seen); miss != False {
		return "leaves an entry out when " + f.bdd.String(miss)
	}
	return ""
}

// own decides that an event is about the key and the value of the entry of the
// iteration.
func (f *mapFlow) own(ev *Event) string {
	lc := ev.ctx[0]
	if len(ev.args) < 2 {
		return "handles no key and value"
	}
	for i, fld := range []int{f.m.kf, f.m.vf} {
		for _, x := range f.plainNode(ev.args[i]) {
			xg := f.bdd.And(x.g, ev.g)
			if xg == False {
				continue
			}
			if !f.isOwn(f.one(x.t), fld, lc) && !(fld == f.m.kf && f.isText(x.t, lc)) {
				return "writes " + f.print(x.t) + " as the " + []string{"key", "value"}[i] + " of an entry"
			}
		}
	}
	return ""
}

// isOwn reports whether v is a field of the entry of the iteration.
func (f *mapFlow) isOwn(v Val, fld int, lc *LoopCtx) bool {
	t := f.unbox(v).single()
	if t == nil {
		return false
	}
	if p, ok := f.elem(t, fld); ok && p.op == "ind" && p.loop == lc {
		return true
	}
	if fld == f.m.vf && isApp(t, "mapget") && t.args[0].single() == f.m0 {
		if p, ok := f.elemV(t.args[1], f.m.kf); ok && p.op == "ind" && p.loop == lc {
			return true
		}
	}
	return false
}

// isText reports whether t is the string conversion of a string key.
func (f *mapFlow) isText(t *Term, lc *LoopCtx) bool {
	if b, ok := f.m.key.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	if a, ok := sprintArg(t); ok {
		return f.isOwn(f.one(a), f.m.kf, lc)
	}
	return false
}

// sprintArg is x in fmt.Sprint(x).
func sprintArg(t *Term) (*Term, bool) {
	if t.op != "app" || len(t.args) == 0 {
		return nil, false
	}
	i := 0
	switch t.str {
	case "Sprint":
	case "Sprintf":
		if s, ok := constStr(t.args[0]); !ok || s != "%v" {
			return nil, false
		}
		i = 1
	default:
		return nil, false
	}
	if len(t.args) != i+1 {
		return nil, false
	}
	l := t.args[i].single()
	if l == nil || l.op != "lit" || len(l.args) != 1 {
		return nil, false
	}
	x := l.args[0].single()
	if x != nil && x.op == "iface" {
		if y := x.args[0].single(); y != nil {
			x = y
		}
	}
	return x, x != nil
}

// encoded lists the values whose encoding is returned where g holds.
func (f *mapFlow) encoded(g B) ([]Case, string) {
	if !f.covers(f.outs[0], g) {
		return nil, "returns nothing known"
	}
	var out []Case
	for _, x := range f.unbox(f.outs[0]) {
		xg := f.bdd.And(x.g, g)
		if xg == False {
			continue
		}
		if x.t.op != "app" || !strings.HasPrefix(x.t.str, "Marshal") || len(x.t.args) == 0 {
			return nil, "returns " + f.print(x.t) + " when " + f.bdd.String(xg)
		}
		for _, e := range f.unbox(x.t.args[0]) {
			if eg := f.bdd.And(e.g, xg); eg != False {
				out = append(out, Case{eg, e.t})
			}
		}
	}
	return out, ""
}

// jsonList: the ordered form is the encoding of the entries.
func (f *mapFlow) jsonList(g B) string {
	xs, s := f.encoded(g)
	if s != "" {
		return s
	}
	for _, x := range xs {
		if ps := f.parts(x.t, x.g); len(ps) != 1 || ps[0].what != "all" {
			return "encodes " + f.print(x.t) + " when " + f.bdd.String(x.g)
		}
	}
	return ""
}

// jsonMap: the object form is the encoding of a map with every entry.
func (f *mapFlow) jsonMap(g B) string {
	xs, s := f.encoded(g)
	if s != "" {
		return s
	}
	strKey := false
	if b, ok := f.m.key.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		strKey = true
	}
	for _, x := range xs {
		if strKey && (x.t == f.i0 || x.t == f.m0) {
			continue
		}
		if x.t.op != "mapobj" || len(x.t.ctx) != 0 {
			return "encodes " + f.print(x.t) + " when " + f.bdd.String(x.g)
		}
		seen := False
		var lc *LoopCtx
		for _, ev := range f.log {
			if ev.recv != x.t {
				continue
			}
			eg := f.bdd.And(ev.g, x.g)
			if eg == False {
				continue
			}
			if ev.kind != "mapset" {
				return "does " + ev.kind + " on the result"
			}
			if len(ev.ctx) != 1 || lc != nil && lc != ev.ctx[0] {
				return "is not a plain loop over the entries"
			}
			lc = ev.ctx[0]
			k, v := f.unbox(ev.args[0]).single(), f.unbox(ev.args[1]).single()
			if k == nil || v == nil {
				return "puts " + f.printVal(ev.args[1]) + " under " + f.printVal(ev.args[0])
			}
			bad := "puts " + f.print(v) + " under " + f.print(k)
			kt, isText := sprintArg(k)
			if !isText {
				if !strKey {
					return bad
				}
				kt = k
			}
			if !lc.full {
				return "does not go through all entries"
			}
			switch {
			case lc.coll == f.o0 && !lc.rev && lc.step == 1:
				if !f.isOwn(f.one(kt), f.m.kf, lc) || !f.isOwn(f.one(v), f.m.vf, lc) {
					return bad
				}
			case (lc.coll == f.i0 || lc.coll == f.m0) && strKey:
				gen := func(t *Term, what string) bool {
					return t.op == "gen" && t.str == what && t.loop == lc
				}
				if !gen(kt, "mkey") || !gen(v, "mval") && !(isApp(v, "mapget") && v.args[0].single() == f.m0 && f.unbox(v.args[1]).single() == kt) {
					return bad
				}
			default:
				return "does not go through all entries in order"
			}
			if f.bdd.And(seen, eg) != False {
				return "puts an entry twice"
			}
			seen = f.bdd.Or(seen, eg)
		}
		if miss := f.bdd.Diff(x.g, seen); miss != False {
			return "leaves an entry out when " + f.bdd.String(miss)
		}
	}
	return ""
}

// entryNames: the fields of an entry have names of their own in JSON and are
// never left out.
func (m *mapImpl) entryNames() string {
	names := map[string]bool{}
	for i := 0; i < m.ent.NumFields(); i++ {
		fd := m.ent.Field(i)
		if !fd.Exported() {
			return "the field " + fd.Name() + " of an entry is not encoded"
		}
		parts := strings.Split(reflect.StructTag(m.ent.Tag(i)).Get("json"), ",")
		n := parts[0]
		if n == "" {
			n = fd.Name()
		}
		if n == "-" && len(parts) == 1 {
			return "the field " + fd.Name() + " of an entry is not encoded"
		}
		for _, o := range parts[1:] {
			if o == "omitempty" || o == "omitzero" {
				return "the field " + fd.Name() + " of an entry is left out when it is empty"
			}
		}
		if names[n] {
			return "two fields of an entry have the same name"
		}
		names[n] = true
	}
	return ""
}
