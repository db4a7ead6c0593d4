package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ramlFragments are the identifiers RAML 1.0 allows behind "#%RAML 1.0".
var ramlFragments = map[string]bool{"DocumentationItem": true, "DataType": true, "NamedExample": true, "ResourceType": true, "Trait": true,
	"AnnotationTypeDeclaration": true, "Library": true, "Overlay": true, "Extension": true, "SecurityScheme": true}

const ramlHeader = "#%RAML 1.0"

// headers are the header lines of the documents the library writes.
var headers = map[string]string{"APISpec": ramlHeader, "Library": ramlHeader + " Library", "Overlay": ramlHeader + " Overlay", "Extension": ramlHeader + " Extension"}

// checkC17: documents start with their header.
func checkC17(p *Prog, c *Check) {
	c.rule = "Every method that writes a document to an io.Writer is analysed from an arbitrary state of the element. What goes to the writer is an ordered stream of guarded pieces (constants, buffers, encoder output with its head comment). On every path that reports no error the stream consists of the header line of that kind of document, completely and once, then at most a document separator, then the document itself, once; no path succeeds without writing both, and a failure of the writer or encoder is returned. The header constants and ModuleType.ToHeader are evaluated and compared with the texts of RAML 1.0."
	c.floor = 10
	c.assume = append(c.assume, "the yaml encoder writes the head comment of a document before its content, and everything it is given", "writers keep the io.Writer contract")
	n := 0
	for _, e := range p.publicElems() {
		want, ok := headers[e.name]
		if !ok {
			continue
		}
		for _, o := range p.ops(e, opWrite) {
			if o.arg == nil || !isWriter(o.arg.typ) {
				continue
			}
			n++
			c.stream(p, o, want)
			c.used(o.r)
		}
	}
	if n == 0 {
		c.open("writers", "no method writes a document to a writer")
	}
	c.headerConstants(p)
}

func isWriter(t types.Type) bool {
	if t == nil {
		return false
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Write"
}

// piece is something that goes to the stream.
type piece struct {
	kind string // text, content, ?
	text string
	val  *Term
	g    B
}

type streamer struct {
	r   *Flow
	o   *op
	bad string
	pos token.Pos
	und string
}

// pieces takes apart a value that is written.
func (s *streamer) pieces(v Val, g B, depth int) [][]piece {
	r := s.r
	var out [][]piece
	for _, c := range r.unbox(v) {
		cg := r.bdd.And(c.g, g)
		if cg == False {
			continue
		}
		for _, ps := range s.termPieces(c.t, cg, depth) {
			out = append(out, ps)
		}
	}
	return out
}

// cross is every combination of two lists of alternatives.
func (s *streamer) cross(a, b [][]piece) [][]piece {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var out [][]piece
	for _, x := range a {
		for _, y := range b {
			g := True
			for _, p := range append(append([]piece{}, x...), y...) {
				g = s.r.bdd.And(g, p.g)
			}
			if g == False {
				continue
			}
			var z []piece
			for _, p := range append(append([]piece{}, x...), y...) {
				p.g = g
				z = append(z, p)
			}
			out = append(out, z)
		}
	}
	return out
}

func (s *streamer) termPieces(t *Term, g B, depth int) [][]piece {
	r := s.r
	one := func(p piece) [][]piece { p.g = g; return [][]piece{{p}} }
	if depth > 10 {
		return one(piece{kind: "?"})
	}
	switch {
	case t.op == "const" && t.cst.Kind() == constant.String:
		return one(piece{kind: "text", text: constant.StringVal(t.cst)})
	case t.op == "const" && t.cst.Kind() == constant.Int:
		n, _ := int64Val(t.cst)
		return one(piece{kind: "text", text: string(rune(n))})
	case t.op == "nil":
		return one(piece{kind: "text", text: ""})
	case t.op == "lit":
		out := one(piece{kind: "text", text: ""})
		for _, a := range t.args {
			out = s.cross(out, s.pieces(a, g, depth+1))
		}
		return out
	case t.op != "app":
		return one(piece{kind: "?", val: t})
	case strings.HasPrefix(t.str, "conv") && len(t.args) == 1, t.str == "copyof":
		return s.pieces(t.args[0], g, depth+1)
	case (t.str == "+" || t.str == "concat" || t.str == "append") && len(t.args) == 2:
		return s.cross(s.pieces(t.args[0], g, depth+1), s.pieces(t.args[1], g, depth+1))
	case t.str == "written":
		src := r.unbox(t.args[0]).single()
		n, ok := constInt(t.args[1].single())
		if src == nil || !ok {
			return one(piece{kind: "?", val: t})
		}
		out := one(piece{kind: "text", text: ""})
		for i, ev := range r.log {
			if int64(i) >= n {
				break
			}
			if rc := s.recv(ev); rc != src {
				continue
			}
			eg := r.bdd.And(g, ev.g)
			var alts [][]piece
			if eg != False {
				alts = s.event(ev, eg, depth+1)
			}
			if not := r.bdd.Diff(g, ev.g); not != False {
				alts = append(alts, []piece{{kind: "text", g: not}})
			}
			out = s.cross(out, alts)
		}
		return out
	case strings.HasPrefix(t.str, "Marshal:") || strings.HasPrefix(t.str, "Marshal"):
		return one(piece{kind: "content", val: t.args[0].single()})
	}
	return one(piece{kind: "?", val: t})
}

func (s *streamer) recv(ev *Event) *Term {
	if ev.recv == nil {
		return nil
	}
	return s.r.unbox(s.r.one(ev.recv)).single()
}

// event lists the alternatives of what an event writes.
func (s *streamer) event(ev *Event, g B, depth int) [][]piece {
	r := s.r
	if len(ev.ctx) > 0 {
		s.und = "something is written in a loop"
		for _, a := range ev.args {
			for _, ps := range s.pieces(a, g, depth) {
				for _, p := range ps {
					if p.kind == "text" && strings.Contains(p.text, "#%RAML") {
						s.fail(ev.pos, "the header is written in a loop")
					}
				}
			}
		}
	}
	switch ev.kind {
	case "write":
		if len(ev.args) == 1 {
			return s.pieces(ev.args[0], g, depth)
		}
		// fmt.Fprint and its relatives, io.WriteString
		name, _ := constStr(ev.args[0])
		switch name {
		case "io.WriteString":
			return s.pieces(ev.args[1], g, depth)
		case "fmt.Fprint", "fmt.Fprintln":
			out := s.pieces(ev.args[1], g, depth)
			if name == "fmt.Fprintln" {
				out = s.cross(out, [][]piece{{{kind: "text", text: "\n", g: g}}})
			}
			return out
		case "fmt.Fprintf":
			f, ok := constStr(ev.args[1])
			if !ok || len(ev.args) < 3 {
				break
			}
			var args []Val
			if l := ev.args[2].single(); l != nil && (l.op == "lit" || l.op == "nil") {
				args = l.args
			} else {
				break
			}
			out := [][]piece{{{kind: "text", g: g}}}
			for f != "" {
				i := strings.IndexByte(f, '%')
				if i < 0 {
					i = len(f)
				}
				out = s.cross(out, [][]piece{{{kind: "text", text: f[:i], g: g}}})
				f = f[i:]
				if f == "" {
					break
				}
				if len(f) < 2 {
					return [][]piece{{{kind: "?", g: g}}}
				}
				switch {
				case f[1] == '%':
					out = s.cross(out, [][]piece{{{kind: "text", text: "%", g: g}}})
				case (f[1] == 's' || f[1] == 'v') && len(args) > 0:
					out = s.cross(out, s.pieces(args[0], g, depth))
					args = args[1:]
				default:
					return [][]piece{{{kind: "?", g: g}}}
				}
				f = f[2:]
			}
			return out
		}
		return [][]piece{{{kind: "?", g: g}}}
	case "encodeTo":
		var out [][]piece
		out = [][]piece{{{kind: "text", g: g}}}
		if len(ev.args) >= 3 && ev.args[2] != nil {
			var alts [][]piece
			for _, ps := range s.pieces(ev.args[2], g, depth) {
				t := ""
				known := true
				for _, p := range ps {
					t += p.text
					known = known && p.kind == "text"
				}
				pg := ps[0].g
				switch {
				case !known:
					alts = append(alts, []piece{{kind: "?", g: pg}})
				case t == "":
					alts = append(alts, []piece{{kind: "text", g: pg}})
				default:
					if !strings.HasPrefix(t, "#") {
						t = "# " + t
					}
					alts = append(alts, []piece{{kind: "text", text: strings.TrimSuffix(t, "\n") + "\n", g: pg}})
				}
			}
			out = s.cross(out, alts)
		}
		var vals []Case
		if len(ev.args) > 0 {
			vals = r.unbox(ev.args[0])
		}
		var doc Val
		if len(ev.args) > 1 {
			doc = ev.args[1]
		}
		var alts [][]piece
		for _, c := range vals {
			cg := r.bdd.And(g, c.g)
			if cg == False {
				continue
			}
			if s.o != nil {
				s.content(ev, c.t, doc)
			}
			alts = append(alts, []piece{{kind: "content", val: c.t, g: cg}})
		}
		if len(alts) == 0 {
			s.und = "it is not known what is encoded"
			return [][]piece{{{kind: "?", g: g}}}
		}
		return s.cross(out, alts)
	case "closeEnc":
		return [][]piece{{{kind: "text", g: g}}}
	}
	return [][]piece{{{kind: "?", g: g}}}
}

func (s *streamer) fail(pos token.Pos, f string, a ...interface{}) {
	if s.bad == "" {
		s.bad, s.pos = fmt.Sprintf(f, a...), pos
	}
}

// content decides that what is encoded is the element.
func (s *streamer) content(ev *Event, v *Term, doc Val) {
	r := s.r
	if v == nil {
		s.und = "it is not known what is encoded"
		return
	}
	wr := r.methodFn(s.o.e, s.o.sp.writer)
	called := false
	for fn := range r.visited {
		called = called || wr != nil && fn.Object() != nil && fn.Object() == wr.Object()
	}
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || found || t.op == "init" || t.op == "faddr" {
			return
		}
		seen[t] = true
		if t == s.o.root || (t.op == "ctr" || t.op == "app") && called && (t.op == "ctr" || strings.HasPrefix(t.str, "encode:")) {
			found = true
			return
		}
		for _, a := range t.args {
			for _, c := range a {
				walk(c.t)
			}
		}
	}
	if typeKey(deref(v.typ)) == typeKey(deref(s.o.e.typ)) {
		found = true
	}
	walk(v)
	for _, c := range doc {
		walk(c.t)
	}
	if !found {
		s.fail(ev.pos, "%s is encoded, not the %s", r.print(v), s.o.e.name)
	}
}

type streamState struct {
	g       B
	text    string
	content bool
	what    string
}

func (c *Check) stream(p *Prog, o *op, want string) {
	r := o.r
	key := o.e.name + "/" + o.name
	s := &streamer{r: r, o: o, pos: o.fn.Pos()}
	ok := o.g
	if n := len(o.outs); n > 0 && isErrType(o.fn.Signature.Results().At(n-1).Type()) {
		ok = r.bdd.And(ok, r.nilGuard(o.outs[n-1]))
	}
	sink := r.unbox(r.one(o.arg)).single()
	states := []streamState{{g: True}}
	for _, ev := range r.log {
		if s.recv(ev) != sink {
			continue
		}
		if ev.kind != "write" && ev.kind != "encodeTo" && ev.kind != "closeEnc" {
			s.und = "does " + ev.kind + " on the writer"
			continue
		}
		alts := s.event(ev, ev.g, 0)
		var next []streamState
		for _, st := range states {
			rest := st.g
			for _, ps := range alts {
				if len(ps) == 0 {
					continue
				}
				g := r.bdd.And(st.g, ps[0].g)
				if g == False {
					continue
				}
				rest = r.bdd.Diff(rest, ps[0].g)
				n := streamState{g: g, text: st.text, content: st.content}
				for _, pc := range ps {
					s.advance(&n, pc, want, ev.pos, ok)
				}
				next = append(next, n)
			}
			if rest != False {
				next = append(next, streamState{g: rest, text: st.text, content: st.content})
			}
		}
		states = next
		if len(states) > 256 {
			s.und = "too many ways to write"
			break
		}
	}
	for _, st := range states {
		if g := r.bdd.And(st.g, ok); g != False && !st.content {
			s.fail(o.fn.Pos(), "succeeds without writing the document when %s", r.bdd.String(g))
		}
	}
	if ok == False {
		s.fail(o.fn.Pos(), "never succeeds")
	}
	if s.und != "" && s.bad == "" {
		c.open(key+"/header", s.und)
	} else {
		c.ob(r, key+"/header", s.bad == "", s.pos, "%s of %s: %s", o.name, o.e.name, s.bad)
	}
	c.propagates(r, key, ok)
}

// advance adds a piece to a stream.
func (s *streamer) advance(st *streamState, p piece, want string, pos token.Pos, ok B) {
	live := s.r.bdd.And(st.g, ok) != False
	fail := func(f string, a ...interface{}) {
		if live {
			s.fail(pos, f, a...)
		}
	}
	switch p.kind {
	case "text":
		if st.content {
			if strings.Contains(p.text, "#%RAML") {
				fail("the header is written after the document")
			} else if strings.TrimSpace(p.text) != "" && !strings.HasPrefix(strings.TrimSpace(p.text), "#") && strings.TrimSpace(p.text) != "..." {
				fail("%q is written after the document", p.text)
			}
			return
		}
		st.text += p.text
		line, rest, full := strings.Cut(st.text, "\n")
		if full && line != want || !full && !strings.HasPrefix(want, line) {
			fail("the first line is %q, not %q", line, want)
			return
		}
		for _, l := range strings.Split(rest, "\n") {
			if strings.Contains(l, "#%RAML") {
				fail("the header is written twice")
			} else if full && l != "" && l != "-" && l != "--" && l != "---" && !strings.HasPrefix(l, "#") {
				fail("%q is written between header and document", l)
			}
		}
	case "content":
		if st.content {
			fail("the document is written twice")
			return
		}
		st.content = true
		if st.text == "" {
			fail("the document is written without the header %q", want)
		} else if !strings.HasSuffix(st.text, "\n") {
			if st.text == want {
				fail("the document starts in the header line")
			} else if i := strings.LastIndexByte(st.text, '\n'); i < 0 || st.text[i+1:] != "--- " {
				fail("the document starts in the line %q", st.text[i+1:])
			}
		}
	default:
		if live {
			s.und = "writes something that is not known"
		}
		st.content = true
	}
}

// headerConstants compares the constants and ToHeader with RAML 1.0.
func (c *Check) headerConstants(p *Prog) {
	for _, s := range p.sortedPkgs() {
		sc := s.Pkg.Scope()
		for _, n := range sc.Names() {
			k, ok := sc.Lookup(n).(*types.Const)
			if !ok || !k.Exported() || k.Val().Kind() != constant.String {
				continue
			}
			v := constant.StringVal(k.Val())
			if strings.HasPrefix(n, "Header") {
				id := strings.TrimPrefix(n, "Header")
				want := ramlHeader
				if id != "Root" {
					if !ramlFragments[id] {
						continue
					}
					want += " " + id
				}
				line, rest, _ := strings.Cut(v, "\n")
				good := line == want
				for _, l := range strings.Split(rest, "\n") {
					good = good && (l == "" || l == "---")
				}
				c.ob(nil, n+"/text", good, k.Pos(), "the constant %s is %q, RAML 1.0 says %q", n, v, want)
			}
			tn := namedOf(k.Type())
			if tn == nil || !strings.HasPrefix(n, "Type") || tn.Obj().Name() != "ModuleType" {
				continue
			}
			id := strings.TrimPrefix(n, "Type")
			want := ramlHeader
			if id != "Root" {
				if !ramlFragments[id] {
					continue
				}
				want += " " + id
			}
			fn := p.toHeader(tn)
			if fn == nil {
				c.open(n+"/header", "no ToHeader")
				continue
			}
			r := newFlow(p)
			outs, g, _ := r.callFn(fn, []Val{r.one(r.cst(k.Val(), k.Type()))}, nil, True, State{}, fn.Pos())
			got := ""
			known := len(outs) == 1
			if known {
				st := &streamer{r: r}
				var texts []string
				for _, ps := range st.pieces(outs[0], g, 0) {
					x := ""
					for _, pc := range ps {
						x += pc.text
						known = known && pc.kind == "text"
					}
					texts = append(texts, x)
				}
				known = known && len(texts) == 1
				got = strings.Join(texts, "|")
			}
			if !known {
				c.open(n+"/header", "the text is not a constant")
				continue
			}
			c.ob(r, n+"/header", strings.TrimSuffix(got, "\n") == want && g == True, fn.Pos(), "the header of %s is %q, RAML 1.0 says %q", n, got, want)
			c.used(r)
		}
	}
}

func (p *Prog) toHeader(n *types.Named) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(n).Lookup(n.Obj().Pkg(), "ToHeader")
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}
