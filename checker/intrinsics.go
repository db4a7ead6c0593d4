package main

// Contracts of the dependencies the library calls: the YAML helpers, the option
// types, and the parts of the standard library it uses.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var isClass = map[string]classSet{
	"String":     classes(cStr),
	"Int":        classes(cInt),
	"Float":      classes(cFloat),
	"Bool":       classes(cBool),
	"NilType":    classes(cNull),
	"Timestamp":  classes(cTime),
	"Binary":     classes(cBin),
	"Map":        classes(cMap),
	"Sequence":   classes(cSeq),
	"Scalar":     scalarClasses,
	"OrderedMap": 0,
	"Pairs":      0,
}

// fnName is package.Function or package.Type.Method.
func fnName(fn *ssa.Function) string {
	pk := pkgOf(fn)
	p := ""
	if pk != nil {
		p = pk.Name()
	}
	if rv := fn.Signature.Recv(); rv != nil {
		if n := namedOf(deref(rv.Type())); n != nil {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	return p + "." + name
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "utf8": true, "math": true, "bytes": true, "regexp": true, "path": true, "filepath": true, "errors": true, "bits": true, "cmp": true, "utf16": true, "html": true, "url": true, "sha256": true, "md5": true, "sha1": true, "hex": true, "base64": true}

func (r *Flow) errTerm(name string, res *types.Tuple, args ...Val) *Term {
	return r.app("err:"+name, res.At(res.Len()-1).Type(), args...)
}

func (r *Flow) intrinsic(fn *ssa.Function, args []Val, g B, st State, pos token.Pos) ([]Val, B, State, bool) {
	name := fnName(fn)
	res := fn.Signature.Results()
	pk := ""
	if p := pkgOf(fn); p != nil {
		pk = p.Path()
	}
	ret := func(vs ...Val) ([]Val, B, State, bool) { return vs, g, st, true }
	boolean := func(b B) ([]Val, B, State, bool) { return ret(r.fromGuard(b)) }
	switch {
	case strings.HasSuffix(pk, "/xyml"):
		return r.xyml(fn.Name(), fn, args, g, st, pos)
	case strings.HasSuffix(pk, "/logrus") || pk == "log" || pk == "log/slog":
		if strings.HasPrefix(fn.Name(), "Panic") || strings.HasPrefix(fn.Name(), "Fatal") {
			r.oblige("panic", name, True, g, pos)
			return r.zeroResults(res), False, st, true
		}
		return r.opaqueResults("log", res, nil), g, st, true
	case strings.HasSuffix(pk, "/option"):
		n := fn.Name()
		switch {
		case strings.HasPrefix(n, "NewMaybe") && len(args) == 1:
			pt, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
			if !ok {
				break
			}
			v := r.lift(args[0], func(t *Term, _ B) Val {
				ng := r.nilT1(t)
				if ng == True {
					return r.one(r.app("none", nil))
				}
				return r.ite(ng, r.one(r.app("none", nil)), r.one(r.app("some", nil, r.load(st, t, pt.Elem()))))
			})
			return ret(v)
		case strings.HasPrefix(n, "NewEmpty"):
			return ret(r.one(r.app("none", nil)))
		case strings.HasPrefix(n, "New") && len(args) == 1:
			return ret(r.one(r.app("some", nil, args[0])))
		case fn.Signature.Recv() != nil && (n == "IsPresent" || n == "IsNil" || n == "Get" || n == "Or"):
			has, val := False, Val{}
			for _, c := range args[0] {
				switch {
				case isApp(c.t, "none"):
				case isApp(c.t, "some") && len(c.t.args) == 1:
					has = r.bdd.Or(has, c.g)
					val = r.union(val, r.under(c.t.args[0], c.g))
				default:
					h := r.bdd.And(c.g, r.boolGuard(r.app("present", types.Typ[types.Bool], r.one(c.t))))
					has = r.bdd.Or(has, h)
					if res.Len() == 1 {
						val = r.union(val, r.under(r.one(r.app("optval", res.At(0).Type(), r.one(c.t))), h))
					}
				}
			}
			switch n {
			case "IsPresent":
				return boolean(has)
			case "IsNil":
				return boolean(r.bdd.Not(has))
			case "Or":
				return ret(r.union(val, r.under(args[1], r.bdd.Not(has))))
			}
			r.oblige("panic", name+" of an empty option", r.bdd.Not(has), g, pos)
			g = r.bdd.And(g, has)
			return ret(val)
		}
	case strings.HasSuffix(pk, "/gomp"):
		switch fn.Name() {
		case "IsNil":
			return boolean(r.isNilDyn(args[0]))
		case "Deref":
			return ret(r.derefDyn(st, args[0]))
		}
	}
	if isReflectIsNil(name) {
		return boolean(r.isNilDyn(args[0]))
	}
	switch name {
	case "strings.HasPrefix":
		if p := args[1].single(); p != nil && p.op == "const" {
			return boolean(r.prefixGuard(args[0], constant.StringVal(p.cst)))
		}
		return ret(r.one(r.app("hasprefix", types.Typ[types.Bool], args...)))
	case "strings.Contains":
		if p := args[1].single(); p != nil {
			return boolean(r.containsGuard(args[0], p))
		}
	case "strings.ContainsRune", "strings.ContainsAny":
		if p := args[1].single(); p != nil && p.op == "const" {
			if p.cst.Kind() == constant.Int {
				n, _ := int64Val(p.cst)
				return boolean(r.containsGuard(args[0], r.str(string(rune(n)))))
			}
			if s := constant.StringVal(p.cst); len(s) == 1 {
				return boolean(r.containsGuard(args[0], p))
			}
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny":
		sub := r.lift(args[1], func(t *Term, _ B) Val {
			if n, ok := constInt(t); ok {
				return r.one(r.str(string(rune(n))))
			}
			return r.one(t)
		})
		return ret(r.lift(args[0], func(s *Term, _ B) Val {
			return r.one(r.app("strindex", types.Typ[types.Int], r.one(s), sub))
		}))
	case "strings.Count":
		return ret(r.lift(args[0], func(s *Term, _ B) Val {
			return r.one(r.app("strcount", types.Typ[types.Int], r.one(s), args[1]))
		}))
	case "strings.Split":
		return ret(r.lift(args[0], func(s *Term, _ B) Val {
			return r.one(r.app("strsplit", res.At(0).Type(), r.one(s), args[1]))
		}))
	case "strings.Cut":
		if p := args[1].single(); p != nil {
			return ret(r.one(r.app("cutbefore", types.Typ[types.String], args...)), r.one(r.app("cutafter", types.Typ[types.String], args...)), r.fromGuard(r.containsGuard(args[0], p)))
		}
	case "regexp.Regexp.MatchString", "regexp.MatchString", "regexp.Regexp.Match":
		pat, x := args[0].single(), args[1]
		if isApp(pat, "regexp.MustCompile") {
			pat = pat.args[0].single()
		}
		if name == "regexp.MatchString" {
			return r.errResults(name, res, args, g, pos, true), g, st, true
		}
		if pat != nil && pat.op == "const" {
			if b, ok := r.matches(constant.StringVal(pat.cst), x); ok {
				return boolean(b)
			}
		}
		r.und["what a regular expression matches"] = true
		return r.errResults(name, res, args, g, pos, true), g, st, true
	case "strings.EqualFold":
		return ret(r.one(r.app("equalfold", types.Typ[types.Bool], args...)))
	case "fmt.Errorf", "errors.New", "errors.Join":
		if name == "fmt.Errorf" {
			r.formatCheck(args, g, pos)
		}
		return ret(r.one(r.app("err:"+fn.Name(), res.At(0).Type(), args...)))
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		return ret(r.one(r.app(fn.Name(), types.Typ[types.String], args...)))
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return r.opaqueResults("print", res, nil), g, st, true
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		r.event("write", args[0].single(), g, pos, append([]Val{r.one(r.str(name))}, args[1:]...)...)
		return r.partial("write:"+name, res, args, g, pos), g, st, true
	case "bytes.NewBuffer", "bytes.NewBufferString", "bufio.NewWriter", "bufio.NewWriterSize":
		out := r.app("stream", res.At(0).Type(), args[0], r.one(r.integer(int64(len(r.log)))))
		r.nonnil[out] = true
		if fn.Name() == "NewBuffer" || fn.Name() == "NewBufferString" {
			if t := args[0].single(); t == nil || t.op != "nil" {
				r.event("write", out, g, pos, args[0])
			}
		}
		return ret(r.one(out))
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString", "bytes.Buffer.WriteByte", "bytes.Buffer.WriteRune", "strings.Builder.Write", "strings.Builder.WriteString", "strings.Builder.WriteByte", "strings.Builder.WriteRune", "bufio.Writer.Write", "bufio.Writer.WriteString", "bufio.Writer.WriteByte", "bufio.Writer.WriteRune":
		r.event("write", r.unbox(args[0]).single(), g, pos, args[1])
		// a failure of a bufio.Writer is reported again by Flush
		out := r.zeroResults(res)
		if len(out) == 2 {
			out[0] = r.one(r.app("len", types.Typ[types.Int], args[1]))
		}
		return out, g, st, true
	case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String":
		return ret(r.one(r.app("written", res.At(0).Type(), args[0], r.one(r.integer(int64(len(r.log)))))))
	case "bytes.Buffer.Grow", "strings.Builder.Grow":
		return r.zeroResults(res), g, st, true
	case "bufio.Writer.Flush", "bytes.Buffer.WriteTo", "io.Copy":
		dst, src := args[0], args[0]
		switch name {
		case "bytes.Buffer.WriteTo":
			dst = args[1]
		case "io.Copy":
			src = args[1]
		default:
			if t := r.unbox(args[0]).single(); isApp(t, "stream") {
				dst = t.args[0]
			}
		}
		r.event("write", r.unbox(dst).single(), g, pos, r.one(r.app("written", types.Typ[types.String], src, r.one(r.integer(int64(len(r.log)))))))
		return r.partial("write:"+name, res, args, g, pos), g, st, true
	case "strconv.ParseFloat":
		return r.parseNum("parsefloat", args, res, g, st, pos)
	case "strconv.ParseInt":
		return r.parseNum("parseint", args, res, g, st, pos)
	case "yaml.NewEncoder", "json.NewEncoder":
		return ret(r.one(r.app("encoder", res.At(0).Type(), args[0])))
	case "yaml.NewDecoder":
		return ret(r.one(r.app("decoder", res.At(0).Type(), args[0])))
	case "yaml.Encoder.SetIndent", "json.Encoder.SetIndent", "yaml.Decoder.KnownFields":
		return r.zeroResults(res), g, st, true
	case "yaml.Encoder.Encode", "yaml.Encoder.Close", "json.Encoder.Encode":
		e := args[0].single()
		if e != nil && e.op == "app" && e.str == "encoder" {
			k := "encodeTo"
			if fn.Name() == "Close" {
				k = "closeEnc"
			}
			r.event(k, e.args[0].single(), g, pos, append(append([]Val{}, args[1:]...), r.nodeDoc(st, args[1:]), r.headComment(st, args[1:]))...)
		} else {
			r.undecided(pos, "unknown encoder")
		}
		return r.errResults("encode:"+fn.Name(), res, args, g, pos, true), g, st, true
	case "yaml.Decoder.Decode":
		r.event("decode", args[0].single(), g, pos, args[1])
		return r.errResults("decode", res, args, g, pos, true), g, st, true
	case "yaml.Unmarshal":
		r.event("decode", args[0].single(), g, pos, args[1])
		return r.errResults("decode", res, args, g, pos, true), g, st, true
	case "yaml.Node.Decode":
		if out, g2, ok := r.nodeDecode(args[0], args[1], res, g, st, pos); ok {
			return out, g2, st, true
		}
		r.event("nodedecode", args[0].single(), g, pos, args[1])
		r.undecided(pos, "yaml.Node.Decode")
		return r.errResults("decode", res, args, g, pos, true), g, st, true
	case "yaml.Marshal", "json.Marshal", "json.MarshalIndent":
		r.event("encode", nil, g, pos, args[0])
		out := r.errResults(fn.Name()+":"+pk, res, args, g, pos, true)
		return out, g, st, true
	case "yaml.Node.LongTag", "yaml.Node.ShortTag":
		n := strings.ToLower(fn.Name())
		return ret(r.lift(args[0], func(t *Term, _ B) Val { return r.one(r.app(n, types.Typ[types.String], r.one(t))) }))
	case "yaml.Node.IsZero":
		return ret(r.one(r.app("iszero", types.Typ[types.Bool], args...)))
	case "slices.Delete":
		s, lo, hi := args[0], args[1].single(), args[2].single()
		if lo != nil && hi != nil && r.plusOne(lo, hi) {
			return ret(r.one(r.app("removeAt", res.At(0).Type(), s, r.one(lo))))
		}
	case "slices.Contains", "slices.Index", "maps.Keys":
	case "sort.Strings", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.Reverse", "sort.Sort", "sort.Stable":
		r.event("sort", r.unbox(args[0]).single(), g, pos, args...)
		return r.zeroResults(res), g, st, true
	case "time.Now", "rand.Int", "rand.Intn", "rand.Float64", "time.Since":
		r.event("nondet", nil, g, pos)
		return r.opaqueResults(name, res, args), g, st, true
	}
	if pk == "math/rand" || pk == "math/rand/v2" || pk == "crypto/rand" || pk == "time" {
		r.event("nondet", nil, g, pos)
		return r.opaqueResults(name, res, args), g, st, true
	}
	if purePkgs[pk] || purePkgs[lastPath(pk)] && !strings.Contains(pk, ".") {
		return r.errResults(name, res, args, g, pos, true), g, st, true
	}
	return nil, g, st, false
}

// matches models a regular expression that only looks for a text.
func (r *Flow) matches(pat string, x Val) (B, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return False, false
	}
	sub := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		sub = re.Sub
	}
	begin := len(sub) > 0 && sub[0].Op == syntax.OpBeginText
	if begin {
		sub = sub[1:]
	}
	end := len(sub) > 0 && sub[len(sub)-1].Op == syntax.OpEndText
	if end {
		sub = sub[:len(sub)-1]
	}
	if len(sub) != 1 || sub[0].Op != syntax.OpLiteral || sub[0].Flags&syntax.FoldCase != 0 {
		return False, false
	}
	lit := string(sub[0].Rune)
	switch {
	case begin && end:
		return r.eq(x, r.one(r.str(lit))), true
	case begin:
		return r.prefixGuard(x, lit), true
	case end:
		return False, false
	}
	return r.containsGuard(x, r.str(lit)), true
}

func isReflectIsNil(name string) bool { return name == "gomp.IsNil" }

func lastPath(p string) string {
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		return p[i+1:]
	}
	return p
}

// formatCheck: a format string built from input is not a panic, nothing to do.
func (r *Flow) formatCheck(args []Val, g B, pos token.Pos) {}

// nodeDoc describes a locally built YAML document node that is encoded.
func (r *Flow) nodeDoc(st State, args []Val) Val {
	if len(args) == 0 {
		return nil
	}
	t := r.unbox(args[0]).single()
	if t == nil || t.op != "obj" || !isNode(t.typ) {
		return nil
	}
	return r.load(st, t, t.typ)
}

// headComment is the comment an encoded node starts with: its own, or that of the
// node of the document.
func (r *Flow) headComment(st State, args []Val) Val {
	if len(args) == 0 {
		return nil
	}
	of := func(t *Term) (Val, Val) {
		pt, ok := t.typ.(*types.Pointer)
		if !ok && isNode(t.typ) {
			pt = types.NewPointer(t.typ)
		}
		if pt == nil || !isNode(pt.Elem()) {
			return nil, nil
		}
		s := pt.Elem().Underlying().(*types.Struct)
		var hc, cont Val
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			loc := r.faddr(t, i, types.NewPointer(ft))
			if v, ok := st[loc]; ok || t.op == "obj" {
				if !ok {
					v = r.load(st, loc, ft)
				}
				switch s.Field(i).Name() {
				case "HeadComment":
					hc = v
				case "Content":
					cont = v
				}
			}
		}
		return hc, cont
	}
	of1 := func(t *Term) Val {
		if t.typ == nil {
			return nil
		}
		hc, cont := of(t)
		if cont == nil {
			return hc
		}
		if s, ok := constStr(hc); ok && s != "" {
			// and a header repeated on the node below it
			for _, c := range cont {
				for _, x := range r.lastItems(c.t, 0) {
					if x.t.op == "nil" || x.t.typ == nil {
						continue
					}
					h, _ := of(x.t)
					for _, hcase := range h {
						if s2, ok := constStr(r.one(hcase.t)); ok && strings.Contains(s2, "#%RAML") {
							g := r.bdd.AndAll(c.g, x.g, hcase.g)
							hc = r.ite(g, r.one(r.str(s+"\n"+s2)), hc)
						}
					}
				}
			}
			return hc
		}
		for _, c := range cont {
			if c.t.op == "lit" && len(c.t.args) > 0 {
				for _, x := range r.unbox(c.t.args[0]) {
					if x.t.op != "nil" && x.t.typ != nil {
						if h, _ := of(x.t); h != nil {
							return h
						}
					}
				}
			}
		}
		return hc
	}
	var out []Case
	for _, c := range r.unbox(args[0]) {
		if c.t.op == "nil" {
			continue
		}
		h := of1(c.t)
		if h == nil {
			h = r.one(r.str(""))
		}
		for _, x := range h {
			if g := r.bdd.And(x.g, c.g); g != False {
				out = append(out, Case{g, x.t})
			}
		}
	}
	return r.mkval(out)
}

// lastItems are the entries a list is known to have.
func (r *Flow) lastItems(t *Term, d int) []Case {
	var out []Case
	if d > 4 {
		return nil
	}
	if t.op == "lit" {
		for _, a := range t.args {
			out = append(out, r.unbox(a)...)
		}
	}
	if isApp(t, "append") || isApp(t, "concat") {
		for _, a := range t.args {
			for _, c := range a {
				for _, x := range r.lastItems(c.t, d+1) {
					out = append(out, Case{r.bdd.And(c.g, x.g), x.t})
				}
			}
		}
	}
	return out
}

// parseNum is strconv.ParseInt or ParseFloat of a text.
func (r *Flow) parseNum(what string, args []Val, res *types.Tuple, g B, st State, pos token.Pos) ([]Val, B, State, bool) {
	return r.errResults(what, res, args, g, pos, true), g, st, true
}

// xyml is the contract of the YAML helper library.
func (r *Flow) xyml(name string, fn *ssa.Function, args []Val, g B, st State, pos token.Pos) ([]Val, B, State, bool) {
	res := fn.Signature.Results()
	ret := func(vs ...Val) ([]Val, B, State, bool) { return vs, g, st, true }
	clsOf := func(v Val, s classSet) B {
		x := False
		for _, c := range v {
			x = r.bdd.Or(x, r.bdd.And(c.g, r.cls(c.t, s)))
		}
		return x
	}
	nilCheck := func(v Val) {
		g = r.derefCheck(v, g, pos)
	}
	// need fails under a wrong class
	need := func(v Val, s classSet) (bad B, err Val) {
		bad = r.bdd.Not(clsOf(v, s))
		r.fail("xyml."+name, r.bdd.And(g, bad), pos)
		return bad, r.one(r.errTerm("xyml."+name, res, v))
	}
	nilE := r.one(r.nilT())
	typed := func(s classSet, val func(n *Term) Val, canFail bool) ([]Val, B, State, bool) {
		nilCheck(args[0])
		bad, e := need(args[0], s)
		v := r.lift(args[0], func(n *Term, _ B) Val { return val(n) })
		if canFail {
			key := "fail:xyml." + name
			for _, c := range args[0] {
				key += fmt.Sprintf("#%d", c.t.id)
			}
			f := r.bdd.Var(key, "text of "+r.printVal(args[0])+" does not parse")
			r.fail("xyml."+name+":text", r.bdd.AndAll(g, r.bdd.Not(bad), f), pos)
			bad = r.bdd.Or(bad, f)
		}
		return ret(r.ite(bad, r.zero(res.At(0).Type()), v), r.ite(bad, e, nilE))
	}
	switch {
	case strings.HasPrefix(name, "Is"):
		if s, ok := isClass[name[2:]]; ok {
			nilCheck(args[0])
			return ret(r.fromGuard(clsOf(args[0], s)))
		}
	case strings.HasPrefix(name, "Require"):
		if s, ok := isClass[name[7:]]; ok {
			nilCheck(args[0])
			bad, e := need(args[0], s)
			return ret(r.ite(bad, e, nilE))
		}
	}
	text := func(n *Term) Val { return r.nodeValue(n, types.Typ[types.String]) }
	switch name {
	case "ToString":
		return typed(classes(cStr), text, false)
	case "ToScalarValue":
		return typed(scalarClasses, func(n *Term) Val {
			if p := r.presetOf(n); p != nil && p.kind == "const" {
				return r.one(r.mkIface(types.Typ[types.String], text(n)))
			}
			return r.one(r.mkIface(types.Typ[types.String], text(n)))
		}, false)
	case "ToBoolean":
		return typed(classes(cBool), func(n *Term) Val { return r.one(r.app("parsebool", types.Typ[types.Bool], text(n))) }, true)
	case "ToInt":
		return typed(classes(cInt), func(n *Term) Val {
			return r.one(r.app("parseint", types.Typ[types.Int64], append([]Val{text(n)}, args[1:]...)...))
		}, true)
	case "ToFloat":
		return typed(classes(cFloat), func(n *Term) Val { return r.one(r.app("parsefloat", types.Typ[types.Float64], text(n))) }, true)
	case "ToBinary", "ToTime", "ToTime3339Nano":
		return typed(scalarClasses, func(n *Term) Val { return r.one(r.app(name, res.At(0).Type(), text(n))) }, true)
	case "MapForEach", "SequenceForEach":
		return r.forEach(name, args, res, g, st, pos)
	case "MapAppend", "MapAppendNode", "SequenceAppend", "SequenceAppendNode":
		for _, x := range args[0] {
			r.event(strings.ToLower(name), x.t, r.bdd.And(g, x.g), pos, args[1:]...)
		}
		return r.errResults(name, res, args, g, pos, true), g, st, true
	case "NewMapNode", "NewOrderedMapNode", "NewPairsNode", "NewSetNode", "NewSequenceNode":
		o := r.newObj("obj", deref(res.At(0).Type()), r.P.pos(pos))
		r.nodeKind[o] = strings.TrimSuffix(strings.TrimPrefix(name, "New"), "Node")
		return ret(r.one(o))
	case "NewStringNode", "NewBoolNode", "NewIntNode", "NewFloatNode", "NewNullNode", "NewTimestampNode", "NewBinaryNode":
		t := r.app("yamlnode", res.At(0).Type(), args...)
		r.nonnil[t] = true
		return ret(r.one(t))
	case "ToYamlNode", "ScalarToYamlNode", "MapToYamlNode", "SliceToYamlNode":
		r.event("encodeval", nil, g, pos, args[0])
		return r.errResults("yamlnode", res, args[:1], g, pos, true), g, st, true
	}
	return nil, g, st, false
}

// forEach is MapForEach or SequenceForEach: the callback runs for every entry in
// order until one returns an error, which is returned.
func (r *Flow) forEach(name string, args []Val, res *types.Tuple, g B, st State, pos token.Pos) ([]Val, B, State, bool) {
	want := classes(cMap)
	if name == "SequenceForEach" {
		want = classes(cSeq)
	}
	g = r.derefCheck(args[0], g, pos)
	outs, og, ost := r.perCase(args[0], res, g, st, func(n *Term, g B, st State) ([]Val, B, State) {
		bad := r.bdd.Not(r.cls(n, want))
		r.fail("xyml."+name, r.bdd.And(g, bad), pos)
		e := r.one(r.errTerm("xyml."+name, res, r.one(n)))
		good := r.bdd.Diff(g, bad)
		if good == False {
			return []Val{e}, g, st
		}
		f := args[1].single()
		sig, _ := types.Unalias(fnParam(args, f)).Underlying().(*types.Signature)
		if f == nil || sig == nil {
			r.undecided(pos, "%s with an unknown function", name)
			return []Val{r.one(r.app("err:"+name, nil))}, g, st
		}
		errLoc := r.newObj("obj", res.At(0).Type(), "")
		coll := r.app("content", nil, r.one(n))
		step := 2
		if want == classes(cSeq) {
			step = 1
		}
		in := st.clone()
		in[errLoc] = r.one(r.nilT())
		seq := r.seq != nil && r.seq.node == n && step == 2
		body := func(lc *LoopCtx, g B, st State) (B, State) {
			pend := st[errLoc]
			ng := r.nilGuard(pend)
			run := r.bdd.And(g, ng)
			var es []edge
			if skip := r.bdd.Diff(g, ng); skip != False {
				es = append(es, edge{g: skip, st: st.clone()})
			}
			if run != False {
				var as []Val
				if step == 2 {
					as = []Val{r.one(r.gen("key", n, lc, sig.Params().At(0).Type())), r.one(r.gen("val", n, lc, sig.Params().At(1).Type()))}
				} else {
					as = []Val{r.one(r.gen("elem", n, lc, sig.Params().At(0).Type()))}
				}
				outs, rg, rst := r.callValue(f, sig, as, run, st.clone(), pos)
				if rg != False {
					rst[errLoc] = outs[0]
					es = append(es, edge{g: rg, st: rst})
				}
			}
			if len(es) == 0 {
				return False, st
			}
			return r.join(es)
		}
		var og B
		var ost State
		if seq {
			og, ost = r.seqIterate(coll, good, in, body)
		} else {
			og, ost, _ = r.iterate(map[bool]string{true: "map", false: "seq"}[step == 2], coll, step, good, in, body)
		}
		if og == False {
			if b := r.bdd.And(g, bad); b != False {
				return []Val{e}, b, st
			}
			return r.zeroResults(res), False, st
		}
		ev := ost[errLoc]
		delete(ost, errLoc)
		if bad := r.bdd.And(g, bad); bad != False {
			jg, jst := r.join([]edge{{g: og, st: ost}, {g: bad, st: st}})
			return []Val{r.merge([]Val{ev, e}, []B{og, bad})}, jg, jst
		}
		return []Val{ev}, og, ost
	})
	return outs, og, ost, true
}

func fnParam(args []Val, f *Term) types.Type {
	if f != nil && f.fn != nil {
		s := f.fn.Signature
		// a method expression or bound method keeps only its parameters
		return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
	}
	return types.Typ[types.Invalid]
}
