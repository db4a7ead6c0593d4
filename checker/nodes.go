package main

// Facts about YAML nodes: every node is in exactly one class, decided by its
// kind and tag, and the generic key of a mapping may be fixed to one constant or
// to "a key other than all of these".

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

const (
	cStr = iota
	cInt
	cFloat
	cBool
	cNull
	cTime
	cBin
	cInclude
	cOther
	cMap
	cSeq
	cAlias
	nClasses
)

var classNames = []string{"string", "int", "float", "bool", "null", "timestamp", "binary", "!include", "other scalar", "mapping", "sequence", "alias"}

type classSet uint16

func classes(cs ...int) classSet {
	var s classSet
	for _, c := range cs {
		s |= 1 << c
	}
	return s
}

const allClasses classSet = 1<<nClasses - 1

var scalarClasses = classes(cStr, cInt, cFloat, cBool, cNull, cTime, cBin, cInclude, cOther)

func (s classSet) names() string {
	var out []string
	for c := 0; c < nClasses; c++ {
		if s&(1<<c) != 0 {
			out = append(out, classNames[c])
		}
	}
	return strings.Join(out, ", ")
}

// KeyPreset fixes what the generic key of a mapping is.
type KeyPreset struct {
	kind string // const, unknown, annotation, resource, scalar, complex
	text string
}

func (k *KeyPreset) String() string {
	switch k.kind {
	case "const":
		return fmt.Sprintf("%q", k.text)
	case "annotation":
		return "an annotation key \"(...)\""
	case "resource":
		return "a resource key \"/...\""
	case "scalar":
		return "a non-string scalar key"
	case "complex":
		return "a sequence or mapping key"
	}
	return "an unrecognised key"
}

// presetOf is the preset of a key node, if any.
func (r *Flow) presetOf(n *Term) *KeyPreset {
	if p := r.nodePre[n]; p != nil {
		return p
	}
	if n.op == "gen" && n.str == "val" && r.seq != nil && n.args[0].single() == r.seq.node {
		if k, ok := r.seq.byLC[n.idx]; ok && k.kind == "const" {
			return r.seq.vals[k.text]
		}
		return nil
	}
	if n.op == "gen" && n.str == "key" {
		if r.seq != nil {
			if p, ok := r.seq.byLC[n.idx]; ok {
				return p
			}
		}
		if m := n.args[0].single(); m != nil {
			return r.keyFor[m]
		}
	}
	return nil
}

func (r *Flow) allowed(n *Term) classSet {
	if s, ok := r.clsFixSet[n]; ok {
		return s
	}
	if p := r.presetOf(n); p != nil {
		switch p.kind {
		case "const", "unknown", "annotation", "resource", "name", "name|":
			return classes(cStr)
		case "include":
			return classes(cInclude)
		case "any":
			return allClasses
		case "scalar":
			return scalarClasses &^ classes(cStr)
		case "complex":
			return classes(cMap, cSeq)
		}
	}
	return allClasses
}

// cls is the guard of a node being in one of the classes.
func (r *Flow) cls(n *Term, want classSet) B {
	al := r.allowed(n)
	want &= al
	if want == al {
		return True
	}
	if want == 0 {
		return False
	}
	g, rest := False, True
	var last int
	for c := 0; c < nClasses; c++ {
		if al&(1<<c) != 0 {
			last = c
		}
	}
	for c := 0; c < nClasses; c++ {
		if al&(1<<c) == 0 {
			continue
		}
		var here B
		if c == last {
			here = rest
			rest = False
		} else {
			v := r.bdd.Var(fmt.Sprintf("cls#%d=%d", n.id, c), r.print(n)+" is "+classNames[c])
			here = r.bdd.And(rest, v)
			rest = r.bdd.Diff(rest, v)
		}
		if want&(1<<c) != 0 {
			g = r.bdd.Or(g, here)
		}
	}
	return g
}

func (r *Flow) kindGuard(n, c *Term) B {
	k, _ := int64Val(c.cst)
	switch k {
	case 2:
		return r.cls(n, classes(cSeq))
	case 4:
		return r.cls(n, classes(cMap))
	case 8:
		return r.cls(n, scalarClasses)
	case 16:
		return r.cls(n, classes(cAlias))
	}
	return False
}

var tagClass = map[string]int{"str": cStr, "int": cInt, "float": cFloat, "bool": cBool, "null": cNull, "timestamp": cTime, "binary": cBin, "map": cMap, "seq": cSeq}

// tagGuard is the guard of a node's tag being t. what tells the raw tag field,
// which the YAML parser fills with short tags, from the long and short forms.
func (r *Flow) tagGuard(n *Term, what, t string) B {
	if t == "!include" {
		return r.cls(n, classes(cInclude))
	}
	var name string
	switch {
	case strings.HasPrefix(t, "!!") && what != "longtag":
		name = t[2:]
	case strings.HasPrefix(t, "tag:yaml.org,2002:") && what == "longtag":
		name = strings.TrimPrefix(t, "tag:yaml.org,2002:")
	case strings.HasPrefix(t, "!!") || strings.HasPrefix(t, "tag:yaml.org,2002:"):
		return False // the other form: never equal
	}
	if c, ok := tagClass[name]; ok {
		return r.cls(n, classes(c))
	}
	return r.bdd.And(r.cls(n, classes(cOther, cSeq, cMap)), r.bdd.Var(fmt.Sprintf("%s#%d=%s", what, n.id, t), what+" of "+r.print(n)+" == "+t))
}

// nodeValue is the text of a node.
func (r *Flow) nodeValue(n *Term, typ types.Type) Val {
	if p := r.presetOf(n); p != nil && p.kind == "const" {
		return r.one(r.str(p.text))
	}
	return r.one(r.app("val", types.Typ[types.String], r.one(n)))
}

func (r *Flow) presetEq(n *Term, s string) (B, bool) {
	p := r.presetOf(n)
	if p == nil || p.kind == "include" || p.kind == "any" {
		return False, false
	}
	if p.kind == "name" || p.kind == "name|" {
		r.nameCmp[s] = true
	}
	if p.kind == "unknown" || p.kind == "scalar" {
		r.keyCmp[s] = true
	}
	return False, true
}

func (r *Flow) prefixGuard(v Val, p string) B {
	g := False
	for _, c := range v {
		g = r.bdd.Or(g, r.bdd.And(c.g, r.prefixT(c.t, p)))
	}
	return g
}

func (r *Flow) prefixT(t *Term, p string) B {
	if p == "" {
		return True
	}
	if t.op == "const" && t.cst.Kind() == constant.String {
		if strings.HasPrefix(constant.StringVal(t.cst), p) {
			return True
		}
		return False
	}
	if t.op == "app" && t.str == "val" {
		if n := t.args[0].single(); n != nil {
			if ps := r.presetOf(n); ps != nil {
				switch ps.kind {
				case "annotation":
					if p == "(" {
						return True
					}
					if !strings.HasPrefix(p, "(") {
						return False
					}
				case "resource":
					if p == "/" {
						return True
					}
					if !strings.HasPrefix(p, "/") {
						return False
					}
				case "include", "any":
				case "name", "name|":
					if p == "!include " || ps.kind == "name" && strings.Contains(p, "|") {
						return False
					}
				default:
					if len(p) == 1 {
						return False
					}
				}
			}
		}
	}
	return r.bdd.Var(fmt.Sprintf("prefix#%d=%s", t.id, p), r.print(t)+" starts with "+fmt.Sprintf("%q", p))
}

func (r *Flow) containsGuard(v Val, sub *Term) B {
	g := False
	for _, c := range v {
		var e B
		if c.t.op == "const" && sub != nil && sub.op == "const" {
			e = False
			if strings.Contains(constant.StringVal(c.t.cst), constant.StringVal(sub.cst)) {
				e = True
			}
		} else if b, ok := r.nameHas(c.t, sub); ok {
			e = b
		} else if sub != nil {
			e = r.bdd.Var(fmt.Sprintf("contains#%d#%d", c.t.id, sub.id), r.print(c.t)+" contains "+r.print(sub))
		}
		g = r.bdd.Or(g, r.bdd.And(c.g, e))
	}
	return g
}

// nameHas decides whether the text of a type name contains a bar.
func (r *Flow) nameHas(t, sub *Term) (B, bool) {
	if t.op != "app" || t.str != "val" || sub == nil || sub.op != "const" || sub.cst.Kind() != constant.String {
		return False, false
	}
	n := t.args[0].single()
	if n == nil {
		return False, false
	}
	p := r.presetOf(n)
	s := constant.StringVal(sub.cst)
	switch {
	case p == nil:
	case s == "":
		return True, true
	case p.kind == "name|" && s == "|":
		return True, true
	case p.kind == "name" && strings.Contains(s, "|"):
		return False, true
	}
	return False, false
}
