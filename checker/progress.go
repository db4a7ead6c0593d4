package main

// Loops end: every iteration moves a variable towards a bound the loop does not
// move, or shortens a list or text that must not be empty.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects is what running code may change, by the field or variable stored to.
type effects struct {
	what map[string]bool
	any  bool // calls code that is not known
	ext  bool // calls other libraries, which cannot reach fields of the module
}

func fieldKey(fa *ssa.FieldAddr) string {
	return typeKey(deref(fa.X.Type())) + "." + fmt.Sprint(fa.Field)
}

// storeKey names the memory an address belongs to.
func storeKey(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(a)
	case *ssa.Global:
		return "global " + a.String()
	case *ssa.IndexAddr:
		return "element"
	case *ssa.Alloc:
		return "local " + a.Parent().String() + " " + a.Name()
	case *ssa.FreeVar:
		return "variable " + a.Type().String()
	}
	return "*" + a.Type().String()
}

// freshIn reports whether an address belongs to something made inside the given
// blocks (nil: anywhere in the function).
func freshIn(a ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
			return false
		case *ssa.Alloc:
			return in == nil || in[x.Block()]
		}
		return false
	}
}

// effectsOf collects what code reachable from a function may change.
func (p *Prog) effectsOf(fn *ssa.Function) *effects {
	if p.effMemo == nil {
		p.effMemo = map[*ssa.Function]*effects{}
	}
	if e, ok := p.effMemo[fn]; ok {
		return e
	}
	out := &effects{what: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				p.instrEffect(in, nil, out, visit)
			}
		}
	}
	visit(fn)
	p.effMemo[fn] = out
	return out
}

func (p *Prog) instrEffect(in ssa.Instruction, blocks map[*ssa.BasicBlock]bool, out *effects, visit func(*ssa.Function)) {
	switch in := in.(type) {
	case *ssa.Store:
		if !freshIn(in.Addr, blocks) {
			out.what[storeKey(in.Addr)] = true
		}
	case *ssa.MapUpdate:
		out.what["map"] = true
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		out.any = true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear":
			out.what["element"] = true
			if b.Name() == "clear" {
				out.what["map"] = true
			}
		case "delete":
			out.what["map"] = true
		}
		return
	}
	if cc.IsInvoke() {
		ts := p.implementers(cc.Value.Type())
		if len(ts) == 0 && cc.Method.Name() != "Error" && cc.Method.Name() != "String" {
			out.any = true
		}
		for _, t := range ts {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := p.prog.MethodValue(sel); f != nil {
					visit(f)
				}
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if p.inModule(pkgOf(f)) && len(f.Blocks) > 0 {
			visit(f)
			return
		}
		switch pk := pkgOf(f); {
		case pk == nil:
			out.any = true
		case pk.Path() == "strings" || pk.Path() == "strconv" || pk.Path() == "fmt" || pk.Path() == "errors" || pk.Path() == "unicode" || pk.Path() == "unicode/utf8" || pk.Path() == "math":
		default:
			out.ext = true
		}
		return
	}
	// a function value: any function of the module with that signature
	for _, f := range p.fns {
		if f.Parent() != nil && types.Identical(f.Signature, cc.Signature()) {
			visit(f)
		}
	}
	if _, ok := cc.Value.(*ssa.MakeClosure); !ok {
		out.what["callback"] = true
	}
}

// loopEffects is what an iteration may change.
func (p *Prog) loopEffects(l *loop) *effects {
	out := &effects{what: map[string]bool{}}
	visit := func(f *ssa.Function) {
		e := p.effectsOf(f)
		for k := range e.what {
			out.what[k] = true
		}
		out.any, out.ext = out.any || e.any, out.ext || e.ext
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			p.instrEffect(in, l.blocks, out, visit)
		}
	}
	return out
}

// looping decides one loop.
type looping struct {
	p   *Prog
	fn  *ssa.Function
	l   *loop
	eff *effects
}

// latches are the blocks that go back to the head.
func (x *looping) latches() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range x.l.head.Preds {
		if x.l.blocks[b] {
			out = append(out, b)
		}
	}
	return out
}

// exits are the tests every iteration makes whose one outcome leaves the loop.
type exitTest struct {
	cond ssa.Value
	stay bool // outcome that continues
}

func (x *looping) exits() (every []exitTest, some bool) {
	for b := range x.l.blocks {
		last := b.Instrs[len(b.Instrs)-1]
		switch last := last.(type) {
		case *ssa.Return, *ssa.Panic:
			some = true
		case *ssa.If:
			in0, in1 := x.l.blocks[b.Succs[0]], x.l.blocks[b.Succs[1]]
			if in0 && in1 {
				continue
			}
			some = true
			all := true
			for _, la := range x.latches() {
				if !b.Dominates(la) {
					all = false
				}
			}
			if all {
				every = append(every, exitTest{last.Cond, in0})
			}
		default:
			for _, s := range b.Succs {
				if !x.l.blocks[s] {
					some = true
				}
			}
		}
	}
	return
}

// fixed reports whether a value is the same in every iteration.
func (x *looping) fixed(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if !x.l.blocks[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return x.fixed(v.X, depth+1) && x.fixed(v.Y, depth+1)
	case *ssa.Convert:
		return x.fixed(v.X, depth+1)
	case *ssa.ChangeType:
		return x.fixed(v.X, depth+1)
	case *ssa.FieldAddr:
		return x.fixed(v.X, depth+1)
	case *ssa.Field:
		return x.fixed(v.X, depth+1)
	case *ssa.Slice:
		return x.fixed(v.X, depth+1) && (v.Low == nil || x.fixed(v.Low, depth+1)) && (v.High == nil || x.fixed(v.High, depth+1))
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return x.fixed(v.X, depth+1)
		}
		if !x.fixed(v.X, depth+1) || x.eff.any || x.eff.ext && !x.p.private(v.X) {
			return false
		}
		return !x.eff.what[storeKey(v.X)] && !x.eff.what["*"+v.X.Type().String()]
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range v.Call.Args {
				if !x.fixed(a, depth+1) {
					return false
				}
				if _, ok := a.Type().Underlying().(*types.Map); ok && x.eff.what["map"] {
					return false
				}
			}
			return true
		}
		f := v.Call.StaticCallee()
		if f == nil || x.eff.any || x.eff.ext {
			return false
		}
		for _, a := range v.Call.Args {
			if !x.fixed(a, depth+1) {
				return false
			}
		}
		return x.p.readsOnly(f, x.eff, 0)
	}
	return false
}

// private reports whether an address is of a field only this module can name, or
// of a local variable.
func (p *Prog) private(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		n := namedOf(deref(a.X.Type()))
		return n != nil && p.inModule(n.Obj().Pkg()) && !token.IsExported(fieldName(a.X.Type(), a.Field))
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

// readsOnly reports whether a function computes its result from its arguments and
// from memory the given code does not change.
func (p *Prog) readsOnly(f *ssa.Function, eff *effects, depth int) bool {
	if !p.inModule(pkgOf(f)) {
		pk := pkgOf(f)
		return pk != nil && (pk.Path() == "strings" || pk.Path() == "strconv")
	}
	if depth > 4 || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !freshIn(in.Addr, nil) {
					return false
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && (eff.what[storeKey(in.X)] || eff.what["*"+in.X.Type().String()]) {
					return false
				}
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Lookup:
				if eff.what["map"] {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.Next:
				return false
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "len" || b.Name() == "cap" {
						if _, ok := in.Call.Args[0].Type().Underlying().(*types.Map); ok && eff.what["map"] {
							return false
						}
						continue
					}
					if b.Name() == "min" || b.Name() == "max" {
						continue
					}
					return false
				}
				c := in.Call.StaticCallee()
				if c == nil || !p.readsOnly(c, eff, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// span is by how much a value differs from a variable of the loop.
type span struct {
	lo, hi int64
	ok     bool
}

// moved is the range of v - phi, for numbers.
func (x *looping) moved(v ssa.Value, phi *ssa.Phi, open map[*ssa.Phi]bool) span {
	if v == ssa.Value(phi) {
		return span{0, 0, true}
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, ok := int64Val(c.Value)
				s := x.moved(v.X, phi, open)
				if !ok || !s.ok {
					return span{}
				}
				if v.Op == token.SUB {
					n = -n
				}
				return span{s.lo + n, s.hi + n, true}
			}
			if c, ok := v.X.(*ssa.Const); ok && v.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
				if n, ok := int64Val(c.Value); ok {
					if s := x.moved(v.Y, phi, open); s.ok {
						return span{s.lo + n, s.hi + n, true}
					}
				}
			}
		}
	case *ssa.Convert:
		if isIntegral(v.Type()) && isIntegral(v.X.Type()) {
			return x.moved(v.X, phi, open)
		}
	case *ssa.Phi:
		return x.merged(v, phi, open, x.moved)
	}
	return span{}
}

func isIntegral(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

const farAway = int64(1) << 40

// merged is the range over the edges of a variable of the body, which may belong
// to a loop inside.
func (x *looping) merged(v, phi *ssa.Phi, open map[*ssa.Phi]bool, f func(ssa.Value, *ssa.Phi, map[*ssa.Phi]bool) span) span {
	if !x.l.blocks[v.Block()] || v.Block() == x.l.head {
		return span{}
	}
	if inner := x.p.loopsOf(x.fn).header[v.Block()]; inner != nil {
		// the value it starts with, and then whatever the loop inside adds
		in := &looping{p: x.p, fn: x.fn, l: inner, eff: x.eff}
		out := span{}
		lo, hi := int64(0), int64(0)
		for i, e := range v.Edges {
			if inner.blocks[v.Block().Preds[i]] {
				var s span
				if f2 := x.pick(in, f, v); f2 != nil {
					s = f2(e, v, map[*ssa.Phi]bool{})
				}
				if !s.ok {
					return span{}
				}
				if s.lo < 0 {
					lo = -farAway
				}
				if s.hi > 0 {
					hi = farAway
				}
				continue
			}
			s := f(e, phi, open)
			if !s.ok {
				return span{}
			}
			if !out.ok {
				out = s
			} else {
				out.lo, out.hi = min(out.lo, s.lo), max(out.hi, s.hi)
			}
		}
		out.lo += lo
		out.hi += hi
		return out
	}
	if open[v] {
		return span{}
	}
	open[v] = true
	defer delete(open, v)
	out := span{}
	for _, e := range v.Edges {
		s := f(e, phi, open)
		if !s.ok {
			return span{}
		}
		if !out.ok {
			out = s
		} else {
			out.lo, out.hi = min(out.lo, s.lo), max(out.hi, s.hi)
		}
	}
	return out
}

// pick gives the measure of an inner loop that corresponds to one of this loop.
func (x *looping) pick(in *looping, f func(ssa.Value, *ssa.Phi, map[*ssa.Phi]bool) span, v *ssa.Phi) func(ssa.Value, *ssa.Phi, map[*ssa.Phi]bool) span {
	if isIntegral(v.Type()) {
		return in.moved
	}
	return in.shortened
}

// shortened is the range of len(phi) - len(v), for lists and texts.
func (x *looping) shortened(v ssa.Value, phi *ssa.Phi, open map[*ssa.Phi]bool) span {
	if v == ssa.Value(phi) {
		return span{0, 0, true}
	}
	switch v := v.(type) {
	case *ssa.Slice:
		s := x.shortened(v.X, phi, open)
		if !s.ok {
			return span{}
		}
		n := int64(0)
		if v.Low != nil {
			n = max(n, x.atLeast(v.Low))
		}
		if v.High != nil {
			// up to len - k
			if b, ok := v.High.(*ssa.BinOp); ok && b.Op == token.SUB && x.lenOf(b.X) == v.X {
				if k, ok := constOf(b.Y); ok && v.Low == nil {
					n = max(n, k)
				}
			}
		}
		return span{s.lo + n, s.hi + farAway, true}
	case *ssa.ChangeType:
		return x.shortened(v.X, phi, open)
	case *ssa.Phi:
		return x.merged(v, phi, open, x.shortened)
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && pkgOf(f) != nil && pkgOf(f).Path() == "strings" {
			switch f.Name() {
			case "TrimSpace", "TrimPrefix", "TrimSuffix", "TrimLeft", "TrimRight", "Trim":
				if s := x.shortened(v.Call.Args[0], phi, open); s.ok {
					return span{s.lo, s.hi + farAway, true}
				}
			}
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && pkgOf(f) != nil && pkgOf(f).Path() == "strings" && f.Name() == "Cut" {
				sep, ok := c.Call.Args[1].(*ssa.Const)
				s := x.shortened(c.Call.Args[0], phi, open)
				if ok && s.ok && sep.Value != nil && constant.StringVal(sep.Value) != "" && v.Index <= 1 {
					n := int64(0)
					if v.Index == 1 {
						n = 1 // or nothing is left
					}
					return span{s.lo + n, s.hi + farAway, true}
				}
			}
		}
	}
	return span{}
}

func constOf(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return int64Val(c.Value)
	}
	return 0, false
}

// atLeast is a lower bound of a start position.
func (x *looping) atLeast(v ssa.Value) int64 {
	if n, ok := constOf(v); ok {
		return n
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if n, ok := constOf(b.Y); ok {
			return x.floorOf(b.X) + n
		}
		if n, ok := constOf(b.X); ok {
			return x.floorOf(b.Y) + n
		}
	}
	return max(0, x.floorOf(v))
}

// floorOf is a lower bound of a number: positions found in a text are at least
// -1, and at least 0 where the negative case left.
func (x *looping) floorOf(v ssa.Value) int64 {
	c, ok := v.(*ssa.Call)
	if !ok {
		return -farAway
	}
	if x.lenOf(v) != nil {
		return 0
	}
	f := c.Call.StaticCallee()
	if f == nil || pkgOf(f) == nil || pkgOf(f).Path() != "strings" || !strings.Contains(f.Name(), "Index") {
		return -farAway
	}
	for _, u := range *c.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || b.X != v {
			continue
		}
		n, isC := constOf(b.Y)
		for _, w := range *b.Referrers() {
			i, ok := w.(*ssa.If)
			if !ok || !isC {
				continue
			}
			t := i.Block().Succs[0] // the branch on which it is negative leaves
			switch {
			case b.Op == token.LSS && n == 0, b.Op == token.EQL && n == -1, b.Op == token.LEQ && n == -1:
			case b.Op == token.GEQ && n == 0, b.Op == token.NEQ && n == -1, b.Op == token.GTR && n == -1:
				t = i.Block().Succs[1]
			default:
				continue
			}
			if !x.l.blocks[t] {
				return 0
			}
		}
	}
	return -1
}

// lenOf is the value whose length v is.
func (x *looping) lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// phis are the variables an iteration hands to the next.
func (x *looping) phis() []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range x.l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

// step is the range of a measure over the ways back to the head.
func (x *looping) step(phi *ssa.Phi, f func(ssa.Value, *ssa.Phi, map[*ssa.Phi]bool) span) span {
	out := span{}
	for i, b := range phi.Block().Preds {
		if !x.l.blocks[b] {
			continue
		}
		s := f(phi.Edges[i], phi, map[*ssa.Phi]bool{})
		if !s.ok {
			return span{}
		}
		if !out.ok {
			out = s
		} else {
			out.lo, out.hi = min(out.lo, s.lo), max(out.hi, s.hi)
		}
	}
	return out
}

// ends reports whether the loop certainly ends, and how.
func (x *looping) ends() (string, bool) {
	every, _ := x.exits()
	for _, e := range every {
		// range over a map or a text
		cond, stay := e.cond, e.stay
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, stay = u.X, !stay
		}
		if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 0 && stay {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				return "ranges over its entries", true
			}
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := b.Op
		if !stay {
			op = negate(op)
		}
		for _, phi := range x.phis() {
			if isIntegral(phi.Type()) {
				if why, ok := x.counts(phi, op, b.X, b.Y); ok {
					return why, true
				}
				if why, ok := x.counts(phi, mirror(op), b.Y, b.X); ok {
					return why, true
				}
			} else if why, ok := x.shrinks(phi, op, b.X, b.Y); ok {
				return why, true
			}
		}
	}
	return "", false
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return token.ILLEGAL
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// counts: the loop goes on while v op bound, v moves with phi, and phi moves the
// right way.
func (x *looping) counts(phi *ssa.Phi, op token.Token, v, bound ssa.Value) (string, bool) {
	if s := x.moved(v, phi, map[*ssa.Phi]bool{}); !s.ok || s.hi >= farAway || s.lo <= -farAway {
		return "", false
	}
	if !x.fixed(bound, 0) {
		return "", false
	}
	s := x.step(phi, x.moved)
	if !s.ok {
		return "", false
	}
	switch op {
	case token.LSS, token.LEQ:
		return "counts up to a bound", s.lo >= 1
	case token.GTR, token.GEQ:
		return "counts down to a bound", s.hi <= -1
	case token.NEQ:
		if s.lo == 1 && s.hi == 1 && x.startsBelow(phi, bound) {
			return "counts up to a bound", true
		}
		if n, ok := constOf(bound); ok && s.lo == -1 && s.hi == -1 && x.startsAbove(phi, n) {
			return "counts down to a bound", true
		}
	}
	return "", false
}

func (x *looping) starts(phi *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for i, b := range phi.Block().Preds {
		if !x.l.blocks[b] {
			out = append(out, phi.Edges[i])
		}
	}
	return out
}

func (x *looping) startsBelow(phi *ssa.Phi, bound ssa.Value) bool {
	n, isC := constOf(bound)
	for _, s := range x.starts(phi) {
		c, ok := constOf(s)
		if !ok {
			return false
		}
		if isC && c <= n || c <= 0 && x.lenOf(bound) != nil {
			continue
		}
		return false
	}
	return true
}

func (x *looping) startsAbove(phi *ssa.Phi, n int64) bool {
	for _, s := range x.starts(phi) {
		if c, ok := constOf(s); ok && c >= n {
			continue
		}
		if x.lenOf(s) != nil && n <= 0 {
			continue
		}
		if b, ok := s.(*ssa.BinOp); ok && b.Op == token.SUB && x.lenOf(b.X) != nil {
			if k, ok := constOf(b.Y); ok && -k >= n {
				continue
			}
		}
		return false
	}
	return true
}

// shrinks: the loop goes on while something is left of phi, and every iteration
// takes some of it.
func (x *looping) shrinks(phi *ssa.Phi, op token.Token, v, bound ssa.Value) (string, bool) {
	switch phi.Type().Underlying().(type) {
	case *types.Slice:
	case *types.Basic:
		if phi.Type().Underlying().(*types.Basic).Info()&types.IsString == 0 {
			return "", false
		}
	default:
		return "", false
	}
	s := x.step(phi, x.shortened)
	if !s.ok || s.lo < 1 {
		return "", false
	}
	for _, m := range []struct {
		op   token.Token
		v, b ssa.Value
	}{{op, v, bound}, {mirror(op), bound, v}} {
		l := x.lenOf(m.v)
		n, isC := constOf(m.b)
		switch {
		case l != nil && isC && x.shortened(l, phi, map[*ssa.Phi]bool{}).ok:
			if m.op == token.GTR && n >= 0 || m.op == token.GEQ && n >= 1 || m.op == token.NEQ && n == 0 {
				return "takes from a list until it is empty", true
			}
		case m.op == token.NEQ && x.shortened(m.v, phi, map[*ssa.Phi]bool{}).ok:
			if c, ok := m.b.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
				return "takes from a text until it is empty", true
			}
		}
	}
	return "", false
}

// stuck looks for an iteration that changes nothing: neither a variable of the
// loop nor anything in memory, so that the next is the same again.
func (x *looping) stuck() (token.Pos, bool) {
	_, some := x.exits()
	if !some {
		return x.fn.Pos(), true
	}
	budget := 4000
	type fact map[string]bool
	var found token.Pos
	var walk func(b, prev *ssa.BasicBlock, on map[*ssa.BasicBlock]bool, facts fact, env map[*ssa.Phi]ssa.Value) bool
	val := func(v ssa.Value, env map[*ssa.Phi]ssa.Value) ssa.Value {
		for i := 0; i < 20; i++ {
			p, ok := v.(*ssa.Phi)
			if !ok || env[p] == nil {
				break
			}
			v = env[p]
		}
		return v
	}
	walk = func(b, prev *ssa.BasicBlock, on map[*ssa.BasicBlock]bool, facts fact, env map[*ssa.Phi]ssa.Value) bool {
		budget--
		if budget < 0 || on[b] {
			return false
		}
		on[b] = true
		defer delete(on, b)
		env2 := map[*ssa.Phi]ssa.Value{}
		for k, v := range env {
			env2[k] = v
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if b == x.l.head {
					continue
				}
				for i, q := range b.Preds {
					if q == prev {
						env2[in] = val(in.Edges[i], env)
					}
				}
			case *ssa.Next:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			}
			out := &effects{what: map[string]bool{}}
			x.p.instrEffect(in, x.l.blocks, out, func(f *ssa.Function) {
				e := x.p.effectsOf(f)
				out.any, out.ext = out.any || e.any, out.ext || e.ext
				for k := range e.what {
					out.what[k] = true
				}
			})
			if out.any || out.ext || len(out.what) > 0 {
				return false
			}
		}
		next := b.Succs
		var key string
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c := val(i.Cond, env2)
			if k, ok := c.(*ssa.Const); ok && k.Value != nil {
				if constant.BoolVal(k.Value) {
					next = b.Succs[:1]
				} else {
					next = b.Succs[1:]
				}
			} else {
				key = x.expr(c, env2, val, 0)
			}
		}
		for i, s := range next {
			if !x.l.blocks[s] {
				continue
			}
			if key != "" {
				if was, ok := facts[key]; ok && was != (i == 0) {
					continue
				}
			}
			f2 := facts
			if key != "" {
				f2 = fact{key: i == 0}
				for k, v := range facts {
					f2[k] = v
				}
			}
			if s == x.l.head {
				same := true
				for _, p := range x.phis() {
					for j, q := range s.Preds {
						if q != b {
							continue
						}
						if !backAt(p.Edges[j], p, env2, val) {
							same = false
						}
					}
				}
				if same {
					found = b.Instrs[len(b.Instrs)-1].Pos()
					for _, in := range b.Instrs {
						if in.Pos().IsValid() {
							found = in.Pos()
						}
					}
					if !found.IsValid() {
						found = x.pos()
					}
					return true
				}
				continue
			}
			if walk(s, b, on, f2, env2) {
				return true
			}
		}
		return false
	}
	if walk(x.l.head, nil, map[*ssa.BasicBlock]bool{}, fact{}, map[*ssa.Phi]ssa.Value{}) {
		return found, true
	}
	return 0, false
}

// backAt reports whether a value is the variable it started from: itself, or moved
// on and back again by the same amount.
func backAt(v ssa.Value, p *ssa.Phi, env map[*ssa.Phi]ssa.Value, val func(ssa.Value, map[*ssa.Phi]ssa.Value) ssa.Value) bool {
	n := int64(0)
	for i := 0; i < 20; i++ {
		v = val(v, env)
		if v == ssa.Value(p) {
			return n == 0
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || !isIntegral(b.Type()) {
			return false
		}
		switch k, ok := constOf(b.Y); {
		case ok && b.Op == token.ADD:
			n += k
			v = b.X
		case ok && b.Op == token.SUB:
			n -= k
			v = b.X
		default:
			k, ok := constOf(b.X)
			if !ok || b.Op != token.ADD {
				return false
			}
			n += k
			v = b.Y
		}
	}
	return false
}

// expr names a condition, so that the same test made twice has one outcome.
func (x *looping) expr(v ssa.Value, env map[*ssa.Phi]ssa.Value, val func(ssa.Value, map[*ssa.Phi]ssa.Value) ssa.Value, depth int) string {
	v = val(v, env)
	if depth > 6 {
		return v.Name()
	}
	sub := func(w ssa.Value) string { return x.expr(w, env, val, depth+1) }
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.BinOp:
		return "(" + sub(v.X) + v.Op.String() + sub(v.Y) + ")"
	case *ssa.UnOp:
		return v.Op.String() + sub(v.X)
	case *ssa.FieldAddr:
		return sub(v.X) + "." + fmt.Sprint(v.Field)
	case *ssa.IndexAddr:
		return sub(v.X) + "[" + sub(v.Index) + "]"
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && len(v.Call.Args) == 1 {
			return b.Name() + "(" + sub(v.Call.Args[0]) + ")"
		}
	}
	return v.Name()
}

func (x *looping) pos() token.Pos {
	for _, in := range x.l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range x.fn.Blocks {
		if !x.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return x.fn.Pos()
}

// loopsEnd decides every loop of the module.
func (c *Check) loopsEnd(p *Prog) {
	for _, fn := range p.fns {
		if len(fn.Blocks) == 0 {
			continue
		}
		c.fnSeen[fn.String()] = true
		li := p.loopsOf(fn)
		var heads []*ssa.BasicBlock
		for h := range li.header {
			heads = append(heads, h)
		}
		sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
		for i, h := range heads {
			x := &looping{p: p, fn: fn, l: li.header[h]}
			x.eff = p.loopEffects(x.l)
			key := fmt.Sprintf("%s/loop %d", fnName(fn), i+1)
			if _, ok := x.ends(); ok {
				c.ob(nil, key, true, x.pos(), "")
				continue
			}
			if pos, ok := x.stuck(); ok {
				c.ob(nil, key, false, x.pos(), "an iteration of the loop in %s can go round without changing anything (back at %s), and so never ends", fnName(fn), p.pos(pos))
				continue
			}
			c.open(key, "the loop at "+p.pos(x.pos())+" is not known to end")
		}
	}
}
