package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// region is code that runs once per entry of a Go map, in random order: the body
// of a loop, or the body of a function called from one. Roles: 'K' the key of the
// entry or something distinct for distinct keys, 'V' another value of the
// iteration, 'O' (default for parameters and captured variables) anything that
// outlives it.
type region struct {
	d     *det
	fn    *ssa.Function
	in    map[*ssa.BasicBlock]bool // nil: the whole function
	head  *ssa.BasicBlock
	roles map[ssa.Value]byte
	memo  map[ssa.Value]byte
}

func (d *det) mapLoop(fn *ssa.Function, nx *ssa.Next) []detEffect {
	rg := &region{d: d, fn: fn, in: map[*ssa.BasicBlock]bool{}, head: nx.Block(), roles: map[ssa.Value]byte{}}
	rg.in[nx.Block()] = true
	// natural loop of the head
	var work []*ssa.BasicBlock
	for _, pb := range nx.Block().Preds {
		if nx.Block().Dominates(pb) {
			work = append(work, pb)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if rg.in[b] {
			continue
		}
		rg.in[b] = true
		work = append(work, b.Preds...)
	}
	// blocks that leave the loop early belong to the entry they were left at
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if rg.in[b] || len(b.Preds) == 0 {
				continue
			}
			all := true
			for _, pb := range b.Preds {
				if !rg.in[pb] || pb == rg.head {
					all = false
				}
			}
			if all {
				rg.in[b] = true
				ch = true
			}
		}
	}
	rg.roles[nx] = 'V'
	for _, u := range *nx.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				rg.roles[e] = 'K'
			case 2:
				rg.roles[e] = 'V'
			case 0:
				rg.roles[e] = 'O'
			}
		}
	}
	if oneEntry(nx) {
		return nil
	}
	return rg.effects(0)
}

// oneEntry reports whether the loop runs only for maps with at most one entry.
func oneEntry(nx *ssa.Next) bool {
	m := nx.Iter.(*ssa.Range).X
	for b := nx.Block(); b != nil; b = b.Idom() {
		for _, pb := range b.Preds {
			iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
			if !ok || len(b.Preds) != 1 {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			l, ok := cmp.X.(*ssa.Call)
			if !ok || !sameValue(firstArg(l), m) {
				continue
			}
			if k, ok := cmp.Y.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "1" {
				if cmp.Op == token.EQL && pb.Succs[0] == b || cmp.Op == token.NEQ && pb.Succs[1] == b || cmp.Op == token.GTR && pb.Succs[1] == b || cmp.Op == token.LEQ && pb.Succs[0] == b {
					return true
				}
			}
		}
	}
	return false
}

func firstArg(c *ssa.Call) ssa.Value {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && fa.X == fb.X
	}
	return false
}

func (g *region) inside(b *ssa.BasicBlock) bool { return g.in == nil || g.in[b] }

// role of a value.
func (g *region) role(v ssa.Value) byte {
	if r, ok := g.roles[v]; ok {
		return r
	}
	if g.memo == nil {
		g.memo = map[ssa.Value]byte{}
	}
	if r, ok := g.memo[v]; ok {
		return r
	}
	g.memo[v] = 'O'
	r := g.role1(v)
	g.memo[v] = r
	return r
}

func (g *region) role1(v ssa.Value) byte {
	in, ok := v.(ssa.Instruction)
	if !ok || !g.inside(in.Block()) {
		return 'O'
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan:
		return 'V'
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Convert:
		r := g.role(*in.Operands(nil)[0])
		if cv, ok := x.(*ssa.Convert); ok && r == 'K' {
			if b, ok := cv.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return 'V'
			}
		}
		return r
	case *ssa.Phi:
		if x.Block() == g.head {
			return 'V'
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			a, b := g.role(x.X), g.role(x.Y)
			if a == 'K' && g.constant(x.Y) || b == 'K' && g.constant(x.X) {
				return 'K'
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			// a variable of the iteration
			if al, ok := x.X.(*ssa.Alloc); ok && g.inside(al.Block()) {
				if s := onlyStore(al); s != nil {
					return g.role(s)
				}
				return 'V'
			}
			switch g.role(rootAddr(x.X)) {
			case 'K', 'V':
				return 'V'
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && g.role(ia.Index) != 'O' {
				return 'V'
			}
			return 'O'
		}
	case *ssa.Call:
		pk, nm := calleeName(&x.Call)
		if pk == "fmt" && nm == "Sprint" || pk == "strconv" && (nm == "Itoa" || nm == "Quote") {
			if a := g.soleArg(&x.Call); a != nil && g.role(a) == 'K' {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 {
					return 'K'
				}
			}
		}
		return 'V'
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && g.role(*o) != 'O' {
			return 'V'
		}
	}
	return 'O'
}

// soleArg is the argument of a call with one argument, variadic ones unpacked.
func (g *region) soleArg(c *ssa.CallCommon) ssa.Value {
	if len(c.Args) != 1 {
		return nil
	}
	sl, ok := c.Args[0].(*ssa.Slice)
	if !ok {
		return c.Args[0]
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if ar, ok := deref(al.Type()).Underlying().(*types.Array); !ok || ar.Len() != 1 {
		return nil
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if so, ok := u.(*ssa.Store); ok && so.Addr == ia {
					return so.Val
				}
			}
		}
	}
	return nil
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, u := range *al.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == al {
			if v != nil {
				return nil
			}
			v = s.Val
		}
	}
	return v
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (g *region) constant(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok || g.role(v) == 'O' && g.fixed(v)
}

// fixed reports whether a value is the same in every iteration: made outside, and
// no memory that an iteration may have changed.
func (g *region) fixed(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	return !g.inside(in.Block())
}

// atKey reports whether a block only runs for the entry of one given key.
func (g *region) atKey(b *ssa.BasicBlock) bool {
	for ; b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		pb := b.Preds[0]
		iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If)
		if !ok || !g.inside(pb) {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		a, c := cmp.X, cmp.Y
		if g.role(a) != 'K' {
			a, c = c, a
		}
		if g.role(a) != 'K' || !(g.fixed(c) || g.role(c) == 'O') {
			continue
		}
		if cmp.Op == token.EQL && pb.Succs[0] == b || cmp.Op == token.NEQ && pb.Succs[1] == b {
			return true
		}
	}
	return false
}

// effects lists what the region does that depends on the order of the entries.
func (g *region) effects(depth int) []detEffect {
	var out []detEffect
	bad := func(pos token.Pos, f string, a ...interface{}) {
		out = append(out, detEffect{fmt.Sprintf(f, a...) + " in the random order of a map", pos, false})
	}
	if depth > 8 {
		return []detEffect{{"calls too deep from a map range", g.fn.Pos(), true}}
	}
	for _, b := range g.fn.Blocks {
		if !g.inside(b) || g.atKey(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if g.local(x.Addr) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && g.role(ia.Index) == 'K' {
					continue
				}
				if s := g.fold(x.Val, func(v ssa.Value) bool {
					l, ok := v.(*ssa.UnOp)
					return ok && l.Op == token.MUL && sameAddr(l.X, x.Addr)
				}, 0); s != "" {
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if g.sortedLater(ia.X) {
							continue
						}
					}
					bad(x.Pos(), "stores %s", s)
				} else if g.appends(x.Val) && !g.sortedLater(x.Addr) {
					bad(x.Pos(), "extends a list that is not sorted afterwards")
				}
			case *ssa.MapUpdate:
				if g.local(x.Map) || g.role(x.Key) == 'K' || g.fixed(x.Value) {
					continue
				}
				bad(x.Pos(), "overwrites a map entry whose key is not distinct for distinct keys")
			case *ssa.Send:
				if g.fixed(x.X) {
					continue
				}
				bad(x.Pos(), "sends to a channel")
			case *ssa.Go:
				out = append(out, detEffect{"starts a goroutine in a map range", x.Pos(), true})
			case *ssa.Call:
				out = append(out, g.call(&x.Call, x.Pos(), depth)...)
			case *ssa.Defer:
				out = append(out, g.call(&x.Call, x.Pos(), depth)...)
			case *ssa.Return:
				if g.in == nil {
					continue
				}
				for _, v := range x.Results {
					if g.role(v) == 'O' || isErrType(v.Type()) {
						continue
					}
					bad(x.Pos(), "returns what it found at the first entry met")
				}
			case *ssa.Phi:
				if b != g.head {
					continue
				}
				for i, v := range x.Edges {
					if !g.inside(b.Preds[i]) {
						continue
					}
					if s := g.fold(v, func(y ssa.Value) bool { return y == x }, 0); s != "" {
						if g.compared(x) {
							continue
						}
						bad(x.Pos(), "keeps %s", s)
					} else if g.appends(v) && !g.sortedLater(x) {
						bad(x.Pos(), "extends a list that is not sorted afterwards")
					}
				}
			}
		}
	}
	if g.in == nil {
		return out
	}
	// values of one iteration used after the loop
	for _, b := range g.fn.Blocks {
		if g.inside(b) {
			continue
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, v := range ph.Edges {
					if pb := b.Preds[i]; g.inside(pb) && pb != g.head && g.role(v) != 'O' && !isErrType(v.Type()) && !g.atKey(pb) {
						bad(ph.Pos(), "keeps what it found at the first entry met")
					}
				}
				continue
			}
			for _, o := range in.Operands(nil) {
				d, ok := (*o).(ssa.Instruction)
				if !ok || *o == nil || !g.inside(d.Block()) || isErrType((*o).Type()) {
					continue
				}
				if _, phi := (*o).(*ssa.Phi); phi && d.Block() == g.head {
					continue
				}
				if g.role(*o) != 'O' {
					bad(in.Pos(), "uses the value of an arbitrary entry")
				}
			}
		}
	}
	return out
}

// local reports whether memory belongs to the iteration.
func (g *region) local(addr ssa.Value) bool {
	x := rootAddr(addr)
	for {
		if l, ok := x.(*ssa.UnOp); ok && l.Op == token.MUL {
			if al, ok := l.X.(*ssa.Alloc); ok && g.inside(al.Block()) {
				if s := onlyStore(al); s != nil {
					x = rootAddr(s)
					continue
				}
			}
		}
		break
	}
	if ph, ok := x.(*ssa.Phi); ok && ph.Block() == g.head && g.in != nil {
		return false
	}
	return g.role(x) != 'O'
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && sameAddrOrValue(fa.X, fb.X)
}

func sameAddrOrValue(a, b ssa.Value) bool {
	if a == b || sameValue(a, b) {
		return true
	}
	return sameAddr(a, b)
}

// fold decides that combining v with what was there before gives the same in any
// order; otherwise it says what v is.
func (g *region) fold(v ssa.Value, prev func(ssa.Value) bool, depth int) string {
	if depth > 8 {
		return "a value of the entry"
	}
	if prev(v) || g.fixed(v) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB, token.AND_NOT:
			if isString(x.Type()) {
				break
			}
			if prev(x.X) && g.free(x.Y, prev) || prev(x.Y) && g.free(x.X, prev) && x.Op != token.SUB && x.Op != token.AND_NOT {
				return ""
			}
		}
	case *ssa.Phi:
		if x.Block() == g.head && g.in != nil {
			break
		}
		bool_ := false
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			bool_ = true
		}
		gated := false
		for i, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok {
				pb := x.Block().Preds[i]
				if iff, ok := pb.Instrs[len(pb.Instrs)-1].(*ssa.If); ok && prev(iff.Cond) {
					gated = true
				}
			}
		}
		for i, e := range x.Edges {
			if bool_ && gated {
				continue
			}
			if g.atKey(x.Block().Preds[i]) {
				continue
			}
			if s := g.fold(e, prev, depth+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return g.fold(x.Call.Args[0], prev, depth+1)
		}
	case *ssa.Extract:
		if isErrType(x.Type()) {
			return ""
		}
	}
	if isErrType(v.Type()) {
		return ""
	}
	if g.role(v) == 'O' {
		return ""
	}
	return "a value of the entry met last"
}

// free reports whether a value does not depend on what was folded so far.
func (g *region) free(v ssa.Value, prev func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if prev(v) {
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !g.inside(in.Block()) {
			return true
		}
		seen[v] = true
		for _, o := range in.Operands(nil) {
			if *o != nil && !walk(*o) {
				return false
			}
		}
		return true
	}
	return walk(v)
}

// compared reports whether the loop keeps the largest or smallest value.
func (g *region) compared(x *ssa.Phi) bool {
	for _, u := range *x.Referrers() {
		if c, ok := u.(*ssa.BinOp); ok {
			switch c.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				return true
			}
		}
	}
	return false
}

// appends reports whether v is an extended list.
func (g *region) appends(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return false
			}
			// appending the same thing for every entry
			return g.role(x.Call.Args[1]) != 'O'
		}
		return false
	}
	return walk(v)
}

// sortedLater reports whether a list, or the list in a variable, is sorted.
func (g *region) sortedLater(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, depth int) bool
	walk = func(v ssa.Value, depth int) bool {
		if v == nil || seen[v] || depth > 12 {
			return false
		}
		seen[v] = true
		if fv, ok := v.(*ssa.FreeVar); ok {
			if mc := g.d.binds[fv.Parent()]; mc != nil {
				for i, f := range fv.Parent().FreeVars {
					if f == fv && walk(mc.Bindings[i], depth+1) {
						return true
					}
				}
			}
		}
		if pr, ok := v.(*ssa.Parameter); ok {
			for i, f := range pr.Parent().Params {
				if f != pr {
					continue
				}
				for _, cl := range g.d.calls[pr.Parent()] {
					if i < len(cl.Args) && walk(cl.Args[i], depth+1) {
						return true
					}
				}
			}
		}
		if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
			if walk(l.X, depth+1) {
				return true
			}
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			for _, b := range g.fn.Blocks {
				for _, in := range b.Instrs {
					if o, ok := in.(*ssa.FieldAddr); ok && o != fa && sameAddr(o, fa) && walk(o, depth+1) {
						return true
					}
				}
			}
		}
		if v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Call:
				pk, nm := calleeName(&x.Call)
				if pk == "sort" && nm != "Search" || pk == "slices" && strings.HasPrefix(nm, "Sort") {
					return true
				}
				if f := x.Call.StaticCallee(); f != nil && g.d.p.inModule(pkgOf(f)) {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) && walk(f.Params[i], depth+1) {
							return true
						}
					}
				}
				if nm == "append" && pk == "builtin" && walk(x, depth+1) {
					return true
				}
			case *ssa.UnOp, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi, *ssa.Slice, *ssa.Convert:
				if walk(x.(ssa.Value), depth+1) {
					return true
				}
			case *ssa.Store:
				if x.Val == v && walk(x.Addr, depth+1) {
					return true
				}
			case *ssa.MakeClosure:
				for i, bv := range x.Bindings {
					if bv == v && walk(x.Fn.(*ssa.Function).FreeVars[i], depth+1) {
						return true
					}
				}
			case *ssa.Return:
				// sorted by the callers
				fn := x.Parent()
				cs := g.d.calls[fn]
				if len(cs) == 0 {
					continue
				}
				all := true
				for _, cl := range cs {
					cv := callValue(cl, fn, g.d)
					if cv == nil || !walk(cv, depth+1) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

// call decides what a call made for every entry leaves behind.
func (g *region) call(c *ssa.CallCommon, pos token.Pos, depth int) []detEffect {
	pk, nm := calleeName(c)
	switch {
	case pk == "builtin":
		switch nm {
		case "delete":
			if g.local(c.Args[0]) || g.role(c.Args[1]) == 'K' {
				return nil
			}
		case "copy":
			if g.local(c.Args[0]) {
				return nil
			}
			return []detEffect{{"copies in the random order of a map", pos, false}}
		case "print", "println":
		}
		return nil
	case strings.Contains(pk, "logrus"), pk == "log", pk == "strconv", pk == "errors", pk == "unicode", pk == "unicode/utf8", pk == "math", pk == "reflect", pk == "sync", pk == "sync/atomic":
		return nil
	case pk == "fmt" && (strings.HasPrefix(nm, "Sprint") || nm == "Errorf"):
		return nil
	case pk == "strings" && c.Signature().Recv() == nil && !c.IsInvoke():
		return nil
	}
	var fns []*ssa.Function
	args := c.Args
	if f := c.StaticCallee(); f != nil && g.d.p.inModule(pkgOf(f)) {
		fns = append(fns, f)
	} else if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
		if g.d.p.inModule(c.Method.Pkg()) {
			for _, im := range g.d.p.implementers(c.Value.Type()) {
				if sel := g.d.p.prog.MethodSets.MethodSet(im).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := g.d.p.prog.MethodValue(sel); f != nil {
						fns = append(fns, f)
					}
				}
			}
		}
	} else if c.StaticCallee() == nil {
		fns = g.targets(c.Value, 0)
		if g.given(c.Value, 0) && (c.Signature().Results().Len() == 0 || isErrType(c.Signature().Results().At(c.Signature().Results().Len()-1).Type())) {
			return []detEffect{{"calls the function it is given in the random order of a map", pos, false}}
		}
		if fns == nil {
			return []detEffect{{"calls an unknown function for each entry of a map", pos, true}}
		}
	}
	if len(fns) > 0 {
		var out []detEffect
		for _, f := range fns {
			out = append(out, g.into(f, args, c, depth)...)
		}
		return out
	}
	// a function of another module: it may change what it is given
	for _, a := range args {
		if g.role(a) != 'O' {
			continue
		}
		if pointerLike(a.Type()) && !g.fixedConst(a) && !pureExternal(pk, nm) {
			return []detEffect{{"hands " + a.Type().String() + " to " + nm + " in the random order of a map", pos, false}}
		}
	}
	return nil
}

func (g *region) fixedConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func pureExternal(pk, nm string) bool {
	for _, pre := range []string{"To", "Is", "Require", "New", "Get", "Has", "Len"} {
		if strings.HasPrefix(nm, pre) {
			return true
		}
	}
	return false
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// targets resolves a function value.
func (g *region) targets(v ssa.Value, depth int) []*ssa.Function {
	if depth > 4 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return g.targets(x.X, depth+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return g.targets(s, depth+1)
			}
		}
	case *ssa.FreeVar:
		if mc := g.d.binds[x.Parent()]; mc != nil {
			for i, f := range x.Parent().FreeVars {
				if f == x {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						if s := onlyStore(al); s != nil {
							return g.targets(s, depth+1)
						}
					}
					return g.targets(mc.Bindings[i], depth+1)
				}
			}
		}
	case *ssa.Parameter:
		var out []*ssa.Function
		for i, f := range x.Parent().Params {
			if f != x {
				continue
			}
			for _, cl := range g.d.calls[x.Parent()] {
				if i < len(cl.Args) {
					t := g.targets(cl.Args[i], depth+1)
					if t == nil {
						return nil
					}
					out = append(out, t...)
				}
			}
		}
		return out
	}
	return nil
}

// given reports whether a function value comes from outside of the library.
func (g *region) given(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return g.given(x.X, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && strings.Contains(pkgOf(f).Path(), "/pkg/") {
			return true
		}
		for i, pr := range f.Params {
			if pr != x {
				continue
			}
			for _, cl := range g.d.calls[f] {
				if i < len(cl.Args) && g.given(cl.Args[i], depth+1) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if s := onlyStore(al); s != nil {
				return g.given(s, depth+1)
			}
		}
	case *ssa.FreeVar:
		if mc := g.d.binds[x.Parent()]; mc != nil {
			for i, f := range x.Parent().FreeVars {
				if f == x {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						if s := onlyStore(al); s != nil {
							return g.given(s, depth+1)
						}
					}
					return g.given(mc.Bindings[i], depth+1)
				}
			}
		}
	}
	return false
}

// into analyses the body of a function called for every entry.
func (g *region) into(f *ssa.Function, args []ssa.Value, c *ssa.CallCommon, depth int) []detEffect {
	if len(f.Blocks) == 0 {
		return nil
	}
	sub := &region{d: g.d, fn: f, roles: map[ssa.Value]byte{}}
	key := f.String() + ":"
	params := f.Params
	for i, pr := range params {
		r := byte('O')
		if i < len(args) {
			r = g.role(args[i])
		}
		if r == 'O' && i < len(args) && g.local(args[i]) {
			r = 'V'
		}
		sub.roles[pr] = r
		key += string(r)
	}
	if mc := g.d.binds[f]; mc != nil && mc.Parent() == g.fn {
		for i, fv := range f.FreeVars {
			r := g.role(mc.Bindings[i])
			sub.roles[fv] = r
			key += string(r)
		}
	}
	if e, ok := g.d.memo[key]; ok {
		return e
	}
	g.d.memo[key] = nil
	e := sub.effects(depth + 1)
	g.d.memo[key] = e
	return e
}
