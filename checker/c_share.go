package main

// Sharing between documents. Two ways lead to it: memory that belongs to the
// package (a variable, or a variable captured by a function literal made when
// the package is initialised) and one object being put in two places during one
// operation. The first is decided by a reference flow over the whole module,
// here; the second from the heaps of the analysed operations, in c_share2.go.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	shMem  = 1 // is (a reference to) the shared memory
	shHold = 2 // is new memory whose entries refer to shared memory
)

type shareEvent struct {
	key, what string
	pos       token.Pos
	soft      bool
}

// share follows the references to the memory of one origin.
type share struct {
	p      *Prog
	isSrc  func(v ssa.Value) bool
	fields map[*types.Var]int // fields that refer to it
	cells  map[ssa.Value]int  // local variables that refer to it
	free   map[ssa.Value]int  // captured values
	sums   map[string][]int
	busy   map[string]bool
	events map[string]shareEvent
	inited map[*ssa.Function]bool
	d      *det
	dirty  bool
}

// refType reports whether values of a type refer to memory that can change.
func refType(t types.Type, depth int) bool {
	if t == nil || depth > 5 || isErrType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan, *types.Pointer, *types.Interface:
		return true
	case *types.Array:
		return refType(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Tuple:
		return true
	case *types.Signature:
		return false
	}
	return false
}

// constPtr: values of the type cannot be used to change anything.
func constPtr(t types.Type) bool {
	switch typeKey(t) {
	case "*regexp.Regexp", "*strings.Replacer", "*time.Location", "reflect.Type", "reflect.Value", "*text/template.Template":
		return true
	}
	return false
}

func (s *share) note(fn *ssa.Function, pos token.Pos, soft bool, f string, a ...interface{}) {
	what := fmt.Sprintf(f, a...)
	key := fn.String() + ":" + what
	if _, ok := s.events[key]; !ok {
		s.events[key] = shareEvent{key, what + " in " + fn.String(), pos, soft}
	}
}

func fieldOf(x ssa.Value, i int) *types.Var {
	t := x.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

// copied lists the fields a copy of a value of type t shares with the original.
func copied(t types.Type, f func(*types.Var), depth int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 5 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if _, ok := v.Type().Underlying().(*types.Struct); ok {
			copied(v.Type(), f, depth+1)
		} else if refType(v.Type(), 0) && !constPtr(v.Type()) {
			f(v)
		}
	}
}

// locked reports whether a function takes a lock or uses atomic operations.
func locked(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					c = &in.Call
				case *ssa.Defer:
					c = &in.Call
				default:
					continue
				}
				pk, nm := calleeName(c)
				if pk == "sync" && (nm == "Lock" || nm == "Unlock") {
					return true
				}
			}
		}
	}
	return false
}

// initFns lists the functions that run only while packages are initialised, or
// once under sync.Once.
func (p *Prog) initFns(d *det) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		if fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") {
			out[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				pk, nm := calleeName(&cl.Call)
				if pk != "sync" || nm != "Do" && !strings.HasPrefix(nm, "Once") {
					continue
				}
				for _, a := range cl.Call.Args {
					for _, f := range d.targets(a) {
						out[f] = true
					}
				}
			}
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	other := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					c = &in.Call
				case *ssa.Defer:
					c = &in.Call
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c != nil && c.Value == f {
						callers[f] = append(callers[f], fn)
					} else if _, ok := in.(*ssa.MakeClosure); !ok {
						other[f] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for f, cs := range callers {
			if out[f] || other[f] || f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil {
				continue
			}
			all := len(cs) > 0
			for _, c := range cs {
				all = all && out[c]
			}
			if all {
				out[f] = true
				again = true
			}
		}
	}
	return out
}

// targets resolves a function value.
func (d *det) targets(v ssa.Value) []*ssa.Function {
	g := &region{d: d}
	return g.targets(v, 0)
}

// walk follows the references through one function whose parameters hold the
// given levels, and gives the levels of its results.
func (s *share) walk(fn *ssa.Function, params []int) []int {
	if len(fn.Blocks) == 0 {
		return nil
	}
	key := fmt.Sprintf("%p%v", fn, params)
	if s.busy[key] {
		return s.sums[key]
	}
	s.busy[key] = true
	defer func() { s.busy[key] = false }()
	lv := map[ssa.Value]int{}
	for i, pr := range fn.Params {
		if i < len(params) && params[i] != 0 {
			lv[pr] = params[i]
		}
	}
	get := func(v ssa.Value) int {
		l := lv[v] | s.free[v]
		if s.isSrc(v) {
			l |= shMem
		}
		return l
	}
	res := make([]int, fn.Signature.Results().Len())
	quiet := s.inited[fn]
	write := func(in ssa.Instruction, f string, a ...interface{}) {
		if !quiet {
			s.note(fn, in.Pos(), locked(fn), f, a...)
		}
	}
	// hold records that a fresh container found at v got entries of a level
	var hold func(v ssa.Value, depth int)
	changed := true
	set := func(v ssa.Value, l int) {
		if l != 0 && lv[v]|l != lv[v] {
			lv[v] |= l
			changed = true
		}
	}
	setField := func(f *types.Var, l int) {
		if f != nil && l != 0 && s.fields[f]|l != s.fields[f] {
			s.fields[f] |= l
			changed, s.dirty = true, true
		}
	}
	setCell := func(v ssa.Value, l int) {
		if l != 0 && s.cells[v]|l != s.cells[v] {
			s.cells[v] |= l
			changed, s.dirty = true, true
		}
	}
	hold = func(v ssa.Value, depth int) {
		if depth > 6 {
			return
		}
		set(v, shHold)
		switch x := v.(type) {
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				setField(fieldOf(a.X, a.Field), shHold)
			case *ssa.Alloc, *ssa.FreeVar:
				setCell(a, shHold)
			}
		case *ssa.Slice:
			hold(x.X, depth+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				hold(e, depth+1)
			}
		case *ssa.ChangeType:
			hold(x.X, depth+1)
		}
	}
	callees := func(c *ssa.CallCommon) ([]*ssa.Function, []ssa.Value, bool) {
		if f := c.StaticCallee(); f != nil {
			if s.p.inModule(pkgOf(f)) && len(f.Blocks) > 0 {
				return []*ssa.Function{f}, c.Args, true
			}
			return nil, c.Args, true
		}
		if c.IsInvoke() {
			var fns []*ssa.Function
			if s.p.inModule(c.Method.Pkg()) {
				for _, im := range s.p.implementers(c.Value.Type()) {
					if sel := s.p.prog.MethodSets.MethodSet(im).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if f := s.p.prog.MethodValue(sel); f != nil {
							fns = append(fns, f)
						}
					}
				}
			}
			return fns, append([]ssa.Value{c.Value}, c.Args...), true
		}
		fns := s.d.targets(c.Value)
		return fns, c.Args, fns != nil
	}
	call := func(in ssa.Instruction, c *ssa.CallCommon, dst ssa.Value) {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				d := get(c.Args[0])
				if len(c.Args) > 1 {
					if a := get(c.Args[1]); a != 0 {
						et, ok := c.Args[1].Type().Underlying().(*types.Slice)
						if ok && refType(et.Elem(), 0) {
							d |= shHold
							hold(c.Args[0], 0)
						}
					}
				}
				if d&shMem != 0 && !quiet {
					s.note(fn, in.Pos(), true, "appends to shared memory")
				}
				if dst != nil {
					set(dst, d)
				}
			case "copy":
				if get(c.Args[0])&shMem != 0 {
					write(in, "copies into shared memory")
				}
				if get(c.Args[1]) != 0 {
					if et, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && refType(et.Elem(), 0) {
						hold(c.Args[0], 0)
					}
				}
			case "delete", "clear":
				if get(c.Args[0])&shMem != 0 {
					write(in, "deletes from shared memory")
				}
			}
			return
		}
		fns, args, known := callees(c)
		ls := make([]int, len(args))
		any := 0
		for i, a := range args {
			ls[i] = get(a)
			if !refType(a.Type(), 0) {
				ls[i] = 0
			}
			any |= ls[i]
		}
		for _, f := range fns {
			r := s.walk(f, ls)
			if dst == nil {
				continue
			}
			if len(r) == 1 {
				set(dst, r[0])
			} else {
				for _, u := range *dst.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index < len(r) && refType(e.Type(), 0) {
						set(e, r[e.Index])
					}
				}
			}
		}
		if len(fns) > 0 || any == 0 {
			return
		}
		pk, nm := calleeName(c)
		if !known {
			s.note(fn, in.Pos(), true, "hands shared memory to an unknown function")
			return
		}
		switch what := s.external(pk, nm, c, ls); what {
		case "pure":
		case "result", "copies":
			l := shMem
			if what == "copies" {
				l = shHold
			}
			if dst == nil {
				break
			}
			if _, ok := dst.Type().(*types.Tuple); ok {
				for _, u := range *dst.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && refType(e.Type(), 0) {
						set(e, l)
					}
				}
			} else if refType(dst.Type(), 0) {
				set(dst, l)
			}
		case "write":
			write(in, "changes shared memory through %s.%s", pk, nm)
		case "sync":
		default:
			if !quiet {
				s.note(fn, in.Pos(), true, "hands shared memory to %s.%s", pk, nm)
			}
		}
	}
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op != token.MUL {
						if in.Op == token.ARROW && get(in.X) != 0 && refType(in.Type(), 0) {
							set(in, shMem)
						}
						continue
					}
					if !refType(in.Type(), 0) || constPtr(in.Type()) {
						continue
					}
					l := get(in.X)
					if l&shHold != 0 { // an entry of new memory that refers to shared memory
						l = shMem | shHold
					}
					switch a := in.X.(type) {
					case *ssa.FieldAddr:
						l |= s.fields[fieldOf(a.X, a.Field)]
					case *ssa.Alloc, *ssa.FreeVar:
						l |= s.cells[a]
					}
					set(in, l)
				case *ssa.FieldAddr:
					set(in, get(in.X)&shMem)
				case *ssa.IndexAddr:
					set(in, get(in.X)|s.cells[in.X])
				case *ssa.Field:
					if refType(in.Type(), 0) {
						set(in, get(in.X)|s.fields[fieldOf(in.X, in.Field)])
					}
				case *ssa.Index:
					if refType(in.Type(), 0) && get(in.X) != 0 {
						set(in, shMem|get(in.X))
					}
				case *ssa.Lookup:
					if l := get(in.X); l != 0 && (in.CommaOk || refType(in.Type(), 0)) {
						set(in, shMem|l)
					}
				case *ssa.Extract:
					if refType(in.Type(), 0) {
						if _, ok := in.Tuple.(*ssa.Call); !ok {
							set(in, get(in.Tuple))
						}
					}
				case *ssa.Phi:
					for _, e := range in.Edges {
						set(in, get(e))
					}
				case *ssa.TypeAssert:
					if in.CommaOk || refType(in.AssertedType, 0) {
						set(in, get(in.X))
					}
				case *ssa.MakeInterface:
					if refType(in.X.Type(), 0) && !constPtr(in.X.Type()) {
						set(in, get(in.X))
					}
				case *ssa.ChangeInterface:
					set(in, get(in.X))
				case *ssa.ChangeType:
					set(in, get(in.X))
				case *ssa.Convert:
					if refType(in.X.Type(), 0) && refType(in.Type(), 0) {
						set(in, get(in.X))
					}
				case *ssa.Slice:
					set(in, get(in.X)|s.cells[in.X])
				case *ssa.Range:
					set(in, get(in.X))
				case *ssa.Next:
					if l := get(in.Iter); l != 0 {
						set(in, shMem|l)
					}
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					for i, bd := range in.Bindings {
						fv := f.FreeVars[i]
						if l := get(bd); l&^s.free[fv] != 0 {
							s.free[fv] |= l
							changed, s.dirty = true, true
						}
						setCell(fv, s.cells[bd])
						setCell(bd, s.cells[fv])
					}
				case *ssa.Store:
					if get(in.Addr)&shMem != 0 {
						write(in, "writes to shared memory")
						continue
					}
					l := get(in.Val)
					if l == 0 || !refType(in.Val.Type(), 0) {
						continue
					}
					// a copied struct shares what its fields refer to
					copied(in.Val.Type(), func(f *types.Var) { setField(f, l) }, 0)
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						setField(fieldOf(a.X, a.Field), l)
					case *ssa.IndexAddr:
						hold(a.X, 0)
						setCell(a.X, shHold)
					case *ssa.Alloc, *ssa.FreeVar:
						setCell(a, l)
					case *ssa.Global:
						if !quiet {
							s.note(fn, in.Pos(), true, "stores shared memory in another package variable")
						}
					default:
						// through a pointer: the field or variable it points to is not known
						if !quiet {
							s.note(fn, in.Pos(), true, "stores shared memory through a pointer")
						}
					}
				case *ssa.MapUpdate:
					if get(in.Map)&shMem != 0 && get(in.Map)&shHold == 0 {
						write(in, "writes to a shared map")
						continue
					}
					if get(in.Value) != 0 && refType(in.Value.Type(), 0) {
						hold(in.Map, 0)
					}
				case *ssa.Send:
					if get(in.X) != 0 && refType(in.X.Type(), 0) {
						s.note(fn, in.Pos(), true, "sends shared memory")
					}
				case *ssa.Call:
					call(in, &in.Call, in)
				case *ssa.Defer:
					call(in, &in.Call, nil)
				case *ssa.Go:
					call(in, &in.Call, nil)
				case *ssa.Return:
					for i, v := range in.Results {
						if i < len(res) && refType(v.Type(), 0) && !constPtr(v.Type()) {
							res[i] |= get(v)
						}
					}
				}
			}
		}
	}
	if fmt.Sprint(s.sums[key]) != fmt.Sprint(res) {
		s.sums[key] = res
		s.dirty = true
	}
	return res
}

// external says what a function of another module does with shared memory.
func (s *share) external(pk, nm string, c *ssa.CallCommon, ls []int) string {
	recv := c.Signature().Recv() != nil || c.IsInvoke()
	switch pk {
	case "fmt", "strings", "strconv", "errors", "regexp", "unicode", "unicode/utf8", "math", "log", "path", "text/template":
		return "pure"
	case "reflect":
		if nm == "DeepEqual" || nm == "TypeOf" {
			return "pure"
		}
	case "sync":
		if len(ls) > 0 && ls[0] == 0 {
			return "pure"
		}
		switch nm {
		case "Get", "Load", "LoadOrStore", "LoadAndDelete", "Swap":
			return "result"
		case "Put", "Store", "Range", "Delete":
			return "sync"
		}
		return "sync"
	case "sync/atomic":
		if nm == "Load" || nm == "Value" {
			return "result"
		}
		return "sync"
	case "sort":
		if strings.HasPrefix(nm, "Search") || strings.HasSuffix(nm, "AreSorted") || nm == "IsSorted" {
			return "pure"
		}
		return "write"
	case "slices", "maps":
		base := strings.SplitN(nm, "[", 2)[0]
		switch base {
		case "Contains", "ContainsFunc", "Index", "IndexFunc", "BinarySearch", "Equal", "EqualFunc", "IsSorted", "Max", "Min", "Compare":
			return "pure"
		case "Clone", "Keys", "Values", "Sorted", "Collect", "All", "Concat", "Repeat":
			t := c.Signature().Results()
			if t.Len() == 1 {
				switch u := t.At(0).Type().Underlying().(type) {
				case *types.Slice:
					if !refType(u.Elem(), 0) {
						return "pure"
					}
				case *types.Map:
					if !refType(u.Elem(), 0) {
						return "pure"
					}
				}
			}
			return "copies"
		}
		return "write"
	case "bytes":
		if !recv {
			return "pure"
		}
		return "write"
	}
	if strings.Contains(pk, "logrus") {
		return "pure"
	}
	if recv && len(ls) > 0 && ls[0]&shMem != 0 {
		switch pk {
		case "math/rand", "container/list", "container/ring", "bufio", "strings.Builder":
			return "write"
		}
	}
	return ""
}

// leak describes why a value of a type must not be shared with callers.
func (s *share) leak(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Interface:
		if n := namedOf(t); n != nil {
			return s.p.inModule(n.Obj().Pkg())
		}
		return u.NumMethods() == 0
	case *types.Pointer:
		n := namedOf(u.Elem())
		if n != nil && s.p.inModule(n.Obj().Pkg()) {
			st, ok := n.Underlying().(*types.Struct)
			return !ok || st.NumFields() > 0
		}
		_, basic := u.Elem().Underlying().(*types.Basic)
		return basic
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s.leak(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// shareOrigin is memory that outlives an operation without belonging to an
// element.
type shareOrigin struct {
	name string
	pos  token.Pos
	typ  types.Type
	src  func(v ssa.Value) bool
}

func (p *Prog) shareOrigins(inits map[*ssa.Function]bool) []shareOrigin {
	var out []shareOrigin
	for g := range p.globals() {
		g := g
		out = append(out, shareOrigin{g.String(), g.Pos(), deref(g.Type()), func(v ssa.Value) bool { return v == g }})
	}
	for _, fn := range p.fns {
		if !inits[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				f := mc.Fn.(*ssa.Function)
				if inits[f] {
					continue
				}
				for _, fv := range f.FreeVars {
					fv := fv
					out = append(out, shareOrigin{fn.String() + "." + fv.Name(), fv.Pos(), fv.Type(), func(v ssa.Value) bool { return v == fv }})
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// exposed reports whether users can call a function: an exported function of a
// public package or an exported method (which they reach through an interface).
func (p *Prog) exposed(fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil || !o.Exported() || o.Pkg() == nil {
		return false
	}
	return fn.Signature.Recv() != nil || strings.Contains(o.Pkg().Path(), "/pkg/")
}

// sharedGlobals decides the package-level half of C14.
func (p *Prog) sharedGlobals(c *Check) {
	d := &det{p: p, memo: map[string][]detEffect{}, binds: map[*ssa.Function]*ssa.MakeClosure{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, args: map[*ssa.Function]bool{}}
	d.index()
	inits := p.initFns(d)
	os := p.shareOrigins(inits)
	for _, o := range os {
		s := &share{p: p, isSrc: o.src, fields: map[*types.Var]int{}, cells: map[ssa.Value]int{}, free: map[ssa.Value]int{}, sums: map[string][]int{}, busy: map[string]bool{}, events: map[string]shareEvent{}, inited: inits, d: d}
		for i := 0; i < 20; i++ {
			s.dirty = false
			for _, fn := range p.fns {
				s.walk(fn, make([]int, len(fn.Params)))
			}
			if !s.dirty {
				break
			}
		}
		for _, fn := range p.fns {
			if !p.exposed(fn) || inits[fn] {
				continue
			}
			res := s.walk(fn, make([]int, len(fn.Params)))
			for i, l := range res {
				if t := fn.Signature.Results().At(i).Type(); l != 0 && s.leak(t) {
					s.note(fn, fn.Pos(), false, "gives callers shared memory (%s)", typeStr(t))
				}
			}
		}
		var keys []string
		for k := range s.events {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		bad, soft := (*shareEvent)(nil), (*shareEvent)(nil)
		for _, k := range keys {
			ev := s.events[k]
			if ev.soft {
				soft = &ev
			} else if bad == nil {
				bad = &ev
			}
		}
		short := strings.TrimPrefix(o.name, "github.com/Foxcapades/lib-go-raml/")
		switch {
		case bad != nil:
			c.ob(nil, short+"/package-state", false, bad.pos, "package-level %s is shared by everything that is created: it %s", short, bad.what)
		case soft != nil:
			c.open(short+"/package-state", soft.what)
		default:
			c.ob(nil, short+"/package-state", true, o.pos, "")
		}
	}
}
