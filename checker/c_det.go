package main

// Determinism: everything a Go program can take a different value from in each
// run (the order of a map range, clocks, random sources, addresses, goroutines),
// and whether it can reach anything but log messages.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkC16: output is deterministic.
func checkC16(p *Prog, c *Check) {
	c.rule = "Every function of the library is scanned for what differs between runs. The body of each range over a Go map, with the functions it calls, may only do what gives the same result in any order: fill a map under a text that is distinct for distinct keys, collect into a list that is sorted before use, count, fold with a commutative operator, find the entry of one key, or leave with a constant or an error. Values of clocks, random sources, the environment and addresses may only reach log messages. Goroutines and selects may not write to shared memory in the order of their scheduling."
	c.floor = 300
	c.assume = append(c.assume, "the yaml and JSON encoders, fmt, sort and strings are deterministic; encoding/json and fmt sort the keys of Go maps", "log output is no document output")
	d := &det{p: p, c: c, memo: map[string][]detEffect{}, binds: map[*ssa.Function]*ssa.MakeClosure{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, args: map[*ssa.Function]bool{}}
	d.index()
	for _, fn := range p.fns {
		d.scan(fn)
	}
}

type det struct {
	p     *Prog
	c     *Check
	memo  map[string][]detEffect
	binds map[*ssa.Function]*ssa.MakeClosure
	calls map[*ssa.Function][]*ssa.CallCommon
	args  map[*ssa.Function]bool
}

type detEffect struct {
	what string
	pos  token.Pos
	und  bool
}

// index finds the closures and the calls of each function.
func (d *det) index() {
	for _, fn := range d.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					d.binds[m.Fn.(*ssa.Function)] = m
				}
				if cl, ok := in.(ssa.CallInstruction); ok {
					if f := cl.Common().StaticCallee(); f != nil {
						d.calls[f] = append(d.calls[f], cl.Common())
					}
				}
			}
		}
	}
}

// scan looks at one function.
func (d *det) scan(fn *ssa.Function) {
	name := fnName(fn)
	var bad []detEffect
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
					if _, ok := r.X.Type().Underlying().(*types.Map); ok {
						bad = append(bad, d.mapLoop(fn, x)...)
					}
				}
			case *ssa.Select:
				if len(x.States) > 1 {
					bad = append(bad, detEffect{"waits for several channels at once", x.Pos(), true})
				}
			case *ssa.Go:
				bad = append(bad, d.goroutine(x)...)
			case *ssa.Call:
				if s := d.source(&x.Call); s != "" {
					if at := d.leaks(x, map[ssa.Value]bool{}, 0); at != nil {
						bad = append(bad, detEffect{s + " reaches more than the log", at.Pos(), false})
					}
				}
			case *ssa.Convert:
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					if u, ok := x.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
						bad = append(bad, detEffect{"uses an address as a number", x.Pos(), false})
					}
				}
			}
		}
	}
	ok := true
	for _, e := range bad {
		ok = false
		if e.und {
			d.c.open(name+"/deterministic", e.what+" at "+d.p.pos(e.pos))
			continue
		}
		d.c.ob(nil, name+"/deterministic", false, e.pos, "%s %s", name, e.what)
	}
	if ok {
		d.c.ob(nil, name+"/deterministic", true, fn.Pos(), "")
	}
	d.c.fnSeen[fn.String()] = true
	for _, b := range fn.Blocks {
		d.c.instrs += len(b.Instrs)
	}
}

// source names a call whose result differs between runs.
func (d *det) source(c *ssa.CallCommon) string {
	pk, nm := calleeName(c)
	switch pk {
	case "time":
		switch nm {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker":
			return "time." + nm
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return pk + "." + nm
	case "os":
		switch nm {
		case "Getenv", "LookupEnv", "Environ", "Getpid", "Getppid", "Hostname", "Getwd", "TempDir", "Executable", "Getuid":
			return "os." + nm
		}
	case "runtime":
		switch nm {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "Stack", "ReadMemStats":
			return "runtime." + nm
		}
	case "reflect":
		switch nm {
		case "MapKeys", "MapRange", "Pointer", "UnsafePointer", "UnsafeAddr":
			return "reflect." + nm
		}
	case "fmt":
		if strings.HasPrefix(nm, "Sprint") || strings.HasPrefix(nm, "Fprint") || strings.HasPrefix(nm, "Append") {
			if s := addressFormat(c); s != "" {
				return "fmt." + nm + " of " + s
			}
		}
	}
	return ""
}

// addressFormat recognises formatting that prints addresses.
func addressFormat(c *ssa.CallCommon) string {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			return "an address"
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if so, ok := u.(*ssa.Store); ok && so.Addr == ia {
					if m, ok := so.Val.(*ssa.MakeInterface); ok {
						if s := printsAddress(m.X.Type(), 0); s != "" {
							return s
						}
					}
				}
			}
		}
	}
	return ""
}

func printsAddress(t types.Type, depth int) string {
	if depth > 4 {
		return ""
	}
	for _, m := range []string{"String", "Error", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			if _, ok := o.(*types.Func); ok {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return "an address (" + t.String() + ")"
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			if depth == 0 {
				return printsAddress(u.Elem(), depth+1)
			}
		}
		return "an address (" + t.String() + ")"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := printsAddress(u.Field(i).Type(), depth+1); s != "" {
				return s
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1)
	case *types.Map:
		return printsAddress(u.Elem(), depth+1)
	}
	return ""
}

func calleeName(c *ssa.CallCommon) (pk, nm string) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil {
			pk = c.Method.Pkg().Path()
		}
		return pk, c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if q := pkgOf(f); q != nil {
			pk = q.Path()
		}
		return pk, f.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin", b.Name()
	}
	return "", ""
}

// leaks follows a value to something else than a log message.
func (d *det) leaks(v ssa.Value, seen map[ssa.Value]bool, depth int) ssa.Instruction {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	if depth > 6 {
		if len(*v.Referrers()) > 0 {
			return (*v.Referrers())[0]
		}
		return nil
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			a := rootAddr(x.Addr)
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return x
			}
			if at := d.leaks(al, seen, depth); at != nil {
				return at
			}
		case *ssa.Return:
			fn := x.Parent()
			if fn.Signature.Results().Len() == 1 && isErrType(fn.Signature.Results().At(0).Type()) {
				continue
			}
			if len(d.calls[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() {
				return x
			}
			for _, cl := range d.calls[fn] {
				cv := callValue(cl, fn, d)
				if cv == nil {
					return x
				}
				if at := d.leaks(cv, seen, depth+1); at != nil {
					return at
				}
			}
		case *ssa.Call:
			pk, nm := calleeName(&x.Call)
			switch {
			case strings.Contains(pk, "logrus") || pk == "log":
			case pk == "time" || pk == "fmt" && strings.HasPrefix(nm, "Sprint") || pk == "strings" || pk == "strconv" || pk == "builtin" || pk == "os":
				if at := d.leaks(x, seen, depth); at != nil {
					return at
				}
			case pk == "errors" || pk == "fmt" && nm == "Errorf":
			default:
				f := x.Call.StaticCallee()
				if f == nil || !d.p.inModule(pkgOf(f)) {
					return x
				}
				for i, a := range x.Call.Args {
					if a == v && i < len(f.Params) {
						if at := d.leaks(f.Params[i], seen, depth+1); at != nil {
							return at
						}
					}
				}
			}
		case *ssa.Defer:
			pk, _ := calleeName(&x.Call)
			f := x.Call.StaticCallee()
			if strings.Contains(pk, "logrus") || pk == "log" {
				continue
			}
			if f == nil || !d.p.inModule(pkgOf(f)) {
				return x
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(f.Params) {
					if at := d.leaks(f.Params[i], seen, depth+1); at != nil {
						return at
					}
				}
			}
		case *ssa.If, *ssa.MapUpdate, *ssa.Send, *ssa.Panic, *ssa.Go:
			if iff, ok := x.(*ssa.If); ok && d.logOnly(iff) {
				continue
			}
			return u
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					if at := d.leaks(f.FreeVars[i], seen, depth+1); at != nil {
						return at
					}
				}
			}
		case ssa.Value:
			if at := d.leaks(x, seen, depth); at != nil {
				return at
			}
		}
	}
	return nil
}

// logOnly reports whether a branch only decides what is logged: one side is a
// block of log calls that joins the other.
func (d *det) logOnly(in *ssa.If) bool {
	b := in.Block()
	for i, s := range b.Succs {
		o := b.Succs[1-i]
		if len(s.Succs) != 1 || s.Succs[0] != o || len(s.Preds) != 1 {
			continue
		}
		ok := true
		for _, x := range s.Instrs {
			switch x := x.(type) {
			case *ssa.Call:
				pk, nm := calleeName(&x.Call)
				if !strings.Contains(pk, "logrus") && pk != "log" && !(pk == "fmt" && strings.HasPrefix(nm, "Sprint")) && pk != "time" {
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				ok = false
			}
		}
		for _, x := range o.Instrs {
			if _, phi := x.(*ssa.Phi); phi {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func callValue(cl *ssa.CallCommon, fn *ssa.Function, d *det) ssa.Value {
	for _, f := range d.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok && &x.Call == cl {
					return x
				}
			}
		}
	}
	return nil
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// goroutine looks at what several goroutines leave behind in the order of their
// scheduling. One alone may still be waited for.
func (d *det) goroutine(g *ssa.Go) []detEffect {
	out := []detEffect{{"starts a goroutine", g.Pos(), true}}
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return out
	}
	n := 0
	if g.Parent().Parent() != nil {
		n = 2
	}
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				n++
				if inCycle(b) {
					n++
				}
			}
		}
	}
	if n < 2 {
		return out
	}
	rg := &region{d: d, fn: mc.Fn.(*ssa.Function), roles: map[ssa.Value]byte{}}
	for _, a := range rg.fn.Params {
		rg.roles[a] = 'K'
	}
	for _, e := range rg.effects(0) {
		if !e.und {
			e.what = "starts goroutines, each of which " + strings.TrimSuffix(e.what, " in the random order of a map") + " in the order of their scheduling"
			out = append(out, e)
		}
	}
	return out
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}
