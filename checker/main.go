package main

import (
	"fmt"
	"go/constant"
	"os"
	"sort"
)

func strVal(t *Term) string { return constant.StringVal(t.cst) }

type checkFn func(p *Prog, c *Check)

var checks = map[string]checkFn{
	"C01": checkC01,
	"C02": checkC02,
	"C04": checkC04,
	"C05": checkC05,
	"C09": checkC09,
	"C10": checkC10, "C11": checkC11, "C12": checkC12, "C13": checkC13, "C14": checkC14, "C16": checkC16, "C17": checkC17,
	"C03": checkC03, "C06": checkC06, "C07": checkC07, "C08": checkC08, "C15": checkC15, "C18": checkC18,
	"C19": checkC19, "C20": checkC20,
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: raml-verif PROPERTY | all | dump NAME... | dumpget")
		os.Exit(2)
	}
	dir := os.Getenv("REPO")
	if dir == "" {
		dir = "/repo"
	}
	p, err := load(dir)
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dump(p, os.Args[2:])
		return
	case "dumpget":
		dumpGet(p)
		return
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	home := os.Getenv("VERIF_HOME")
	if home == "" {
		home = "/verif"
	}
	rc := 0
	for _, id := range ids {
		fn, ok := checks[id]
		if !ok {
			fmt.Println("no check", id)
			os.Exit(2)
		}
		c := newCheck(id, p)
		fn(p, c)
		if x := c.finish(home); x > rc && rc != 1 {
			rc = x
		}
	}
	os.Exit(rc)
}

func dumpGet(p *Prog) {
	for _, sp := range specs {
		e, err := p.element(sp.iface, sp.kind)
		if err != nil {
			fmt.Println(sp.iface, err)
			continue
		}
		for _, fc := range sp.facets {
			for _, k := range fc.keys {
				r, root, n, outs, g, st := readKey(p, &sp, e, &KeyPreset{"const", k}, classes(cMap))
				if r == nil {
					fmt.Println("NO")
					continue
				}
				ok := r.bdd.And(g, r.nilGuard(outs[0]))
				_ = n
				v, _, _ := r.method(e, root, fc.getter, nil, True, st.clone())
				fmt.Printf("%s.%s [%s] = %s\n", sp.iface, k, fc.shape, r.printVal(r.under(v[0], ok)))
				for _, ev := range r.log {
					fmt.Printf("    %s", ev.kind)
					if ev.recv != nil {
						fmt.Printf(" recv=%s", r.print(ev.recv))
					}
					for _, a := range ev.args {
						fmt.Printf(" , %s", r.printVal(a))
					}
					fmt.Println()
				}
				for _, u := range r.undList() {
					fmt.Println("   UND", u)
				}
			}
		}
	}
}

// readKey analyses reading a mapping whose entries have the given key.
func readKey(p *Prog, sp *elemSpec, e *Elem, k *KeyPreset, cs classSet) (*Flow, *Term, *Term, []Val, B, State) {
	r := newFlow(p)
	root, ok := r.enter(e)
	if !ok || r.methodFn(e, sp.reader) == nil {
		return nil, nil, nil, nil, False, nil
	}
	n := r.sym("doc", r.methodFn(e, sp.reader).Signature.Params().At(0).Type())
	r.nonnil[n] = true
	r.clsFixSet[n] = cs
	if k != nil {
		r.keyFor[n] = k
	}
	outs, g, st := r.method(e, root, sp.reader, []Val{r.one(n)}, True, State{})
	return r, root, n, outs, g, st
}

func dump(p *Prog, names []string) {
	for _, n := range names {
		kind := ""
		switch n {
		case "IncludeType":
			kind = "include"
		case "NilType":
			kind = "nil"
		}
		e, err := p.element(n, kind)
		if err != nil {
			fmt.Println(n, err)
			continue
		}
		fmt.Println("==", n, e.typ, e.ctor)
		r := newFlow(p)
		root, ok := r.enter(e)
		fmt.Println("  root", ok, r.print(root))
		for _, m := range e.getters() {
			v, g, _ := r.method(e, root, m.Name(), nil, True, State{})
			fmt.Printf("  get %s = %s  [%s]\n", m.Name(), r.printVal(v[0]), r.bdd.String(g))
		}
		w := "ToYAML"
		if r.methodFn(e, w) == nil {
			w = "MarshalYAML"
		}
		v, g, _ := r.method(e, root, w, nil, True, State{})
		if len(v) > 0 {
			fmt.Println("  write", r.printVal(v[0]), "|||", r.printVal(v[1]), r.bdd.String(g))
		}
		for _, ev := range r.log {
			fmt.Printf("    %s %s", ev.kind, p.pos(ev.pos))
			if ev.recv != nil {
				fmt.Printf(" recv=%s", r.print(ev.recv))
			}
			for _, a := range ev.args {
				fmt.Printf(" , %s", r.printVal(a))
			}
			fmt.Printf("  if %s ctx=%d\n", r.bdd.String(ev.g), len(ev.ctx))
		}
		for _, u := range r.undList() {
			fmt.Println("  UND", u)
		}
		for _, o := range r.obls {
			fmt.Println("  OBL", o.kind, o.text, r.bdd.String(o.g), p.pos(o.pos))
		}
		if len(os.Getenv("KEYS")) > 0 {
			dumpRead(p, e, os.Getenv("KEYS"))
		}
	}
}

func dumpRead(p *Prog, e *Elem, key string) {
	r := newFlow(p)
	root, _ := r.enter(e)
	rd := "UnmarshalRAML"
	if r.methodFn(e, rd) == nil {
		rd = "UnmarshalYAML"
	}
	n := r.sym("doc", r.methodFn(e, rd).Signature.Params().At(0).Type())
	r.nonnil[n] = true
	r.clsFixSet[n] = classes(cMap)
	r.keyFor[n] = &KeyPreset{"const", key}
	if key == "unknown" || key == "annotation" || key == "scalar" || key == "complex" {
		r.keyFor[n] = &KeyPreset{key, ""}
	}
	outs, g, st := r.method(e, root, rd, []Val{r.one(n)}, True, State{})
	fmt.Println("  read", key, ":", r.printVal(outs[0]), r.bdd.String(g))
	var locs []*Term
	for l := range st {
		locs = append(locs, l)
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
	for _, l := range locs {
		fmt.Println("    ", r.print(l), "=", r.printVal(st[l]))
	}
	for _, ev := range r.log {
		fmt.Printf("    %s %s", ev.kind, p.pos(ev.pos))
		if ev.recv != nil {
			fmt.Printf(" recv=%s", r.print(ev.recv))
		}
		for _, a := range ev.args {
			fmt.Printf(" , %s", r.printVal(a))
		}
		fmt.Printf("  if %s ctx=%d\n", r.bdd.String(ev.g), len(ev.ctx))
	}
	for _, f := range r.fails {
		fmt.Println("    FAIL", f.what, r.bdd.String(f.g))
	}
	for _, u := range r.undList() {
		fmt.Println("    UND", u)
	}
	for _, o := range r.obls {
		fmt.Println("    OBL", o.kind, o.text, r.bdd.String(o.g), p.pos(o.pos))
	}
}
