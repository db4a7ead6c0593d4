package main

// Checks: obligations with stable names, what became of each, and the report.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is an obligation that fails, with the construct responsible.
type Violation struct {
	Key   string `json:"key"`
	Where string `json:"where"`
	Text  string `json:"text"`
}

// Check is one run of one property's check.
type Check struct {
	id    string
	p     *Prog
	start time.Time

	obligations int
	discharged  int
	viol        []Violation
	undec       []string
	samples     []string
	perKind     map[string]int
	seen        map[string]bool
	flows       int
	fnSeen      map[string]bool
	instrs      int
	panicObls   int

	rule    string
	assume  []string
	floor   int // at least that many obligations, or the check did not find its subject
	missing []string
}

func newCheck(id string, p *Prog) *Check {
	return &Check{id: id, p: p, start: time.Now(), perKind: map[string]int{}, seen: map[string]bool{}, fnSeen: map[string]bool{}}
}

// used notes what an analysis looked at.
func (c *Check) used(r *Flow) {
	c.flows++
	for fn := range r.visited {
		c.fnSeen[fn.String()] = true
	}
	c.instrs += r.steps
	c.panicObls += r.nobl
}

// ob decides one obligation. key names it in a way that survives edits; a
// failing obligation of an analysis that met constructs it does not model stays
// undecided.
func (c *Check) ob(r *Flow, key string, ok bool, pos token.Pos, format string, a ...interface{}) bool {
	if i := strings.LastIndexByte(key, '/'); i >= 0 {
		c.perKind[key[i+1:]]++
	} else {
		c.perKind[key]++
	}
	c.obligations++
	if ok {
		c.discharged++
		if len(c.samples) < 12 && (c.obligations%37 == 1) {
			c.samples = append(c.samples, key+": holds")
		}
		return true
	}
	text := fmt.Sprintf(format, a...)
	if r != nil && (len(r.und) > 0 || r.softObl) {
		c.undec = append(c.undec, key+": "+cut(text, 200)+" ["+strings.Join(firstN(r.undList(), 3), "; ")+"]")
		return false
	}
	if c.seen[key] {
		return false
	}
	c.seen[key] = true
	c.viol = append(c.viol, Violation{key, c.p.pos(pos), cut(text, 1500)})
	return false
}

// open notes an obligation the analysis could not decide.
func (c *Check) open(key, why string) {
	c.obligations++
	c.undec = append(c.undec, key+": "+why)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func firstN(l []string, n int) []string {
	if len(l) > n {
		return l[:n]
	}
	return l
}

type known struct{ key, text string }

func knownFindings(file, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		k, text, _ := strings.Cut(rest, " ")
		out[k] = text
	}
	return out
}

// finish prints the verdict, writes the evidence and returns the exit status.
func (c *Check) finish(home string) int {
	kn := knownFindings(filepath.Join(home, "known-findings.txt"), c.id)
	var open []Violation
	for _, v := range c.viol {
		if text, ok := kn[strings.ReplaceAll(v.Key, " ", "_")]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, text)
			continue
		}
		open = append(open, v)
	}
	ev := filepath.Join(home, "evidence")
	os.MkdirAll(ev, 0o755)
	rp := filepath.Join(ev, c.id+".violations.txt")
	os.Remove(rp)
	rc := 0
	if c.obligations < c.floor || len(c.missing) > 0 {
		fmt.Printf("ERROR: property=%s: the check found %d of at least %d obligations; missing: %s\n", c.id, c.obligations, c.floor, strings.Join(c.missing, ", "))
		rc = 2
	}
	if len(open) > 0 {
		var sb strings.Builder
		for _, v := range open {
			fmt.Fprintf(&sb, "property %s violated: %s\n  at   %s\n  why  %s\n", c.id, v.Key, v.Where, v.Text)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, v := range open {
			if i == 8 {
				fmt.Printf("  ... %d more in %s\n", len(open)-i, rp)
				break
			}
			fmt.Printf("  %s at %s: %s\n", v.Key, v.Where, cut(v.Text, 400))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		rc = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	fns := make([]string, 0, len(c.fnSeen))
	for f := range c.fnSeen {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	out := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":          c.rule,
			"rule":                 c.rule,
			"obligations":          c.obligations,
			"discharged":           c.discharged,
			"undecided":            firstN(c.undec, 40),
			"undecided_count":      len(c.undec),
			"obligations_by_kind":  c.perKind,
			"analyses":             c.flows,
			"functions_analysed":   len(fns),
			"functions":            firstN(fns, 400),
			"instructions_visited": c.instrs,
			"samples":              c.samples,
			"violations":           c.viol,
			"source":               c.p.dir,
			"source_files":         c.p.nfiles(),
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(open),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated (%d analyses, %d functions, %.1fs)\n",
		c.id, c.obligations, c.discharged, len(c.undec), len(open), c.flows, len(fns), time.Since(c.start).Seconds())
	return rc
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }
