package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome of one obligation.
type Outcome struct {
	Name  string `json:"obligation"`
	Kind  string `json:"kind"`
	Where string `json:"where"`
	How   string `json:"how"` // how it was discharged, or "" when violated
	Stats string `json:"stats,omitempty"`
	Diffs []Diff `json:"-"`
}

// Checker decides obligations, each once per run.
type Checker struct {
	w       *World
	decls   map[string]types.Object
	all     []string // every obligation the references were written for
	memo    map[string]*Outcome
	busy    map[string]bool
	users   map[string][]*ssa.Function
	max     int // highest retry level
	end     time.Time
	quick   bool // shorter limits, for trying many variants
	deps    []departure
	depDone bool
}

func newChecker(w *World, all []string) *Checker {
	return &Checker{w: w, decls: w.Decls(), all: all, memo: map[string]*Outcome{}, busy: map[string]bool{}, max: 3}
}

// equivWithin is Equiv bounded in time.
func (w *World) equivWithin(d time.Duration, name string, level int, expand ...string) ([]Diff, string) {
	deadline = time.Now().Add(d)
	defer func() { deadline = time.Time{} }()
	return w.Equiv(name, nil, level, expand...)
}

var deadline time.Time
var ticks int

func tick() {
	if ticks++; ticks&1023 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic("out of time")
	}
	if ticks&(1<<20-1) == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 8<<30 {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 8<<30 {
				panic("conditions too large")
			}
		}
	}
}

// dispatched names are called by the runtime, the standard library or through
// an interface: their absence changes what the program does.
var dispatched = map[string]bool{
	"MarshalJSON": true, "String": true, "Format": true, "Len": true, "Less": true, "Swap": true,
	"Set": true, "Write": true, "RuleFor": true, "Name": true, "execute": true, "newCommand": true, "init": true,
	"Read": true, "Error": true, "UnmarshalJSON": true, "MarshalText": true, "UnmarshalText": true, "GoString": true,
	"UnmarshalXML": true, "UnmarshalXMLAttr": true, "MarshalXML": true, "Usage": true, "main": true, "Location": true, "Value": true,
}

func lastName(n string) string { return n[strings.LastIndexByte(n, '.')+1:] }

func (c *Checker) decide(name string) *Outcome {
	if o := c.memo[name]; o != nil {
		return o
	}
	o := c.decide1(name)
	if len(o.Diffs) == 0 {
		if o.Diffs = c.departed(name); len(o.Diffs) > 0 {
			o.How = ""
		}
	}
	return o
}

func (c *Checker) decide1(name string) *Outcome {
	w := c.w
	o := &Outcome{Name: name, Kind: "value-graph equivalence"}
	c.memo[name] = o
	if d := c.decls[name]; d != nil {
		o.Kind = "declaration"
		o.Where = w.pos(d.Pos())
		if i := d.Pkg().Scope().Lookup(d.Name()[len("spec_"):]); i != nil {
			o.Where = w.pos(i.Pos())
		}
		o.Diffs, o.Stats = w.checkDecl(name, d)
		if len(o.Diffs) == 0 {
			o.How = "equal"
		}
		return o
	}
	f := w.Impl[name]
	if f != nil {
		o.Where = w.pos(f.Pos())
	}
	if w.Specs[name] == nil {
		if f == nil {
			o.Diffs = []Diff{{What: name + " is gone, and with it what its reference was written against"}}
		} else {
			o.Diffs = []Diff{{What: "the reference of " + name + " does not type-check against the current source", Pos: f.Pos()}}
		}
		return o
	}
	var ds []Diff
	var st string
	for l := 0; l <= c.max; l++ {
		lim := time.Minute
		if l == 0 {
			lim = 3 * time.Minute
		}
		if c.quick {
			lim = 20 * time.Second
		}
		if !c.end.IsZero() {
			if left := time.Until(c.end); left < lim {
				lim = left
			}
		}
		d, s := w.equivWithin(lim, name, l)
		if l == 0 {
			ds, st = d, s
		}
		if s == "missing" || s == "signature" {
			st = s
			break
		}
		if len(d) == 0 {
			o.How, o.Stats = "equal", s
			if l > 0 {
				o.How = fmt.Sprintf("equal after looking through callees (%d)", l)
			}
			return o
		}
		if w.BadSpec[name] != "" {
			break
		}
	}
	o.Stats = st
	for k, alt := range w.Alts[name] {
		if st == "missing" || st == "signature" {
			break
		}
		old := w.Specs[name]
		w.Specs[name] = alt
		for l := 0; l <= c.max; l++ {
			d, s := w.equivWithin(20*time.Second, name, l)
			if len(d) == 0 && s != "missing" && s != "signature" {
				o.How, o.Stats = fmt.Sprintf("equal to reference %d", k+2), s
				break
			}
		}
		w.Specs[name] = old
		if o.How != "" {
			return o
		}
	}
	switch st {
	case "missing":
		if dispatched[lastName(name)] || strings.HasPrefix(lastName(name), "init_") {
			o.Diffs = []Diff{{What: name + " is gone"}}
			return o
		}
		// nothing can call it any more; its callers answer for the rest
		o.How = "no longer exists"
		return o
	case "signature":
		ds = []Diff{{What: "the signature of " + name + " changed and not all its callers behave as before", Pos: f.Pos()}}
	}
	// a helper may change its contract if all its callers still hold
	if w.BadSpec[name] == "" && (st == "signature" || !token.IsExported(lastName(name)) || strings.HasPrefix(name, "cmd/")) && c.absorbed(name, nil, 0) {
		o.How = "absorbed by its callers"
		return o
	}
	o.Diffs = ds
	return o
}

// callers lists the named functions that call f, directly; ok is false when
// f is also used in other ways.
func (c *Checker) callers(f *ssa.Function) (out []string, ok bool) {
	w := c.w
	seen := map[string]bool{}
	ok = true
	for _, x := range w.Funcs {
		if isSpec(x) {
			continue
		}
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, is := in.(ssa.CallInstruction); is {
					callee = ci.Common().StaticCallee()
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(f) {
						continue
					}
					if callee != f {
						ok = false
					}
				}
				if callee == f {
					top := x
					for top.Parent() != nil {
						top = top.Parent()
					}
					n := fnName(top)
					for k, v := range w.Impl {
						if v == top {
							n = k
						}
					}
					if !seen[n] {
						seen[n] = true
						out = append(out, n)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return
}

func (c *Checker) absorbed(name string, expand []string, depth int) bool {
	f := c.w.Impl[name]
	if f == nil || depth > 3 || dispatched[lastName(name)] || strings.HasPrefix(lastName(name), "init_") {
		return false
	}
	cs, ok := c.callers(f)
	if !ok || len(cs) == 0 || c.w.rewrites(f) {
		return false
	}
	ex := append(append([]string{}, expand...), name)
	for _, x := range cs {
		if x == name {
			return false
		}
		held := false
		if c.w.Specs[x] != nil && c.w.BadSpec[x] == "" {
			for l := 0; l < 2 && !held; l++ {
				d, s := c.w.equivWithin(time.Minute, x, l, ex...)
				held = len(d) == 0 && s != "missing" && s != "signature"
			}
		}
		if !held && (c.w.Specs[x] == nil || !token.IsExported(lastName(x))) {
			held = c.absorbed(x, ex, depth+1)
		}
		if debugAbsorb {
			fmt.Println("absorb", name, ex, "caller", x, held)
		}
		if !held {
			return false
		}
	}
	return true
}

var debugAbsorb = os.Getenv("ABSORB") != ""

// ---------- properties

type Property struct {
	ID    string   `json:"id"`
	Funcs []string `json:"obligations"`
	Rules []string `json:"rules"`
}

type Rule func(c *Checker, p *Property) []*Outcome

var rules = map[string]Rule{}

func expandNames(pats, all []string) (out []string, err error) {
	seen := map[string]bool{}
	for _, p := range pats {
		n := 0
		for _, a := range all {
			if ok, _ := path.Match(p, a); ok || a == p {
				n++
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("no obligation matches %s", p)
		}
	}
	return out, nil
}

func readLines(f string) []string {
	b, _ := os.ReadFile(f)
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "#") {
			out = append(out, l)
		}
	}
	return out
}

func runCheck(repo, verif, id, tier string) int {
	start := time.Now()
	violation := func(what string) int {
		replay := writeReplay(verif, id, []string{what})
		fmt.Println(what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	var props []Property
	b, err := os.ReadFile(filepath.Join(verif, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	if err != nil {
		return violation("cannot read props.json: " + err.Error())
	}
	var p *Property
	for i := range props {
		if props[i].ID == id {
			p = &props[i]
		}
	}
	if p == nil {
		return violation("no such property")
	}
	all := readLines(filepath.Join(verif, "spec", "OBLIGATIONS"))
	names, err := expandNames(p.Funcs, all)
	if err != nil {
		return violation(err.Error())
	}
	w, err := loadWorld(repo, filepath.Join(verif, "spec"))
	if err != nil {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		writeEvidence(verif, id, tier, start, nil, map[string]int{}, 1)
		return violation("the program cannot be analysed: " + err.Error())
	}
	c := newChecker(w, all)
	c.end = start.Add(800 * time.Second)
	var outs []*Outcome
	for _, n := range names {
		outs = append(outs, c.decide(n))
	}
	for _, r := range p.Rules {
		f := rules[r]
		if f == nil {
			return violation("no such rule: " + r)
		}
		outs = append(outs, safely(r, c, p, f)...)
	}
	// report
	known := map[string]string{}
	for _, l := range readLines(filepath.Join(verif, "known_findings.txt")) {
		if strings.HasPrefix(l, "finding: ") {
			fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 3)
			if len(fs) == 3 && fs[0] == "property="+id {
				known[fs[1]] = fs[2]
			}
		}
	}
	var lines []string
	kinds := map[string]int{}
	for _, o := range outs {
		kinds[o.Kind]++
		if o.How != "" {
			continue
		}
		for _, d := range o.Diffs {
			key := o.Name + ": " + d.What
			if k, ok := known[key]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
				continue
			}
			at := o.Where
			if d.Pos.IsValid() {
				at = w.pos(d.Pos)
			}
			lines = append(lines, fmt.Sprintf("%s: [%s] %s: %s", at, o.Kind, o.Name, clip(d.What, 600)))
		}
		if len(o.Diffs) == 0 {
			lines = append(lines, fmt.Sprintf("%s: [%s] %s: undecided", o.Where, o.Kind, o.Name))
		}
	}
	writeEvidence(verif, id, tier, start, outs, kinds, len(lines))
	if len(lines) > 0 {
		replay := writeReplay(verif, id, lines)
		for i, l := range lines {
			if i == 20 {
				fmt.Printf("... and %d more, see %s\n", len(lines)-i, replay)
				break
			}
			fmt.Println(l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("property %s holds: %d obligations discharged\n", id, len(outs))
	return 0
}

func safely(name string, c *Checker, p *Property, f Rule) (out []*Outcome) {
	defer func() {
		if r := recover(); r != nil {
			out = append(out, &Outcome{Name: name, Kind: "rule", Diffs: []Diff{{What: fmt.Sprintf("analysis failed: %v", r)}}})
			if verbose {
				panic(r)
			}
		}
	}()
	return f(c, p)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(verif, id string, lines []string) string {
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	f := filepath.Join(verif, "evidence", id+".violation.txt")
	head := "Static findings for property " + id + "; rerun with: /verif/check " + id + " quick\n"
	os.WriteFile(f, []byte(head+strings.Join(lines, "\n")+"\n"), 0644)
	return f
}

func writeEvidence(verif, id, tier string, start time.Time, outs []*Outcome, kinds map[string]int, violations int) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier != "thorough" {
		tier = "quick"
	}
	dis := 0
	byHow := map[string]int{}
	for _, o := range outs {
		if o.How != "" {
			dis++
			byHow[o.How]++
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"wall_s": time.Since(start).Seconds(), "violations": violations,
		"coverage": map[string]interface{}{
			"explanation": "Static decision on the SSA form of /repo's current source. A 'value-graph equivalence' obligation " +
				"holds when the gated value graph of a function (results, aborts, effects with their path conditions, loops) is " +
				"equal in canonical form to that of its reviewed reference in /verif/spec, for all inputs; a 'declaration' " +
				"obligation compares a constant, an initial value or struct tags; other kinds are dataflow or call-graph rules. " +
				"Nothing is executed.",
			"obligations": len(outs), "discharged": dis, "by_kind": kinds, "by_outcome": byHow,
			"analysed": outs,
		},
		"assumptions": []string{
			"the reference functions state the property correctly (they were reviewed against the property, not derived from it)",
			"standard library calls are modelled as uninterpreted or by the axioms in tool/call.go and tool/fmtmodel.go",
			"code outside the obligations' functions and their callees does not modify the state they read through unsafe or reflection",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644)
}
