package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// ---------- versions: what opaque callees may have changed

func (g *GV) verCell(key string, base *Term) *Term {
	if base == nil {
		return g.ts.mk("fver", key)
	}
	return g.ts.mk("fver", key, base)
}

func chainUp(t *Term) *Term {
	switch t.Op {
	case "faddr", "iaddr", "fld", "elem", "val", "ext", "iface", "lookup", "deref", "mapval", "slice", "assert", "at":
		return t.A[0]
	}
	return nil
}

// verOf is the version of the objects under key reached from x, nil when
// nothing has touched them since the function was entered.
func (g *GV) verOf(st *State, key string, x *Term) *Term {
	var vs []*Term
	seen := map[*Term]bool{}
	add := func(c *Term) {
		if v := st.mem[c]; v != nil && v != c && !seen[v] {
			seen[v] = true
			vs = append(vs, v)
		}
	}
	for t := x; t != nil; t = chainUp(t) {
		add(g.verCell(key, t))
	}
	add(g.verCell(key, nil))
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return g.ts.mk("vers", "", vs...)
}

func derives(t, from *Term) bool {
	for ; t != nil; t = chainUp(t) {
		if t == from {
			return true
		}
	}
	return false
}

func cellKey(k *Term) string {
	switch k.Op {
	case "faddr":
		return k.S
	case "iaddr":
		return "[]"
	case "mapcell":
		return "map"
	case "val":
		return "val"
	case "global":
		return "global:" + k.S
	}
	return ""
}

func keyMatch(key, cell string) bool {
	if cell == "[]" || cell == "map" {
		return len(key) >= len(cell) && key[:len(cell)] == cell
	}
	return key == cell
}

// touch records that the objects under key reached from base (nil: any) may
// have been rewritten at site.
func (g *GV) touch(st *State, key string, base, site *Term) {
	if base != nil && base.Op == "ite" {
		for i, b := range base.A {
			_ = i
			g.touch(st, key, b, site)
		}
		return
	}
	if base != nil && base.Op == "iface" {
		g.touch(st, key, base.A[0], site)
	}
	if base != nil {
		for _, b := range g.reach(st, base) {
			if b != base {
				g.touch1(st, key, b, site)
			}
		}
	}
	g.touch1(st, key, base, site)
}

// reach lists the objects a callee handed x gets at through what was stored
// in local objects on the way.
func (g *GV) reach(st *State, x *Term) []*Term {
	out := []*Term{x}
	seen := map[*Term]bool{x: true}
	var add func(v *Term)
	add = func(v *Term) {
		switch v.Op {
		case "ite":
			add(v.A[0])
			add(v.A[1])
			return
		case "iface":
			add(v.A[0])
			return
		case "alloc":
		default:
			return
		}
		if !seen[v] && len(out) < 64 {
			seen[v] = true
			out = append(out, v)
		}
	}
	for i := 0; i < len(out); i++ {
		if baseOf(out[i]).Op != "alloc" {
			continue
		}
		var vs []*Term
		for k, v := range st.mem {
			if k.Op != "fver" && k.Op != "val" && k != v && derives(k, out[i]) {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		for _, v := range vs {
			add(v)
		}
	}
	return out
}

func (g *GV) touch1(st *State, key string, base, site *Term) {
	var cells []*Term
	for k := range st.mem {
		if !keyMatch(key, cellKey(k)) {
			continue
		}
		if base != nil && !derives(k, base) {
			continue
		}
		if base == nil && baseOf(k).Op == "alloc" {
			continue
		}
		cells = append(cells, k)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, k := range cells {
		u := g.ts.mk("post", key, k, site)
		if o := st.mem[k]; o != nil && u.T == nil {
			u.T = o.T
		}
		st.mem[k] = u
	}
	st.mem[g.verCell(key, base)] = site
}

func (w *World) summaryFor(name string, callee *ssa.Function) *Summary {
	ss := w.summaries()
	if f := w.Specs[name]; f != nil {
		return ss[f]
	}
	if callee != nil {
		return ss[callee]
	}
	return nil
}

func sortedKeys(m map[string]uint64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reads gathers what an opaque callee observes beyond its arguments.
func (g *GV) reads(st *State, s *Summary, args []*Term) []*Term {
	var vs []*Term
	seen := map[*Term]bool{}
	add := func(v *Term) {
		if v != nil && !seen[v] {
			seen[v] = true
			vs = append(vs, v)
		}
	}
	for _, k := range sortedKeys(s.Reads) {
		m := s.Reads[k]
		for i, a := range args {
			if m&paramBit(i) == 0 {
				continue
			}
			for a.Op == "iface" {
				a = a.A[0]
			}
			for _, b := range g.reach(st, a) {
				if v := g.verOf(st, k, b); v != nil {
					add(v)
				}
			}
			if a.Op == "alloc" {
				continue
			}
			var cells []*Term
			for c := range st.mem {
				if keyMatch(k, cellKey(c)) && baseOf(c).Op != "alloc" && derives(c, a) {
					cells = append(cells, c)
				}
			}
			sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
			for _, c := range cells {
				if v := st.mem[c]; v.Op != "post" && !isLoadOf(v, c) {
					add(g.ts.mk("cell", "", c, v))
				}
			}
		}
		if m&topBit != 0 {
			if v := st.mem[g.verCell(k, nil)]; v != nil && v != g.verCell(k, nil) {
				add(v)
			}
			if len(k) > 7 && k[:7] == "global:" {
				ga := g.ts.mk("global", k[7:])
				if v := st.mem[ga]; v != nil && !isLoadOf(v, ga) {
					add(g.ts.mk("cell", "", ga, v))
				}
			}
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return []*Term{g.ts.mk("vers", "", vs...)}
}

func isLoadOf(v, c *Term) bool {
	switch v.Op {
	case "fld":
		return c.Op == "faddr" && v.S == c.S && v.A[0] == c.A[0] && len(v.A) == 1 || c.Op == "global" && v.S == "*" && v.A[0] == c && len(v.A) == 1
	case "elem":
		return c.Op == "iaddr" && len(v.A) == 2 && v.A[0] == c.A[0] && v.A[1] == c.A[1]
	case "val":
		return v == c
	}
	return false
}

// opaque records a call that is not expanded.
func (g *GV) opaque(in *ssa.Function, pos token.Pos, T types.Type, name string, args []*Term, callee *ssa.Function, cur *Node, st *State) *Term {
	flat := args
	if n := len(args); n > 0 && args[n-1].Op == "list" && variadic(callee, name) {
		flat = append(append([]*Term{}, args[:n-1]...), args[n-1].A...)
	}
	if pureName(name) {
		t := g.ts.mk("call", name, flat...)
		if t.T == nil {
			t.T = T
		}
		g.emit("call", name, cur, pos, in, t, flat...).Callee = callee
		return t
	}
	// closures run as many times as the callee pleases
	hasFn := false
	for i, a := range args {
		for a.Op == "iface" {
			a = a.A[0]
		}
		if f := g.ts.fn[a]; f != nil && f.Blocks != nil && g.w.inModule(f) {
			hasFn = true
			nargs := append([]*Term{}, args...)
			nargs[i] = g.visit(in, pos, name, i, args, a, f, cur, st)
			args = nargs
		}
	}
	if hasFn {
		flat = args
	}
	s := g.w.summaryFor(name, callee)
	if s == nil && readerName(name) {
		var extra []*Term
		if len(args) > 0 {
			if v := g.verOf(st, "ext", args[0]); v != nil {
				extra = append(extra, v)
			}
		}
		t := g.ts.mk("call", name, append(append([]*Term{}, flat...), extra...)...)
		if t.T == nil {
			t.T = T
		}
		return t
	}
	if s != nil && g.w.inModule(callee) && !s.IO && len(s.Writes) == 0 && !hasFn {
		extra := g.reads(st, s, args)
		if !s.Fresh {
			t := g.ts.mk("call", name, append(append([]*Term{}, flat...), extra...)...)
			if t.T == nil {
				t.T = T
			}
			g.emit("pure", name, cur, pos, in, t, flat...).Callee = callee
			return t
		}
		site := g.newSite()
		t := g.ts.mk("call", name, append(append(append([]*Term{}, flat...), extra...), site)...)
		t.T = T
		g.tagLoop(t)
		e := g.emit("pure", name, cur, pos, in, t, flat...)
		e.Callee = callee
		return t
	}
	var extra []*Term
	if s != nil {
		extra = g.reads(st, s, args)
	} else if len(args) > 0 {
		for _, a := range args {
			for a.Op == "iface" {
				a = a.A[0]
			}
			if v := g.verOf(st, "ext", a); v != nil {
				extra = append(extra, v)
			}
		}
	}
	site := g.newSite()
	t := g.ts.mk("call", name, append(append(append([]*Term{}, flat...), extra...), site)...)
	t.T = T
	g.tagLoop(t)
	g.emit("call", name, cur, pos, in, t, append(append([]*Term{}, flat...), extra...)...).Callee = callee
	for _, a := range args {
		if b := builderOf(a); b != nil {
			c, v := g.content(st, b)
			wr := g.ts.mk("written", "", t)
			wr.T = types.Typ[types.String]
			st.mem[c] = g.concat(v, wr)
		}
	}
	if s != nil {
		for _, k := range sortedKeys(s.Writes) {
			m := s.Writes[k]
			for i, a := range args {
				if m&paramBit(i) != 0 {
					g.touch(st, k, a, t)
				}
			}
			if m&topBit != 0 {
				g.touch(st, k, nil, t)
			}
		}
	} else {
		for i, a := range args {
			if i > 0 && name != "dyn" && !isAddr(a) {
				continue
			}
			for a.Op == "iface" {
				a = a.A[0]
			}
			if !isAddr(a) && i > 0 {
				continue
			}
			g.touch(st, "ext", a, t)
			if a.Op == "alloc" || a.Op == "faddr" {
				g.havocCells(st, a, t)
			}
		}
	}
	return t
}

func isAddr(a *Term) bool {
	for a.Op == "iface" {
		a = a.A[0]
	}
	return a.Op == "alloc" || a.Op == "faddr" || a.Op == "iaddr"
}

func (g *GV) newSite() *Term {
	g.uid++
	return g.ts.mk("site", strconv.Itoa(g.uid))
}

func (g *GV) tagLoop(t *Term) {
	if len(g.loops) > 0 {
		t.L = g.loops[len(g.loops)-1]
	}
}

// havocCells forgets what is known about a local object an external callee
// received the address of.
func (g *GV) havocCells(st *State, a, by *Term) {
	b := baseOf(a)
	if b.Op != "alloc" {
		return
	}
	var cells []*Term
	for k := range st.mem {
		if k.Op == "fver" || k.Op == "val" {
			continue
		}
		if k == a || derives(k, a) {
			cells = append(cells, k)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for _, k := range cells {
		u := g.ts.mk("post", "", k, by)
		u.T = st.mem[k].T
		st.mem[k] = u
	}
	if st.mem[a] == nil && a.Op == "alloc" {
		// never written by us: its contents now come from the callee
		u := g.ts.mk("post", "", a, by)
		if a.T != nil {
			if p, ok := a.T.Underlying().(*types.Pointer); ok {
				u.T = p.Elem()
			}
		}
		st.mem[a] = u
	}
}

// visit evaluates a function value handed to an opaque callee as the body of
// a loop over whatever that callee enumerates.
func (g *GV) visit(in *ssa.Function, pos token.Pos, name string, argi int, args []*Term, f *Term, fn *ssa.Function, cur *Node, st *State) *Term {
	B := g.ts.b
	g.uid++
	id := g.uid
	nm := func(s string) string { return fmt.Sprintf("%s@L%d", s, id) }
	var rest []*Term
	for i, a := range args {
		if i != argi {
			rest = append(rest, a)
		}
	}
	L := &Loop{ID: id, Pos: pos, Fn: in, Kind: "visit:" + name, Entry: B.And(append(append([]*Node{}, g.path...), cur)...)}
	L.Dom = g.ts.mk("vargs", strconv.Itoa(argi), rest...)
	if len(g.loops) > 0 {
		L.Parent = g.loops[len(g.loops)-1]
	}
	idx := g.ts.mk("idx", nm("i"))
	idx.L = L
	L.Idx = idx
	var params []*Term
	for i, p := range fn.Params {
		t := g.ts.mk("visitelem", nm(strconv.Itoa(i)))
		t.L = L
		t.T = p.Type()
		params = append(params, t)
	}
	self := g.ts.mk("visitfn", fmt.Sprintf("L%d", id))
	self.L = L
	for _, s := range g.stack {
		if s == fn {
			return self
		}
	}
	var start *State
	run := func(mod []*Term) (*State, []*Term, *Node) {
		s := st.clone()
		for _, k := range mod {
			v := g.ts.mk("loopv", nm("m"+strconv.Itoa(k.id)))
			v.L = L
			if o := st.mem[k]; o != nil && v.T == nil {
				v.T = o.T
			}
			s.mem[k] = v
		}
		start = s.clone()
		g.loops = append(g.loops, L)
		g.path = append(g.path, cur)
		vals, ng, out := g.Eval(fn, params, f.A, s)
		if g.quiet == 0 && len(vals) > 0 {
			g.emit("visitret", name, ng, pos, in, nil, vals...)
		}
		g.path = g.path[:len(g.path)-1]
		g.loops = g.loops[:len(g.loops)-1]
		return out, vals, ng
	}
	diff := func(out *State) []*Term {
		var ks []*Term
		for k, v := range out.mem {
			if start.mem[k] == v {
				continue
			}
			if start.mem[k] == nil && g.iterLocal(k, L) {
				continue
			}
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		return ks
	}
	g.quiet++
	saved := len(g.Loops)
	out, _, _ := run(nil)
	mod := diff(out)
	if len(mod) > 0 {
		out, _, _ = run(mod)
		for _, k := range diff(out) {
			if !containsTerm(mod, k) {
				mod = append(mod, k)
			}
		}
	}
	g.quiet--
	g.Loops = g.Loops[:saved]
	g.Loops = append(g.Loops, L)
	out, _, ng := run(mod)
	if ng != B.True {
		L.Exits = append(L.Exits, LExit{Guard: B.Not(ng), Kind: "abort"})
	}
	for _, k := range mod {
		v := start.mem[k]
		init := st.mem[k]
		if init == nil {
			if k.Op == "val" {
				init = g.bigval(st, k.A[0])
			} else {
				init = g.load(st, k, v.T)
			}
		}
		lv := &LVar{Name: "m" + strconv.Itoa(k.id), V: v, Init: init, Next: out.mem[k]}
		if lv.Next == nil {
			lv.Next = v
		}
		lv.Out = g.ts.mk("out", v.S)
		lv.Out.L = L
		lv.Out.T = v.T
		if o := g.flagOut(L, lv); o != nil {
			lv.Out = o
		}
		L.Phis = append(L.Phis, lv)
		st.mem[k] = lv.Out
	}
	return self
}

// iterLocal: the address belongs to one iteration of L only.
func (g *GV) iterLocal(k *Term, L *Loop) bool {
	inL := func(p *Loop) bool {
		for ; p != nil; p = p.Parent {
			if p == L {
				return true
			}
		}
		return false
	}
	if k.contains(func(x *Term) bool { return x.L != nil && inL(x.L) }) {
		return true
	}
	return baseOf(k).Op == "alloc" && g.allocInLoop(baseOf(k), L)
}

// appendOut: a loop that appends the elements of a collection one by one has
// appended the collection.
func (g *GV) appendOut(L *Loop, lv *LVar) *Term {
	n := lv.Next
	if L.Kind != "each" || L.Dom == nil || n.Op != "append" || len(n.A) != 2 || n.A[0] != lv.V {
		return nil
	}
	if L.Idx == nil {
		return nil
	}
	e, w := n.A[1], g.index(L.Dom, L.Idx)
	if e != w && (e.Op != "elem" || w.Op != "elem" || e.A[0] != w.A[0] || e.A[1] != w.A[1]) {
		return nil
	}
	return g.ts.mk("appendall", "", lv.Init, L.Dom)
}

// flagOut turns any/all flags into quantified conditions.
func (g *GV) flagOut(L *Loop, lv *LVar) *Term {
	B := g.ts.b
	if !isBoolTerm(lv.V) || !isBoolTerm(lv.Init) {
		return nil
	}
	a := B.atom(lv.V)
	n := g.cond(lv.Next)
	n0, n1 := B.Restrict(n, a.v, false), B.Restrict(n, a.v, true)
	i := g.cond(lv.Init)
	if n1 == B.True && n0 != B.False { // v || c
		return g.ts.BoolT(B.Or(i, g.exists(L, n0, "F")))
	}
	if n0 == B.False && n1 != B.True { // v && c
		return g.ts.BoolT(B.And(i, B.Not(g.exists(L, B.Not(n1), "F"))))
	}
	return nil
}
