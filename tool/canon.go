package main

import (
	"sort"
	"strconv"
	"strings"
)

// Canonical naming. Loops, loop variables, local objects and call sites get
// names derived only from what they compute, by partition refinement: every
// round renames with the names of the round before, in lockstep for the
// function under analysis and its reference. What is computed the same way
// ends up being the same term.

const rounds = 7

type Side struct {
	g    *GV
	fn   string
	rets []*Term
	ng   *Node
	effs []*Effect

	plain map[*Loop]*Term
	full  map[*Loop]*Term
	lv    map[*Term]*Term
	obj   map[*Term]*Term
	ord   map[*Term]int

	nplain, nfull map[*Loop]*Term
	nlv           map[*Term]*Term
	nobj          map[*Term]*Term

	memo   map[*Term]*Term
	objs   []*Term
	stores map[*Term][]*Effect
	lvOf   map[*Term]*LVar
	loopOf map[string]*Loop
	allocL map[*Term]*Loop

	lamDepth int
}

func (g *GV) newSide(fn string, rets []*Term, ng *Node) *Side {
	s := &Side{g: g, fn: fn, rets: rets, ng: ng, effs: g.Effects,
		plain: map[*Loop]*Term{}, full: map[*Loop]*Term{}, lv: map[*Term]*Term{}, obj: map[*Term]*Term{},
		stores: map[*Term][]*Effect{}, lvOf: map[*Term]*LVar{}, loopOf: map[string]*Loop{}, ord: map[*Term]int{}}
	for _, l := range g.Loops {
		s.loopOf["L"+strconv.Itoa(l.ID)] = l
		for _, v := range l.Phis {
			if v.V.Op == "loopv" {
				s.lvOf[v.V] = v
			}
		}
	}
	seen := map[*Term]bool{}
	for _, e := range s.effs {
		switch e.Kind {
		case "store", "mut":
			b := baseOf(e.A[0])
			if b.Op == "alloc" {
				s.stores[b] = append(s.stores[b], e)
				if !seen[b] {
					seen[b] = true
					s.objs = append(s.objs, b)
				}
			}
		case "mapset", "mapdel":
			b := e.A[0]
			if b.Op == "makemap" {
				s.stores[b] = append(s.stores[b], e)
				if !seen[b] {
					seen[b] = true
					s.objs = append(s.objs, b)
				}
			}
		}
	}
	return s
}

func (s *Side) ts() *Terms { return s.g.ts }

func (ts *Terms) leaf(op string, t *Term) *Term {
	r := ts.mk(op, "c"+strconv.Itoa(t.id))
	if tdiffOn {
		leafOf[r] = t
	}
	return r
}

func (s *Side) loopName(l *Loop, full bool) *Term {
	m := s.plain
	if full {
		m = s.full
	}
	if t := m[l]; t != nil {
		return t
	}
	k := l.Kind
	return s.ts().leaf("tok", s.ts().mk("loop0", k))
}

func loopID(t *Term) string {
	// "x@L12" or "L12"
	i := strings.LastIndexByte(t.S, 'L')
	if i < 0 {
		return ""
	}
	return t.S[i:]
}

func allocType(t *Term) string {
	x := t.S
	if i := strings.IndexByte(x, ':'); i >= 0 {
		x = x[i+1:]
	}
	if i := strings.LastIndexByte(x, '#'); i >= 0 {
		x = x[:i]
	}
	return strings.ReplaceAll(x, ".spec_", ".")
}

// rename maps the run-specific names inside t to canonical ones.
func (s *Side) rename(t *Term) *Term {
	if t == nil {
		return nil
	}
	return s.g.substMemo(t, s.memo, s.leafName)
}

func (s *Side) renameN(n *Node) *Node { return s.rename(s.ts().BoolT(n)).B }

func (s *Side) leafName(t *Term) *Term {
	ts := s.ts()
	typed := func(r *Term) *Term {
		if r.T == nil {
			r.T, r.M = t.T, t.M
		}
		return r
	}
	switch t.Op {
	case "idx":
		if t.L != nil {
			return typed(ts.mk("idx", "", s.loopName(t.L, false)))
		}
	case "loopv":
		if t.L != nil {
			if c := s.lv[t]; c != nil {
				return typed(ts.mk("loopv", "", s.loopName(t.L, false), c))
			}
			return typed(ts.mk("loopv", "", s.loopName(t.L, false)))
		}
	case "out":
		if t.L != nil {
			base := ts.mk("loopv", t.S)
			if c := s.lv[base]; c != nil {
				return typed(ts.mk("out", "", s.loopName(t.L, true), c))
			}
			nm := t.S[:strings.IndexByte(t.S, '@')]
			if !strings.HasPrefix(nm, "v:") && nm != "i" {
				nm = ""
			}
			return typed(ts.mk("out", nm, s.loopName(t.L, true)))
		}
	case "mapkey", "mapval":
		if l := s.loopOf[loopID(t)]; l != nil {
			return typed(ts.mk(t.Op, "", s.rename(t.A[0]), s.loopName(l, false)))
		}
	case "visitelem":
		if t.L != nil {
			return typed(ts.mk("visitelem", t.S[:strings.IndexByte(t.S, '@')], s.loopName(t.L, false)))
		}
	case "visitfn":
		if t.L != nil {
			return ts.mk("visitfn", "", s.loopName(t.L, true))
		}
	case "lid":
		if l := s.loopOf[t.S]; l != nil {
			return ts.mk("lid", "", s.loopName(l, false))
		}
	case "exists":
		if t.L != nil {
			return ts.BoolT(s.exitWay(t))
		}
	case "alloc":
		if c := s.obj[t]; c != nil {
			return c
		}
		return typed(ts.mk("new", allocType(t)))
	case "makemap":
		if c := s.obj[t]; c != nil {
			return c
		}
		return typed(ts.mk("newmap", ""))
	case "makeslice":
		return typed(ts.mk("makeslice", "", s.rename(t.A[0])))
	case "global":
		if strings.Contains(t.S, ".spec_") {
			return typed(ts.mk("global", strings.Replace(t.S, ".spec_", ".", 1)))
		}
	case "site":
		return ts.mk("csite", strconv.Itoa(s.ord[t]))
	case "list":
		if len(t.A) == 0 {
			return ts.Nil()
		}
	case "call":
		switch t.S {
		case "fmt.Errorf", "errors.New":
			return ts.mk("error", "")
		}
		if n := len(t.A); n > 0 && t.A[n-1].Op == "site" {
			var as []*Term
			for _, a := range t.A[:n-1] {
				as = append(as, s.rename(a))
			}
			lt := ts.mk("root", "")
			if t.L != nil {
				lt = s.loopName(t.L, false)
			}
			as = append(as, ts.mk("csite", strconv.Itoa(s.ord[t]), lt))
			return typed(ts.mk("call", t.S, as...))
		}
	case "closure", "fn":
		if r := s.lam(t); r != nil {
			return r
		}
	}
	return nil
}

// substMemo is subst with a memo table shared between calls.
func (g *GV) substMemo(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	nmemo := map[*Node]*Node{}
	var rec func(t *Term) *Term
	var recN func(n *Node) *Node
	recN = func(n *Node) *Node {
		if n.v < 0 {
			return n
		}
		if m := nmemo[n]; m != nil {
			return m
		}
		a := g.ts.b.Atoms[n.v]
		an := g.liftAtom(g.reatom(rec(a), a))
		r := g.ts.b.ite(an, recN(n.hi), recN(n.lo))
		nmemo[n] = r
		return r
	}
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if m := memo[t]; m != nil {
			return m
		}
		if r := f(t); r != nil {
			memo[t] = r
			return r
		}
		memo[t] = t
		ch := false
		var na []*Term
		for _, a := range t.A {
			x := rec(a)
			if x != a {
				ch = true
			}
			na = append(na, x)
		}
		nb := t.B
		if nb != nil {
			nb = recN(nb)
		}
		if !ch && nb == t.B {
			return t
		}
		r := g.rebuild(t, na, nb)
		memo[t] = r
		return r
	}
	return rec(t)
}

// liftAtom moves conditional values out of the atoms of a condition.
func (g *GV) liftAtom(n *Node) *Node {
	return g.liftN(n, 0)
}

func (g *GV) liftN(n *Node, d int) *Node {
	if n.v < 0 || d > 12 {
		return n
	}
	B := g.ts.b
	for _, v := range B.Support(n) {
		a := B.Atoms[v]
		if a.Op == "exists" {
			continue
		}
		c := g.findIte(a)
		if c == nil {
			continue
		}
		hi := g.reatom(g.pick(a, c, true), a)
		lo := g.reatom(g.pick(a, c, false), a)
		an := B.ite(c, hi, lo)
		n = B.ite(an, B.Restrict(n, v, true), B.Restrict(n, v, false))
		return g.liftN(n, d+1)
	}
	return n
}

// findIte returns the condition of some conditional value inside t.
func (g *GV) findIte(t *Term) *Node {
	if n, ok := g.iteMemo[t]; ok {
		return n
	}
	if g.iteMemo == nil {
		g.iteMemo = map[*Term]*Node{}
	}
	g.iteMemo[t] = nil
	var r *Node
	if t.Op == "ite" {
		r = t.B
	} else if !opaqueInside(t) {
		for _, a := range t.A {
			if r = g.findIte(a); r != nil {
				break
			}
		}
	}
	g.iteMemo[t] = r
	return r
}

func opaqueInside(t *Term) bool {
	switch t.Op {
	case "tok", "cls", "newmap", "entry":
		return true
	case "elem":
		return t.A[1].Op == "idx"
	}
	return false
}

// pick resolves every conditional on c inside t.
func (g *GV) pick(t *Term, c *Node, val bool) *Term {
	memo := map[*Term]*Term{}
	B := g.ts.b
	care := c
	if !val {
		care = B.Not(c)
	}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if g.findIte(t) == nil {
			return t
		}
		if m := memo[t]; m != nil {
			return m
		}
		if t.Op == "ite" {
			var r *Term
			if B.And(care, t.B) == B.False {
				r = rec(t.A[1])
			} else if B.And(care, B.Not(t.B)) == B.False {
				r = rec(t.A[0])
			} else {
				r = g.ite(t.B, rec(t.A[0]), rec(t.A[1]))
			}
			memo[t] = r
			return r
		}
		if opaqueInside(t) {
			return t
		}
		var na []*Term
		ch := false
		for _, a := range t.A {
			x := rec(a)
			if x != a {
				ch = true
			}
			na = append(na, x)
		}
		r := t
		if ch {
			r = g.rebuild(t, na, t.B)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// exitWay: the condition under which a loop is left in the way t says. What
// the loop body computed stands for its last iteration afterwards, so the way
// out is told by the same conditions; only whether a collection is left before
// its end needs a name of its own.
func (s *Side) exitWay(t *Term) *Node {
	ts, B := s.ts(), s.g.B()
	l := t.L
	n := s.renameN(t.B)
	ex := n
	if t.S[0] == 'L' {
		ex = s.renameN(s.exitCond(l))
		if B.Imp(n, ex) != B.True {
			ex = B.Or(ex, n)
		}
	}
	n = B.Constrain(n, ex)
	if t.S[0] == 'L' && (l.Kind == "while" || l.Dom == nil) {
		return n
	}
	as := []*Term{ts.mk("root", "")}
	if l.Parent != nil {
		as[0] = s.loopName(l.Parent, false)
	}
	if l.Kind != "while" && l.Dom != nil {
		as = append(as, s.g.lift(s.rename(l.Dom)))
	}
	as = append(as, ts.BoolT(ex))
	tok := ts.leaf("tok", ts.mk("loop", l.Kind, as...))
	if l.Kind == "each" || l.Kind == "map" {
		ts.loopDom[tok] = as[1]
	}
	return B.And(B.atom(ts.mkB("exists", "", ex, tok)), n)
}

// exitCond: when an iteration of l is the last one.
func (s *Side) exitCond(l *Loop) *Node {
	B := s.g.B()
	ex := B.False
	for _, x := range l.Exits {
		ex = B.Or(ex, x.Guard)
	}
	if l.Kind == "while" && l.Cont != nil {
		ex = B.Or(ex, B.Not(l.Cont))
	}
	return ex
}

// refine runs one round.
func (s *Side) refine() {
	ts := s.ts()
	s.memo = map[*Term]*Term{}
	s.nplain, s.nfull = map[*Loop]*Term{}, map[*Loop]*Term{}
	s.nlv, s.nobj = map[*Term]*Term{}, map[*Term]*Term{}
	for _, l := range s.g.Loops {
		as := []*Term{}
		if l.Parent != nil {
			as = append(as, s.loopName(l.Parent, false))
		} else {
			as = append(as, ts.mk("root", ""))
		}
		ex := s.exitCond(l)
		if l.Kind != "while" && l.Dom != nil {
			as = append(as, s.g.lift(s.rename(l.Dom)))
		}
		s.nplain[l] = ts.leaf("tok", ts.mk("loop", l.Kind, as...))
		exn := s.renameN(ex)
		as = append(as, ts.BoolT(exn))
		t := ts.leaf("tok", ts.mk("loop", l.Kind, as...))
		s.nfull[l] = t
		if l.Kind == "while" {
			s.nplain[l] = t
		}
		for _, v := range l.Phis {
			if v.V.Op != "loopv" {
				continue
			}
			init, next := s.rename(v.Init), s.rename(v.Next)
			if l.Back != nil {
				next = s.g.under(next, s.renameN(l.Back))
			}
			if l.Entry != nil {
				init = s.g.under(init, s.renameN(l.Entry))
			}
			s.nlv[v.V] = ts.leaf("cls", ts.mk("lv", "", s.g.lift(init), s.g.lift(next)))
		}
	}
	for _, o := range s.objs {
		s.nobj[o] = s.objName(o)
	}
	// call sites: order among calls that look alike
	s.ord = s.siteOrd()
	s.plain, s.full, s.lv, s.obj = s.nplain, s.nfull, s.nlv, s.nobj
}

// inLoops simplifies the condition of something done inside loops: there is
// something they iterate over.
func (s *Side) inLoops(n *Node, ls []*Loop) *Node {
	B := s.g.B()
	for _, l := range ls {
		if l.Dom != nil && (l.Kind == "each" || l.Kind == "map") {
			if c := B.Not(s.ts().ilt(s.g.length(s.rename(l.Dom)), s.ts().Int(1))); B.And(n, c) != B.False {
				n = B.Constrain(n, c)
			}
		}
	}
	return n
}

// byField puts what is stored in different fields in the same iteration in the
// order of the fields, and replaces stores in the same field by what remains.
func (s *Side) byField(es []*Term) []*Term {
	var out []*Term
	sameLoops := func(a, b *Term) bool {
		if len(a.A) != len(b.A) {
			return false
		}
		for i := 3; i < len(a.A); i++ {
			if a.A[i] != b.A[i] {
				return false
			}
		}
		return true
	}
	for i := 0; i < len(es); {
		j := i
		plain := true
		for ; j < len(es) && sameLoops(es[i], es[j]); j++ {
			p := es[j].A[0].S
			if p == "?" || strings.ContainsAny(p, "#[*") {
				plain = false
			}
			for _, e := range es[i:j] {
				if q := e.A[0].S; p != q && (p == "" || q == "" || strings.HasPrefix(p, q+".") || strings.HasPrefix(q, p+".")) {
					plain = false
				}
			}
		}
		blk := es[i:j]
		i = j
		if !plain {
			out = append(out, blk...)
			continue
		}
		last := map[string]*Term{}
		var ks []string
		for _, e := range blk {
			p := e.A[0].S
			o := last[p]
			if o == nil {
				ks = append(ks, p)
				last[p] = e
				continue
			}
			n := e.A[2].B
			any := s.g.B().Or(n, o.A[2].B)
			as := append([]*Term{}, e.A...)
			as[1] = s.g.under(s.g.ite(n, e.A[1], o.A[1]), any)
			as[2] = s.ts().BoolT(any)
			last[p] = s.ts().mk("entry", "", as...)
		}
		sort.Strings(ks)
		for _, p := range ks {
			out = append(out, last[p])
		}
	}
	return out
}

// objName describes a local object by what is stored in it.
func (s *Side) objName(o *Term) *Term {
	ts, B := s.ts(), s.g.B()
	if o.Op == "makemap" {
		var es []*Term
		for _, e := range s.stores[o] {
			as := []*Term{ts.mk("kind", e.Kind)}
			for _, a := range e.A[1:] {
				as = append(as, s.rename(a))
			}
			as = append(as, ts.BoolT(s.inLoops(s.renameN(e.Guard), e.Loops)))
			for _, l := range e.Loops {
				as = append(as, s.loopName(l, true))
			}
			es = append(es, ts.mk("entry", "", as...))
		}
		es = dedupe(es)
		return ts.mk("newmap", "", ts.leaf("cls", ts.mk("entries", "", es...)))
	}
	depth := 0
	for l := o.L; l != nil; l = l.Parent {
		depth++
	}
	type cell struct {
		key string
		v   *Term
	}
	direct := map[string]*Term{}
	var extra []*Term
	for _, e := range s.stores[o] {
		path := addrPath(e.A[0], s)
		val := s.rename(e.A[1])
		if e.Kind == "mut" {
			path = path + "#val"
		}
		if len(e.Loops) <= depth && path != "?" {
			gn := s.inLoops(s.renameN(e.Guard), e.Loops)
			val = s.g.under(val, gn)
			set := func(p string, v *Term) {
				old := direct[p]
				if old == nil {
					old = ts.mk("zero0", "")
				}
				if e.Kind == "mut" && e.Name == "NewInt" {
					direct[p] = v
					return
				}
				direct[p] = s.g.ite(gn, v, old)
				if gn == B.True {
					direct[p] = v
				}
			}
			if val.Op == "struct" {
				for i, f := range strings.Split(val.S, ",") {
					set(joinPath(path, f), val.A[i])
				}
			} else if val.Op == "zero" {
				for k := range direct {
					if path == "" || strings.HasPrefix(k, path+".") {
						delete(direct, k)
					}
				}
			} else {
				set(path, val)
			}
			continue
		}
		gn := s.inLoops(s.renameN(e.Guard), e.Loops)
		as := []*Term{ts.mk("path", path), s.g.under(val, gn), ts.BoolT(gn)}
		if path == "?" {
			as = append(as, s.renameAddr(e.A[0], o))
		}
		for _, l := range e.Loops[min(depth, len(e.Loops)):] {
			as = append(as, s.loopName(l, true))
		}
		extra = append(extra, ts.mk("entry", "", as...))
	}
	var ks []string
	for k, v := range direct {
		if isZero(v) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var vs []*Term
	for _, k := range ks {
		vs = append(vs, direct[k])
	}
	if len(extra) > 0 {
		ks = append(ks, "+")
		vs = append(vs, ts.leaf("cls", ts.mk("entries", "", dedupe(s.byField(extra))...)))
	}
	r := ts.mk("new", allocType(o)+"{"+strings.Join(ks, ",")+"}", vs...)
	if r.T == nil {
		r.T, r.M = o.T, o.M
	}
	return r
}

func dedupe(es []*Term) []*Term {
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	var out []*Term
	for i, e := range es {
		if i == 0 || e != es[i-1] {
			out = append(out, e)
		}
	}
	return out
}

func isZero(t *Term) bool {
	switch t.Op {
	case "zero0", "nil", "zero":
		return true
	case "const":
		return t.S == "0" || t.S == `""` || t.S == "0.0"
	case "bool":
		return t.B.v < 0 && !t.B.val
	case "list":
		return len(t.A) == 0
	}
	return false
}

func joinPath(p, f string) string {
	if p == "" {
		return f
	}
	return p + "." + f
}

func addrPath(a *Term, s *Side) string {
	switch a.Op {
	case "alloc":
		return ""
	case "faddr":
		p := addrPath(a.A[0], s)
		if p == "?" {
			return p
		}
		return joinPath(p, a.S)
	case "iaddr":
		p := addrPath(a.A[0], s)
		if k, ok := a.A[1].isInt(); ok && p != "?" {
			return joinPath(p, strconv.FormatInt(k, 10))
		}
		return "?"
	case "val":
		return addrPath(a.A[0], s)
	}
	return "?"
}

func (s *Side) renameAddr(a, o *Term) *Term {
	t := s.g.subst(a, func(t *Term) *Term {
		if t == o {
			return s.ts().mk("self", "")
		}
		return nil
	})
	return s.rename(t)
}

func (s *Side) siteOrd() map[*Term]int {
	ord := map[*Term]int{}
	type key struct{ t *Term }
	prev := map[*Term][]*Effect{}
	B := s.g.B()
	for _, e := range s.effs {
		if e.Kind != "call" && e.Kind != "write" || e.Res == nil || len(e.Res.A) == 0 {
			continue
		}
		if e.Res.A[len(e.Res.A)-1].Op != "site" {
			continue
		}
		var as []*Term
		for _, a := range e.A {
			as = append(as, s.rename(a))
		}
		for _, l := range e.Loops {
			as = append(as, s.loopName(l, false))
		}
		k := s.ts().mk("sitekey", e.Name, as...)
		n := 0
		for _, p := range prev[k] {
			if B.And(p.Guard, e.Guard) != B.False {
				n++
			}
		}
		prev[k] = append(prev[k], e)
		ord[e.Res] = n
	}
	return ord
}

var lamUID = 1

// lam names a function value by what it computes.
func (s *Side) lam(t *Term) *Term {
	g, ts := s.g, s.ts()
	f := g.ts.fn[t]
	if f == nil || f.Blocks == nil || !g.w.inModule(f) || g.w.boundary(fnName(f)) {
		return nil
	}
	if s.lamDepth >= 2 {
		return ts.mk("lam", strconv.Itoa(len(f.Params)))
	}
	sub := newGV(g.w)
	sub.ts = ts
	sub.Opaque = g.Opaque
	sub.rawGlobals = g.rawGlobals
	lamUID++
	sub.uid = lamUID * 1000000
	var args, fvs []*Term
	for i, p := range f.Params {
		a := ts.mk("param", "lamarg"+strconv.Itoa(s.lamDepth)+"."+strconv.Itoa(i))
		if a.T == nil {
			a.T = p.Type()
		}
		args = append(args, a)
	}
	st := &State{mem: map[*Term]*Term{}}
	for _, c := range t.A {
		n := s.rename(c)
		fvs = append(fvs, n)
		if c.Op == "alloc" {
			if es := s.stores[c]; len(es) == 1 && es[0].Kind == "store" && es[0].A[0] == c {
				st.mem[n] = s.rename(es[0].A[1])
			}
		}
	}
	rets, ng, _ := sub.Eval(f, args, fvs, st)
	side := sub.newSide(fnName(f), rets, ng)
	side.lamDepth = s.lamDepth + 1
	c := side.canonical(nil)
	var as []*Term
	as = append(as, c.rets...)
	as = append(as, ts.BoolT(c.ng))
	lts := map[*Term]bool{}
	for l := range c.aborts {
		lts[l] = true
	}
	for _, l := range sortTerms(lts) {
		as = append(as, ts.mk("abort", "", l, ts.BoolT(c.aborts[l].guard)))
	}
	lts = map[*Term]bool{}
	for l := range c.stores {
		lts[l] = true
	}
	for _, l := range sortTerms(lts) {
		var es []*Term
		for _, e := range c.stores[l] {
			es = append(es, ts.mk("set", "", l, e.addr, e.val))
		}
		as = append(as, dedupe(es)...)
	}
	for _, es := range [][]*ceff{c.calls, c.writes} {
		for _, e := range es {
			as = append(as, ts.mk("does", e.kind+" "+e.name, append([]*Term{e.loops, ts.BoolT(e.guard)}, e.args...)...))
		}
	}
	return ts.leaf("cls", ts.mk("lam", strconv.Itoa(len(f.Params)), as...))
}

// maxLift bounds the alternatives a value is spread over when it is named.
const maxLift = 64

// lift moves the choices inside a value to its outside, so that it does not
// matter at which point of its computation they were made.
func (g *GV) lift(t *Term) *Term {
	if g.findIte(t) == nil {
		return t
	}
	if g.liftMemo == nil {
		g.liftMemo = map[*Term][]alternative{}
	}
	as := g.alternatives(t)
	if as == nil {
		return t
	}
	r := as[len(as)-1].v
	for i := len(as) - 2; i >= 0; i-- {
		r = g.ite(as[i].n, as[i].v, r)
	}
	return r
}

type alternative struct {
	n *Node
	v *Term
}

func (g *GV) alternatives(t *Term) []alternative {
	B := g.ts.b
	if g.findIte(t) == nil {
		return []alternative{{B.True, t}}
	}
	if r, ok := g.liftMemo[t]; ok {
		return r
	}
	g.liftMemo[t] = nil
	var out []alternative
	at := map[*Term]int{}
	add := func(n *Node, v *Term) bool {
		if n == B.False {
			return true
		}
		if i, ok := at[v]; ok {
			out[i].n = B.Or(out[i].n, n)
			return true
		}
		at[v] = len(out)
		out = append(out, alternative{n, v})
		return len(out) <= maxLift
	}
	if t.Op == "ite" {
		for i, c := range []*Node{t.B, B.Not(t.B)} {
			as := g.alternatives(t.A[i])
			if as == nil {
				return nil
			}
			for _, a := range as {
				if !add(B.And(c, a.n), a.v) {
					return nil
				}
			}
		}
	} else {
		type row struct {
			n  *Node
			as []*Term
		}
		rows := []row{{n: B.True}}
		for _, a := range t.A {
			as := g.alternatives(a)
			if as == nil {
				return nil
			}
			var next []row
			for _, r := range rows {
				for _, x := range as {
					if n := B.And(r.n, x.n); n != B.False {
						next = append(next, row{n, append(r.as[:len(r.as):len(r.as)], x.v)})
					}
				}
			}
			if len(next) > maxLift {
				return nil
			}
			rows = next
		}
		for _, r := range rows {
			v := g.rebuild(t, r.as, t.B)
			if v.Op == "ite" {
				return nil
			}
			if !add(r.n, v) {
				return nil
			}
		}
	}
	g.liftMemo[t] = out
	return out
}
