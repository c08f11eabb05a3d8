package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
)

// Diff is one construct whose behaviour departs from the reference.
type Diff struct {
	What string
	Pos  token.Pos
	Note string
}

type cmpr struct {
	g      *GV
	budget int
	memo   map[string]bool
	thMemo map[*Node]*Node
}

// ---------- conditions

// possible reports whether n can hold given the theory of its atoms.
func (c *cmpr) possible(n *Node) bool {
	B := c.g.B()
	if n == B.False {
		return false
	}
	if n == B.True {
		return true
	}
	if r, ok := c.thMemo[n]; ok {
		return r != B.False
	}
	r := n
	for _, t := range c.theory(B.Support(n)) {
		r = B.And(r, t)
		if r == B.False {
			break
		}
	}
	c.thMemo[n] = r
	return r != B.False
}

// theory lists what always holds between the given atoms.
func (c *cmpr) theory(vs []int) []*Node {
	g, B := c.g, c.g.B()
	var out []*Node
	atom := func(v int) *Node { return B.mk(v, B.False, B.True) }
	// an iteration happened only if there was something to iterate over
	have := map[int]bool{}
	for _, v := range vs {
		have[v] = true
	}
	for _, v := range vs {
		if a := B.Atoms[v]; a.Op == "exists" && len(a.A) == 1 {
			// what the loop was left for held in its last iteration
			if a.B != nil {
				out = append(out, B.Imp(atom(v), a.B))
			}
			if d := g.ts.loopDom[a.A[0]]; d != nil {
				empty := g.ts.ilt(g.length(d), g.ts.Int(1))
				out = append(out, B.Imp(atom(v), B.Not(empty)))
				for _, x := range B.Support(empty) {
					if !have[x] {
						have[x] = true
						vs = append(vs[:len(vs):len(vs)], x)
					}
				}
			}
		}
	}
	// a condition on a value that depends on conditions
	for i := 0; i < len(vs) && i < 400; i++ {
		a := B.Atoms[vs[i]]
		if a.Op == "exists" || g.findIte(a) == nil {
			continue
		}
		if l := g.liftAtom(atom(vs[i])); l != atom(vs[i]) {
			out = append(out, B.Not(B.Xor(l, atom(vs[i]))))
			for _, x := range B.Support(l) {
				if !have[x] {
					have[x] = true
					vs = append(vs[:len(vs):len(vs)], x)
				}
			}
		}
	}
	type iv struct {
		v  int
		k  int64
		eq bool
	}
	byLin := map[*Term][]iv{}
	byEq := map[*Term][]int{}
	lts := map[[2]*Term]int{}
	teqs := map[[2]*Term]int{}
	for _, v := range vs {
		a := B.Atoms[v]
		switch a.Op {
		case "ilt", "ieq":
			byLin[a.A[0]] = append(byLin[a.A[0]], iv{v, atoi64(a.S), a.Op == "ieq"})
		case "eq":
			for i := range a.A {
				o := a.A[1-i]
				if o.Op == "const" || o.isNil() || o.Op == "global" {
					byEq[a.A[i]] = append(byEq[a.A[i]], v)
				}
			}
		case "lt":
			lts[[2]*Term{a.A[0], a.A[1]}] = v
		case "teq":
			teqs[[2]*Term{a.A[0], a.A[1]}] = v
		case "has":
			// nothing is in a nil map
			if x := g.eq(a.A[0], g.ts.Nil()); x != B.False && x != B.True {
				for _, s := range B.Support(x) {
					if have[s] {
						out = append(out, B.Not(B.And(atom(v), x)))
						break
					}
				}
			}
		}
	}
	for n, l := range byLin {
		nonneg := n.Op == "len" || n.Op == "idx" || n.Op == "cap"
		for i, x := range l {
			if nonneg {
				if x.eq && x.k < 0 || !x.eq && x.k <= 0 {
					out = append(out, B.Not(atom(x.v)))
				}
				if !x.eq && x.k == 1 {
					// n<1 <=> n==0
					for _, y := range l {
						if y.eq && y.k == 0 {
							out = append(out, B.Not(B.Xor(atom(x.v), atom(y.v))))
						}
					}
				}
			}
			for _, y := range l[i+1:] {
				switch {
				case x.eq && y.eq:
					if x.k != y.k {
						out = append(out, B.Not(B.And(atom(x.v), atom(y.v))))
					}
				case !x.eq && !y.eq:
					a, b := x, y
					if a.k > b.k {
						a, b = b, a
					}
					out = append(out, B.Imp(atom(a.v), atom(b.v)))
				default:
					e, t := x, y
					if y.eq {
						e, t = y, x
					}
					// n==k: n<t.k iff k<t.k
					out = append(out, B.Imp(atom(e.v), B.Not(B.Xor(atom(t.v), B.Bool(e.k < t.k)))))
				}
			}
		}
		// n<k+1 && !(n<k) => n==k
		for _, x := range l {
			if !x.eq {
				continue
			}
			var lo, hi *Node
			if nonneg && x.k == 0 {
				lo = B.False
			}
			for _, y := range l {
				if y.eq {
					continue
				}
				if y.k == x.k {
					lo = atom(y.v)
				}
				if y.k == x.k+1 {
					hi = atom(y.v)
				}
			}
			if lo != nil && hi != nil {
				out = append(out, B.Imp(B.And(hi, B.Not(lo)), atom(x.v)))
			}
		}
	}
	for _, l := range byEq {
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if B.Atoms[l[i]] != B.Atoms[l[j]] {
					x, y := B.Atoms[l[i]], B.Atoms[l[j]]
					cx, cy := constSide(x), constSide(y)
					if cx != nil && cy != nil && cx != cy && cx.Op != "global" && cy.Op != "global" {
						out = append(out, B.Not(B.And(atom(l[i]), atom(l[j]))))
					}
				}
			}
		}
	}
	for k, v := range lts {
		if w, ok := lts[[2]*Term{k[1], k[0]}]; ok {
			out = append(out, B.Not(B.And(atom(v), atom(w))))
		}
		for e, ev := range teqs {
			if e[0] == k[0] && e[1] == k[1] || e[0] == k[1] && e[1] == k[0] {
				out = append(out, B.Not(B.And(atom(v), atom(ev))))
			}
		}
	}
	// nothing is in a list or map that is nil
	for x, es := range byEq {
		for _, v := range es {
			if a := B.Atoms[v]; !a.A[0].isNil() && !a.A[1].isNil() {
				continue
			}
			for l, is := range byLin {
				if l.Op != "len" || l.A[0] != x {
					continue
				}
				for _, i := range is {
					if !i.eq && i.k >= 1 {
						out = append(out, B.Imp(atom(v), atom(i.v)))
					}
				}
			}
		}
	}
	// the ways out of one loop
	byLoop := map[*Term][]int{}
	for _, v := range vs {
		if a := B.Atoms[v]; a.Op == "exists" && len(a.A) == 1 {
			byLoop[a.A[0]] = append(byLoop[a.A[0]], v)
		}
	}
	for l, es := range byLoop {
		if len(es) < 2 || len(es) > 5 {
			continue
		}
		ex, early := g.ts.loopEx[l]
		for m := 1; m < 1<<len(es); m++ {
			var lits []*Node
			all, none, exit := B.True, B.True, early
			for i, v := range es {
				n := B.Atoms[v].B
				if m>>i&1 == 1 {
					all = B.And(all, n)
					lits = append(lits, atom(v))
					if early && B.Imp(n, ex) != B.True {
						exit = false
					}
				} else {
					none = B.And(none, B.Not(n))
					lits = append(lits, B.Not(atom(v)))
				}
			}
			bad := false
			if exit { // one iteration decides
				bad = B.And(all, none) == B.False
			} else {
				for i, v := range es {
					if m>>i&1 == 1 && B.And(B.Atoms[v].B, none) == B.False {
						bad = true
					}
				}
			}
			if bad {
				out = append(out, B.Not(B.And(lits...)))
			}
		}
	}
	for e, ev := range teqs {
		a, ok1 := lts[e]
		b, ok2 := lts[[2]*Term{e[1], e[0]}]
		if ok1 && ok2 {
			out = append(out, B.Or(atom(ev), atom(a), atom(b)))
		}
	}
	_ = g
	return out
}

func constSide(t *Term) *Term {
	for _, a := range t.A {
		if a.Op == "const" || a.isNil() || a.Op == "global" {
			return a
		}
	}
	return nil
}

func atoi64(s string) int64 {
	var r int64
	neg := false
	for i, c := range s {
		if i == 0 && c == '-' {
			neg = true
			continue
		}
		r = r*10 + int64(c-'0')
	}
	if neg {
		return -r
	}
	return r
}

func (c *cmpr) sameCond(a, b, care *Node) bool {
	if a == b {
		return true
	}
	return !c.possible(c.g.B().And(c.g.B().Xor(a, b), care))
}

// ---------- values

// eqv: the two canonical values agree whenever care holds.
func (c *cmpr) eqv(a, b *Term, care *Node) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	B := c.g.B()
	if care == B.False {
		return true
	}
	k := fmt.Sprintf("%d|%d|%d", a.id, b.id, care.id)
	if r, ok := c.memo[k]; ok {
		return r
	}
	if c.budget <= 0 {
		return false
	}
	c.budget--
	r := c.eqv0(a, b, care)
	if !r && !c.possible(care) {
		r = true
	}
	c.memo[k] = r
	return r
}

func (c *cmpr) eqv0(a, b *Term, care *Node) bool {
	B := c.g.B()
	if a.Op == "ite" || b.Op == "ite" {
		t := a
		if a.Op != "ite" {
			t = b
		}
		n := t.B
		x, nx := B.And(care, n), B.And(care, B.Not(n))
		sel := func(t *Term, hi bool) *Term {
			if t.Op == "ite" && t.B == n {
				if hi {
					return t.A[0]
				}
				return t.A[1]
			}
			return t
		}
		if x != B.False && c.possible(x) && !c.eqv(sel(a, true), sel(b, true), x) {
			return false
		}
		if nx != B.False && c.possible(nx) && !c.eqv(sel(a, false), sel(b, false), nx) {
			return false
		}
		return true
	}
	// a date moved by nothing is the date
	if x := sameDay(a); x != a {
		return c.eqv(x, b, care)
	}
	if x := sameDay(b); x != b {
		return c.eqv(a, x, care)
	}
	if isZero(a) && isZero(b) && (a.Op == "zero0" || b.Op == "zero0" || a.Op == "zero" || b.Op == "zero") {
		return true
	}
	if a.Op == "bool" && b.Op == "bool" {
		return c.sameCond(a.B, b.B, care)
	}
	if a.Op == "bool" || b.Op == "bool" {
		if isBoolTerm(a) && isBoolTerm(b) {
			return c.sameCond(c.g.cond(a), c.g.cond(b), care)
		}
	}
	if a.Op == "new" && b.Op == "new" && strings.IndexByte(a.S, '{') > 0 && strings.IndexByte(b.S, '{') > 0 {
		ta, fa := newFields(a)
		tb, fb := newFields(b)
		if ta != tb {
			return false
		}
		for k := range fb {
			if fa[k] == nil {
				fa[k] = c.g.ts.mk("zero0", "")
			}
		}
		for k, v := range fa {
			w := fb[k]
			if w == nil {
				w = c.g.ts.mk("zero0", "")
			}
			if !c.eqv(v, w, care) {
				return false
			}
		}
		return true
	}
	if a.Op == b.Op && a.S == b.S && len(a.A) == len(b.A) && a.Op != "lin" && len(a.A) > 0 {
		ok := true
		if a.B != b.B {
			ok = a.B != nil && b.B != nil && a.Op == "exists" && c.sameCond(a.B, b.B, B.True)
		}
		for i := range a.A {
			if !ok {
				break
			}
			ok = c.eqv(a.A[i], b.A[i], care)
		}
		if ok {
			return true
		}
		if len(a.A) == 2 && (a.Op == "bigadd" || a.Op == "bigmul" || a.Op == "bin" && (a.S == "*" || a.S == "+")) && c.eqv(a.A[0], b.A[1], care) && c.eqv(a.A[1], b.A[0], care) {
			return true
		}
	}
	// pull a condition out of either side
	n := c.g.findIte(a)
	if n == nil {
		n = c.g.findIte(b)
	}
	if n == nil {
		// the path may itself have established that the two are equal
		if c.sameList(a, b, care) || c.sameList(b, a, care) || c.nilMap(a, b, care) || c.nilMap(b, a, care) {
			return true
		}
		switch a.Op {
		case "int", "str", "zero0", "zero", "new", "nil":
			return false
		}
		q := c.g.eq(a, b)
		return q != B.False && B.And(care, B.Not(q)) == B.False
	}
	x, nx := B.And(care, n), B.And(care, B.Not(n))
	if x != B.False && c.possible(x) && !c.eqv(c.g.pick(a, n, true), c.g.pick(b, n, true), x) {
		return false
	}
	if nx != B.False && c.possible(nx) && !c.eqv(c.g.pick(a, n, false), c.g.pick(b, n, false), nx) {
		return false
	}
	return true
}

func sameDay(t *Term) *Term {
	if t.Op != "call" || t.S != "time.Time.AddDate" || len(t.A) != 4 {
		return t
	}
	for _, x := range t.A[1:] {
		if k, ok := x.isInt(); !ok || k != 0 {
			return t
		}
	}
	return t.A[0]
}

// nilMap: a is looked up in a map known to be nil, and b is what that gives.
func (c *cmpr) nilMap(a, b *Term, care *Node) bool {
	if a.Op != "lookup" || a.T == nil {
		return false
	}
	B := c.g.B()
	z := c.g.zero(a.T)
	if q := c.g.eq(a.A[0], c.g.ts.Nil()); q == B.False || B.And(care, B.Not(q)) != B.False {
		return false
	}
	return b == z || isZero(b) && isZero(z)
}

// sameList: what is appended to nothing is the list of it, and a collection cut
// at its end is the collection.
func (c *cmpr) sameList(a, b *Term, care *Node) bool {
	B := c.g.B()
	switch {
	case a.Op == "append" && b.Op == "list" && len(a.A) == len(b.A)+1:
		if B.And(care, B.Not(c.g.empty(a.A[0]))) != B.False {
			return false
		}
		for i := range b.A {
			if !c.eqv(a.A[i+1], b.A[i], care) {
				return false
			}
		}
		return true
	case a.Op == "slice" && len(a.A) == 3 && !a.A[2].isNil():
		q := c.g.eq(a.A[2], c.g.length(a.A[0]))
		if b.Op == "slice" && len(b.A) == 3 && b.A[2].isNil() {
			return q != B.False && B.And(care, B.Not(q)) == B.False && c.eqv(a.A[0], b.A[0], care) && c.eqv(a.A[1], b.A[1], care)
		}
		if k, ok := a.A[1].isInt(); !ok || k != 0 {
			return false
		}
		return q != B.False && B.And(care, B.Not(q)) == B.False && c.eqv(a.A[0], b, care)
	}
	return false
}

// leafDiff shows where two values part.
func (c *cmpr) leafDiff(a, b *Term, care *Node, d int) {
	B := c.g.B()
	if d > 14 {
		return
	}
	for _, n := range []*Node{c.g.findIte(a), c.g.findIte(b)} {
		if n == nil {
			continue
		}
		for i, k := range []*Node{n, B.Not(n)} {
			if x := B.And(care, k); x != B.False && c.possible(x) {
				if p, q := c.g.pick(a, n, i == 0), c.g.pick(b, n, i == 0); !c.eqv(p, q, x) {
					c.leafDiff(p, q, x, d+1)
					return
				}
			}
		}
	}
	if a.Op == b.Op && a.S == b.S && len(a.A) == len(b.A) {
		for i := range a.A {
			if !c.eqv(a.A[i], b.A[i], care) {
				c.leafDiff(a.A[i], b.A[i], care, d+1)
				return
			}
		}
	}
	for _, v := range B.Support(care) {
		if x := os.Getenv("LATOM"); x != "" && strings.Contains(c.g.Show(B.Atoms[v]), x) {
			fmt.Println("   ATOM", c.g.Show(B.Atoms[v]))
		}
	}
	fmt.Println("  LEAF", clip(c.g.Show(a), 300), "\n    ", clip(c.g.Show(b), 300), "\n   under", clip(B.Str(care), 500))
}

func newFields(t *Term) (string, map[string]*Term) {
	i := strings.IndexByte(t.S, '{')
	m := map[string]*Term{}
	names := t.S[i+1 : len(t.S)-1]
	if names != "" {
		for j, k := range strings.Split(names, ",") {
			m[k] = t.A[j]
		}
	}
	return t.S[:i], m
}

func (c *cmpr) debug(a, b *Term) {
	if tdiffOn {
		n := 4
		c.g.tdiff(a, b, "", &n, map[[2]*Term]bool{})
	}
}

// ---------- effects

type ceff struct {
	kind, name string
	args       []*Term
	guard      *Node
	loops      *Term
	loopl      []*Term
	loopg      []*Node // when each of the loops is active
	pos        token.Pos
	seq        int
	io         bool
	rem        *Node
	match      []int
}

type csum struct {
	rets   []*Term
	ng     *Node
	calls  []*ceff
	aborts map[*Term]*ceff
	stores map[*Term][]*cstore // by loops
	writes []*ceff             // in order, including calls that receive a writer
	unk    []string
}

type cstore struct {
	addr, key *Term
	val       *Term // final value; "keep" leaf where untouched
	pos       token.Pos
	guard     *Node
}

func (s *Side) canonical(p *Proj) *csum {
	ts, B := s.ts(), s.g.B()
	for i := 0; i < rounds; i++ {
		s.refine()
	}
	s.memo = map[*Term]*Term{}
	for _, l := range s.g.Loops {
		ts.loopEx[s.loopName(l, true)] = s.renameN(s.exitCond(l))
		if l.Dom != nil && (l.Kind == "each" || l.Kind == "map") {
			ts.loopDom[s.loopName(l, true)] = s.rename(l.Dom)
		}
	}
	out := &csum{aborts: map[*Term]*ceff{}, stores: map[*Term][]*cstore{}}
	out.ng = s.renameN(s.ng)
	for _, r := range s.rets {
		out.rets = append(out.rets, s.rename(r))
	}
	keep := ts.mk("keep", "")
	reach := s.reachable()
	type sk struct{ loops, addr *Term }
	idx := map[sk]*cstore{}
	var elems []elemStore
	addStore := func(lt, addr, val *Term, g *Node, pos token.Pos) {
		var put func(addr, val *Term, g *Node)
		put = func(addr, val *Term, g *Node) {
			if g == B.False {
				return
			}
			if n := addrIte(addr); n != nil {
				for i, k := range []*Node{n, B.Not(n)} {
					if h := B.And(g, k); h != B.False {
						put(s.g.pick(addr, n, i == 0), s.g.under(val, h), h)
					}
				}
				return
			}
			if val.Op == "struct" && addr.Op != "mapslot" {
				for i, f := range strings.Split(val.S, ",") {
					put(ts.mk("faddr", f, addr), val.A[i], g)
				}
				return
			}
			val = s.g.subst(val, func(t *Term) *Term {
				if isLoadOf(t, addr) {
					return keep
				}
				if t.Op == "ite" || t.Op == "bool" {
					return nil
				}
				return t
			})
			k := sk{lt, addr}
			c := idx[k]
			if c == nil {
				c = &cstore{addr: addr, val: keep, pos: pos, guard: B.False}
				idx[k] = c
				out.stores[lt] = append(out.stores[lt], c)
			}
			c.val = s.g.ite(g, s.g.under(val, g), c.val)
			c.guard = B.Or(c.guard, g)
		}
		put(addr, val, g)
	}
	for _, e := range s.effs {
		if e.Kind == "pure" || e.Kind == "call" && pureName(e.Name) {
			continue
		}
		g := s.renameN(e.Guard)
		if g == B.False {
			continue
		}
		var ll []*Term
		var lg []*Node
		for _, l := range e.Loops {
			ll = append(ll, s.loopName(l, true))
			act := B.True
			if l.Entry != nil {
				act = s.renameN(l.Entry)
			}
			if l.Dom != nil && (l.Kind == "each" || l.Kind == "map") {
				act = B.And(act, B.Not(ts.ilt(s.g.length(s.rename(l.Dom)), ts.Int(1))))
			}
			lg = append(lg, act)
		}
		lt := ts.mk("in", "", ll...)
		var as []*Term
		for _, a := range e.A {
			as = append(as, s.rename(a))
		}
		switch e.Kind {
		case "store":
			if b := baseOf(e.A[0]); b.Op == "alloc" {
				_ = reach
				continue // contents are part of the object's name
			}
			if as[0].Op == "iaddr" {
				elems = append(elems, elemStore{as[0], g, e.Seq})
			}
			addStore(lt, as[0], as[1], g, e.Pos)
			continue
		case "mut":
			if b := baseOf(e.A[0]); b.Op == "alloc" {
				continue
			}
			addStore(lt, ts.mk("val", "", as[0]), as[1], g, e.Pos)
			continue
		case "mapset", "mapdel":
			if e.A[0].Op == "makemap" {
				continue
			}
			slot := ts.mk("mapslot", "", as[:min(2, len(as))]...)
			v := ts.mk("deleted", "")
			if e.Kind == "mapset" {
				v = as[2]
			}
			addStore(lt, slot, v, g, e.Pos)
			continue
		case "term":
			c := out.aborts[lt]
			if c == nil {
				c = &ceff{kind: "abort", guard: B.False, loops: lt, pos: e.Pos}
				out.aborts[lt] = c
			}
			c.guard = B.Or(c.guard, g)
			continue
		case "sort":
			p := s.rename(e.Res)
			if p == nil {
				p = ts.mk("nopred", "")
			}
			as = []*Term{as[0], p}
			nm := "unstable"
			if strings.Contains(e.Name, "Stable") || e.Name == "sort.Strings" || e.Name == "sort.Ints" || e.Name == "slices.Sort" {
				nm = "stable"
			}
			out.calls = append(out.calls, &ceff{kind: "sort", name: nm, args: as, guard: g, loops: lt, loopl: ll, loopg: lg, pos: e.Pos, seq: e.Seq})
			continue
		case "write":
			out.writes = append(out.writes, &ceff{kind: "write", name: "write", args: as, guard: g, loops: lt, loopl: ll, loopg: lg, pos: e.Pos, seq: e.Seq})
			continue
		}
		c := &ceff{kind: e.Kind, name: e.Name, args: as, guard: g, loops: lt, loopl: ll, loopg: lg, pos: e.Pos, seq: e.Seq, io: ioName(e.Name)}
		out.calls = append(out.calls, c)
	}
	s.orderCopies(out, elems)
	for _, e := range out.calls {
		for _, a := range e.args {
			if a.Op == "unk" {
				out.unk = append(out.unk, a.S)
			}
		}
	}
	return out
}

// elemStore is a store to an element of a list.
type elemStore struct {
	addr  *Term
	guard *Node
	seq   int
}

// orderCopies adds to each copy between lists the element stores that come
// before it: the copy may read what they wrote, or write over it.
func (s *Side) orderCopies(out *csum, elems []elemStore) {
	ts, B := s.ts(), s.g.B()
	if len(elems) == 0 {
		return
	}
	for _, c := range out.calls {
		if c.kind != "copy" {
			continue
		}
		var before []*Term
		for _, e := range elems {
			if e.seq < c.seq && B.And(e.guard, c.guard) != B.False {
				before = append(before, e.addr)
			}
		}
		if len(before) > 0 {
			c.args = append(c.args[:len(c.args):len(c.args)], ts.mk("after", "", before...))
		}
	}
}

// addrIte finds a choice between places within an address.
func addrIte(t *Term) *Node {
	for {
		switch {
		case t.Op == "ite":
			return t.B
		case (t.Op == "faddr" || t.Op == "iaddr" || t.Op == "val" || t.Op == "mapslot" || t.Op == "fld") && len(t.A) > 0:
			t = t.A[0]
		default:
			return nil
		}
	}
}

func isStderr(t *Term) bool {
	for t.Op == "iface" {
		t = t.A[0]
	}
	if t.Op == "fld" && t.S == "*" {
		t = t.A[0]
	}
	return t.Op == "global" && t.S == "os.Stderr"
}

func ioName(n string) bool {
	for _, p := range []string{"os.", "io.", "bufio.", "invoke:io.", "write"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (s *Side) reachable() map[*Term]bool { return nil }

// Proj narrows an obligation to some observables.
type Proj struct {
	Rets    map[int]bool // nil: all
	Skip    map[string]bool
	NoCalls bool
}

// compare reports where impl departs from spec.
func (c *cmpr) compare(spec, impl *csum, p *Proj) []Diff {
	B := c.g.B()
	var ds []Diff
	add := func(pos token.Pos, f string, a ...interface{}) {
		ds = append(ds, Diff{What: fmt.Sprintf(f, a...), Pos: pos})
	}
	// how the call can end
	lts := map[*Term]bool{}
	for l := range spec.aborts {
		lts[l] = true
	}
	for l := range impl.aborts {
		lts[l] = true
	}
	care := B.True
	for l := range lts {
		sg, ig := B.False, B.False
		var pos token.Pos
		if e := spec.aborts[l]; e != nil {
			sg = e.guard
		}
		if e := impl.aborts[l]; e != nil {
			ig = e.guard
			pos = e.pos
		}
		in := B.True
		for _, x := range l.A {
			if d := c.g.ts.loopDom[x]; d != nil {
				in = B.And(in, B.Not(c.g.ts.ilt(c.g.length(d), c.g.ts.Int(1))))
			}
		}
		if !c.sameCond(sg, ig, in) {
			c.debug(c.g.ts.BoolT(sg), c.g.ts.BoolT(ig))
			add(pos, "the process aborts under a different condition: expected %s; found %s", c.why(sg, ig), c.why(ig, sg))
		}
		if os.Getenv("STORES") != "" {
			fmt.Println("ABORT", c.g.Show(l), B.Str(sg), "\n   IMPL", B.Str(ig))
		}
		if len(l.A) == 0 {
			care = B.And(care, B.Not(B.Or(sg, ig)))
		}
	}
	if !c.sameCond(spec.ng, impl.ng, care) {
		add(0, "returns normally under a different condition: expected %s; found %s", c.why(spec.ng, impl.ng), c.why(impl.ng, spec.ng))
	}
	rc := B.And(spec.ng, impl.ng, care)
	for i := range spec.rets {
		if p != nil && p.Rets != nil && !p.Rets[i] {
			continue
		}
		if i >= len(impl.rets) || !c.eqv(spec.rets[i], impl.rets[i], rc) {
			c.debug(spec.rets[i], impl.rets[i])
			if tdiffOn {
				fmt.Println("  care", B.Str(rc))
				fmt.Println("  spec", c.g.Show(spec.rets[i]))
				fmt.Println("  impl", c.g.Show(impl.rets[i]))
				for _, v := range B.Support(rc) {
					if a := B.Atoms[v]; a.Op == "exists" {
						fmt.Println("   ", a.id, a.A[0].id, c.g.ts.loopEx[a.A[0]] != nil, c.g.Show(a))
					}
				}
			}
			add(0, "result %d differs: expected %s; found %s", i, c.show(spec.rets[i], rc), c.show(impl.rets[i], rc))
		}
	}
	// stores
	sl := map[*Term]bool{}
	for l := range spec.stores {
		sl[l] = true
	}
	for l := range impl.stores {
		sl[l] = true
	}
	keep := c.g.ts.mk("keep", "")
	for _, l := range sortTerms(sl) {
		byAddr := map[*Term][2]*cstore{}
		for i, side := range []*csum{spec, impl} {
			for _, st := range side.stores[l] {
				x := byAddr[st.addr]
				x[i] = st
				byAddr[st.addr] = x
			}
		}
		var as []*Term
		for a := range byAddr {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		cc := c.loopCare(l, spec, impl, care)
		for _, a := range as {
			x := byAddr[a]
			sv, iv := keep, keep
			var pos token.Pos
			if x[0] != nil {
				sv = x[0].val
			}
			if x[1] != nil {
				iv = x[1].val
				pos = x[1].pos
			}
			if os.Getenv("STORES") != "" {
				fmt.Println("STORE", c.g.Show(l), c.g.Show(a), "\n   ", c.g.Show(sv), "\n   ", c.g.Show(iv), "\n   when", B.Str(cc))
			}
			if !c.eqv(sv, iv, cc) {
				c.debug(sv, iv)
				switch {
				case x[1] == nil:
					add(0, "does not set %s (expected %s)", c.addr(a), c.show(sv, cc))
				case x[0] == nil:
					add(pos, "sets %s to %s, which the specification leaves alone", c.addr(a), c.show(iv, cc))
				default:
					add(pos, "sets %s differently: expected %s; found %s", c.addr(a), c.show(sv, cc), c.show(iv, cc))
				}
			}
		}
	}
	// calls
	ds = append(ds, c.matchCalls(spec, impl, care)...)
	ds = append(ds, c.matchWrites(spec, impl, care)...)
	return ds
}

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (c *cmpr) loopCare(l *Term, spec, impl *csum, care *Node) *Node {
	B := c.g.B()
	r := care
	if len(l.A) > 0 {
		// after a loop its names stand for the last iteration, inside it for
		// any: what is known about the former says nothing about the latter
		for _, v := range B.Support(r) {
			if c.mentionsLoop(B.Atoms[v], map[*Term]bool{}) {
				r = B.Exists(r, v)
			}
		}
	}
	for _, x := range l.A {
		if d := c.g.ts.loopDom[x]; d != nil {
			r = B.And(r, B.Not(c.g.ts.ilt(c.g.length(d), c.g.ts.Int(1))))
		}
	}
	for _, s := range []*csum{spec, impl} {
		if e := s.aborts[l]; e != nil {
			r = B.And(r, B.Not(e.guard))
		}
	}
	return r
}

func (c *cmpr) matchCalls(spec, impl *csum, care *Node) []Diff {
	B := c.g.B()
	var ds []Diff
	for _, s := range []*csum{spec, impl} {
		for _, e := range s.calls {
			e.rem = e.guard
			e.match = nil
		}
	}
	for i, se := range spec.calls {
		for j, ie := range impl.calls {
			if se.kind != ie.kind || se.loops != ie.loops || len(se.args) != len(ie.args) {
				continue
			}
			if se.name != ie.name && !(se.kind == "sort" && se.name == "unstable" && ie.name == "stable") {
				continue
			}
			cc := care
			if se.io || ie.io {
				cc = B.True
			} else {
				cc = c.loopCare(se.loops, spec, impl, care)
			}
			ov := B.And(se.rem, ie.rem)
			if ov == B.False {
				continue
			}
			ok := true
			for k := range se.args {
				if !c.eqv(se.args[k], ie.args[k], B.And(ov, cc)) {
					if tdiffOn && os.Getenv("TARG") != "" && strings.Contains(se.name, os.Getenv("TARG")) {
						fmt.Println("ARG", se.name, i, j, k, "budget", c.budget)
						c.leafDiff(se.args[k], ie.args[k], B.And(ov, cc), 0)
					}
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			se.rem = B.And(se.rem, B.Not(ov))
			ie.rem = B.And(ie.rem, B.Not(ov))
			se.match = append(se.match, j)
			ie.match = append(ie.match, i)
		}
	}
	for _, e := range spec.calls {
		cc := care
		if !e.io {
			cc = c.loopCare(e.loops, spec, impl, care)
		} else {
			cc = B.True
		}
		if c.possible(B.And(e.rem, cc)) {
			ds = append(ds, Diff{What: fmt.Sprintf("expected %s %s(%s) when %s, which does not happen", e.kind, e.name, c.args(e.args), c.cond(B.And(e.rem, cc)))})
		}
	}
	for _, e := range impl.calls {
		cc := care
		if !e.io {
			cc = c.loopCare(e.loops, spec, impl, care)
		} else {
			cc = B.True
		}
		if c.possible(B.And(e.rem, cc)) {
			ds = append(ds, Diff{What: fmt.Sprintf("unexpected %s %s(%s) when %s", e.kind, e.name, c.args(e.args), c.cond(B.And(e.rem, cc))), Pos: e.pos})
		}
	}
	if len(ds) == 0 {
		// order of the operations on the outside world
		var io []*ceff
		for _, e := range spec.calls {
			if e.io && len(e.match) > 0 {
				io = append(io, e)
			}
		}
		for i, a := range io {
			for _, b := range io[i+1:] {
				if a.loops != b.loops || B.And(a.guard, b.guard) == B.False || !c.possible(B.And(a.guard, b.guard)) {
					continue
				}
				for _, x := range a.match {
					for _, y := range b.match {
						if x > y && B.And(impl.calls[x].guard, impl.calls[y].guard, a.guard, b.guard) != B.False && !sameCall(a, b) {
							ds = append(ds, Diff{What: fmt.Sprintf("%s must come before %s", a.name, b.name), Pos: impl.calls[y].pos})
						}
					}
				}
			}
		}
	}
	return ds
}

func sameCall(a, b *ceff) bool {
	if a.name != b.name || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

// matchWrites compares, per writer, the text produced.
func (c *cmpr) matchWrites(spec, impl *csum, care *Node) []Diff {
	var ds []Diff
	ws := map[*Term]bool{}
	for _, s := range []*csum{spec, impl} {
		for _, e := range s.writes {
			ws[stripIface(e.args[0])] = true
		}
	}
	for _, w := range sortTerms(ws) {
		a := c.stream(spec, w, 0, nil)
		b := c.stream(impl, w, 0, nil)
		if d := c.cmpStream(w, a, b, c.g.B().True); d != nil {
			ds = append(ds, *d)
		}
	}
	return ds
}

func stripIface(t *Term) *Term {
	for t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

type piece struct {
	guard *Node
	text  *Term
	loop  *Term
	sub   []piece
	es    []*ceff
	pos   token.Pos
}

func (c *cmpr) stream(s *csum, w *Term, depth int, prefix []*Term) []piece {
	var es []*ceff
	es = append(es, s.writes...)
	for _, e := range s.calls {
		for _, a := range e.args {
			if stripIface(a) == w && e.kind == "call" {
				es = append(es, e)
				break
			}
		}
	}
	var mine []*ceff
	for _, e := range es {
		if e.kind == "write" && stripIface(e.args[0]) != w {
			continue
		}
		mine = append(mine, e)
	}
	sort.SliceStable(mine, func(i, j int) bool { return mine[i].seq < mine[j].seq })
	return c.nest(mine, 0)
}

func (c *cmpr) nest(es []*ceff, depth int) []piece {
	B := c.g.B()
	var out []piece
	for i := 0; i < len(es); {
		e := es[i]
		if len(e.loopl) > depth {
			l := e.loopl[depth]
			j := i
			for j < len(es) && len(es[j].loopl) > depth && es[j].loopl[depth] == l && es[j].loopg[depth] == e.loopg[depth] {
				j++
			}
			out = append(out, piece{loop: l, es: es[i:j], guard: e.loopg[depth], pos: e.pos})
			i = j
			continue
		}
		t := c.g.ts.mk("wrote", e.name, e.args...)
		if e.kind == "write" {
			t = e.args[1]
		}
		out = append(out, piece{guard: e.guard, text: t, pos: e.pos})
		i++
	}
	// alternative runs of the same loop count as one
	for i := 0; i < len(out); i++ {
		if out[i].loop == nil {
			continue
		}
		between := B.False
		for j := i + 1; j < len(out); j++ {
			if out[j].loop == out[i].loop && B.And(out[j].guard, B.Or(out[i].guard, between)) == B.False {
				out[i].es = append(append([]*ceff{}, out[i].es...), out[j].es...)
				out[i].guard = B.Or(out[i].guard, out[j].guard)
				out = append(out[:j], out[j+1:]...)
				j--
				continue
			}
			between = B.Or(between, out[j].guard)
		}
	}
	for i := range out {
		if out[i].loop != nil {
			out[i].sub = c.nest(out[i].es, depth+1)
		}
	}
	return out
}

// segments groups the pieces by the last loop run before them: what is
// written outside loops between two consecutive loop runs, per path.
func (c *cmpr) segments(ps []piece) (segs [][]piece, loops []piece) {
	B := c.g.B()
	segs = [][]piece{nil}
	for _, p := range ps {
		if p.loop != nil {
			loops = append(loops, p)
			segs = append(segs, nil)
			continue
		}
		rest := p.guard
		for k := len(loops); k >= 0 && rest != B.False; k-- {
			g := rest
			if k > 0 {
				g = B.And(rest, loops[k-1].guard)
				rest = B.And(rest, B.Not(loops[k-1].guard))
			}
			if g != B.False {
				q := p
				q.guard = g
				segs[k] = append(segs[k], q)
			}
		}
	}
	return
}

// align reorders the loop runs of b, where their order does not matter, to
// match those of a.
func (c *cmpr) align(a, b []piece) []piece {
	B := c.g.B()
	var want []piece
	for _, p := range a {
		if p.loop != nil {
			want = append(want, p)
		}
	}
	rest := append([]piece{}, b...)
	var out []piece
	for _, w := range want {
		found := -1
		for i, p := range rest {
			if p.loop != w.loop {
				continue
			}
			ok := true
			for _, q := range rest[:i] {
				if q.loop != nil && B.And(q.guard, p.guard) != B.False {
					ok = false
				}
			}
			if ok {
				found = i
				break
			}
		}
		if found < 0 {
			return b
		}
		// the text that must come first
		p := rest[found]
		need := p.guard
		take := map[int]bool{found: true}
		for i := found - 1; i >= 0; i-- {
			if rest[i].loop == nil && B.And(rest[i].guard, need) != B.False {
				take[i] = true
				need = B.Or(need, rest[i].guard)
			} else if rest[i].loop != nil && B.And(rest[i].guard, need) != B.False {
				return b
			}
		}
		var keep []piece
		for i, q := range rest {
			if take[i] {
				out = append(out, q)
			} else {
				keep = append(keep, q)
			}
		}
		rest = keep
	}
	return append(out, rest...)
}

func (c *cmpr) cmpStream(w *Term, a, b []piece, care *Node) *Diff {
	B := c.g.B()
	b = c.align(a, b)
	sa, la := c.segments(a)
	sb, lb := c.segments(b)
	pos := token.NoPos
	if len(b) > 0 {
		pos = b[0].pos
	}
	if len(la) != len(lb) {
		return &Diff{What: "the text written to " + c.term(w) + " is produced by different loops", Pos: pos}
	}
	for i := range sa {
		if len(sb[i]) > 0 {
			pos = sb[i][0].pos
		}
		same := len(sa[i]) == len(sb[i])
		if same {
			for k := range sa[i] {
				x, y := sa[i][k], sb[i][k]
				if !c.sameCond(x.guard, y.guard, care) || !c.eqv(x.text, y.text, B.And(x.guard, y.guard, care)) {
					same = false
					break
				}
			}
		}
		if !same {
			ta, tb := c.text(sa[i]), c.text(sb[i])
			if !c.eqv(ta, tb, care) {
				c.debug(ta, tb)
				return &Diff{What: fmt.Sprintf("the text written to %s differs: expected %s; found %s", c.term(w), c.show(ta, B.True), c.show(tb, B.True)), Pos: pos}
			}
		}
		if i < len(la) {
			if la[i].loop != lb[i].loop {
				c.debug(la[i].loop, lb[i].loop)
				return &Diff{What: "the text written to " + c.term(w) + " comes from a different loop", Pos: lb[i].pos}
			}
			in := care
			if d := c.g.ts.loopDom[la[i].loop]; d != nil {
				in = B.And(in, B.Not(c.g.ts.ilt(c.g.length(d), c.g.ts.Int(1))))
			}
			if d := c.cmpStream(w, la[i].sub, lb[i].sub, in); d != nil {
				return d
			}
		}
	}
	return nil
}

func (c *cmpr) text(ps []piece) *Term {
	r := c.g.ts.Str("")
	for _, p := range ps {
		r = c.g.concat(r, c.g.ite(p.guard, p.text, c.g.ts.Str("")))
	}
	return r
}

// ---------- messages

func (c *cmpr) cond(n *Node) string {
	s := c.g.B().Str(n)
	if len(s) > 400 && !verboseDiff {
		s = s[:400] + "…"
	}
	return s
}

func (c *cmpr) why(a, b *Node) string {
	if verboseDiff {
		return c.cond(c.g.B().And(a, c.g.B().Not(b)))
	}
	return c.cond(a)
}

var verboseDiff = os.Getenv("DIFFONLY") != ""

func (c *cmpr) term(t *Term) string {
	s := c.g.Show(t)
	if len(s) > 300 && !verboseDiff {
		s = s[:300] + "…"
	}
	return s
}

func (c *cmpr) show(t *Term, care *Node) string { return c.term(t) }
func (c *cmpr) addr(t *Term) string             { return c.term(t) }

func (c *cmpr) args(as []*Term) string {
	var p []string
	for _, a := range as {
		p = append(p, c.term(a))
	}
	return strings.Join(p, ", ")
}

// mentionsLoop reports whether a term depends on a loop's iteration.
func (c *cmpr) mentionsLoop(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "tok" || t.L != nil {
		return true
	}
	for _, a := range t.A {
		if c.mentionsLoop(a, seen) {
			return true
		}
	}
	if t.B != nil {
		for _, v := range c.g.B().Support(t.B) {
			if c.mentionsLoop(c.g.B().Atoms[v], seen) {
				return true
			}
		}
	}
	return false
}
