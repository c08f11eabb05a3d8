package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value-graph node: two values that are computed the
// same way are the same pointer.
type Term struct {
	id int
	Op string
	S  string
	A  []*Term
	B  *Node
	T  types.Type
	M  types.Type // of a lookup, the type of the map
	L  *Loop
}

type Terms struct {
	m map[string]*Term
	b *BDD
	n int

	casesMemo map[[3]int]*Term
	fn        map[*Term]*ssa.Function
	allocPos  map[*Term]token.Pos
	loopDom   map[*Term]*Term // per loop name, what it iterates over
	loopEx    map[*Term]*Node // per loop name, when it is left early
}

func newTerms() *Terms {
	return &Terms{m: map[string]*Term{}, b: newBDD(), casesMemo: map[[3]int]*Term{}, fn: map[*Term]*ssa.Function{}, allocPos: map[*Term]token.Pos{}, loopDom: map[*Term]*Term{}, loopEx: map[*Term]*Node{}}
}

func (ts *Terms) mk(op, s string, a ...*Term) *Term { return ts.mkB(op, s, nil, a...) }

func (ts *Terms) mkB(op, s string, n *Node, a ...*Term) *Term {
	tick()
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, x := range a {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(x.id))
	}
	if n != nil {
		sb.WriteString("|b")
		sb.WriteString(strconv.Itoa(n.id))
	}
	k := sb.String()
	if t := ts.m[k]; t != nil {
		return t
	}
	ts.n++
	t := &Term{id: ts.n, Op: op, S: s, A: a, B: n}
	ts.m[k] = t
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 7 {
		return "…"
	}
	args := func() string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const", "param", "global", "idx", "loopv", "out", "fn", "unk":
		return t.S
	case "nil":
		return "nil"
	case "fld":
		return t.A[0].str(d+1) + "." + t.S
	case "faddr":
		return "&" + t.A[0].str(d+1) + "." + t.S
	case "elem":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case "alloc":
		return "new(" + t.S + ")"
	case "call":
		return t.S + "(" + args() + ")"
	case "lin":
		var p []string
		cs := strings.Split(t.S, ";")
		for i, a := range t.A {
			p = append(p, cs[i]+"*"+a.str(d+1))
		}
		if c := cs[len(cs)-1]; c != "0" {
			p = append(p, c)
		}
		return "(" + strings.Join(p, "+") + ")"
	case "ilt":
		return t.A[0].str(d+1) + " < " + t.S
	case "ieq":
		return t.A[0].str(d+1) + " == " + t.S
	case "lt":
		return t.A[0].str(d+1) + " < " + t.A[1].str(d+1)
	case "eq":
		return t.A[0].str(d+1) + " == " + t.A[1].str(d+1)
	case "ite":
		return "ite(#" + strconv.Itoa(t.B.id) + ", " + args() + ")"
	case "bool":
		return "bool#" + strconv.Itoa(t.B.id)
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	return s + "(" + args() + ")"
}

// --- constants

func (ts *Terms) Int(i int64) *Term   { return ts.mk("const", strconv.FormatInt(i, 10)) }
func (ts *Terms) Str(s string) *Term  { return ts.mk("const", strconv.Quote(s)) }
func (ts *Terms) Nil() *Term          { return ts.mk("nil", "") }
func (ts *Terms) BoolT(n *Node) *Term { return ts.mkB("bool", "", n) }

func (t *Term) isInt() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	i, err := strconv.ParseInt(t.S, 10, 64)
	return i, err == nil
}

func (t *Term) isStr() (string, bool) {
	if t.Op != "const" || len(t.S) == 0 || t.S[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.S)
	return s, err == nil
}

func (t *Term) isNil() bool { return t.Op == "nil" }

func (t *Term) is(op string, s ...string) bool {
	if t == nil || t.Op != op {
		return false
	}
	if len(s) == 0 {
		return true
	}
	for _, x := range s {
		if t.S == x {
			return true
		}
	}
	return false
}

func (t *Term) call(names ...string) bool { return t.is("call", names...) }

// --- linear integer forms

type lin struct {
	c map[*Term]int64
	k int64
}

func toLin(t *Term) lin {
	if i, ok := t.isInt(); ok {
		return lin{k: i}
	}
	if t.Op == "lin" {
		l := lin{c: map[*Term]int64{}}
		cs := strings.Split(t.S, ";")
		for i, a := range t.A {
			l.c[a], _ = strconv.ParseInt(cs[i], 10, 64)
		}
		l.k, _ = strconv.ParseInt(cs[len(cs)-1], 10, 64)
		return l
	}
	return lin{c: map[*Term]int64{t: 1}}
}

func (a lin) add(b lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: a.k + f*b.k}
	for t, c := range a.c {
		r.c[t] += c
	}
	for t, c := range b.c {
		r.c[t] += f * c
	}
	for t, c := range r.c {
		if c == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func (ts *Terms) fromLin(l lin) *Term {
	if len(l.c) == 0 {
		return ts.Int(l.k)
	}
	var as []*Term
	for t := range l.c {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	var s []string
	for _, t := range as {
		s = append(s, strconv.FormatInt(l.c[t], 10))
	}
	s = append(s, strconv.FormatInt(l.k, 10))
	return ts.mk("lin", strings.Join(s, ";"), as...)
}

func (ts *Terms) Add(a, b *Term) *Term { return ts.fromLin(toLin(a).add(toLin(b), 1)) }
func (ts *Terms) Sub(a, b *Term) *Term { return ts.fromLin(toLin(a).add(toLin(b), -1)) }

// ilt builds the condition a < b over integers in canonical form.
func (ts *Terms) ilt(a, b *Term) *Node {
	d := toLin(a).add(toLin(b), -1)
	if len(d.c) == 0 {
		return ts.b.Bool(d.k < 0)
	}
	n, neg := ts.canonLin(d)
	if !neg {
		// N + k < 0
		return ts.below(n, -d.k)
	}
	// -N + k < 0  <=> N > k <=> !(N < k+1)
	return ts.b.Not(ts.below(n, d.k+1))
}

// below is n < k.
func (ts *Terms) below(n *Term, k int64) *Node {
	if k <= atLeast(n) && nonNegative(n) {
		return ts.b.False
	}
	if n.Op == "lin" && k == 1 && nonNegative(n) && strings.HasSuffix(n.S, ";0") {
		// a sum is nothing when all of it is
		r := ts.b.True
		for _, a := range n.A {
			r = ts.b.And(r, ts.below(a, 1))
		}
		return r
	}
	return ts.b.atom(ts.mk("ilt", strconv.FormatInt(k, 10), n))
}

// atLeast is a lower bound of a non-negative number.
func atLeast(n *Term) int64 {
	if n.Op == "len" && n.A[0].call("strings.SplitN") && len(n.A[0].A) == 3 {
		c := n.A[0]
		if k, ok := c.A[2].isInt(); ok && k < 0 {
			if s, ok := c.A[1].isStr(); ok && s != "" {
				return 1
			}
		}
	}
	return 0
}

// nonNegative: lengths, positions and sums of them.
func nonNegative(t *Term) bool {
	switch t.Op {
	case "len", "idx", "cap":
		return true
	case "lin":
		for _, c := range strings.Split(t.S, ";") {
			if strings.HasPrefix(c, "-") {
				return false
			}
		}
		for _, a := range t.A {
			if !nonNegative(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (ts *Terms) ieq(a, b *Term) *Node {
	d := toLin(a).add(toLin(b), -1)
	if len(d.c) == 0 {
		return ts.b.Bool(d.k == 0)
	}
	n, neg := ts.canonLin(d)
	k := -d.k
	if neg {
		k = d.k
	}
	if nonNegative(n) && k <= atLeast(n) {
		if k < atLeast(n) {
			return ts.b.False
		}
		return ts.below(n, k+1)
	}
	return ts.b.atom(ts.mk("ieq", strconv.FormatInt(k, 10), n))
}

// canonLin returns the non-constant part of d with a positive leading coefficient.
func (ts *Terms) canonLin(d lin) (*Term, bool) {
	var lead *Term
	for t := range d.c {
		if lead == nil || t.id < lead.id {
			lead = t
		}
	}
	neg := d.c[lead] < 0
	r := lin{c: map[*Term]int64{}}
	for t, c := range d.c {
		if neg {
			c = -c
		}
		r.c[t] = c
	}
	return ts.fromLin(r), neg
}

// --- generic traversal

func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(f func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if f(x) {
			found = true
		}
		return !found
	})
	return found
}

// walkB also descends into conditions.
func (ts *Terms) walkB(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.A {
			rec(a)
		}
		if t.B != nil {
			for _, v := range ts.b.Support(t.B) {
				rec(ts.b.Atoms[v])
			}
		}
	}
	rec(t)
}

// subst replaces terms bottom-up; conditions are rewritten too.
func (g *GV) subst(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	nmemo := map[*Node]*Node{}
	var rec func(t *Term) *Term
	var recN func(n *Node) *Node
	recN = func(n *Node) *Node {
		if n.v < 0 {
			return n
		}
		if m := nmemo[n]; m != nil {
			return m
		}
		a := g.ts.b.Atoms[n.v]
		an := g.reatom(rec(a), a)
		r := g.ts.b.ite(an, recN(n.hi), recN(n.lo))
		nmemo[n] = r
		return r
	}
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if m := memo[t]; m != nil {
			return m
		}
		if r := f(t); r != nil {
			memo[t] = r
			return r
		}
		memo[t] = t
		as := t.A
		ch := false
		var na []*Term
		for _, a := range as {
			x := rec(a)
			if x != a {
				ch = true
			}
			na = append(na, x)
		}
		nb := t.B
		if nb != nil && t.Op != "exists" {
			nb = recN(nb)
		} else if nb != nil {
			nb = recN(nb)
		}
		if !ch && nb == t.B {
			return t
		}
		r := g.rebuild(t, na, nb)
		memo[t] = r
		return r
	}
	return rec(t)
}

func (g *GV) substN(n *Node, f func(*Term) *Term) *Node {
	t := g.subst(g.ts.BoolT(n), f)
	return t.B
}

func (g *GV) reatom(t *Term, old *Term) *Node {
	switch t.Op {
	case "bool":
		return t.B
	case "ilt":
		k, _ := strconv.ParseInt(t.S, 10, 64)
		return g.ts.ilt(t.A[0], g.ts.Int(k))
	case "ieq":
		k, _ := strconv.ParseInt(t.S, 10, 64)
		return g.ts.ieq(t.A[0], g.ts.Int(k))
	case "eq":
		return g.eq(t.A[0], t.A[1])
	case "lt":
		return g.lt(t.A[0], t.A[1])
	case "teq":
		return g.symEq("teq", t.A[0], t.A[1])
	}
	return g.cond(t)
}

func (g *GV) rebuild(t *Term, na []*Term, nb *Node) *Term {
	switch t.Op {
	case "lin":
		l := lin{}
		cs := strings.Split(t.S, ";")
		for i, a := range na {
			c, _ := strconv.ParseInt(cs[i], 10, 64)
			l = l.add(toLin(a), c)
		}
		k, _ := strconv.ParseInt(cs[len(cs)-1], 10, 64)
		l = l.add(lin{k: k}, 1)
		return g.ts.fromLin(l)
	case "ite":
		return g.ite(nb, na[0], na[1])
	case "bool":
		return g.ts.BoolT(nb)
	case "concat":
		r := na[0]
		for _, x := range na[1:] {
			r = g.concat(r, x)
		}
		return r
	case "len":
		return g.length(na[0])
	case "elem":
		if len(na) == 2 {
			return g.index(na[0], na[1])
		}
	case "slice":
		return g.slice(na[0], na[1], na[2])
	case "bigadd", "bigsub", "bigmul", "bigquo", "bigdiv", "bigrem", "bigmod":
		return g.bigop(t.Op[3:], na[0], na[1])
	}
	r := g.ts.mkB(t.Op, t.S, nb, na...)
	if r.L == nil {
		r.L = t.L
	}
	if r.T == nil {
		r.T = t.T
	}
	return r
}

var _ = fmt.Sprint
