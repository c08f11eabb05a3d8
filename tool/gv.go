package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// GV builds the gated value graph of a root function: callees inside the
// module are expanded in place, every value is a hash-consed term, joins are
// gated by the path condition (a BDD over atomic predicates) and every
// side effect is recorded once with its guard and its enclosing loops.
// Nothing is executed and no path is enumerated.
type GV struct {
	w        *World
	ts       *Terms
	Effects  []*Effect
	seq      int
	Loops    []*Loop
	grown    map[*Term]*Term            // lengths of lists that get longer in every iteration
	Opaque   func(f *ssa.Function) bool // do not expand
	Impure   func(name string) bool     // opaque call results are unique per site
	stack    []*ssa.Function
	path     []*Node
	loops    []*Loop
	quiet    int
	uid      int
	MaxDepth int
	Unknown  []string
	sites    map[string]int
	callPath []token.Pos
	liftMemo map[*Term][]alternative
	iteMemo  map[*Term]*Node

	rawGlobals bool // keep a variable and its reference apart
}

type Effect struct {
	fvs    []*Term // free variables of a deferred closure
	local  *Node   // guard within the innermost loop
	Kind   string  // call, store, mapset, mapdel, term (process ends / panics), mut, sort, defer
	Name   string
	A      []*Term
	Res    *Term
	Guard  *Node
	Loops  []*Loop
	Pos    token.Pos
	Fn     *ssa.Function
	Seq    int
	Path   []token.Pos
	Callee *ssa.Function
}

type Loop struct {
	ID      int
	Pos     token.Pos
	Fn      *ssa.Function
	Kind    string                              // each (index), map, string, while
	Cont    *Node                               // continuation condition evaluated at the header
	tested  map[*ssa.BasicBlock]*ssa.BasicBlock // tests evaluated with the head's
	lenOf   *Term                               // what the head compares the position with the length of
	headLit *Node                               // the conjunct of the test at the head that bounds the loop
	terms   []*Effect                           // aborts in the body
	depth   int                                 // length of the path at the entry
	noHead  bool                                // the test at the head is an exit like any other
	Entry   *Node                               // guard under which the loop is entered (total)
	Back    *Node                               // condition for another iteration to start, relative to this one
	Dom     *Term                               // collection iterated, when recognised
	Rev     bool
	Key     *Term
	Val     *Term
	Idx     *Term
	Phis    []*LVar
	Exits   []LExit
	Parent  *Loop
}

type LVar struct {
	Name string
	V    *Term // loopv term
	Init *Term
	Next *Term
	Out  *Term
}

type LExit struct {
	Guard *Node // relative to the iteration
	Kind  string
	Atom  *Term
	Pos   token.Pos
}

type State struct {
	mem  map[*Term]*Term
	know *Node // what made the last iteration of a loop before the last one
}

func (s *State) clone() *State {
	m := make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{m, s.know}
}

// prune drops the alternatives ruled out by what is known.
func (g *GV) prune(t *Term, st *State) *Term {
	if st == nil || st.know == nil || t == nil {
		return t
	}
	B := g.ts.b
	switch t.Op {
	case "bool":
		return g.ts.BoolT(g.decided(t.B, st))
	case "ite":
		switch g.decided(t.B, st) {
		case B.True:
			return g.prune(t.A[0], st)
		case B.False:
			return g.prune(t.A[1], st)
		}
	}
	return t
}

func (g *GV) decided(n *Node, st *State) *Node {
	B := g.ts.b
	if st == nil || st.know == nil || n.v < 0 {
		return n
	}
	if B.Imp(st.know, n) == B.True {
		return B.True
	}
	if B.And(st.know, n) == B.False {
		return B.False
	}
	return n
}

func (g *GV) learn(st *State, n *Node) *State {
	s := st.clone()
	if s.know != nil {
		n = g.ts.b.And(s.know, n)
	}
	s.know = n
	return s
}

type edge struct {
	from, to *ssa.BasicBlock
	g        *Node
	st       *State
	head     bool // leaves a loop by the test that bounds it
}

type ret struct {
	g    *Node
	vals []*Term
	st   *State
}

type frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*Term
	rets     []ret
	linfo    *loopInfo
	defers   []*Effect
	headExit map[*ssa.BasicBlock]bool
	ctx      string
}

func newGV(w *World) *GV {
	return &GV{w: w, ts: newTerms(), MaxDepth: 12, sites: map[string]int{}}
}

func (g *GV) B() *BDD { return g.ts.b }

func (g *GV) guard() *Node { return g.ts.b.And(g.path...) }

func (g *GV) emit(kind, name string, local *Node, pos token.Pos, fn *ssa.Function, res *Term, a ...*Term) *Effect {
	e := &Effect{Kind: kind, Name: name, A: a, Res: res, Guard: g.ts.b.And(append(append([]*Node{}, g.path...), local)...), Pos: pos, Fn: fn}
	e.Loops = append(e.Loops, g.loops...)
	e.Path = append(e.Path, g.callPath...)
	if n := len(g.loops); kind == "term" && n > 0 && e.Guard != g.ts.b.False {
		// ends the loop, like a return
		L := g.loops[n-1]
		e.local = g.ts.b.And(append(append([]*Node{}, g.path[L.depth:]...), local)...)
		L.terms = append(L.terms, e)
		return e
	}
	if g.quiet == 0 && e.Guard != g.ts.b.False {
		e.Seq = g.seq
		g.seq++
		g.Effects = append(g.Effects, e)
	}
	return e
}

// ---------- names

func shortPkg(p string) string {
	if p == modPath {
		return "coin"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = shortPkg(f.Pkg.Pkg.Path())
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = shortPkg(f.Object().Pkg().Path())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = shortPkg(n.Obj().Pkg().Path())
			}
			return pkg + "." + strings.TrimPrefix(n.Obj().Name(), "spec_") + "." + strings.TrimPrefix(f.Name(), "spec_")
		}
		return pkg + ".?." + f.Name()
	}
	return pkg + "." + strings.TrimPrefix(f.Name(), "spec_")
}

// ---------- conditions

func (g *GV) cond(t *Term) *Node {
	switch t.Op {
	case "bool":
		return t.B
	case "const":
		return g.ts.b.Bool(t.S == "true")
	case "ite":
		return g.ts.b.ite(t.B, g.cond(t.A[0]), g.cond(t.A[1]))
	}
	return g.ts.b.atom(t)
}

func (g *GV) ite(n *Node, a, b *Term) *Term {
	if n == g.ts.b.True || a == b {
		return a
	}
	if n == g.ts.b.False {
		return b
	}
	if (a.Op == "bool" || a.S == "true" || a.S == "false" && a.Op == "const") && (b.Op == "bool" || b.Op == "const" && (b.S == "true" || b.S == "false")) {
		return g.ts.BoolT(g.ts.b.ite(n, g.cond(a), g.cond(b)))
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		return g.ts.BoolT(g.ts.b.ite(n, g.cond(a), g.cond(b)))
	}
	if isBoolTerm(a) && b.Op == "zero0" {
		return g.ts.BoolT(g.ts.b.And(n, g.cond(a)))
	}
	if isBoolTerm(b) && a.Op == "zero0" {
		return g.ts.BoolT(g.ts.b.And(g.ts.b.Not(n), g.cond(b)))
	}
	return g.cases(n, a, b)
}

// maxCases bounds the number of alternatives kept in normal form.
const maxCases = 48

// cases builds n?a:b in normal form: the distinct alternatives in a fixed
// order, each with the exact condition that selects it.
func (g *GV) cases(n *Node, a, b *Term) *Term {
	B := g.ts.b
	key := [3]int{n.id, a.id, b.id}
	if r := g.ts.casesMemo[key]; r != nil {
		return r
	}
	var leaves []*Term
	sel := map[*Term]*Node{}
	var add func(c *Node, t *Term)
	add = func(c *Node, t *Term) {
		for t.Op == "ite" && c != B.False {
			add(B.And(c, t.B), t.A[0])
			c, t = B.And(c, B.Not(t.B)), t.A[1]
		}
		if c == B.False {
			return
		}
		if t.Op == "append" && len(t.A) > 1 && B.And(c, B.Not(g.empty(t.A[0]))) == B.False {
			// what is appended to nothing
			t = g.ts.mk("list", "", t.A[1:]...)
		}
		t = g.noText(t, c)
		if o := sel[t]; o != nil {
			sel[t] = B.Or(o, c)
			return
		}
		leaves = append(leaves, t)
		sel[t] = c
	}
	add(n, a)
	add(B.Not(n), b)
	if len(leaves) > maxCases {
		r := g.ts.mkB("ite", "", n, a, b)
		if r.T == nil {
			r.T, r.M = a.T, a.M
		}
		g.ts.casesMemo[key] = r
		return r
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].id < leaves[j].id })
	g.extremes(leaves, sel)
	g.zeroTrip(leaves, sel)
	g.sameText(leaves, sel)
	g.sameThing(leaves, sel)
	for i := 0; i < len(leaves); i++ {
		if sel[leaves[i]] == B.False && len(leaves) > 1 {
			leaves = append(leaves[:i:i], leaves[i+1:]...)
			i--
		}
	}
	r := leaves[len(leaves)-1]
	for i := len(leaves) - 2; i >= 0; i-- {
		x := leaves[i]
		r = g.ts.mkB("ite", "", sel[x], x, r)
		if r.T == nil {
			r.T, r.M = x.T, x.M
		}
	}
	g.ts.casesMemo[key] = r
	return r
}

// sameThing: an alternative chosen only where it equals another one.
func (g *GV) sameThing(leaves []*Term, sel map[*Term]*Node) {
	B := g.ts.b
	if len(leaves) < 2 {
		return
	}
	for _, l := range leaves {
		c := sel[l]
		for _, v := range B.Support(c) {
			a := B.Atoms[v]
			if a.Op != "eq" || len(a.A) != 2 {
				continue
			}
			o := a.A[0]
			if o == l {
				o = a.A[1]
			} else if a.A[1] != l {
				continue
			}
			if o == l || sel[o] == nil || B.And(c, B.Not(B.atom(a))) != B.False {
				continue
			}
			sel[o] = B.Or(sel[o], c)
			sel[l] = B.False
			break
		}
	}
}

// sameText: a text that is another one's where some piece of that is empty.
func (g *GV) sameText(leaves []*Term, sel map[*Term]*Node) {
	for _, l := range leaves {
		c := sel[l]
		if c == g.ts.b.False {
			continue
		}
		for _, m := range leaves {
			if m == l || sel[m] == g.ts.b.False || m.Op != "concat" && (m.T == nil || !isString(m.T)) {
				continue
			}
			if g.noText(m, c) == l {
				sel[m], sel[l] = g.ts.b.Or(sel[m], c), g.ts.b.False
				break
			}
		}
	}
}

// noText is t without the pieces that are empty texts where c holds.
func (g *GV) noText(t *Term, c *Node) *Term {
	if t.T == nil && t.Op != "concat" {
		return t
	}
	if t.Op == "const" || t.Op != "concat" && !isString(t.T) {
		return t
	}
	B := g.ts.b
	ps := []*Term{t}
	if t.Op == "concat" {
		ps = t.A
	}
	var none map[*Term]bool
	for _, x := range B.Support(c) {
		a := B.Atoms[x]
		if a.Op != "ilt" && a.Op != "ieq" {
			continue
		}
		for _, p := range ps {
			if p.Op != "const" && !none[p] && a.contains(func(y *Term) bool { return y.Op == "len" && y.A[0] == p }) && B.And(c, B.Not(g.ts.ilt(g.length(p), g.ts.Int(1)))) == B.False {
				if none == nil {
					none = map[*Term]bool{}
				}
				none[p] = true
			}
		}
	}
	if none == nil {
		return t
	}
	r := g.ts.Str("")
	for _, p := range ps {
		if !none[p] {
			r = g.concat(r, p)
		}
	}
	return r
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// noop: when storing v changes nothing, old being there already.
func (g *GV) noop(v, old *Term) *Node {
	B := g.ts.b
	switch {
	case v == old:
		return B.True
	case v.Op == "ite":
		return B.ite(v.B, g.noop(v.A[0], old), g.noop(v.A[1], old))
	case v.Op == "appendall":
		return B.And(g.noop(v.A[0], old), g.ts.ilt(g.length(v.A[1]), g.ts.Int(1)))
	}
	return B.False
}

// zeroTripOf: what o is when the collection is empty.
func zeroTripOf(o *Term) (init, dom *Term) {
	if o.Op == "appendall" {
		return o.A[0], o.A[1]
	}
	if o.Op == "out" && o.L != nil && (o.L.Kind == "each" || o.L.Kind == "map") && o.L.Dom != nil {
		for _, v := range o.L.Phis {
			if v.Out == o {
				init, dom = v.Init, o.L.Dom
			}
		}
	}
	return
}

// zeroTrip: a loop over an empty collection leaves its variables as they were.
func (g *GV) zeroTrip(leaves []*Term, sel map[*Term]*Node) {
	B := g.ts.b
	// several loops that start from the same value: where more than one of
	// them is empty, the one whose collection sorts first stands for it
	byInit := map[*Term][]*Term{}
	for _, o := range leaves {
		if init, _ := zeroTripOf(o); init != nil {
			byInit[init] = append(byInit[init], o)
		}
	}
	for _, o := range append([]*Term{}, leaves...) {
		init, _ := zeroTripOf(o)
		outs := byInit[init]
		if init == nil || len(outs) < 2 {
			continue
		}
		delete(byInit, init)
		names, empty := map[*Term]string{}, map[*Term]*Node{}
		z := B.False
		if n := sel[init]; n != nil {
			z = n
		}
		for _, o := range outs {
			_, dom := zeroTripOf(o)
			names[o] = g.Show(dom)
			empty[o] = g.ts.ilt(g.length(dom), g.ts.Int(1))
			z = B.Or(z, B.And(sel[o], empty[o]))
		}
		sort.SliceStable(outs, func(i, j int) bool { return names[outs[i]] < names[outs[j]] })
		if sel[init] != nil {
			sel[init] = B.False
		}
		for _, o := range outs {
			sel[o] = B.Or(B.And(sel[o], B.Not(empty[o])), B.And(z, empty[o]))
			z = B.And(z, B.Not(empty[o]))
		}
		if z != B.False {
			sel[init] = z
		}
	}
	for _, o := range leaves {
		if o.isNil() {
			// an empty slice that was kept is as good as none
			for _, x := range leaves {
				if x.Op != "loopv" || !isSlice(x) {
					continue
				}
				if n := B.And(sel[x], g.ts.ilt(g.length(x), g.ts.Int(1))); n != B.False {
					sel[o] = B.Or(sel[o], n)
					sel[x] = B.And(sel[x], B.Not(n))
				}
			}
		}
		init, dom := zeroTripOf(o)
		if init == nil {
			continue
		}
		empty := g.ts.ilt(g.length(dom), g.ts.Int(1))
		for _, x := range leaves {
			n := B.And(sel[x], empty)
			if x == o || n == B.False {
				continue
			}
			if x == init || init.Op == "ite" && g.under(init, n) == x {
				sel[o] = B.Or(sel[o], n)
				sel[x] = B.And(sel[x], B.Not(n))
			}
		}
	}
}

// extremes puts a choice between two numbers by which is the larger in one
// form: where they are equal it makes no difference which is taken.
func (g *GV) extremes(leaves []*Term, sel map[*Term]*Node) {
	B := g.ts.b
	var ints []*Term
	for _, t := range leaves {
		if isIntTerm(t) && !isBig(t) {
			ints = append(ints, t)
		}
	}
	if len(ints) < 2 || len(ints) > 12 {
		return
	}
	for i, x := range ints {
		for _, y := range ints[:i] {
			d := toLin(x).add(toLin(y), -1)
			if len(d.c) == 0 {
				continue
			}
			n, neg := g.ts.canonLin(d)
			k := -d.k
			if neg {
				k = d.k
			}
			q := g.ts.below(n, k+1) // n < k+1; x and y are equal where n is k
			if q.v < 0 {
				continue
			}
			x1, x0 := B.Restrict(sel[x], q.v, true), B.Restrict(sel[x], q.v, false)
			y1, y0 := B.Restrict(sel[y], q.v, true), B.Restrict(sel[y], q.v, false)
			w := B.Or(B.And(x1, y0), B.And(x0, y1))
			if w == B.False {
				continue
			}
			p := g.ts.below(n, k)
			sel[x] = B.ite(w, B.ite(p, x1, x0), sel[x])
			sel[y] = B.ite(w, B.ite(p, y1, y0), sel[y])
		}
	}
}

// settle: what a loop that always runs to its end keeps writing to one place
// comes down to a single write of the last value.
func (g *GV) settle(L *Loop, fn *ssa.Function, mod []*Term, eff0 int, G *Node, s *State) {
	for _, k := range mod {
		if k.Op != "faddr" && k.Op != "global" || s.mem[k] == nil {
			continue
		}
		var at []int
		ok := true
		for i, e := range g.Effects[eff0:] {
			if e.Kind == "store" && e.A[0] == k {
				at = append(at, eff0+i)
				ok = ok && e.Loops[len(e.Loops)-1] == L
			}
		}
		if len(at) == 0 || !ok {
			continue
		}
		e := *g.Effects[at[len(at)-1]]
		var keep []*Effect
		for i, x := range g.Effects {
			if len(at) > 0 && i == at[0] {
				at = at[1:]
				continue
			}
			keep = append(keep, x)
		}
		g.Effects = keep
		g.emit("store", e.Name, G, e.Pos, e.Fn, nil, k, s.mem[k])
	}
}

func isBoolTerm(t *Term) bool {
	if t.Op == "bool" || t.Op == "const" && (t.S == "true" || t.S == "false") {
		return true
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
	}
	return false
}

// under simplifies t given that care holds. The result depends only on what
// t is worth when care holds.
func (g *GV) under(t *Term, care *Node) *Term {
	return g.under0(t, care, map[[2]int]*Term{})
}

func (g *GV) under0(t *Term, care *Node, memo map[[2]int]*Term) *Term {
	B := g.ts.b
	if t == nil || care == B.True || care == B.False {
		return t
	}
	if t.Op == "bool" {
		return g.ts.BoolT(B.Constrain(t.B, care))
	}
	if opaqueInside(t) || t.Op != "ite" && g.findIte(t) == nil {
		return t
	}
	k := [2]int{t.id, care.id}
	if r := memo[k]; r != nil {
		return r
	}
	memo[k] = t
	var r *Term
	if t.Op == "ite" {
		hi, lo := B.And(care, t.B), B.And(care, B.Not(t.B))
		switch {
		case hi == B.False:
			r = g.under0(t.A[1], care, memo)
		case lo == B.False:
			r = g.under0(t.A[0], care, memo)
		default:
			r = g.ite(B.Constrain(t.B, care), g.under0(t.A[0], hi, memo), g.under0(t.A[1], lo, memo))
		}
	} else {
		var na []*Term
		ch := false
		for _, a := range t.A {
			x := g.under0(a, care, memo)
			if x != a {
				ch = true
			}
			na = append(na, x)
		}
		r = t
		if ch {
			r = g.rebuild(t, na, t.B)
		}
	}
	memo[k] = r
	return r
}

func (g *GV) nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "fn", "iface", "faddr", "iaddr", "makemap", "list", "append":
		return t.Op != "append" || len(t.A) > 1
	case "call":
		return t.S == "fmt.Errorf" || t.S == "errors.New" || t.S == "math/big.NewInt" || t.S == "regexp.MustCompile" || t.S == "rex.MustCompile" || g.w.neverNil(t.S)
	}
	return false
}

func (g *GV) eq(a, b *Term) *Node {
	B := g.ts.b
	if a == b {
		return B.True
	}
	if a.Op == "ite" && a.depth() < 40 {
		return B.ite(a.B, g.eq(a.A[0], b), g.eq(a.A[1], b))
	}
	if b.Op == "ite" && b.depth() < 40 {
		return B.ite(b.B, g.eq(a, b.A[0]), g.eq(a, b.A[1]))
	}
	if isBoolTerm(a) || isBoolTerm(b) {
		return B.Not(B.Xor(g.cond(a), g.cond(b)))
	}
	if a.Op == "iface" && b.Op == "iface" {
		return g.eq(a.A[0], b.A[0])
	}
	if a.isNil() || b.isNil() {
		x := a
		if a.isNil() {
			x = b
		}
		if g.nonNil(x) {
			return B.False
		}
		if x.Op == "ext" && x.S == "0" && x.A[0].Op == "call" && g.w.nilUnlessOK(x.A[0].S) {
			e := g.ts.mk("ext", "1", x.A[0])
			return B.Not(B.atom(g.ts.mk("eq", "", e, g.ts.Nil())))
		}
		if g.grownFromNil(x, 0) {
			return g.empty(x)
		}
		if x.Op == "lookup" {
			// what is not there reads as nil
			if x.M != nil && g.w.neverNilIn(x.M) {
				return B.Not(g.has(x))
			}
			return B.Or(B.Not(g.has(x)), B.atom(g.ts.mk("eq", "", x, g.ts.Nil())))
		}
		return B.atom(g.ts.mk("eq", "", x, g.ts.Nil()))
	}
	for k := 0; k < 2; k++ {
		if c, ok := a.isInt(); ok && c == -1 && isIndexCall(b) {
			return g.lt(b, g.ts.Int(0))
		}
		if c, ok := a.isStr(); ok && c != "" && b.Op == "slice" && len(c) <= 8 {
			lo, hi := b.A[1], b.A[2]
			if hi.isNil() {
				hi = g.length(b.A[0])
			}
			if d, ok := g.ts.Sub(hi, lo).isInt(); ok {
				if int(d) != len(c) {
					return B.False
				}
				return g.bytesAt(b.A[0], lo, c)
			}
		}
		a, b = b, a
	}
	if isIntTerm(a) && isIntTerm(b) {
		return g.ts.ieq(a, b)
	}
	if _, ok := a.isInt(); ok && b.Op == "lin" {
		return g.ts.ieq(a, b)
	}
	if _, ok := b.isInt(); ok && a.Op == "lin" {
		return g.ts.ieq(a, b)
	}
	if sa, ok := a.isStr(); ok {
		if sb, ok := b.isStr(); ok {
			return B.Bool(sa == sb)
		}
		if sa == "" {
			return g.empty(b)
		}
	}
	if sb, ok := b.isStr(); ok && sb == "" {
		return g.empty(a)
	}
	if ca, ok := a.isInt(); ok {
		if cb, ok := b.isInt(); ok {
			return B.Bool(ca == cb)
		}
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return B.False
	}
	if c := g.cmp3(a, b, "=="); c != nil {
		return c
	}
	if a.id > b.id {
		a, b = b, a
	}
	return B.atom(g.ts.mk("eq", "", a, b))
}

// empty is len(t) == 0, in the form that uses that lengths are not negative.
func (g *GV) empty(t *Term) *Node { return g.ts.ilt(g.length(t), g.ts.Int(1)) }

func (t *Term) depth() int {
	d := 0
	for t.Op == "ite" {
		d++
		t = t.A[1]
	}
	return d
}

func isIntTerm(t *Term) bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	if t.Op == "lin" || t.Op == "len" || t.Op == "idx" {
		return true
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

// cmp3 interprets comparisons of three-way results with constants.
func (g *GV) cmp3(a, b *Term, op string) *Node {
	flip := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
	if b.Op == "cmp3" {
		a, b = b, a
		op = flip[op]
	}
	if a.Op != "cmp3" {
		return nil
	}
	k, ok := b.isInt()
	if !ok {
		return nil
	}
	B := g.ts.b
	x, y := a.A[0], a.A[1]
	hold := func(v int64) bool {
		switch op {
		case "<":
			return v < k
		case ">":
			return v > k
		case "<=":
			return v <= k
		case ">=":
			return v >= k
		case "==":
			return v == k
		}
		return v != k
	}
	switch n, z, p := hold(-1), hold(0), hold(1); {
	case n && z && p:
		return B.True
	case !n && !z && !p:
		return B.False
	case n == z && z != p:
		return B.Xor(B.Bool(n), g.lt(y, x))
	case z == p && n != z:
		return B.Xor(B.Bool(z), g.lt(x, y))
	default: // n == p != z
		return B.Xor(B.Bool(z), B.Or(g.lt(x, y), g.lt(y, x)))
	}
}

func (g *GV) lt(a, b *Term) *Node {
	B := g.ts.b
	if a == b {
		return B.False
	}
	if a.Op == "ite" && a.depth() < 40 {
		return B.ite(a.B, g.lt(a.A[0], b), g.lt(a.A[1], b))
	}
	if b.Op == "ite" && b.depth() < 40 {
		return B.ite(b.B, g.lt(a, b.A[0]), g.lt(a, b.A[1]))
	}
	if isIntTerm(a) && isIntTerm(b) && !isBig(a) && !isBig(b) {
		return g.ts.ilt(a, b)
	}
	return B.atom(g.ts.mk("lt", "", a, b))
}

func isBig(t *Term) bool { return t.Op == "val" || strings.HasPrefix(t.Op, "big") }

func (g *GV) length(t *Term) *Term {
	if l := g.grown[t]; l != nil {
		return l
	}
	switch t.Op {
	case "list":
		return g.ts.Int(int64(len(t.A)))
	case "nil":
		return g.ts.Int(0)
	case "ite":
		return g.ite(t.B, g.length(t.A[0]), g.length(t.A[1]))
	case "append":
		return g.ts.Add(g.length(t.A[0]), g.ts.Int(int64(len(t.A)-1)))
	case "slice":
		if t.A[0] != nil {
			lo, hi := t.A[1], t.A[2]
			if hi.isNil() {
				hi = g.length(t.A[0])
			}
			return g.ts.Sub(hi, lo)
		}
	}
	if s, ok := t.isStr(); ok {
		return g.ts.Int(int64(len(s)))
	}
	return g.ts.mk("len", "", t)
}

// ---------- memory

func baseOf(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "iaddr" || t.Op == "val" {
		t = t.A[0]
	}
	return t
}

func (g *GV) load(st *State, a *Term, T types.Type) *Term {
	r := g.load0(st, a, T)
	if r.T == nil {
		r.T = T
	}
	return r
}

func (g *GV) load0(st *State, a *Term, T types.Type) *Term {
	if v := st.mem[a]; v != nil {
		return v
	}
	if a.Op == "faddr" || a.Op == "iaddr" {
		if st.mem[a.A[0]] == nil {
			if v := g.gather(st, a, T, false); v != nil {
				return v
			}
		}
	}
	switch a.Op {
	case "ite":
		return g.ite(a.B, g.load(st, a.A[0], T), g.load(st, a.A[1], T))
	case "faddr":
		if v := st.mem[a.A[0]]; v != nil {
			return g.field(st, v, a.S, T)
		}
		if v := g.verOf(st, a.S, a.A[0]); v != nil {
			return g.ts.mk("fld", a.S, a.A[0], v)
		}
		if a.A[0].Op == "alloc" || a.A[0].Op == "faddr" && baseOf(a).Op == "alloc" && !baseOf(a).havoced(st, g) {
			return g.zero(T)
		}
		if a.A[0].Op == "faddr" || a.A[0].Op == "iaddr" {
			return g.field(st, g.load(st, a.A[0], nil), a.S, T)
		}
		return g.ts.mk("fld", a.S, a.A[0])
	case "iaddr":
		if v := st.mem[a.A[0]]; v != nil {
			return g.index(v, a.A[1])
		}
		if T != nil {
			if v := g.verOf(st, "[]"+typeName(T), a.A[0]); v != nil {
				return g.ts.mk("elem", "", a.A[0], a.A[1], v)
			}
		}
		if b := baseOf(a); b.Op == "alloc" && !b.havoced(st, g) {
			if at, ok := g.cellType(a.A[0]).(*types.Array); ok {
				if _, ok := a.A[1].isInt(); ok {
					return g.zero(at.Elem())
				}
			}
		}
		return g.index(a.A[0], a.A[1])
	case "alloc":
		// whole-value load of a value built part by part
		if v := g.gather(st, a, T, true); v != nil {
			return v
		}
		return g.zero(T)
	case "mapcell":
		if mt := a.A[0].T; mt != nil {
			return g.mapLookup(st, a.A[0], a.A[1], mt)
		}
	case "global":
		if v := g.verOf(st, "global:"+a.S, a); v != nil && a.S != "os.Stdout" && a.S != "os.Stderr" && a.S != "os.Stdin" {
			return g.ts.mk("fld", "*", a, v)
		}
		return g.ts.mk("fld", "*", a)
	}
	if v := g.gather(st, a, T, false); v != nil {
		return v
	}
	if T != nil {
		if v := g.verOf(st, "*"+typeName(T), a); v != nil {
			return g.ts.mk("deref", "", a, v)
		}
	}
	return g.ts.mk("deref", "", a)
}

func (t *Term) havoced(st *State, g *GV) bool { return st.mem[g.ts.mk("havoc", "", t)] != nil }

func (g *GV) field(st *State, v *Term, name string, T types.Type) *Term {
	switch v.Op {
	case "struct":
		for i, n := range strings.Split(v.S, ",") {
			if n == name {
				return v.A[i]
			}
		}
	case "upd":
		if v.S == "faddr" && v.A[1].S == name {
			return v.A[2]
		}
		if v.S == "faddr" {
			return g.field(st, v.A[0], name, T)
		}
	case "zero":
		return g.zero(T)
	case "ite":
		return g.ite(v.B, g.field(st, v.A[0], name, T), g.field(st, v.A[1], name, T))
	case "iface":
		return g.field(st, v.A[0], name, T)
	}
	r := g.ts.mk("fld", name, v)
	if r.T == nil {
		r.T = T
	}
	return r
}

func (g *GV) index(x, i *Term) *Term {
	if x.Op == "list" {
		if k, ok := i.isInt(); ok && k >= 0 && int(k) < len(x.A) {
			return x.A[k]
		}
	}
	if x.Op == "upd" && x.S == "iaddr" && x.A[1] == i {
		return x.A[2]
	}
	if x.Op == "slice" {
		return g.index(x.A[0], g.ts.Add(x.A[1], i))
	}
	if x.Op == "ite" {
		if i.Op == "idx" {
			// any element of a collection put together in different ways
			return g.ts.mk("elem", "", g.lift(x), i)
		}
		return g.ite(x.B, g.index(x.A[0], i), g.index(x.A[1], i))
	}
	if s, ok := x.isStr(); ok {
		if k, ok := i.isInt(); ok && k >= 0 && int(k) < len(s) {
			return g.ts.Int(int64(s[k]))
		}
	}
	return g.ts.mk("elem", "", x, i)
}

// bytesAt says that the bytes of x from position lo on are those of c.
func (g *GV) bytesAt(x, lo *Term, c string) *Node {
	r := g.ts.b.True
	for i := 0; i < len(c); i++ {
		e := g.index(x, g.ts.Add(lo, g.ts.Int(int64(i))))
		if e.T == nil {
			e.T = types.Typ[types.Byte]
		}
		r = g.ts.b.And(r, g.eq(e, g.ts.Int(int64(c[i]))))
	}
	return r
}

func isIndexCall(t *Term) bool {
	if t.Op != "call" {
		return false
	}
	i := strings.IndexByte(t.S, '.')
	return i > 0 && (t.S[:i] == "strings" || t.S[:i] == "bytes" || t.S[:i] == "slices") && (strings.HasPrefix(t.S[i+1:], "Index") || strings.HasPrefix(t.S[i+1:], "LastIndex"))
}

func (g *GV) zero(T types.Type) *Term {
	if T == nil {
		return g.ts.mk("zero", "?")
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return g.ts.BoolT(g.ts.b.False)
		case u.Info()&types.IsString != 0:
			return g.ts.Str("")
		case u.Info()&types.IsInteger != 0:
			return g.ts.Int(0)
		}
		return g.ts.mk("const", "0.0")
	case *types.Struct, *types.Array:
		return g.ts.mk("zero", T.String())
	}
	return g.ts.Nil()
}

func (g *GV) store(st *State, a, v *Term) {
	if a.Op == "ite" { // weak update on both targets
		g.store1(st, a.A[0], g.ite(a.B, v, g.load(st, a.A[0], nil)))
		g.store1(st, a.A[1], g.ite(a.B, g.load(st, a.A[1], nil), v))
		return
	}
	g.store1(st, a, v)
}

func (g *GV) store1(st *State, a, v *Term) {
	// a whole-value store kills the field cells
	for k := range st.mem {
		if k != a && (k.Op == "faddr" || k.Op == "iaddr") {
			for b := k.A[0]; ; b = b.A[0] {
				if b == a {
					delete(st.mem, k)
					break
				}
				if b.Op != "faddr" && b.Op != "iaddr" {
					break
				}
			}
		}
	}
	T := g.cellType(a)
	if T == nil {
		T = v.T
	}
	if baseOf(a).Op == "alloc" {
		if n, at, f := g.parts(T); n > 0 {
			delete(st.mem, a)
			for i := 0; i < n; i++ {
				c, w := g.part(a, v, at, f, i)
				g.store1(st, c, w)
			}
			return
		}
	}
	st.mem[a] = v
	for k, x := a, v; k.Op == "faddr" || k.Op == "iaddr"; k = k.A[0] {
		o := st.mem[k.A[0]]
		if o == nil {
			break
		}
		step := g.ts.mk("step", k.S)
		if k.Op == "iaddr" {
			step = k.A[1]
		}
		x = g.ts.mk("upd", k.Op, o, step, x)
		st.mem[k.A[0]] = x
	}
}

// parts: how many parts a value of this type is kept in; arrays of at most 16
// elements and the structs of this module are kept part by part.
func (g *GV) parts(T types.Type) (int, *types.Array, *types.Struct) {
	if T == nil {
		return 0, nil, nil
	}
	switch u := T.Underlying().(type) {
	case *types.Array:
		if u.Len() <= 16 {
			return int(u.Len()), u, nil
		}
	case *types.Struct:
		if n, ok := T.(*types.Named); ok && (n.Obj().Pkg() == nil || !g.w.inModulePkg(n.Obj().Pkg().Path())) {
			return 0, nil, nil
		}
		return u.NumFields(), nil, u
	}
	return 0, nil, nil
}

func (g *GV) part(a, v *Term, at *types.Array, st *types.Struct, i int) (*Term, *Term) {
	if at != nil {
		k := g.ts.Int(int64(i))
		w := g.index(v, k)
		if v.Op == "zero" {
			w = g.zero(at.Elem())
		}
		return g.iaddr(a, k), w
	}
	f := st.Field(i)
	return g.ts.mk("faddr", f.Name(), a), g.field(nil, v, f.Name(), f.Type())
}

func (g *GV) mergeStates(es []edge, bg *Node) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	out := &State{mem: map[*Term]*Term{}}
	if out.know = es[0].st.know; out.know != nil {
		for _, e := range es[1:] {
			if e.st.know == nil {
				out.know = nil
				break
			}
			out.know = g.ts.b.Or(out.know, e.st.know)
		}
	}
	keys := map[*Term]bool{}
	for _, e := range es {
		for k := range e.st.mem {
			keys[k] = true
		}
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		var vals []*Term
		var T types.Type
		for _, e := range es {
			if v := e.st.mem[k]; v != nil {
				T = v.T
			}
		}
		for _, e := range es {
			v := e.st.mem[k]
			if v == nil {
				if k.Op == "val" {
					v = g.bigval(e.st, k.A[0])
				} else {
					v = g.load(e.st, k, T)
				}
			}
			vals = append(vals, v)
		}
		out.mem[k] = g.mergeVals(es, vals, bg)
	}
	return out
}

func (g *GV) mergeVals(es []edge, vals []*Term, bg *Node) *Term {
	for i, e := range es {
		if e.st != nil && e.st.know != nil {
			vals[i] = g.prune(vals[i], e.st)
		}
	}
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		if es[i].g == g.ts.b.False {
			continue
		}
		if es[len(vals)-1].g == g.ts.b.False && r == vals[len(vals)-1] && i == len(vals)-2 {
			r = vals[i]
			continue
		}
		r = g.ite(g.ts.b.Simplify(es[i].g, bg), vals[i], r)
	}
	return r
}

// ---------- loops of a function

type loopInfo struct {
	order  map[*ssa.BasicBlock]int
	blocks []*ssa.BasicBlock // RPO
	loops  []*natLoop
	inner  map[*ssa.BasicBlock]*natLoop
	head   map[*ssa.BasicBlock]*natLoop
}

type natLoop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *natLoop
}

func findLoops(f *ssa.Function) *loopInfo {
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*natLoop{}, head: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.blocks)
		li.blocks = append(li.blocks, post[i])
	}
	for _, b := range li.blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.head[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.head[s] = l
					li.loops = append(li.loops, l)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, l := range li.loops {
		for _, m := range li.loops {
			if m != l && m.body[l.head] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	for _, b := range li.blocks {
		for _, l := range li.loops {
			if l.body[b] && (li.inner[b] == nil || len(l.body) < len(li.inner[b].body)) {
				li.inner[b] = l
			}
		}
	}
	return li
}

// ---------- evaluation

// Root evaluates fn with symbolic parameters.
func (g *GV) Root(fn *ssa.Function, names ...string) ([]*Term, *Node, *State) {
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := g.ts.mk("param", n)
		t.T = p.Type()
		args = append(args, t)
	}
	return g.Eval(fn, args, nil, &State{mem: map[*Term]*Term{}})
}

// Eval expands fn with the given argument terms.
func (g *GV) Eval(fn *ssa.Function, args, fvs []*Term, st *State) ([]*Term, *Node, *State) {
	g.stack = append(g.stack, fn)
	defer func() { g.stack = g.stack[:len(g.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, linfo: findLoops(fn)}
	g.uid++
	fr.ctx = strconv.Itoa(g.uid)
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		if args[i].T == nil {
			args[i].T = p.Type()
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fvs) {
			fr.env[p] = fvs[i]
		}
	}
	g.region(fr, nil, fn.Blocks[0], []edge{{to: fn.Blocks[0], g: g.ts.b.True, st: st.clone()}}, nil)
	// results
	B := g.ts.b
	var es []edge
	ng := B.False
	for _, r := range fr.rets {
		es = append(es, edge{g: r.g, st: r.st})
		ng = B.Or(ng, r.g)
	}
	if len(es) == 0 {
		return nil, B.False, st
	}
	out := g.mergeStates(es, ng)
	n := fn.Signature.Results().Len()
	vals := make([]*Term, n)
	for i := 0; i < n; i++ {
		var vs []*Term
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		vals[i] = g.mergeVals(es, vs, ng)
		if vals[i].T == nil {
			vals[i].T = fn.Signature.Results().At(i).Type()
		}
	}
	for _, d := range fr.defers {
		if g.runsHere(d) {
			continue
		}
		if e := g.emit("defer", d.Name, B.Simplify(d.Guard, g.guard()), d.Pos, fn, nil, d.A...); len(d.Loops) > len(e.Loops) {
			e.Loops = d.Loops
		}
	}
	return vals, ng, out
}

// region evaluates the blocks of fn (L==nil) or of one loop body.
func (g *GV) region(fr *frame, L *natLoop, entry *ssa.BasicBlock, in []edge, li *Loop) (out []edge) {
	B := g.ts.b
	li0 := fr.linfo
	pend := map[*ssa.BasicBlock][]edge{entry: in}
	inRegion := func(b *ssa.BasicBlock) bool { return L == nil || L.body[b] }
	deliver := func(e edge) {
		if !inRegion(e.to) || (L != nil && e.to == L.head) {
			out = append(out, e)
			return
		}
		pend[e.to] = append(pend[e.to], e)
	}
	for _, b := range li0.blocks {
		if !inRegion(b) {
			continue
		}
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		in := li0.inner[b]
		// nested loop header?
		if h := li0.head[b]; h != nil && h != L {
			if h.parent == L || (L == nil && h.parent == nil) {
				for _, e := range g.loop(fr, h, es) {
					deliver(e)
				}
			}
			continue
		}
		if in != L {
			continue
		}
		bg := B.False
		for _, e := range es {
			bg = B.Or(bg, e.g)
		}
		st := g.mergeStates(es, bg)
		if !(L != nil && b == L.head) {
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				var vals []*Term
				for _, e := range es {
					vals = append(vals, g.val(fr, phi.Edges[predIndex(b, e.from)]))
				}
				v := g.mergeVals(es, vals, bg)
				if v.T == nil {
					v.T = phi.Type()
				}
				fr.env[phi] = v
			}
		}
		g.block(fr, b, bg, st, L, li, deliver)
	}
	return out
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return 0
}

func (g *GV) loop(fr *frame, h *natLoop, es []edge) (out []edge) {
	B := g.ts.b
	G := B.False
	for _, e := range es {
		G = B.Or(G, e.g)
	}
	st := g.mergeStates(es, G)
	var phis []*ssa.Phi
	for _, ins := range h.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		var vals []*Term
		for _, e := range es {
			vals = append(vals, g.val(fr, p.Edges[predIndex(h.head, e.from)]))
		}
		init[p] = g.mergeVals(es, vals, G)
	}
	g.uid++
	id := g.uid
	nm := func(s string) string { return fmt.Sprintf("%s@L%d", s, id) }
	entryPath := append(append([]*Node{}, g.path...), G)
	L := &Loop{ID: id, Pos: loopPos(h), Fn: fr.fn, Entry: B.And(entryPath...)}
	if len(g.loops) > 0 {
		L.Parent = g.loops[len(g.loops)-1]
	}

	type pass struct {
		backs, outs []edge
		start       *State
		vars        map[interface{}]*Term
	}
	ndefer := len(fr.defers)
	// wrap: variables the loop changes only when a condition holds that is the
	// same in every iteration
	wrap := map[interface{}]*Node{}
	var cellInit func(k *Term) *Term
	run := func(induct map[interface{}]*Term, havoc []*Term) pass {
		s := st.clone()
		vars := map[interface{}]*Term{}
		for _, p := range phis {
			v := induct[p]
			if v == nil {
				n := p.Comment
				if n == "" {
					n = p.Name()
				}
				v = g.ts.mk("loopv", nm(n+"."+p.Name()))
				v.L = L
				v.T = p.Type()
			}
			vars[p] = v
			if c := wrap[p]; c != nil && v.Op == "loopv" {
				v = g.ite(c, v, init[p])
			}
			fr.env[p] = v
		}
		for _, k := range havoc {
			v := induct[k]
			if v == nil {
				v = g.ts.mk("loopv", nm("m"+strconv.Itoa(k.id)))
				v.L = L
				if o := st.mem[k]; o != nil && v.T == nil {
					v.T = o.T
				}
				if v.T == nil {
					v.T = g.cellType(k)
				}
			}
			vars[k] = v
			if c := wrap[k]; c != nil && v.Op == "loopv" {
				v = g.ite(c, v, cellInit(k))
			}
			s.mem[k] = v
		}
		start := s.clone()
		g.loops = append(g.loops, L)
		g.path = append(g.path, G)
		L.depth, L.terms = len(g.path), nil
		rs := fr.rets
		fr.rets = nil
		fr.defers = fr.defers[:ndefer]
		L.Exits = nil
		oe := g.region(fr, h, h.head, []edge{{to: h.head, g: B.True, st: s}}, L)
		var inner []ret
		for _, r := range fr.rets {
			if r.g != B.False {
				inner = append(inner, r)
			}
		}
		fr.rets = rs
		g.path = g.path[:len(g.path)-1]
		g.loops = g.loops[:len(g.loops)-1]
		var p pass
		p.start = start
		p.vars = vars
		for _, e := range oe {
			if e.g == B.False {
				continue
			}
			if e.to == h.head {
				p.backs = append(p.backs, e)
			} else {
				p.outs = append(p.outs, e)
			}
		}
		for _, r := range inner {
			p.outs = append(p.outs, edge{from: nil, to: nil, g: r.g, st: r.st})
		}
		fr.env[nil] = nil
		pendingRets[L] = inner
		return p
	}
	next := func(p pass) (map[interface{}]*Term, []*Term) {
		nx := map[interface{}]*Term{}
		var bg = B.False
		for _, e := range p.backs {
			bg = B.Or(bg, e.g)
		}
		if len(p.backs) == 0 {
			return nx, nil
		}
		for _, ph := range phis {
			var vals []*Term
			for _, e := range p.backs {
				vals = append(vals, g.val(fr, ph.Edges[predIndex(h.head, e.from)]))
			}
			nx[ph] = g.mergeVals(p.backs, vals, bg)
		}
		ms := g.mergeStates(p.backs, bg)
		var mod []*Term
		var ks []*Term
		for k := range ms.mem {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			v := ms.mem[k]
			o := p.start.mem[k]
			if o == v {
				continue
			}
			if o == nil && g.iterLocal(k, L) {
				continue
			}
			mod = append(mod, k)
			nx[k] = v
		}
		return nx, mod
	}
	// kept: a variable that has its first value whenever an iteration starts
	kept := func(v, i, n *Term, backs []edge) bool {
		bg := B.False
		for _, e := range backs {
			bg = B.Or(bg, e.g)
		}
		at := func(t *Term) *Term {
			if t == v {
				return i
			}
			return nil
		}
		return v != i && g.under(g.subst(n, at), g.substN(bg, at)) == i || v == i && g.under(n, bg) == i
	}
	indFrom := func(p pass, nx map[interface{}]*Term, inits map[interface{}]*Term) map[interface{}]*Term {
		vars := p.vars
		ind := map[interface{}]*Term{}
		idx := g.ts.mk("idx", nm("i"))
		idx.L = L
		for k, n := range nx {
			v := vars[k]
			i := inits[k]
			if v == nil || i == nil || v.Op != "loopv" {
				continue
			}
			if n == v || kept(v, i, n, p.backs) {
				ind[k] = i // never changes
				continue
			}
			if isFixed(i) && isFixed(n) {
				// one value the first time and another ever after
				ind[k] = g.ite(g.ts.ilt(idx, g.ts.Int(1)), i, n)
				continue
			}
			d := toLin(n).add(toLin(v), -1)
			if len(d.c) == 0 && (d.k == 1 || d.k == -1) && isIntTerm(v) {
				if d.k == 1 {
					ind[k] = g.ts.Add(i, idx)
				} else {
					ind[k] = g.ts.Sub(i, idx)
				}
			}
		}
		return ind
	}
	cellInit = func(k *Term) *Term {
		if o := st.mem[k]; o != nil {
			return o
		} else if k.Op == "val" {
			return g.bigval(st, k.A[0])
		} else if k.Op == "content" {
			return g.ts.Str("")
		}
		return g.load(st, k, g.cellType(k))
	}
	initsFor := func(havoc []*Term) map[interface{}]*Term {
		m := map[interface{}]*Term{}
		for _, p := range phis {
			m[p] = init[p]
		}
		for _, k := range havoc {
			m[k] = cellInit(k)
		}
		return m
	}
	post := map[*Term]*Term{}
	inner0 := func(k *Term) bool { return k.Op == "mapcell" }
	// scratch passes: discover what the body modifies and which variables count
	g.quiet++
	saved := len(g.Loops)
	p0 := run(nil, nil)
	_, mod := next(p0)
	if len(mod) > 0 {
		p1 := run(nil, mod)
		nx1, mod1 := next(p1)
		for _, k := range mod1 {
			if !containsTerm(mod, k) {
				mod = append(mod, k)
			}
		}
		p0 = p1
		_ = nx1
	}
	nx0, _ := next(p0)
	ind := indFrom(p0, nx0, initsFor(mod))
	{
		pk := p0
		nxk := nx0
		if len(ind) > 0 {
			for i := 0; i < 4; i++ {
				pk = run(ind, mod)
				delete(pendingRets, L)
				var more []*Term
				nxk, more = next(pk)
				n := len(mod)
				for _, k := range more {
					if !containsTerm(mod, k) {
						mod = append(mod, k)
					}
				}
				if len(mod) == n {
					break
				}
				for k, v := range indFrom(pk, nxk, initsFor(mod)) {
					ind[k] = v
				}
			}
		}
		longer := false
		for k, v := range pk.vars {
			if v.Op == "loopv" && nxk[k] != nil {
				if c := g.onlyWhen(v, nxk[k]); c != nil {
					wrap[k] = c
				} else if n := nxk[k]; n.Op == "append" && n.A[0] == v {
					// as long as the loop has run
					idx := g.ts.mk("idx", nm("i"))
					idx.L = L
					idx.T = types.Typ[types.Int]
					if g.grown == nil {
						g.grown = map[*Term]*Term{}
					}
					m := idx
					if len(n.A) > 2 {
						m = g.binop(token.MUL, idx, g.ts.Int(int64(len(n.A)-1)), types.Typ[types.Int])
					}
					longer = true
					g.grown[v] = g.ts.Add(g.length(initsFor(mod)[k]), m)
				}
			}
		}
		if longer {
			pk = run(ind, mod)
			delete(pendingRets, L)
			nxk, _ = next(pk)
		}
		in := initsFor(mod)
		for k, v := range pk.vars {
			if v.Op == "loopv" {
				L.Phis = append(L.Phis, &LVar{V: v, Init: in[k], Next: nxk[k]})
			}
		}
		g.classify(L)
		L.Phis = nil
		if k, ok := constDom(L); ok && k <= 8 && L.Kind == "count" && len(ind) > 0 {
			// a handful of iterations known in advance: unroll
			g.quiet--
			g.Loops = g.Loops[:saved]
			fr.defers = fr.defers[:ndefer]
			return g.unroll(fr, h, es)
		}
		// a test at the head that is no iteration over something known is an
		// exit like any other
		L.noHead = L.Kind == "while"
		L.Kind, L.Cont, L.Dom, L.Key, L.Val, L.Idx = "", nil, nil, nil, nil, nil
	}
	g.quiet--
	g.Loops = g.Loops[:saved]
	g.Loops = append(g.Loops, L)
	eff0 := len(g.Effects)
	p := run(ind, mod)
	inner := pendingRets[L]
	delete(pendingRets, L)
	nx, mod2 := next(p)
	inits := initsFor(mod)
	idx := g.ts.mk("idx", nm("i"))
	idx.L = L
	for k, v := range ind {
		n := nx[k]
		if n == nil || g.quiet > 0 || n == v || kept(v, v, n, p.backs) {
			continue
		}
		if isFixed(n) && isFixed(inits[k]) && v == g.ite(g.ts.ilt(idx, g.ts.Int(1)), inits[k], n) {
			continue
		}
		if d := toLin(n).add(toLin(v), -1); len(d.c) != 0 || d.k != 1 && d.k != -1 {
			g.Unknown = append(g.Unknown, fmt.Sprintf("loop at %s: a variable taken for a counter is none", g.w.pos(L.Pos)))
		}
	}
	L.Back = B.False
	for _, e := range p.backs {
		L.Back = B.Or(L.Back, e.g)
	}
	for _, k := range mod2 {
		if !containsTerm(mod, k) && g.quiet == 0 && !inner0(k) {
			g.Unknown = append(g.Unknown, fmt.Sprintf("loop at %s: late modification of %s", g.w.pos(L.Pos), k))
		}
	}
	// objects rewritten one per iteration: later reads see the loop's version
	for _, e := range p.backs {
		for k, v := range e.st.mem {
			if (k.Op == "faddr" || k.Op == "iaddr") && p.start.mem[k] != v && g.iterLocal(k, L) && baseOf(k).Op != "alloc" {
				b := k.A[0]
				for b != nil && g.iterLocal(b, L) {
					b = chainUp(b)
				}
				key := cellKey(k)
				if key == "[]" {
					T := g.cellType(k)
					if T == nil {
						continue
					}
					key += typeName(T)
				}
				c := g.verCell(key, b)
				if _, ok := post[c]; !ok {
					o := g.ts.mk("out", nm("v:"+key))
					o.L = L
					post[c] = o
				}
			}
		}
	}
	// loop variables
	var outSub = map[*Term]*Term{}
	addVar := func(k interface{}, name string) {
		v := p.vars[k]
		lv := &LVar{Name: name, V: v, Init: inits[k], Next: nx[k]}
		if lv.Next == nil {
			lv.Next = v
		}
		if c := wrap[k]; c != nil && v.Op == "loopv" {
			lv.Init, lv.Next = g.under(lv.Init, c), g.under(lv.Next, c)
		}
		if v.Op == "loopv" {
			lv.Out = g.ts.mk("out", v.S)
			lv.Out.L = L
			lv.Out.T = v.T
			outSub[v] = lv.Out
		}
		L.Phis = append(L.Phis, lv)
	}
	for _, ph := range phis {
		addVar(ph, ph.Name())
	}
	for _, k := range mod {
		addVar(k, "m"+strconv.Itoa(k.id))
	}
	g.classify(L)
	// boolean any/all flags and exits become quantifier atoms
	if L.Idx == nil {
		L.Idx = idx
	}
	outIdx := g.ts.mk("out", nm("i"))
	outIdx.L = L
	if L.Kind == "each" && L.Dom != nil && nonNegative(g.length(L.Dom)) {
		outSub[idx] = g.length(L.Dom)
	} else {
		outSub[idx] = outIdx
		outIdx.T = types.Typ[types.Int]
	}
	for _, lv := range L.Phis {
		if lv.Out == nil {
			continue
		}
		o := g.flagOut(L, lv)
		if o == nil && len(L.terms) == 0 && len(inner) == 0 {
			only := true
			for _, e := range p.outs {
				only = only && e.head
			}
			if only {
				o = g.appendOut(L, lv)
				if n := lv.Next; o == nil && (L.Kind == "each" || L.Kind == "map") && L.Dom != nil && lv.Init.Op == "list" && len(lv.Init.A) == 0 && n.Op == "append" && n.A[0] == lv.V {
					// no list is an empty list
					lv.Init = g.ts.Nil()
				}
			}
		}
		if o != nil {
			outSub[lv.V] = o
			lv.Out = o
		}
	}
	if L.Kind == "each" && L.Dom != nil && len(inner) == 0 {
		only := true
		for _, e := range p.outs {
			only = only && e.head
		}
		if only {
			ms := g.mergeStates(p.backs, L.Back)
			g.filled(fr, h, L, ms, eff0, nm, outSub)
		}
	}
	sub := func(t *Term) *Term { return outSub[t] }
	for c, v := range post {
		for i := range p.outs {
			if p.outs[i].to != nil {
				p.outs[i].st.mem[c] = v
			}
		}
		for i := range inner {
			inner[i].st.mem[c] = v
		}
	}
	// exits
	brk := B.False
	var headEdges []edge
	ways := len(inner) + len(L.terms)
	for _, e := range p.outs {
		if e.to != nil {
			ways++
		}
	}
	k := 0
	for _, e := range p.outs {
		if e.to == nil {
			continue
		}
		if e.head && L.Cont != nil {
			headEdges = append(headEdges, e)
			continue
		}
		k++
		x := g.exists(L, e.g, "L")
		if ways == 1 {
			x = B.True // the only way out
		}
		gg := x
		brk = B.Or(brk, gg)
		L.Exits = append(L.Exits, LExit{Guard: e.g, Kind: "break", Pos: e.from.Instrs[len(e.from.Instrs)-1].Pos()})
		out = append(out, edge{from: e.from, to: e.to, g: B.And(G, gg), st: g.learn(e.st, e.g)})
	}
	for _, r := range inner {
		x := g.exists(L, r.g, "L")
		if ways == 1 {
			x = B.True
		}
		brk = B.Or(brk, x)
		L.Exits = append(L.Exits, LExit{Guard: r.g, Kind: "return"})
		s := g.learn(r.st, r.g)
		for i := range r.vals {
			r.vals[i] = g.prune(r.vals[i], s)
		}
		fr.rets = append(fr.rets, ret{g: B.And(G, x), vals: r.vals, st: s})
	}
	terms := L.terms
	L.terms = nil
	for _, e := range terms {
		x := g.exists(L, e.local, "L")
		if ways == 1 {
			x = B.True
		}
		brk = B.Or(brk, x)
		L.Exits = append(L.Exits, LExit{Guard: e.local, Kind: "abort", Pos: e.Pos})
		g.emit("term", e.Name, B.And(G, x), e.Pos, e.Fn, nil, e.A...)
	}
	for _, e := range headEdges {
		s := &State{mem: map[*Term]*Term{}}
		for kk, v := range e.st.mem {
			s.mem[kk] = g.subst(v, sub)
		}
		out = append(out, edge{from: e.from, to: e.to, g: B.And(G, B.Not(brk)), st: s})
		if g.quiet == 0 && brk == B.False && len(headEdges) == 1 {
			g.settle(L, fr.fn, mod, eff0, G, s)
		}
	}
	// values of header-defined names after the loop
	fix := func(v ssa.Value) {
		t := fr.env[v]
		if t == nil {
			return
		}
		o := g.subst(t, sub)
		if len(headEdges) == 0 {
			return
		}
		if brk == B.False {
			fr.env[v] = o
		} else {
			fr.env[v] = g.ite(brk, t, o)
		}
	}
	for _, ins := range h.head.Instrs {
		if v, ok := ins.(ssa.Value); ok {
			fix(v)
		}
	}
	return out
}

// isFixed: a known number, text or truth value.
func isFixed(t *Term) bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	if _, ok := t.isStr(); ok {
		return true
	}
	return t.Op == "bool" && t.B != nil && t.B.v < 0
}

var pendingRets = map[*Loop][]ret{}

func constDom(L *Loop) (int64, bool) {
	if L.Dom == nil {
		return 0, false
	}
	return L.Dom.isInt()
}

// unroll evaluates a loop with a small constant trip count iteration by
// iteration.
func (g *GV) unroll(fr *frame, h *natLoop, es []edge) (out []edge) {
	B := g.ts.b
	var phis []*ssa.Phi
	for _, ins := range h.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	var snaps []map[ssa.Value]*Term
	cur := es
	for iter := 0; iter < 12 && len(cur) > 0; iter++ {
		G := B.False
		for _, e := range cur {
			G = B.Or(G, e.g)
		}
		if G == B.False {
			break
		}
		st := g.mergeStates(cur, G)
		vals := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			var vs []*Term
			for _, e := range cur {
				vs = append(vs, g.val(fr, p.Edges[predIndex(h.head, e.from)]))
			}
			vals[p] = g.mergeVals(cur, vs, G)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
		oe := g.region(fr, h, h.head, []edge{{to: h.head, g: G, st: st}}, nil)
		cur = nil
		for _, e := range oe {
			if e.g == B.False {
				continue
			}
			if e.to == h.head {
				cur = append(cur, e)
				continue
			}
			out = append(out, e)
			sn := map[ssa.Value]*Term{}
			for b := range h.body {
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok && fr.env[v] != nil {
						sn[v] = fr.env[v]
					}
				}
			}
			snaps = append(snaps, sn)
		}
	}
	if len(out) > 1 {
		bg := B.False
		for _, e := range out {
			bg = B.Or(bg, e.g)
		}
		for b := range h.body {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				var vs []*Term
				var ee []edge
				for i, sn := range snaps {
					if sn[v] != nil {
						vs = append(vs, sn[v])
						ee = append(ee, out[i])
					}
				}
				if len(vs) > 0 {
					fr.env[v] = g.mergeVals(ee, vs, bg)
				}
			}
		}
	}
	return out
}

func loopPos(h *natLoop) token.Pos {
	for _, ins := range h.head.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	var best token.Pos
	for b := range h.body {
		for _, ins := range b.Instrs {
			if p := ins.Pos(); p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

func containsTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func (g *GV) allocInLoop(a *Term, L *Loop) bool {
	return a.L == L || a.L != nil && func() bool {
		for p := a.L; p != nil; p = p.Parent {
			if p == L {
				return true
			}
		}
		return false
	}()
}

// exists: some iteration satisfies c (kind F), or the loop is left by the
// exit taken when c holds (kind L).
func (g *GV) exists(L *Loop, c *Node, kind string) *Node {
	if c == g.ts.b.False {
		return c
	}
	t := g.ts.mkB("exists", kind+strconv.Itoa(L.ID), c)
	t.L = L
	return g.ts.b.atom(t)
}

// classify recognises what the loop iterates over.
func (g *GV) classify(L *Loop) {
	g.classify0(L)
	if L.Kind == "while" && L.lenOf != nil && g.length(L.lenOf).Op == "ite" {
		// a collection put together in different ways
		for _, v := range g.B().Support(L.Cont) {
			a := g.B().Atoms[v]
			if a.Op != "ilt" && a.Op != "ieq" {
				continue
			}
			for t := range toLin(a.A[0]).c {
				if t.Op == "idx" && t.L == L {
					L.Kind, L.Dom, L.Idx, L.Val = "each", L.lenOf, t, nil
				}
			}
		}
	}
}

// lenOf finds x in the test i < len(x), where i is the position in the loop.
func (g *GV) lenOf(fr *frame, L *natLoop, li *Loop, c ssa.Value) *Term {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return nil
	}
	l, ok := b.Y.(*ssa.Call)
	if !ok || len(l.Call.Args) != 1 {
		return nil
	}
	if f, ok := l.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" {
		return nil
	}
	if i := g.val(fr, b.X); i.Op != "idx" || i.L != li {
		return nil
	}
	if d, ok := l.Call.Args[0].(ssa.Instruction); ok && L.body[d.Block()] {
		return nil
	}
	if x := g.val(fr, l.Call.Args[0]); !dependsOn(x, li) {
		return x
	}
	return nil
}

func (g *GV) classify0(L *Loop) {
	L.Kind = "while"
	if L.Cont == nil {
		return
	}
	B := g.ts.b
	sup := B.Support(L.Cont)
	if len(sup) != 1 {
		// a conjunction: iterate over what one conjunct bounds, the others
		// are further exits
		best := 0
		whole := L.Cont
		for pass := 0; pass < 2; pass++ {
			for _, v := range sup {
				for _, lit := range []*Node{B.mk(v, B.False, B.True), B.mk(v, B.True, B.False)} {
					if B.And(whole, B.Not(lit)) != B.False {
						continue
					}
					L.Cont = lit
					L.Kind, L.Dom, L.Key, L.Val, L.Idx = "", nil, nil, nil, nil
					g.classify0(L)
					rank := 0
					switch {
					case L.Kind == "while" || L.Key != nil && L.Key.Op == "loopv":
					case L.Kind == "count":
						rank = 1
					default:
						rank = 2
					}
					if pass == 0 && rank > best {
						best = rank
					}
					if pass == 1 && rank == best {
						L.headLit = lit
						return
					}
				}
			}
			if best == 0 {
				break
			}
		}
		L.Cont = whole
		L.Kind, L.Dom, L.Key, L.Val, L.Idx = "while", nil, nil, nil, nil
		return
	}
	a := B.Atoms[sup[0]]
	pos := L.Cont == B.mk(sup[0], B.False, B.True)
	switch a.Op {
	case "mapok":
		if pos {
			L.Kind = a.S
			L.Dom = a.A[0]
			L.Key = g.ts.mk("mapkey", fmt.Sprintf("L%d", L.ID), a.A[0])
			L.Val = g.ts.mk("mapval", fmt.Sprintf("L%d", L.ID), a.A[0])
		}
	case "ilt", "ieq":
		// linear in idx and len(X)
		l := toLin(a.A[0])
		var idxT, lenT *Term
		rest := 0
		for t := range l.c {
			switch {
			case t.Op == "idx" && t.L == L:
				idxT = t
			case t.Op == "len" && !dependsOn(t, L):
				lenT = t
			case !dependsOn(t, L):
				if lenT == nil {
					lenT = t
				}
			default:
				rest++
			}
		}
		if idxT == nil || rest > 0 {
			// while len(rest) > 0 { x := rest[0]; rest = rest[1:] }
			if len(l.c) == 1 {
				for t := range l.c {
					if t.Op == "len" && t.A[0].Op == "loopv" && t.A[0].L == L {
						g.consuming(L, t.A[0], a, pos)
					}
				}
			}
			return
		}
		L.Idx = idxT
		if lenT == nil {
			// idx < const
			if a.Op == "ilt" && pos && l.c[idxT] == 1 {
				k, _ := strconv.ParseInt(a.S, 10, 64)
				L.Kind = "count"
				L.Dom = g.ts.Int(k)
			}
			return
		}
		// idx < E
		k, _ := strconv.ParseInt(a.S, 10, 64)
		c := l.c[idxT]
		others := lin{c: map[*Term]int64{}}
		for t, n := range l.c {
			if t != idxT {
				others.c[t] = n
			}
		}
		var e lin
		switch {
		case a.Op == "ilt" && pos && c == 1, a.Op == "ieq" && !pos && c == 1:
			e = lin{k: k}.add(others, -1)
		case a.Op == "ilt" && !pos && c == -1:
			e = others.add(lin{k: 1 - k}, 1)
		case a.Op == "ieq" && !pos && c == -1:
			e = others.add(lin{k: -k}, 1)
		default:
			return
		}
		E := g.ts.fromLin(e)
		if a.Op == "ieq" && !nonNegative(E) {
			return
		}
		L.Kind, L.Dom, L.Val = "count", E, nil
		if lenT.Op == "len" && len(e.c) == 1 && e.c[lenT] == 1 && e.k <= 0 {
			L.Kind, L.Dom = "each", lenT.A[0]
			if e.k < 0 {
				L.Dom = g.slice(lenT.A[0], g.ts.Int(-e.k), g.ts.Nil())
			}
		}
	}
}

func (g *GV) consuming(L *Loop, v *Term, a *Term, pos bool) {
	for _, lv := range L.Phis {
		if lv.V == v && lv.Next != nil && lv.Next.Op == "slice" && lv.Next.A[0] == v {
			if one, ok := lv.Next.A[1].isInt(); ok && one == 1 && lv.Next.A[2].isNil() {
				L.Kind = "each"
				L.Dom = lv.Init
				L.Key = v // elements are index(v,0)
			}
		}
	}
}

// filled: a slice made before the loop that gets the element at each position
// set in the iteration for that position is the list of what was set.
func (g *GV) filled(fr *frame, h *natLoop, L *Loop, ms *State, eff0 int, nm func(string) string, outSub map[*Term]*Term) {
	ts := g.ts
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			mk, ok := ins.(*ssa.MakeSlice)
			if !ok || fr.env[mk] == nil || fr.env[mk].Op != "makeslice" || h.body[b] || !b.Dominates(h.head) {
				continue
			}
			m := fr.env[mk]
			inside := true
			for _, r := range *mk.Referrers() {
				rb := r.Block()
				if h.body[rb] {
					if _, ok := r.(*ssa.IndexAddr); !ok {
						if c, ok := r.(*ssa.Call); !ok || !isLenCall(c) {
							inside = false
						}
					}
				} else if c, ok := r.(*ssa.Call); ok && isLenCall(c) {
				} else if _, ok := r.(*ssa.DebugRef); ok {
				} else if phi, ok := r.(*ssa.Phi); ok {
					for k, e := range phi.Edges {
						if e == mk && !h.head.Dominates(rb.Preds[k]) {
							inside = false
						}
					}
				} else if !h.head.Dominates(rb) {
					inside = false
				}
			}
			if !inside {
				continue
			}
			dom := L.Dom
			if dom == m && m.A[0].Op == "len" {
				dom = m.A[0].A[0]
			}
			if dom != m && g.length(dom) != m.A[0] {
				continue
			}
			var val *Term
			var cell *Term
			for k, v := range ms.mem {
				if k.Op == "iaddr" && k.A[0] == m {
					if cell != nil {
						cell = nil
						break
					}
					cell, val = k, v
				}
			}
			if cell == nil || val == nil || cell.A[1] != L.Idx || val.contains(func(t *Term) bool { return t == m }) {
				continue
			}
			L.Dom = dom
			var keep []*Effect
			for i, e := range g.Effects {
				if i >= eff0 && e.Kind == "store" && e.A[0] == cell {
					continue
				}
				keep = append(keep, e)
			}
			g.Effects = keep
			v := ts.mk("loopv", nm("fill"+strconv.Itoa(m.id)))
			v.L, v.T = L, mk.Type()
			lv := &LVar{Name: "fill", V: v, Init: ts.Nil(), Next: ts.mk("append", "", v, val)}
			lv.Out = ts.mk("out", v.S)
			lv.Out.L, lv.Out.T = L, mk.Type()
			L.Phis = append(L.Phis, lv)
			o := lv.Out
			if x := g.appendOut(L, lv); x != nil {
				o = x
				lv.Out = x
			}
			outSub[m] = o
			for k, t := range fr.env {
				if t == m {
					fr.env[k] = o
				}
			}
		}
	}
}

func isLenCall(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

// onlyWhen: the condition, the same in every iteration, without which the next
// value n of v is v.
func (g *GV) onlyWhen(v, n *Term) *Node {
	B := g.ts.b
	var same func(t *Term) *Node
	same = func(t *Term) *Node {
		switch {
		case t == v:
			return B.True
		case t.Op == "ite":
			return B.ite(t.B, same(t.A[0]), same(t.A[1]))
		}
		return B.False
	}
	ch := B.Not(same(n))
	if ch == B.True || ch == B.False {
		return nil
	}
	for _, x := range B.Support(ch) {
		if !g.fixed(B.Atoms[x]) {
			ch = B.Or(B.Restrict(ch, x, true), B.Restrict(ch, x, false))
		}
	}
	if ch == B.True {
		return nil
	}
	return ch
}

// fixed: t is the same in every iteration of the loop about to be entered.
func (g *GV) fixed(t *Term) bool {
	return !t.contains(func(x *Term) bool {
		switch x.Op {
		case "loopv", "idx":
			for _, l := range g.loops {
				if x.L == l {
					return false
				}
			}
			return true
		case "param", "global", "const", "nil", "fld", "faddr", "deref", "eq", "lt", "len", "lin", "bool":
			return false
		}
		return true
	})
}

func dependsOn(t *Term, L *Loop) bool {
	return t.contains(func(x *Term) bool { return x.L == L && (x.Op == "idx" || x.Op == "loopv") })
}

// ---------- instructions

func (g *GV) val(fr *frame, v ssa.Value) *Term {
	if t := fr.env[v]; t != nil {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return g.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			return g.ts.BoolT(g.ts.b.Bool(constant.BoolVal(v.Value)))
		case constant.String:
			return g.ts.Str(constant.StringVal(v.Value))
		case constant.Int:
			return g.ts.mk("const", v.Value.ExactString())
		}
		return g.ts.mk("const", "f:"+v.Value.ExactString())
	case *ssa.Global:
		n := globalName(v)
		if !g.rawGlobals {
			n = strings.Replace(n, ".spec_", ".", 1)
		}
		t := g.ts.mk("global", n)
		t.T = v.Type()
		return t
	case *ssa.Function:
		t := g.ts.mk("fn", fnName(v))
		t.T = v.Type()
		g.ts.fn[t] = v
		return t
	case *ssa.Builtin:
		return g.ts.mk("fn", "builtin."+v.Name())
	}
	t := g.ts.mk("unk", fmt.Sprintf("%s.%s@%s", fnName(fr.fn), v.Name(), fr.ctx))
	t.T = v.Type()
	return t
}

func (g *GV) block(fr *frame, b *ssa.BasicBlock, bg *Node, st *State, L *natLoop, li *Loop, deliver func(edge)) {
	B := g.ts.b
	cur := bg
	for _, ins := range b.Instrs {
		if cur == B.False {
			switch ins.(type) {
			case *ssa.If, *ssa.Jump:
				for _, s := range b.Succs {
					deliver(edge{b, s, B.False, st, false})
				}
			}
			if v, ok := ins.(ssa.Value); ok && fr.env[v] == nil {
				fr.env[v] = g.ts.mk("unk", "dead")
			}
			continue
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := g.decided(g.cond(g.val(fr, i.Cond)), st)
			t, f := b.Succs[0], b.Succs[1]
			gt, gf := B.And(cur, c), B.And(cur, B.Not(c))
			if L != nil && li != nil && !li.noHead && b == L.head && L.body[t] != L.body[f] && c.v >= 0 {
				in, ex, stay := t, f, c
				if !L.body[t] {
					in, ex, stay = f, t, B.Not(c)
				}
				stay = g.chain(fr, L, li, st, b, in, ex, cur, stay)
				li.Cont = stay
				li.lenOf = g.lenOf(fr, L, li, i.Cond)
				if h := li.headLit; h != nil && B.And(stay, B.Not(h)) == B.False {
					li.Cont = h
					r := B.Constrain(stay, h)
					if r != B.True {
						deliver(edge{b, ex, B.And(cur, B.Not(r)), st.clone(), false})
					}
					deliver(edge{b, in, B.And(cur, r), st.clone(), false})
				} else {
					deliver(edge{b, in, cur, st.clone(), false})
				}
				deliver(edge{b, ex, B.And(cur, B.Not(li.Cont)), st.clone(), true})
				break
			}
			if li != nil && !li.noHead && li.tested[b] != nil {
				// tested at the head already
				if li.tested[b] == t {
					gt, gf = cur, B.False
				} else {
					gt, gf = B.False, cur
				}
			}
			deliver(edge{b, t, gt, st.clone(), false})
			deliver(edge{b, f, gf, st.clone(), false})
		case *ssa.Jump:
			deliver(edge{b, b.Succs[0], cur, st, false})
		case *ssa.Return:
			var vals []*Term
			for _, r := range i.Results {
				vals = append(vals, g.prune(g.val(fr, r), st))
			}
			fr.rets = append(fr.rets, ret{cur, vals, st.clone()})
		case *ssa.Panic:
			g.emit("term", "panic", cur, i.Pos(), fr.fn, nil, g.val(fr, i.X))
			cur = B.False
		case *ssa.RunDefers:
			cur = g.runDefers(fr, cur, st)
		case *ssa.Store:
			a, v := g.val(fr, i.Addr), g.val(fr, i.Val)
			if baseOf(a).Op != "alloc" || escapesToHeap(baseOf(a)) {
				w, when := v, cur
				if n := g.noop(v, g.load(st, a, i.Val.Type())); n != B.False {
					when = B.And(cur, B.Not(n))
					w = g.under(v, B.Not(n))
				}
				if when != B.False {
					g.emit("store", a.S, when, i.Pos(), fr.fn, nil, a, w)
				}
			}
			if v.T == nil {
				v.T = i.Val.Type()
			}
			g.store(st, a, v)
		case *ssa.MapUpdate:
			g.emit("mapset", "", cur, i.Pos(), fr.fn, nil, g.val(fr, i.Map), g.val(fr, i.Key), g.val(fr, i.Value))
			g.mapWrite(st, g.val(fr, i.Map), g.val(fr, i.Key), g.val(fr, i.Value), i.Map.Type())
		case *ssa.Defer:
			name, args, callee := g.callInfo(fr, &i.Call)
			name, args, callee = g.unwrapDefer(fr, &i.Call, st, name, args, callee)
			var fvs []*Term
			if f := g.val(fr, i.Call.Value); !i.Call.IsInvoke() && f != nil && f.Op == "closure" {
				fvs = f.A
			}
			fr.defers = append(fr.defers, &Effect{local: cur, fvs: fvs, Kind: "defer", Name: name, A: args, Guard: B.And(append(append([]*Node{}, g.path...), cur)...), Pos: i.Pos(), Callee: callee, Loops: append([]*Loop{}, g.loops...)})
		case *ssa.Go:
			name, args, _ := g.callInfo(fr, &i.Call)
			g.emit("go", name, cur, i.Pos(), fr.fn, nil, args...)
		case *ssa.Send:
			g.emit("send", "", cur, i.Pos(), fr.fn, nil)
		case ssa.Value:
			var t *Term
			if c, ok := ins.(*ssa.Call); ok {
				t, cur = g.call(fr, c, cur, st, L)
			} else {
				t = g.instr(fr, i, st, cur)
			}
			if t != nil {
				if t.T == nil {
					t.T = i.Type()
				}
				fr.env[i] = t
			}
		}
	}
}

// chain looks past the head of a loop for further tests that leave it to the
// same place before anything happens: for a && b is one test. It returns the
// condition under which the iteration takes place.
func (g *GV) chain(fr *frame, L *natLoop, li *Loop, st *State, b, in, ex *ssa.BasicBlock, cur, stay *Node) *Node {
	B := g.ts.b
	li.tested = nil
	for n := 0; n < 4; n++ {
		if len(in.Preds) != 1 || !L.body[in] || in == L.head {
			return stay
		}
		br, ok := in.Instrs[len(in.Instrs)-1].(*ssa.If)
		if !ok {
			return stay
		}
		t, f := in.Succs[0], in.Succs[1]
		if t != ex && f != ex || t == f {
			return stay
		}
		// the way out must not tell the tests apart
		for _, ins := range ex.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var v ssa.Value
			for i, p := range ex.Preds {
				if p == b || p == in {
					if v != nil && v != ph.Edges[i] {
						return stay
					}
					v = ph.Edges[i]
				}
			}
		}
		for _, ins := range in.Instrs[:len(in.Instrs)-1] {
			if !g.quietInstr(ins, 0) {
				return stay
			}
		}
		here := B.And(cur, stay)
		for _, ins := range in.Instrs[:len(in.Instrs)-1] {
			i, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			var v *Term
			if c, ok := ins.(*ssa.Call); ok {
				v, _ = g.call(fr, c, here, st, L)
			} else {
				v = g.instr(fr, i, st, here)
			}
			if v != nil {
				if v.T == nil {
					v.T = i.Type()
				}
				fr.env[i] = v
			}
		}
		c := g.cond(g.val(fr, br.Cond))
		next := t
		if t == ex {
			c, next = B.Not(c), f
		}
		stay = B.And(stay, c)
		if li.tested == nil {
			li.tested = map[*ssa.BasicBlock]*ssa.BasicBlock{}
		}
		li.tested[in] = next
		in = next
	}
	return stay
}

// quietInstr: nothing can be observed of the instruction but its value.
func (g *GV) quietInstr(ins ssa.Instruction, depth int) bool {
	switch x := ins.(type) {
	case *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Lookup, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
		return depth > 0
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "len"
		}
		f := x.Call.StaticCallee()
		if f == nil || depth > 2 || !g.w.inModule(f) || !g.expandable(f) || len(f.FreeVars) > 0 {
			return false
		}
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Index <= b.Index {
					return false
				}
			}
			for _, i := range b.Instrs {
				if !g.quietInstr(i, depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func escapesToHeap(t *Term) bool { return strings.HasPrefix(t.S, "heap:") }

func (g *GV) instr(fr *frame, i ssa.Value, st *State, cur *Node) *Term {
	ts := g.ts
	switch i := i.(type) {
	case *ssa.Alloc:
		g.uid++
		kind := "stack:"
		if i.Heap {
			kind = "heap:"
		}
		tn := types.TypeString(i.Type().Underlying().(*types.Pointer).Elem(), func(p *types.Package) string { return p.Name() })
		t := ts.mk("alloc", fmt.Sprintf("%s%s#%d", kind, tn, g.uid))
		if len(g.loops) > 0 {
			t.L = g.loops[len(g.loops)-1]
		}
		t.T = i.Type()
		g.ts.allocPos[t] = i.Pos()
		return t
	case *ssa.FieldAddr:
		x := g.val(fr, i.X)
		s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return g.faddr(x, s.Field(i.Field).Name())
	case *ssa.Field:
		s := i.X.Type().Underlying().(*types.Struct)
		return g.field(st, g.val(fr, i.X), s.Field(i.Field).Name(), i.Type())
	case *ssa.IndexAddr:
		return g.iaddr(g.val(fr, i.X), g.val(fr, i.Index))
	case *ssa.Index:
		return g.index(g.val(fr, i.X), g.val(fr, i.Index))
	case *ssa.Lookup:
		x, k := g.val(fr, i.X), g.val(fr, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			return g.index(x, k)
		}
		v := g.mapRead(st, x, k, i.X.Type())
		if i.CommaOk {
			return ts.mk("tuple", "", v, ts.BoolT(g.mapHas(st, x, k, i.X.Type())))
		}
		return v
	case *ssa.UnOp:
		x := g.val(fr, i.X)
		switch i.Op {
		case token.MUL:
			return g.load(st, x, i.Type())
		case token.NOT:
			return ts.BoolT(ts.b.Not(g.cond(x)))
		case token.SUB:
			if isIntTerm(x) {
				return ts.Sub(ts.Int(0), x)
			}
		}
		return ts.mk("un"+i.Op.String(), "", x)
	case *ssa.BinOp:
		x, y := g.val(fr, i.X), g.val(fr, i.Y)
		if i.Op == token.EQL || i.Op == token.NEQ {
			// a length equals 0 when it is below 1
			if isLen(i.Y) {
				x, y = y, x
			}
			if k, ok := y.isInt(); ok && k == 0 && (isLen(i.X) || isLen(i.Y)) {
				n := g.binop(token.LSS, x, g.ts.Int(1), i.X.Type())
				if i.Op == token.NEQ {
					n = g.ts.BoolT(g.ts.b.Not(g.cond(n)))
				}
				return n
			}
		}
		r := g.binop(i.Op, x, y, i.X.Type())
		if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			switch i.Op {
			case token.ADD, token.MUL, token.SHL:
				if w, _ := intRange(b); w < 64 {
					r = g.fit(r, nil, b)
				}
			case token.SUB:
				if w, s := intRange(b); w < 64 {
					r = g.fit(r, nil, b)
				} else if _, c := r.isInt(); !s && !c {
					r = g.ts.mk("narrow", b.Name(), r)
				}
			}
		}
		return r
	case *ssa.Convert:
		x := g.val(fr, i.X)
		return g.convert(x, i.X.Type(), i.Type())
	case *ssa.ChangeType:
		return g.val(fr, i.X)
	case *ssa.ChangeInterface:
		return g.val(fr, i.X)
	case *ssa.MultiConvert:
		return g.val(fr, i.X)
	case *ssa.MakeInterface:
		x := g.val(fr, i.X)
		t := ts.mk("iface", types.TypeString(i.X.Type(), func(p *types.Package) string { return shortPkg(p.Path()) }), x)
		t.T = i.X.Type()
		return t
	case *ssa.TypeAssert:
		x := g.val(fr, i.X)
		tn := types.TypeString(i.AssertedType, func(p *types.Package) string { return shortPkg(p.Path()) })
		if x.Op == "iface" && x.S == tn {
			if i.CommaOk {
				return ts.mk("tuple", "", x.A[0], ts.BoolT(ts.b.True))
			}
			return x.A[0]
		}
		v := ts.mk("assert", tn, x)
		if v.T == nil {
			v.T = i.AssertedType
		}
		if i.CommaOk {
			c := ts.b.atom(ts.mk("istype", tn, x))
			if x.Op == "iface" && !types.IsInterface(i.AssertedType) {
				c = ts.b.False
			}
			return ts.mk("tuple", "", v, ts.BoolT(c))
		}
		return v
	case *ssa.Extract:
		x := g.val(fr, i.Tuple)
		if x.Op == "tuple" && i.Index < len(x.A) {
			return x.A[i.Index]
		}
		if x.Op == "ite" && x.A[0].Op == "tuple" && x.A[1].Op == "tuple" {
			return g.ite(x.B, x.A[0].A[i.Index], x.A[1].A[i.Index])
		}
		t := ts.mk("ext", strconv.Itoa(i.Index), x)
		if t.T == nil {
			t.T = i.Type()
		}
		return t
	case *ssa.Slice:
		x := g.val(fr, i.X)
		opt := func(v ssa.Value, d *Term) *Term {
			if v == nil {
				return d
			}
			return g.val(fr, v)
		}
		lo, hi := opt(i.Low, ts.Int(0)), opt(i.High, ts.Nil())
		if a, ok := i.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && i.Low == nil {
			if k, ok := hi.isInt(); ok && k == 0 {
				return ts.mk("list", "")
			}
		}
		if x.Op == "alloc" {
			if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok && i.Low == nil && i.High == nil && a.Len() <= 64 {
					var es []*Term
					for k := int64(0); k < a.Len(); k++ {
						v := st.mem[ts.mk("iaddr", "", x, ts.Int(k))]
						if v == nil {
							v = g.zero(a.Elem())
						}
						es = append(es, v)
					}
					t := ts.mk("list", "", es...)
					return t
				}
			}
		}
		return g.slice(x, lo, hi)
	case *ssa.MakeSlice:
		n := g.val(fr, i.Len)
		if k, ok := n.isInt(); ok && k == 0 {
			return ts.mk("list", "")
		}
		g.uid++
		return ts.mk("makeslice", strconv.Itoa(g.uid), n)
	case *ssa.MakeMap:
		g.uid++
		t := ts.mk("makemap", strconv.Itoa(g.uid))
		if len(g.loops) > 0 {
			t.L = g.loops[len(g.loops)-1]
		}
		return t
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, g.val(fr, b))
		}
		f := i.Fn.(*ssa.Function)
		t := ts.mk("closure", fnName(f), bs...)
		g.ts.fn[t] = f
		return t
	case *ssa.Range:
		x := g.val(fr, i.X)
		kind := "map"
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			kind = "string"
		}
		return ts.mk("range", kind, x)
	case *ssa.Next:
		r := g.val(fr, i.Iter)
		var lid string
		var lp *Loop
		if len(g.loops) > 0 {
			lp = g.loops[len(g.loops)-1]
			lid = fmt.Sprintf("L%d", lp.ID)
		}
		x := r
		if r.Op == "range" {
			x = r.A[0]
		}
		if r.Op == "range" && r.S == "map" {
			if rg, ok := i.Iter.(*ssa.Range); ok {
				if w := g.verOf(st, mapTypeKey(rg.X.Type()), x); w != nil {
					x = ts.mk("at", "", x, w)
				}
			}
		}
		k, v := ts.mk("mapkey", lid, x), ts.mk("mapval", lid, x)
		k.L, v.L = lp, lp
		if tu, ok := i.Type().(*types.Tuple); ok {
			if k.T == nil && tu.At(1).Type() != types.Typ[types.Invalid] {
				k.T = tu.At(1).Type()
			}
			if v.T == nil && tu.At(2).Type() != types.Typ[types.Invalid] {
				v.T = tu.At(2).Type()
			}
		}
		ok := ts.mk("mapok", r.S, x, ts.mk("lid", lid))
		return ts.mk("tuple", "", ts.BoolT(ts.b.atom(ok)), k, v)
	case *ssa.SliceToArrayPointer:
		return g.val(fr, i.X)
	}
	g.uid++
	return ts.mk("unk", fmt.Sprintf("%T#%d", i, g.uid))
}

func (g *GV) faddr(x *Term, f string) *Term {
	if x.Op == "ite" {
		return g.ite(x.B, g.faddr(x.A[0], f), g.faddr(x.A[1], f))
	}
	return g.ts.mk("faddr", f, x)
}

func (g *GV) iaddr(x, i *Term) *Term {
	if x.Op == "slice" {
		return g.iaddr(x.A[0], g.ts.Add(x.A[1], i))
	}
	return g.ts.mk("iaddr", "", x, i)
}

func (g *GV) slice(x, lo, hi *Term) *Term {
	ts := g.ts
	if k, ok := lo.isInt(); ok && k == 0 && hi.isNil() {
		return x
	}
	if hi.Op == "len" && hi.A[0] == x {
		hi = ts.Nil()
		if k, ok := lo.isInt(); ok && k == 0 {
			return x
		}
	}
	if x.Op == "list" {
		l, ok1 := lo.isInt()
		h := int64(len(x.A))
		ok2 := true
		if !hi.isNil() {
			h, ok2 = hi.isInt()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(x.A)) {
			return ts.mk("list", "", x.A[l:h]...)
		}
	}
	if x.Op == "slice" {
		nlo := ts.Add(x.A[1], lo)
		nhi := x.A[2]
		if !hi.isNil() {
			nhi = ts.Add(x.A[1], hi)
		}
		return g.slice(x.A[0], nlo, nhi)
	}
	if s, ok := x.isStr(); ok {
		l, ok1 := lo.isInt()
		h := int64(len(s))
		ok2 := true
		if !hi.isNil() {
			h, ok2 = hi.isInt()
		}
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
			return ts.Str(s[l:h])
		}
	}
	return ts.mk("slice", "", x, lo, hi)
}

func isByteString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (g *GV) convert(x *Term, from, to types.Type) *Term {
	if isByteString(from) && isByteString(to) {
		return x
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return g.fit(x, fb, tb)
		}
		if _, ok := x.isInt(); ok && tb.Info()&types.IsInteger != 0 {
			return x
		}
	}
	t := g.ts.mk("conv", types.TypeString(to, nil), x)
	if t.T == nil {
		t.T = to
	}
	return t
}

// intRange: the width of an integer type and whether it has a sign.
func intRange(b *types.Basic) (bits int, signed bool) {
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed
	case types.Int16, types.Uint16:
		return 16, signed
	case types.Int32, types.Uint32:
		return 32, signed
	}
	return 64, signed
}

// fit: an integer stored in type to; what may not fit is kept apart from the
// number it was. from is nil for the result of an operation in type to.
func (g *GV) fit(x *Term, from, to *types.Basic) *Term {
	if to.Info()&types.IsUntyped != 0 {
		return x
	}
	bits, signed := intRange(to)
	if from != nil && from.Info()&types.IsUntyped == 0 {
		if b, s := intRange(from); b < bits && (signed || !s) || b == bits && s == signed {
			return x
		}
	}
	if from == nil && bits == 64 && signed {
		return x
	}
	if k, ok := x.isInt(); ok {
		lo, hi := int64(0), int64(1)<<uint(bits%64)-1
		if bits == 64 {
			hi = 1<<63 - 1
		}
		if signed {
			lo, hi = -(int64(1) << uint(bits-1)), int64(1)<<uint(bits-1)-1
		}
		if lo <= k && k <= hi {
			return x
		}
	}
	if bits == 64 && (x.Op == "len" || !signed && from == nil) {
		return x
	}
	if x.Op == "narrow" && x.S == to.Name() {
		return x
	}
	t := g.ts.mk("narrow", to.Name(), x)
	if t.T == nil {
		t.T = to
	}
	return t
}

func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func (g *GV) binop(op token.Token, x, y *Term, T types.Type) *Term {
	ts, B := g.ts, g.ts.b
	isInt := false
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		isInt = true
	}
	switch op {
	case token.EQL:
		if isInt {
			if c := g.cmp3(x, y, "=="); c != nil {
				return ts.BoolT(c)
			}
			if x.Op != "ite" && y.Op != "ite" {
				return ts.BoolT(ts.ieq(x, y))
			}
		}
		return ts.BoolT(g.eq(x, y))
	case token.NEQ:
		t := g.binop(token.EQL, x, y, T)
		return ts.BoolT(B.Not(t.B))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if c := g.cmp3(x, y, op.String()); c != nil {
			return ts.BoolT(c)
		}
		f := func(a, b *Term) *Node {
			if isInt && a.Op != "ite" && b.Op != "ite" {
				return ts.ilt(a, b)
			}
			return g.lt(a, b)
		}
		switch op {
		case token.LSS:
			return ts.BoolT(f(x, y))
		case token.GTR:
			return ts.BoolT(f(y, x))
		case token.LEQ:
			return ts.BoolT(B.Not(f(y, x)))
		}
		return ts.BoolT(B.Not(f(x, y)))
	case token.ADD:
		if isInt {
			return ts.Add(x, y)
		}
		if isByteString(T) {
			return g.concat(x, y)
		}
	case token.SUB:
		if isInt {
			return ts.Sub(x, y)
		}
	case token.REM:
		if k, ok := y.isInt(); ok && isInt && k != 0 {
			q := g.binop(token.QUO, x, y, T)
			return ts.Sub(x, g.binop(token.MUL, y, q, T))
		}
	case token.MUL:
		if isInt {
			a, ok1 := x.isInt()
			b, ok2 := y.isInt()
			if ok1 && ok2 {
				return ts.Int(a * b)
			}
			if ok1 {
				return ts.fromLin(lin{}.add(toLin(y), a))
			}
			if ok2 {
				return ts.fromLin(lin{}.add(toLin(x), b))
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
	case token.AND, token.OR, token.XOR:
		if x.id > y.id {
			x, y = y, x
		}
	}
	t := ts.mk("bin", op.String(), x, y)
	if t.T == nil {
		t.T = T
	}
	return t
}

func (g *GV) concat(x, y *Term) *Term {
	if s, ok := x.isStr(); ok && s == "" {
		return y
	}
	if s, ok := y.isStr(); ok && s == "" {
		return x
	}
	var parts []*Term
	add := func(t *Term) {
		if t.Op == "concat" {
			parts = append(parts, t.A...)
		} else {
			parts = append(parts, t)
		}
	}
	add(x)
	add(y)
	var out []*Term
	for _, p := range parts {
		if s, ok := p.isStr(); ok && len(out) > 0 {
			if s0, ok := out[len(out)-1].isStr(); ok {
				out[len(out)-1] = g.ts.Str(s0 + s)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	t := g.ts.mk("concat", "", out...)
	if t.T == nil {
		t.T = types.Typ[types.String]
	}
	return t
}

// unwrapDefer sees through a deferred function that only makes one call.
func (g *GV) unwrapDefer(fr *frame, c *ssa.CallCommon, st *State, name string, args []*Term, callee *ssa.Function) (string, []*Term, *ssa.Function) {
	if callee == nil || callee.Blocks == nil || !g.w.inModule(callee) || len(callee.Blocks) != 1 {
		return name, args, callee
	}
	env := map[ssa.Value]*Term{}
	for i, p := range callee.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if a, ok := b.(*ssa.Alloc); ok && storedOnce(a) {
				env[callee.FreeVars[i]] = g.val(fr, a)
			}
		}
	}
	get := func(v ssa.Value) *Term {
		if t := env[v]; t != nil {
			return t
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global:
			return g.val(fr, v)
		}
		return nil
	}
	var call *ssa.Call
	for _, ins := range callee.Blocks[0].Instrs {
		switch i := ins.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.RunDefers:
		case *ssa.UnOp:
			fv, ok := i.X.(*ssa.FreeVar)
			if i.Op != token.MUL || !ok || env[fv] == nil {
				return name, args, callee
			}
			env[i] = g.load(st, env[fv], i.Type())
		case *ssa.Call:
			if call != nil || i.Call.IsInvoke() {
				return name, args, callee
			}
			call = i
		case *ssa.Extract:
		default:
			return name, args, callee
		}
	}
	if call == nil || call.Call.StaticCallee() == nil {
		return name, args, callee
	}
	var as []*Term
	for _, a := range call.Call.Args {
		t := get(a)
		if t == nil {
			return name, args, callee
		}
		as = append(as, t)
	}
	f := call.Call.StaticCallee()
	return fnName(f), as, f
}

func storedOnce(a *ssa.Alloc) bool {
	n := 0
	for _, r := range *a.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr != a {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == a {
					for _, r := range *f.FreeVars[i].Referrers() {
						if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
							if _, ok := r.(*ssa.DebugRef); !ok {
								return false
							}
						}
					}
				}
			}
		default:
			return false
		}
	}
	return n == 1
}

// cellType is the type of what is stored at the address k, when known.
func (g *GV) cellType(k *Term) types.Type {
	if k.Op == "faddr" {
		T := g.cellType(k.A[0])
		if T == nil {
			return nil
		}
		if s, ok := T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == k.S {
					return s.Field(i).Type()
				}
			}
		}
		return nil
	}
	if k.Op == "iaddr" {
		if at, ok := g.cellType(k.A[0]).(*types.Array); ok {
			return at.Elem()
		}
	}
	if k.T == nil {
		return nil
	}
	if p, ok := k.T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// gather reads a whole value that is kept part by part.
func (g *GV) gather(st *State, a *Term, T types.Type, any bool) *Term {
	if T == nil {
		return nil
	}
	n, at, s := g.parts(T)
	if n == 0 && any {
		if u, ok := T.Underlying().(*types.Struct); ok {
			written := false
			for k := range st.mem {
				if k.Op == "faddr" && k.A[0] == a {
					written = true
				}
			}
			if !written {
				return g.zero(T)
			}
			s, n = u, u.NumFields()
		}
	}
	if n == 0 {
		return nil
	}
	var fs []*Term
	if at != nil {
		for k := range st.mem {
			if k.Op == "iaddr" && k.A[0] == a {
				if _, ok := k.A[1].isInt(); !ok {
					g.Unknown = append(g.Unknown, "an array is read whole after it was written by a computed index")
				}
			}
		}
		for i := 0; i < n; i++ {
			fs = append(fs, g.load(st, g.iaddr(a, g.ts.Int(int64(i))), at.Elem()))
		}
		return g.ts.mk("list", "array", fs...)
	}
	var names []string
	zero := true
	for i := 0; i < n; i++ {
		f := s.Field(i)
		fs = append(fs, g.load(st, g.ts.mk("faddr", f.Name(), a), f.Type()))
		names = append(names, f.Name())
		zero = zero && fs[i] == g.zero(f.Type())
	}
	if zero {
		return g.zero(T)
	}
	return g.ts.mk("struct", strings.Join(names, ","), fs...)
}

// runsHere: a deferred function of this module, called at most once; it is
// evaluated where the function returns.
func (g *GV) runsHere(d *Effect) bool {
	return d.Callee != nil && d.Callee.Blocks != nil && g.w.inModule(d.Callee) && len(d.Loops) <= len(g.loops)
}

func (g *GV) runDefers(fr *frame, cur *Node, st *State) *Node {
	B := g.ts.b
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if !g.runsHere(d) {
			continue
		}
		c := B.And(cur, d.local)
		if c == B.False {
			continue
		}
		s := st
		if c != cur {
			s = st.clone()
		}
		_, n := g.invoke(fr.fn, d.Pos, nil, d.Name, d.A, d.fvs, d.Callee, c, s)
		if c != cur {
			rest := B.And(cur, B.Not(c))
			st.mem = g.mergeStates([]edge{{g: c, st: s}, {g: rest, st: st.clone()}}, cur).mem
			cur = B.Or(n, rest)
		} else {
			cur = n
		}
	}
	return cur
}

func isSlice(t *Term) bool {
	if t.T == nil {
		return false
	}
	_, ok := t.T.Underlying().(*types.Slice)
	return ok
}
