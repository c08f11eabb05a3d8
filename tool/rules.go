package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- where a reference comes from

// root of a reference: where the storage it denotes may have been obtained.
type root struct {
	kind string    // "fresh", "field", "global", "mapelem", "elem", "param", "unknown"
	key  string    // T.f, package.name
	v    ssa.Value // the container for mapelem and elem, the parameter, the allocation
	fn   *ssa.Function
}

type rootSet map[root]bool

// flow answers questions about references over the whole module.
type flow struct {
	w       *World
	funcs   []*ssa.Function // without the references
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value, or dispatched
	binds   map[*ssa.Function][]*ssa.MakeClosure
}

func (w *World) flow() *flow {
	f := &flow{w: w, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, binds: map[*ssa.Function][]*ssa.MakeClosure{}}
	for _, fn := range w.Funcs {
		if isSpec(fn) || specType(fn) {
			continue
		}
		f.funcs = append(f.funcs, fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						f.callers[s] = append(f.callers[s], c)
					}
					callee = c.Common().Value
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					cf := mc.Fn.(*ssa.Function)
					f.binds[cf] = append(f.binds[cf], mc)
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); !ok || c.Common().Value != mc {
							f.taken[cf] = true
						}
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						f.taken[g] = true
					}
				}
			}
		}
	}
	for _, fn := range f.funcs {
		if fn.Signature.Recv() != nil && dispatched[fn.Name()] {
			f.taken[fn] = true
		}
	}
	return f
}

// specType: methods of types that exist only for the references.
func specType(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if r := f.Signature.Recv(); r != nil {
		return strings.HasPrefix(typeName(r.Type()), "spec_") || strings.Contains(typeName(r.Type()), ".spec_")
	}
	return false
}

func structField(X ssa.Value, i int) string {
	T := X.Type()
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return strings.TrimPrefix(typeName(T), "*") + "." + s.Field(i).Name()
}

// roots within the function of v; parameters stay parameters.
func (f *flow) roots(v ssa.Value) rootSet {
	out := rootSet{}
	f.climb(v, map[ssa.Value]bool{}, out, 0)
	return out
}

func (f *flow) climb(v ssa.Value, seen map[ssa.Value]bool, out rootSet, depth int) {
	if seen[v] {
		return
	}
	seen[v] = true
	if depth > 12 {
		out[root{kind: "unknown"}] = true
		return
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Alloc, *ssa.Function, *ssa.BinOp, *ssa.MakeClosure:
		out[root{kind: "fresh", v: v}] = true
	case *ssa.Parameter:
		out[root{kind: "param", v: v, fn: v.Parent()}] = true
	case *ssa.FreeVar:
		for _, b := range f.bindings(v) {
			f.climb(b, seen, out, depth)
		}
	case *ssa.Global:
		out[root{kind: "global", key: globalName(v)}] = true
	case *ssa.Phi:
		for _, e := range v.Edges {
			f.climb(e, seen, out, depth)
		}
	case *ssa.Slice:
		f.climb(v.X, seen, out, depth)
	case *ssa.Convert:
		f.climb(v.X, seen, out, depth)
	case *ssa.ChangeType:
		f.climb(v.X, seen, out, depth)
	case *ssa.ChangeInterface:
		f.climb(v.X, seen, out, depth)
	case *ssa.MakeInterface:
		f.climb(v.X, seen, out, depth)
	case *ssa.TypeAssert:
		f.climb(v.X, seen, out, depth)
	case *ssa.FieldAddr:
		f.climb(v.X, seen, out, depth)
	case *ssa.IndexAddr:
		f.climb(v.X, seen, out, depth)
	case *ssa.Field:
		out[root{kind: "field", key: structField(v.X, v.Field), v: v.X}] = true
	case *ssa.Index:
		out[root{kind: "elem", v: v.X}] = true
	case *ssa.Lookup:
		out[root{kind: "mapelem", v: v.X}] = true
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			out[root{kind: "mapelem", v: r.X}] = true
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			f.call(c, v.Index, seen, out, depth)
			return
		}
		f.climb(v.Tuple, seen, out, depth)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			out[root{kind: "fresh", v: v}] = true
			return
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			out[root{kind: "field", key: structField(a.X, a.Field), v: a.X}] = true
		case *ssa.IndexAddr:
			out[root{kind: "elem", v: a.X}] = true
		case *ssa.Global:
			out[root{kind: "global", key: globalName(a)}] = true
		case *ssa.Alloc:
			f.cell(a, seen, out, depth)
		case *ssa.FreeVar:
			for _, b := range f.bindings(a) {
				if al, ok := b.(*ssa.Alloc); ok {
					f.cell(al, seen, out, depth)
				} else {
					out[root{kind: "unknown"}] = true
				}
			}
		default:
			f.climb(v.X, seen, out, depth)
		}
	case *ssa.Call:
		f.call(v, 0, seen, out, depth)
	default:
		out[root{kind: "unknown"}] = true
	}
}

// cell: what a local variable may hold.
func (f *flow) cell(a *ssa.Alloc, seen map[ssa.Value]bool, out rootSet, depth int) {
	if seen[a] {
		return
	}
	seen[a] = true
	n := 0
	var scan func(refs *[]ssa.Instruction, self ssa.Value)
	scan = func(refs *[]ssa.Instruction, self ssa.Value) {
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == self {
					n++
					f.climb(r.Val, seen, out, depth)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == self {
						fv := r.Fn.(*ssa.Function).FreeVars[i]
						if fv.Referrers() != nil {
							scan(fv.Referrers(), fv)
						}
					}
				}
			}
		}
	}
	scan(a.Referrers(), a)
	if n == 0 {
		out[root{kind: "fresh", v: a}] = true
	}
}

func (f *flow) bindings(v *ssa.FreeVar) (out []ssa.Value) {
	fn := v.Parent()
	for i, x := range fn.FreeVars {
		if x == v {
			for _, mc := range f.binds[fn] {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

func (f *flow) call(c *ssa.Call, idx int, seen map[ssa.Value]bool, out rootSet, depth int) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			f.climb(c.Call.Args[0], seen, out, depth)
			out[root{kind: "fresh", v: c}] = true
			return
		}
		out[root{kind: "fresh", v: c}] = true
		return
	}
	g := c.Call.StaticCallee()
	if g == nil {
		out[root{kind: "unknown"}] = true
		return
	}
	if strings.HasPrefix(fnName(g), "math/big.Int.") && len(c.Call.Args) > 0 && types.Identical(c.Type(), c.Call.Args[0].Type()) {
		f.climb(c.Call.Args[0], seen, out, depth)
		return
	}
	if g.Blocks == nil || !f.w.inModule(g) && g.Synthetic == "" {
		if strings.HasPrefix(fnName(g), "slices.") && len(c.Call.Args) > 0 && fnName(g) != "slices.Clone" && fnName(g) != "slices.Concat" {
			f.climb(c.Call.Args[0], seen, out, depth)
		}
		out[root{kind: "fresh", v: c}] = true
		return
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		inner := rootSet{}
		f.climb(r.Results[idx], map[ssa.Value]bool{}, inner, depth+1)
		for x := range inner {
			if x.kind == "param" && x.fn == g {
				for i, p := range g.Params {
					if p == x.v && i < len(c.Call.Args) {
						f.climb(c.Call.Args[i], seen, out, depth)
					}
				}
				continue
			}
			if x.kind == "fresh" {
				x.v = c // a new object per call
			}
			out[x] = true
		}
	}
}

// resolve replaces parameters by what the callers pass.
func (f *flow) resolve(in rootSet) rootSet {
	out := rootSet{}
	seen := rootSet{}
	var add func(r root)
	add = func(r root) {
		if r.kind != "param" {
			out[r] = true
			return
		}
		if seen[r] {
			return
		}
		seen[r] = true
		if len(f.callers[r.fn]) == 0 || f.taken[r.fn] {
			out[r] = true
		}
		for i, p := range r.fn.Params {
			if p != r.v {
				continue
			}
			for _, c := range f.callers[r.fn] {
				if args := c.Common().Args; i < len(args) {
					for x := range f.roots(args[i]) {
						add(x)
					}
				}
			}
		}
	}
	for r := range in {
		add(r)
	}
	return out
}

// ---------- what is reachable

// reach: the functions that may run once the given ones do, each with the
// function it was first reached from.
func (f *flow) reach(from []*ssa.Function) (map[*ssa.Function]*ssa.Function, []*ssa.Function) {
	return f.reachUnless(from, func(*ssa.CallCommon) bool { return false })
}

// reachUnless: without the dynamic calls that cut holds for.
func (f *flow) reachUnless(from []*ssa.Function, cut func(*ssa.CallCommon) bool) (map[*ssa.Function]*ssa.Function, []*ssa.Function) {
	via := map[*ssa.Function]*ssa.Function{}
	var order []*ssa.Function
	var todo []*ssa.Function
	add := func(g, by *ssa.Function) {
		if g == nil || isSpec(g) {
			return
		}
		if _, ok := via[g]; ok {
			return
		}
		via[g] = by
		if g.Blocks != nil && (f.w.inModule(g) || g.Synthetic != "" && g.Pkg == nil) {
			todo = append(todo, g)
			order = append(order, g)
		}
	}
	for _, g := range from {
		add(g, nil)
	}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						add(h, g)
					}
				}
				switch i := ins.(type) {
				case ssa.CallInstruction:
					if i.Common().IsInvoke() && !cut(i.Common()) {
						for _, m := range f.w.implsOf(i.Common()) {
							add(m, g)
						}
					}
				case *ssa.MakeInterface:
					for _, n := range []string{"String", "Format", "Error", "GoString", "MarshalJSON", "MarshalText", "Len", "Less", "Swap"} {
						if m := f.w.methodOf(i.X.Type(), n); m != nil {
							add(m, g)
						}
					}
				}
			}
		}
	}
	return via, order
}

func (w *World) methodOf(T types.Type, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name && s.Obj().Pkg() != nil && w.inModulePkg(s.Obj().Pkg().Path()) {
			return w.Prog.MethodValue(s)
		}
	}
	return nil
}

func pathTo(via map[*ssa.Function]*ssa.Function, g *ssa.Function) string {
	var p []string
	for ; g != nil; g = via[g] {
		p = append([]string{fnName(g)}, p...)
	}
	return strings.Join(p, " > ")
}

// ---------- C03: what reports may change

// ledgerTypes: the loaded ledger is made of these.
var ledgerTypes = map[string]bool{"coin.Account": true, "coin.Posting": true, "coin.Transaction": true, "coin.Price": true, "coin.Commodity": true, "coin.Amount": true, "coin.Test": true}

// Caches: computed from the rest, never read as recorded data.
var caches = map[string]bool{"coin.Commodity.quotedId": true, "coin.Account.balance": true}

func ledgerField(key string) bool {
	i := strings.LastIndexByte(key, '.')
	return i > 0 && ledgerTypes[key[:i]]
}

func (r root) String() string {
	switch r.kind {
	case "field", "global":
		return r.key
	case "param":
		return "parameter " + r.v.Name() + " of " + fnName(r.fn)
	}
	return r.kind
}

// recorded: the first root that may be part of the ledger.
func (f *flow) recorded(rs rootSet) (root, bool) {
	var all []root
	for r := range f.resolve(rs) {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, r := range all {
		switch r.kind {
		case "field":
			if ledgerField(r.key) {
				return r, true
			}
		case "global":
			if strings.HasPrefix(r.key, "coin.") {
				return r, true
			}
		case "param":
			T := r.v.Type()
			if refersToLedger(T) {
				return r, true
			}
		case "elem", "mapelem":
			if refersToLedger(r.typ()) {
				return r, true
			}
		}
	}
	return root{}, false
}

// typ of the elements for elem and mapelem.
func (r root) typ() types.Type {
	switch t := r.v.Type().Underlying().(type) {
	case *types.Slice:
		return t.Elem()
	case *types.Map:
		return t.Elem()
	case *types.Pointer:
		if a, ok := t.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Array:
		return t.Elem()
	}
	return types.Typ[types.Invalid]
}

func refersToLedger(T types.Type) bool {
	for {
		switch t := types.Unalias(T).(type) {
		case *types.Named:
			if ledgerTypes[typeName(t)] {
				return true
			}
			if u, ok := t.Underlying().(*types.Slice); ok {
				T = u.Elem()
				continue
			}
			if u, ok := t.Underlying().(*types.Map); ok && typeName(t) != "cmd/coin.balances" {
				T = u.Elem()
				continue
			}
			return false
		case *types.Pointer:
			T = t.Elem()
		case *types.Slice:
			T = t.Elem()
		default:
			return false
		}
	}
}

// outermost address of a nested field or array element.
func outermost(a ssa.Value) ssa.Value {
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return a
		}
		if inner, ok := fa.X.(*ssa.FieldAddr); ok {
			a = inner
			continue
		}
		return a
	}
}

// amount roots: where the amount (or the integer) that is changed comes from.
func (f *flow) amountRoots(v ssa.Value) rootSet {
	out := rootSet{}
	for r := range f.resolve(f.roots(v)) {
		if r.kind == "field" && r.key == "coin.Amount.Int" {
			for x := range f.amountRoots(r.v) {
				out[x] = true
			}
			continue
		}
		out[r] = true
	}
	return out
}

func isAmountPtr(T types.Type) bool {
	p, ok := types.Unalias(T).(*types.Pointer)
	return ok && typeName(p.Elem()) == "coin.Amount"
}

type effectFinding struct {
	pos  token.Pos
	what string
}

// container names a place that holds amounts.
func (f *flow) containers(rs rootSet) map[string]bool {
	out := map[string]bool{}
	for r := range rs {
		switch r.kind {
		case "field":
			out["field "+r.key] = true
		case "mapelem", "elem":
			for x := range f.resolve(f.roots(r.v)) {
				switch x.kind {
				case "field":
					out["in "+x.key] = true
				case "fresh":
					out["in "+f.w.pos(x.v.Pos())] = true
				case "global":
					out["in "+x.key] = true
				}
			}
		}
	}
	return out
}

func (f *flow) putInto(m ssa.Value) map[string]bool {
	return f.containers(rootSet{root{kind: "elem", v: m}: true})
}

// reportEffects: no function that a report may run changes what was loaded.
func reportEffects(c *Checker, p *Property) []*Outcome {
	w := c.w
	f := w.flow()
	var from []*ssa.Function
	for _, fn := range f.funcs {
		n := fnName(fn)
		switch {
		case n == "cmd/coin.cmdBalance.execute", n == "cmd/coin.cmdRegister.execute", n == "cmd/coin.cmdStats.execute",
			n == "cmd/coin.cmdTags.execute", n == "cmd/coin.cmdAccounts.execute", n == "cmd/coin.cmdCommodities.execute", n == "cmd/coin.cmdVersion.execute":
			from = append(from, fn)
		case fn.Signature.Recv() != nil && (fn.Name() == "String" || fn.Name() == "Format" || fn.Name() == "MarshalJSON") && (strings.HasPrefix(n, "coin.") || strings.HasPrefix(n, "cmd/coin.")):
			from = append(from, fn)
		}
	}
	if len(from) < 8 {
		return []*Outcome{{Name: "report-effects", Kind: "effects", Diffs: []Diff{{What: "the report commands were not found"}}}}
	}
	via, order := f.reach(from)
	var outs []*Outcome
	byFn := map[*ssa.Function][]effectFinding{}
	count := map[*ssa.Function]int{}
	flag := func(fn *ssa.Function, pos token.Pos, format string, a ...interface{}) {
		byFn[fn] = append(byFn[fn], effectFinding{pos, fmt.Sprintf(format, a...)})
	}
	type mut struct {
		fn  *ssa.Function
		ins ssa.Instruction
		v   ssa.Value
	}
	type put struct {
		mut
		into map[string]bool
		what string
	}
	var muts []mut
	var puts []put
	mutated := map[string]bool{}
	change := func(fn *ssa.Function, ins ssa.Instruction, v ssa.Value, what string) {
		count[fn]++
		if r, bad := f.recorded(f.roots(v)); bad {
			flag(fn, ins.Pos(), "%s what is recorded in the ledger (%s)", what, r)
		}
	}
	for _, fn := range order {
		if !w.inModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					switch a := outermost(i.Addr).(type) {
					case *ssa.FieldAddr:
						key := structField(a.X, a.Field)
						if isAmountPtr(i.Val.Type()) && !ledgerField(key) {
							puts = append(puts, put{mut{fn, ins, i.Val}, map[string]bool{"field " + key: true}, key})
						}
						if !ledgerField(key) {
							continue
						}
						count[fn]++
						if caches[key] {
							continue
						}
						for r := range f.resolve(f.roots(a.X)) {
							if r.kind != "fresh" {
								flag(fn, ins.Pos(), "sets %s of an item of the ledger", key)
								break
							}
						}
					case *ssa.IndexAddr:
						if isAmountPtr(i.Val.Type()) {
							puts = append(puts, put{mut{fn, ins, i.Val}, f.putInto(a.X), "elements"})
						}
						if al, ok := a.X.(*ssa.Alloc); ok && (al.Comment == "varargs" || al.Comment == "slicelit") {
							continue
						}
						change(fn, ins, a.X, "overwrites an element of")
					case *ssa.Global:
						count[fn]++
						if n := globalName(a); strings.HasPrefix(n, "coin.") {
							flag(fn, ins.Pos(), "sets %s", n)
						}
					case *ssa.Alloc, *ssa.FreeVar:
					default:
						if refersToLedger(i.Val.Type()) && !isAmountPtr(i.Val.Type()) {
							change(fn, ins, i.Addr, "overwrites")
						}
					}
				case *ssa.MapUpdate:
					change(fn, ins, i.Map, "changes a map of")
					if isAmountPtr(i.Value.Type()) {
						puts = append(puts, put{mut{fn, ins, i.Value}, f.putInto(i.Map), "a map"})
					}
				case ssa.CallInstruction:
					cc := i.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy":
							change(fn, ins, cc.Args[0], "copies over")
						case "delete", "clear":
							change(fn, ins, cc.Args[0], "deletes from")
						case "append":
							if base := resliced(cc.Args[0]); base != nil {
								change(fn, ins, base, "appends in place to a part of")
							}
						}
						continue
					}
					g := cc.StaticCallee()
					if g == nil {
						continue
					}
					n := fnName(g)
					switch {
					case strings.HasPrefix(n, "math/big.Int.") && !bigReader(n):
						count[fn]++
						v := cc.Args[0]
						rs := f.amountRoots(v)
						for k := range f.containers(rs) {
							mutated[k] = true
						}
						for _, r := range sortedRoots(rs) {
							if r.kind == "field" && ledgerField(r.key) && !caches[r.key] || r.kind == "param" && refersToLedger(r.v.Type()) && fn.Signature.Recv() != nil && r.fn == fn && f.taken[fn] {
								flag(fn, ins.Pos(), "%s changes a recorded amount in place (%s)", strings.TrimPrefix(n, "math/big."), r)
							}
						}
					case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") || strings.HasPrefix(n, "slices.Delete") || strings.HasPrefix(n, "slices.Insert") || strings.HasPrefix(n, "slices.Compact") || strings.HasPrefix(n, "slices.Replace"):
						if len(cc.Args) > 0 && !strings.HasPrefix(n, "sort.Search") && n != "sort.Find" {
							change(fn, ins, cc.Args[0], "reorders")
						}
					}
					for k, a := range cc.Args {
						if isAmountPtr(a.Type()) && f.mutates(g, k, 0) {
							muts = append(muts, mut{fn, ins, a})
						}
					}
				}
			}
		}
	}
	// amounts added into: owned by whoever adds
	for _, m := range muts {
		count[m.fn]++
		rs := f.amountRoots(m.v)
		for k := range f.containers(rs) {
			mutated[k] = true
		}
		for _, r := range sortedRoots(rs) {
			if r.kind == "field" && ledgerField(r.key) {
				flag(m.fn, m.ins.Pos(), "adds into a recorded amount (%s)", r)
			}
		}
	}
	stored := map[ssa.Value][]put{}
	for _, q := range puts {
		hot := false
		for k := range q.into {
			hot = hot || mutated[k]
		}
		if hot {
			count[q.fn]++
			for _, r := range sortedRoots(f.amountRoots(q.v)) {
				if r.kind == "field" && ledgerField(r.key) {
					flag(q.fn, q.ins.Pos(), "keeps a recorded amount (%s) in %s, where amounts are added up", r, q.what)
				}
			}
		}
		if _, isConst := q.v.(*ssa.Const); !isConst {
			for _, o := range stored[q.v] {
				if o.fn == q.fn && !follows(o.ins, q.ins, q.v) && !follows(q.ins, o.ins, q.v) {
					continue
				}
				hot2 := hot
				for k := range o.into {
					hot2 = hot2 || mutated[k]
				}
				if hot2 {
					flag(q.fn, q.ins.Pos(), "keeps one amount in two places that are added up separately")
				}
			}
			stored[q.v] = append(stored[q.v], q)
		}
	}
	for _, m := range muts {
		for _, q := range stored[m.v] {
			if q.fn == m.fn && follows(q.ins, m.ins, m.v) {
				flag(m.fn, m.ins.Pos(), "adds into an amount after it was kept in %s", q.what)
			}
		}
	}
	for _, fn := range order {
		if !w.inModule(fn) {
			continue
		}
		o := &Outcome{Name: "report-effects " + fnName(fn), Kind: "effects", Where: w.pos(fn.Pos()), How: "changes nothing recorded", Stats: fmt.Sprintf("%d writes; reached by %s", count[fn], pathTo(via, fn))}
		for _, e := range byFn[fn] {
			o.How = ""
			o.Diffs = append(o.Diffs, Diff{What: e.what + "; reached by " + pathTo(via, fn), Pos: e.pos})
		}
		outs = append(outs, o)
	}
	if len(muts) < 6 || len(mutated) < 3 || len(order) < 60 {
		outs = append(outs, &Outcome{Name: "report-effects", Kind: "effects", Diffs: []Diff{{What: fmt.Sprintf("too little found to say anything: %d functions, %d additions, %d accumulators", len(order), len(muts), len(mutated))}}})
	}
	return outs
}

func sortedRoots(rs rootSet) []root {
	var all []root
	for r := range rs {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	return all
}

// resliced: the slice x[:k] or x[i:k] is taken of.
func resliced(v ssa.Value) ssa.Value {
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Max != nil {
			return nil
		}
		if v.High != nil {
			return v.X
		}
		return resliced(v.X)
	case *ssa.ChangeType:
		return resliced(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			if s, ok := e.(*ssa.Slice); ok && s.High != nil && s.Max == nil {
				return s.X
			}
		}
	}
	return nil
}

// mutates: g changes the amount it is passed as argument k.
func (f *flow) mutates(g *ssa.Function, k, depth int) bool {
	if g.Blocks == nil || k >= len(g.Params) || depth > 4 || !f.w.inModule(g) && g.Synthetic == "" {
		return false
	}
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			h := c.Common().StaticCallee()
			if h == nil {
				continue
			}
			n := fnName(h)
			if strings.HasPrefix(n, "math/big.Int.") && !bigReader(n) {
				for r := range f.roots(c.Common().Args[0]) {
					if r.kind == "field" && r.key == "coin.Amount.Int" {
						for x := range f.roots(r.v) {
							if x.kind == "param" && x.v == g.Params[k] {
								return true
							}
						}
					}
				}
				continue
			}
			for j, a := range c.Common().Args {
				if isAmountPtr(a.Type()) && h != g {
					for x := range f.roots(a) {
						if x.kind == "param" && x.v == g.Params[k] && f.mutates(h, j, depth+1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// follows: b may run after a within one activation without the value v being made anew.
func follows(a, b ssa.Instruction, v ssa.Value) bool {
	var made *ssa.BasicBlock
	if i, ok := v.(ssa.Instruction); ok {
		made = i.Block()
	}
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for k, i := range a.Block().Instrs {
			if i == a {
				ia = k
			}
			if i == b {
				ib = k
			}
		}
		if ia < ib {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if seen[x] || x == made {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		todo = append(todo, x.Succs...)
	}
	return false
}

func init() {
	rules["report-effects"] = reportEffects
}
