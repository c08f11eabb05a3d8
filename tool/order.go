package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: the same input gives the same output.

// nondet: calls whose result differs from run to run.
func nondet(g *ssa.Function) string {
	n := fnName(g)
	pkg := ""
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	} else if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	if g.Name() == "init" {
		return ""
	}
	switch {
	case n == "time.Now" || n == "time.Since" || n == "time.Until" || n == "time.After" || n == "time.Tick" || n == "time.NewTimer" || n == "time.NewTicker" || n == "time.AfterFunc":
		return "the time of day"
	case pkg == "math/rand" || pkg == "math/rand/v2" || pkg == "crypto/rand" || pkg == "hash/maphash":
		return "randomness"
	case pkg == "runtime" || pkg == "runtime/debug" || pkg == "unsafe" || n == "os.Getpid" || n == "os.Getppid" || n == "os.Hostname" || n == "reflect.Value.Pointer" || n == "reflect.Value.UnsafePointer" || n == "reflect.Value.UnsafeAddr":
		return "the state of the process"
	case n == "reflect.Value.MapRange" || n == "reflect.Value.MapKeys" || n == "maps.Keys" || n == "maps.Values" || n == "maps.All" || strings.HasPrefix(n, "maps.Keys[") || strings.HasPrefix(n, "maps.Values[") || strings.HasPrefix(n, "maps.All["):
		return "the order of a map"
	case pkg == "sync" || pkg == "sync/atomic" || pkg == "context":
		return "scheduling"
	}
	return ""
}

// allowedNondet: dates relative to today, quotes of today and sample data.
var allowedNondet = map[string]string{
	"coin.init":                        "the time of day",
	"cmd/coin.cmdCommodities.execute":  "the time of day",
	"cmd/gen2coin.main":                "the time of day",
	"cmd/gen2coin.init":                "the time of day",
	"coin.Account.Balance":             "",
	"cmd/gen2coin.rule.generatePayees": "randomness",
}

// orderReviewed: references whose results do not depend on the order their
// map loops run in, for a reason the analysis below does not see. It holds for
// a function as long as the function is equal to its reference.
var orderReviewed = map[string]string{
	"coin.ResolveAccounts":             "missing parents are created by name; children are sorted by name, which is unique under a parent; the only other effects are errors",
	"coin.TagMatcher.Match":            "true if any tag matches",
	"gnucash.resolveAccounts":          "children are sorted by name and indexed by full name",
	"gnucash.resolveTransactions":      "each account's own postings only",
	"cmd/coin.timeTotal.AddIn":         "each category's own amount only",
	"cmd/coin.accountTotals.sanitize":  "the accounts are only deleted from the totals",
	"cmd/coin.accountTotals.accounts":  "its callers sort the accounts they use",
	"coin.Commodity.Currencies":        "sorted by identifier, which is unique",
	"coin.RuleIndex.Write":             "the rules of an account are listed under one identifier; sorted by account, then identifier",
	"rex.Exp.Match":                    "the names of the groups of a pattern with their numbers differ from each other",
	"cmd/coin.timeTotal.Categories":    "callers sort the keys or take the least",
	"cmd/coin.timeTotals.cumMagnitude": "exact addition; every amount is converted on its own",
	"cmd/coin.accountTotals.top":       "sorted by magnitude, then by name",
	"cmd/coin.cmdTags.collectKeys":     "each key's own values only",
	"cmd/coin.sortAndClean":            "each key's own values; keys are sorted",
	"cmd/gen2coin.main":                "order of commodities and accounts of a sample is free",
}

type mapLoop struct {
	fn     *ssa.Function
	rng    *ssa.Range
	next   *ssa.Next
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// mapLoops finds the loops over maps of a function.
func mapLoops(fn *ssa.Function) (out []*mapLoop) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			r, ok := ins.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			for _, u := range *r.Referrers() {
				n, ok := u.(*ssa.Next)
				if !ok {
					continue
				}
				l := &mapLoop{fn: fn, rng: r, next: n, head: n.Block(), blocks: map[*ssa.BasicBlock]bool{n.Block(): true}}
				var todo []*ssa.BasicBlock
				for _, p := range l.head.Preds {
					if l.head.Dominates(p) {
						todo = append(todo, p)
					}
				}
				for len(todo) > 0 {
					x := todo[0]
					todo = todo[1:]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					todo = append(todo, x.Preds...)
				}
				out = append(out, l)
			}
		}
	}
	return out
}

func (l *mapLoop) has(i ssa.Instruction) bool { return i.Block() != nil && l.blocks[i.Block()] }

// extract k (1 the key, 2 the value) of the iteration.
func (l *mapLoop) isIter(v ssa.Value, k int) bool {
	e, ok := v.(*ssa.Extract)
	return ok && e.Tuple == l.next && e.Index == k
}

// own: the object v refers to is reached from this iteration's key or value,
// or was made in this iteration.
func (l *mapLoop) own(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Extract:
		return v.Tuple == l.next && v.Index > 0
	case *ssa.FieldAddr:
		return l.own(v.X, d+1)
	case *ssa.Field:
		return l.own(v.X, d+1)
	case *ssa.IndexAddr:
		return l.own(v.X, d+1)
	case *ssa.UnOp:
		return l.own(v.X, d+1)
	case *ssa.MakeInterface:
		return l.own(v.X, d+1)
	case *ssa.ChangeType:
		return l.own(v.X, d+1)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return l.has(v.(ssa.Instruction))
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			if !l.own(b, d+1) {
				return false
			}
		}
		return true
	case *ssa.Lookup:
		return l.isIter(v.Index, 1)
	}
	return false
}

// sensitive says why the outcome of the loop may depend on the order of the
// map, or "". slices are the lists that leave it in no particular order.
func (f *flow) sensitive(l *mapLoop) (why string, slices []ssa.Value) {
	sums := f.w.summaries()
	steps := map[ssa.Value]bool{}
	carried := map[ssa.Value]bool{}
	for _, ins := range l.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			carried[p] = true
		}
	}
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		kind, why, ms := l.accumulator(p)
		if why != "" {
			return why, nil
		}
		for m := range ms {
			steps[m] = true
		}
		if kind == "list" {
			slices = append(slices, p)
		}
	}
	var dep func(v ssa.Value, d int) bool
	dep = func(v ssa.Value, d int) bool {
		if carried[v] {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || !l.has(i) || d > 12 {
			return false
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && dep(*op, d+1) {
				return true
			}
		}
		return false
	}
	var exits []string
	effects := false
	for b := range l.blocks {
		for _, s := range b.Succs {
			if l.blocks[s] || b == l.head {
				continue
			}
			// an early way out
			e, why := exitValue(s, b)
			if why != "" {
				return why, nil
			}
			if e != "dies" {
				exits = append(exits, e)
			}
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Return:
				return "returns from within the loop", nil
			case *ssa.Store:
				if dep(i.Val, 0) {
					return "stores a value carried from one iteration to the next", nil
				}
				if !l.own(i.Addr, 0) {
					return "writes to a place outside of the iteration", nil
				}
				if root, ok := rootAlloc(i.Addr).(*ssa.Alloc); !ok || !l.has(root) {
					effects = true
				}
			case *ssa.MapUpdate:
				if dep(i.Value, 0) || dep(i.Key, 0) {
					return "a map entry depends on earlier iterations", nil
				}
				_, isConst := i.Value.(*ssa.Const)
				if !l.isIter(i.Key, 1) && !isConst && !l.own(i.Map, 0) {
					return "different iterations may write the same map entry", nil
				}
				if i.Map == l.rng.X && !l.isIter(i.Key, 1) {
					return "adds to the map it goes over", nil
				}
				effects = true
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return "starts, defers or sends", nil
			case *ssa.Call:
				cc := i.Call
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						if !l.isIter(cc.Args[1], 1) {
							return "deletes another key", nil
						}
						effects = true
					case "copy", "clear", "print", "println", "close":
						return bi.Name() + " in the loop", nil
					case "append":
						if b := sliceBase(cc.Args[0]); !carried[b] && !l.partOfList(cc.Args[0], carried) && !l.own(b, 0) {
							return "appends to a list made outside of the loop", nil
						}
					}
					continue
				}
				if why := f.callInLoop(l, i, sums); why != "" {
					return why, nil
				}
				for _, a := range cc.Args {
					if dep(a, 0) && !steps[i] {
						return "passes on a value carried from one iteration to the next", nil
					}
				}
			}
		}
	}
	if len(exits) > 0 {
		if effects || len(carried) > 0 {
			return "leaves early after changing something", nil
		}
		for _, e := range exits {
			if e != exits[0] {
				return "leaves early with different results", nil
			}
		}
	}
	return "", slices
}

func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func sliceBase(v ssa.Value) ssa.Value {
	for {
		s, ok := v.(*ssa.Slice)
		if !ok {
			return v
		}
		v = s.X
	}
}

func (l *mapLoop) partOfList(v ssa.Value, carried map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] || carried[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return l.has(v)
		case *ssa.Call:
			b, isB := v.Call.Value.(*ssa.Builtin)
			return isB && b.Name() == "append" && l.has(v) && ok(v.Call.Args[0])
		case *ssa.Const:
			return v.IsNil()
		}
		return false
	}
	return ok(v)
}

// accumulator: what a value carried through the loop is.
func (l *mapLoop) accumulator(p *ssa.Phi) (kind, why string, members map[ssa.Value]bool) {
	members = map[ssa.Value]bool{p: true}
	consts := map[string]bool{}
	others := map[ssa.Value]bool{}
	kinds := map[string]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if members[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if l.has(x) {
				members[x] = true
				for _, e := range x.Edges {
					walk(e)
				}
				return
			}
		case *ssa.Const:
			consts[x.String()] = true
			return
		case *ssa.BinOp:
			if l.has(x) && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) && isInteger(x.Type()) && (l.leads(x.X, members) != l.leads(x.Y, members)) {
				members[x] = true
				kinds["sum"+x.Op.String()] = true
				if l.leads(x.X, members) {
					walk(x.X)
				} else {
					walk(x.Y)
				}
				return
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && l.has(x) {
				switch b.Name() {
				case "append":
					members[x] = true
					kinds["list"] = true
					walk(x.Call.Args[0])
					return
				case "max", "min":
					for _, a := range x.Call.Args {
						if l.leads(a, members) {
							members[x] = true
							kinds[b.Name()] = true
							walk(a)
							return
						}
					}
				}
			}
			if k := maxOrMin(x.Call.StaticCallee()); k != "" && l.has(x) {
				for _, a := range x.Call.Args {
					if l.leads(a, members) {
						members[x] = true
						kinds[k] = true
						walk(a)
						return
					}
				}
			}
		}
		others[v] = true
	}
	for k, e := range p.Edges {
		if l.blocks[l.head.Preds[k]] {
			walk(e)
		}
	}
	if len(members) == 1 && len(kinds) == 0 && len(consts) == 0 && len(others) == 0 {
		return "same", "", members
	}
	switch {
	case len(kinds) == 0 && len(others) == 0 && len(consts) == 1:
		kinds["flag"] = true
	case len(kinds) == 0 && len(consts) == 0 && len(others) > 0 && isInteger(p.Type()):
		// the largest or least so far
		op := ""
		for o := range others {
			found := false
			refs := append([]ssa.Instruction{}, *o.Referrers()...)
			for b := range l.blocks {
				for _, i := range b.Instrs {
					if v, ok := i.(*ssa.Call); ok && v != o && sameLen(v, o) {
						refs = append(refs, *v.Referrers()...)
					}
				}
			}
			for _, r := range refs {
				if c, ok := r.(*ssa.BinOp); ok && l.has(c) && (members[c.X] && (c.Y == o || sameLen(c.Y, o)) || members[c.Y] && (c.X == o || sameLen(c.X, o))) {
					k := ""
					switch c.Op {
					case token.LSS, token.LEQ:
						k = "<"
					case token.GTR, token.GEQ:
						k = ">"
					}
					if k != "" && members[c.X] {
						k = map[string]string{"<": ">", ">": "<"}[k]
					}
					if k != "" && (op == "" || op == k) {
						op, found = k, true
					}
				}
			}
			if !found {
				return "", "keeps a value of the last iteration (" + p.Comment + ")", nil
			}
		}
		kinds["extreme"] = true
	}
	if len(kinds) != 1 || len(others) > 0 && !kinds["extreme"] || len(consts) > 0 && !kinds["flag"] {
		return "", "keeps a value that depends on the order (" + p.Comment + ")", nil
	}
	for k := range kinds {
		kind = k
	}
	// within the loop the value so far is only added to or compared
	for m := range members {
		for _, r := range *m.Referrers() {
			if !l.has(r) {
				if m != p && r.Block() != l.head {
					if _, dies := r.Block().Instrs[len(r.Block().Instrs)-1].(*ssa.Panic); !dies {
						return "", "the value so far leaves the loop early", nil
					}
				}
				continue
			}
			if v, ok := r.(ssa.Value); ok && members[v] {
				continue
			}
			if b, ok := r.(*ssa.BinOp); ok && kind == "extreme" && (b.Op == token.LSS || b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.GEQ) {
				continue
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return "", "uses a value carried from one iteration to the next (" + p.Comment + ")", nil
		}
	}
	return kind, "", members
}

// leads: v is one of the accumulator's values, or reaches one through joins.
func (l *mapLoop) leads(v ssa.Value, members map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if members[v] {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		if p, isPhi := v.(*ssa.Phi); isPhi && l.has(p) {
			for _, e := range p.Edges {
				if ok(e) {
					return true
				}
			}
		}
		return false
	}
	return ok(v)
}

func isInteger(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// exitValue: what leaving the loop at s gives.
func exitValue(s, from *ssa.BasicBlock) (string, string) {
	var out []string
	for _, ins := range s.Instrs {
		switch i := ins.(type) {
		case *ssa.Panic:
			return "dies", ""
		case *ssa.Return:
			for _, r := range i.Results {
				c, ok := r.(*ssa.Const)
				if !ok {
					return "", "leaves early with a result of the iteration"
				}
				out = append(out, c.String())
			}
			return "return " + strings.Join(out, ", "), ""
		case *ssa.Jump:
			return "", "leaves early"
		}
	}
	return "", "leaves early"
}

// callInLoop: why a call in the loop may make the order matter, or "".
func (f *flow) callInLoop(l *mapLoop, c *ssa.Call, sums map[*ssa.Function]*Summary) string {
	g := c.Call.StaticCallee()
	if g == nil {
		if c.Call.IsInvoke() {
			return "calls " + c.Call.Method.Name() + " of an interface"
		}
		return "calls a function value"
	}
	n := fnName(g)
	if aborter[n] {
		return ""
	}
	if !f.w.inModule(g) {
		switch {
		case strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "bufio.") || strings.HasPrefix(n, "os."):
			return "calls " + n
		case strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "math/big.Int."):
			if len(c.Call.Args) > 0 && !l.own(c.Call.Args[0], 0) && !bigReader(n) {
				return "calls " + n + " on something outside of the iteration"
			}
			return ""
		case readerName(n) || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "regexp.") || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "fmt.Errorf"):
			return ""
		}
		return "calls " + n
	}
	s := sums[g]
	if s == nil {
		return "calls " + n
	}
	if f.prints(g, map[*ssa.Function]bool{}) {
		return "calls " + n + ", which does input or output"
	}
	for k, m := range s.Writes {
		if k == "ext" || caches[k] || caches["coin."+k] {
			continue
		}
		if m&topBit != 0 {
			return "calls " + n + ", which changes " + k
		}
		for i, a := range c.Call.Args {
			if m&paramBit(i) != 0 && !l.own(a, 0) {
				return "calls " + n + ", which changes " + k + " of something outside of the iteration"
			}
		}
	}
	return ""
}

// prints: g may do input or output other than to give up.
func (f *flow) prints(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] || aborter[fnName(g)] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			if _, dies := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); dies {
				break
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() {
				for _, m := range f.w.implsOf(c.Common()) {
					if f.prints(m, seen) {
						return true
					}
				}
				if n := c.Common().Method.Name(); n == "Write" || n == "WriteString" || n == "Read" {
					return true
				}
				continue
			}
			h := c.Common().StaticCallee()
			if h == nil {
				continue
			}
			if f.w.inModule(h) || h.Synthetic != "" {
				if f.prints(h, seen) {
					return true
				}
				continue
			}
			n := fnName(h)
			for _, p := range []string{"fmt.Fprint", "fmt.Print", "fmt.Fscan", "fmt.Scan", "io.", "os.", "bufio.", "log.", "compress/", "encoding/"} {
				if strings.HasPrefix(n, p) && n != "os.Getenv" {
					return true
				}
			}
		}
	}
	return false
}

// maxOrMin: g returns the larger or the smaller of its two arguments.
func maxOrMin(g *ssa.Function) string {
	if g == nil || len(g.Params) != 2 || len(g.Blocks) == 0 || !isInteger(g.Params[0].Type()) {
		return ""
	}
	iff, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.If)
	if !ok || len(g.Blocks) != 3 {
		return ""
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Block() != g.Blocks[0] {
		return ""
	}
	a, b := c.X, c.Y
	switch c.Op {
	case token.LSS, token.LEQ:
	case token.GTR, token.GEQ:
		a, b = b, a
	default:
		return ""
	}
	if a != ssa.Value(g.Params[0]) && a != ssa.Value(g.Params[1]) || b != ssa.Value(g.Params[0]) && b != ssa.Value(g.Params[1]) || a == b {
		return ""
	}
	var got [2]ssa.Value // when a is less, and when not
	for k, s := range g.Blocks[0].Succs {
		r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
		if !ok || len(s.Instrs) != 1 || len(r.Results) != 1 {
			return ""
		}
		got[k] = r.Results[0]
	}
	switch got {
	case [2]ssa.Value{b, a}:
		return "max"
	case [2]ssa.Value{a, b}:
		return "min"
	}
	return ""
}

// sameLen: two lengths of one thing.
func sameLen(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok || !ok2 {
		return false
	}
	f, ok := x.Call.Value.(*ssa.Builtin)
	g, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok && ok2 && f.Name() == "len" && g.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

var aborter = map[string]bool{"check.NoError": true, "check.If": true, "check.OK": true}

// sorted: the list is put in order before anything else looks at it.
func (f *flow) sorted(l *mapLoop, list ssa.Value) string {
	members := map[ssa.Value]bool{list: true}
	var uses []ssa.Instruction
	todo := []ssa.Value{list}
	for len(todo) > 0 {
		v := todo[0]
		todo = todo[1:]
		for _, r := range *v.Referrers() {
			if l.has(r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.ChangeType:
				todo = append(todo, x)
				members[x] = true
				continue
			case *ssa.MakeInterface:
				todo = append(todo, x)
				members[x] = true
				continue
			case *ssa.Phi:
				return "the list is joined with another before it is sorted"
			}
			uses = append(uses, r)
		}
	}
	var at ssa.Instruction
	for _, u := range uses {
		c, ok := u.(*ssa.Call)
		if !ok {
			continue
		}
		if g := c.Call.StaticCallee(); g != nil {
			switch n := fnName(g); {
			case n == "sort.Strings" || n == "sort.Ints" || strings.HasPrefix(n, "slices.Sort[") || n == "slices.Sort":
				at = u
			case strings.HasPrefix(n, "slices.Min") || strings.HasPrefix(n, "slices.Max"):
				if len(uses) == 1 {
					return ""
				}
			}
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(uses) == 1 {
			return ""
		}
	}
	if len(uses) == 0 {
		return ""
	}
	if at == nil {
		return "a list in the order of the map is not sorted by its elements"
	}
	for _, u := range uses {
		if u == at {
			continue
		}
		if c, ok := u.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		if u.Block() == at.Block() {
			before := false
			for _, i := range u.Block().Instrs {
				if i == u {
					before = true
				}
				if i == at {
					break
				}
			}
			if before {
				return "a list in the order of the map is used before it is sorted"
			}
			continue
		}
		if !at.Block().Dominates(u.Block()) {
			return "a list in the order of the map is used where it may not be sorted"
		}
	}
	return ""
}

func sameOutput(c *Checker, p *Property) []*Outcome {
	w := c.w
	f := w.flow()
	var outs []*Outcome
	loops := 0
	oblig := map[string]bool{}
	for _, n := range c.all {
		oblig[n] = true
	}
	// covered: every way to run fn goes through a function that is equal to a
	// reference reviewed for this.
	var covered func(fn *ssa.Function, seen map[*ssa.Function]bool) (bool, string)
	covered = func(fn *ssa.Function, seen map[*ssa.Function]bool) (bool, string) {
		if seen[fn] {
			return true, ""
		}
		seen[fn] = true
		n := fnName(fn)
		if fn.Parent() != nil {
			return covered(fn.Parent(), seen)
		}
		if oblig[n] {
			reason := orderReviewed[n]
			if reason == "" {
				if sp := w.Specs[n]; sp == nil || !f.orderFree(sp) {
					return false, n + " is not among the functions reviewed for it"
				}
				reason = "every iteration on its own"
			}
			if o := c.decide(n); o.How == "" {
				return false, n + " is no longer equal to its reference"
			}
			return true, "equal to reference " + n + ": " + reason
		}
		cs := f.callers[fn]
		if f.taken[fn] {
			return false, n + " is used as a value"
		}
		if len(cs) == 0 {
			return true, "never called"
		}
		how := ""
		for _, c := range cs {
			if isSpec(c.Parent()) {
				continue
			}
			ok, h := covered(c.Parent(), seen)
			if !ok {
				return false, h
			}
			if h != "" {
				how = h
			}
		}
		return true, how
	}
	var from []*ssa.Function
	for _, fn := range f.funcs {
		if fn.Name() == "main" && fn.Signature.Recv() == nil && fn.Parent() == nil || fn.Name() == "init" && fn.Signature.Recv() == nil || strings.HasPrefix(fn.Name(), "init#") ||
			fn.Object() != nil && fn.Object().Exported() && fn.Pkg != nil && !strings.HasPrefix(shortPkg(fn.Pkg.Pkg.Path()), "cmd/") {
			from = append(from, fn)
		}
	}
	live, _ := f.reach(from)
	for _, fn := range f.funcs {
		if strings.HasPrefix(fnName(fn), "assert.") {
			continue
		}
		ls := mapLoops(fn)
		for k, l := range ls {
			loops++
			o := &Outcome{Name: fmt.Sprintf("map loop %d of %s", k+1, fnName(fn)), Kind: "order", Where: w.pos(l.rng.Pos())}
			why, lists := f.sensitive(l)
			for _, s := range lists {
				if why == "" {
					why = f.sorted(l, s)
				}
			}
			if _, ok := live[fn]; !ok && fn.Synthetic == "" {
				o.How = "never run"
			} else if why == "" {
				o.How = "every iteration on its own"
			} else if ok, how := covered(fn, map[*ssa.Function]bool{}); ok {
				o.How = how
				o.Stats = why
			} else {
				o.Diffs = append(o.Diffs, Diff{What: "what the loop over a map does depends on its order: " + why + "; " + how, Pos: l.rng.Pos()})
			}
			outs = append(outs, o)
		}
		o := &Outcome{Name: "sources of " + fnName(fn), Kind: "order", Where: w.pos(fn.Pos()), How: "none"}
		outer := fn
		for outer.Parent() != nil {
			outer = outer.Parent()
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				bad := ""
				switch i := ins.(type) {
				case *ssa.Go:
					bad = "scheduling (go)"
				case *ssa.Select:
					bad = "scheduling (select)"
				case *ssa.Send:
					bad = "scheduling (send)"
				case *ssa.Convert:
					if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						bad = "an address"
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !w.inModule(g) {
						if k := nondet(g); k != "" {
							bad = k + " (" + fnName(g) + ")"
						}
					}
				}
				if bad == "" {
					continue
				}
				n++
				if f.mayDepend(outer, bad) {
					o.How = "allowed: " + bad
					continue
				}
				o.Diffs = append(o.Diffs, Diff{What: "the outcome depends on " + bad, Pos: ins.Pos()})
			}
		}
		if len(o.Diffs) > 0 {
			o.How = ""
		}
		if n > 0 {
			outs = append(outs, o)
		}
	}
	if loops < 15 {
		outs = append(outs, &Outcome{Name: "map loops", Kind: "order", Diffs: []Diff{{What: fmt.Sprintf("only %d loops over maps found", loops)}}})
	}
	sort.SliceStable(outs, func(i, j int) bool { return outs[i].Name < outs[j].Name })
	return outs
}

// orderFree: no loop over a map in fn depends on its order.
func (f *flow) orderFree(fn *ssa.Function) bool {
	for _, l := range mapLoops(fn) {
		why, lists := f.sensitive(l)
		for _, s := range lists {
			if why == "" {
				why = f.sorted(l, s)
			}
		}
		if why != "" {
			return false
		}
	}
	for _, g := range fn.AnonFuncs {
		if !f.orderFree(g) {
			return false
		}
	}
	return true
}

// mayDepend: fn runs only on behalf of something allowed to depend on it.
func (f *flow) mayDepend(fn *ssa.Function, what string) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(fn *ssa.Function) bool
	ok = func(fn *ssa.Function) bool {
		if seen[fn] {
			return true
		}
		seen[fn] = true
		n := fnName(fn)
		if fn.Pkg != nil && shortPkg(fn.Pkg.Pkg.Path()) == "cmd/gen2coin" && (strings.HasPrefix(what, "randomness") || strings.HasPrefix(what, "the time of day")) {
			return true
		}
		if a := allowedNondet[n]; a != "" && strings.HasPrefix(what, a) {
			return true
		}
		if f.taken[fn] || len(f.callers[fn]) == 0 {
			return false
		}
		for _, c := range f.callers[fn] {
			p := c.Parent()
			for p.Parent() != nil {
				p = p.Parent()
			}
			if !ok(p) {
				return false
			}
		}
		return true
	}
	return ok(fn)
}

func init() {
	rules["same-output"] = sameOutput
}
