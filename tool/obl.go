package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sameSig reports whether the reference and the implementation can stand for
// each other at a call.
func sameSig(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	return types.Identical(a.Signature.Results(), b.Signature.Results()) && a.Signature.Variadic() == b.Signature.Variadic()
}

// boundary: callees with an obligation of their own are not expanded.
func (w *World) boundary(name string) bool {
	s, i := w.Specs[name], w.Impl[name]
	if strings.HasPrefix(name, "check.") || strings.HasPrefix(name, "warn.") {
		return false // tiny, and callers depend on what they abort on
	}
	return s != nil && i != nil && sameSig(s, i)
}

// opaqueFn: which callees an evaluation at the given level leaves alone.
// Level 0 stops at every boundary, level 1 looks through the tiny ones, level
// 2 through the small ones, level 3 through all of them.
func (w *World) opaqueFn(level int, expand ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		n := fnName(f)
		for _, x := range expand {
			if x == n {
				return false
			}
		}
		if !w.boundary(n) {
			return false
		}
		switch level {
		case 0:
			return true
		case 1:
			return !w.small(w.Specs[n], 15) || !w.small(w.Impl[n], 15)
		case 2:
			return !w.small(w.Specs[n], 60) || !w.small(w.Impl[n], 60)
		}
		return w.recursive(w.Specs[n]) || w.recursive(w.Impl[n])
	}
}

// small functions have no loops and few instructions.
func (w *World) small(f *ssa.Function, max int) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false
			}
		}
	}
	return n <= max && !w.recursive(f)
}

// recursive functions may reach themselves through static calls.
func (w *World) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(x *ssa.Function) bool
	rec = func(x *ssa.Function) bool {
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g == f || fnName(g) == fnName(f) {
					return true
				}
				if g.Blocks == nil || !w.inModule(g) || seen[g] {
					continue
				}
				seen[g] = true
				if rec(g) {
					return true
				}
			}
		}
		return false
	}
	if r, ok := w.recMemo[f]; ok {
		return r
	}
	if w.recMemo == nil {
		w.recMemo = map[*ssa.Function]bool{}
	}
	r := rec(f)
	w.recMemo[f] = r
	return r
}

type Result struct {
	Name  string
	Diffs []Diff
	Stats string
}

// Equiv decides whether the implementation of name computes its reference.
func (w *World) Equiv(name string, p *Proj, level int, expand ...string) (ds []Diff, stats string) {
	defer func() {
		if r := recover(); r != nil {
			ds = append(ds, Diff{What: fmt.Sprintf("analysis failed: %v", r)})
			if verbose {
				panic(r)
			}
		}
	}()
	s, i := w.Specs[name], w.Impl[name]
	if s == nil {
		return []Diff{{What: "the reference of " + name + " does not type-check against the current source"}}, ""
	}
	if m, bad := w.BadSpec[name]; bad {
		return []Diff{{What: "the reference of " + name + " does not type-check against the current source: " + m}}, ""
	}
	if i == nil {
		return nil, "missing"
	}
	if !sameSig(s, i) {
		return nil, "signature"
	}
	ts := newTerms()
	pendingRets = map[*Loop][]ret{}
	mkSide := func(f *ssa.Function) *Side {
		g := newGV(w)
		g.ts = ts
		g.uid = int(gvUID)
		g.Opaque = w.opaqueFn(level, expand...)
		var names []string
		for k := range f.Params {
			names = append(names, fmt.Sprintf("arg%d", k))
		}
		rets, ng, _ := g.Root(f, names...)
		gvUID = g.uid + 1
		return g.newSide(name, rets, ng)
	}
	a := mkSide(s)
	b := mkSide(i)
	ca, cb := a.canonical(p), b.canonical(p)
	c := &cmpr{g: b.g, budget: 60000, memo: map[string]bool{}, thMemo: map[*Node]*Node{}}
	ds = c.compare(ca, cb, p)
	for k := range ds {
		if ds[k].Pos == 0 {
			ds[k].Pos = i.Pos()
		}
	}
	stats = fmt.Sprintf("%d effects, %d loops, %d conditions, %d terms", len(b.effs), len(b.g.Loops), len(ts.b.Atoms), ts.n)
	return ds, stats
}

var gvUID int
var verbose bool
var _ = strings.Join
