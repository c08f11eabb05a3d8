package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rewrites: f, or a function in it, may write to the elements of a slice it
// did not make itself, so that it matters who else holds the slice.
func (w *World) rewrites(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, ok := a.X.Type().Underlying().(*types.Slice); ok && sharedSlice(a.X, nil) {
						return true
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if len(c.Args) == 0 {
					continue
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "copy" || bi.Name() == "clear") && sharedSlice(c.Args[0], nil) {
						return true
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && g.Object() != nil && g.Object().Pkg() != nil {
					switch p := g.Object().Pkg().Path(); {
					case p == "sort" && !strings.HasPrefix(g.Name(), "Search") && g.Name() != "Find" && !strings.Contains(g.Name(), "Sorted"):
						if sharedSlice(c.Args[0], nil) {
							return true
						}
					case p == "slices" && (strings.HasPrefix(g.Name(), "Sort") && !strings.HasPrefix(g.Name(), "Sorted") || g.Name() == "Reverse" || g.Name() == "Delete" || g.Name() == "DeleteFunc" || g.Name() == "Insert" || g.Name() == "Replace" || strings.HasPrefix(g.Name(), "Compact")):
						if sharedSlice(c.Args[0], nil) {
							return true
						}
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if w.rewrites(a) {
			return true
		}
	}
	return false
}

// sharedSlice: v is, or may be, a slice given as an argument, captured, or
// held in a global.
func sharedSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.Slice:
		return sharedSlice(x.X, seen)
	case *ssa.ChangeType:
		return sharedSlice(x.X, seen)
	case *ssa.MakeInterface:
		return sharedSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if sharedSlice(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Global, *ssa.FreeVar:
			return true
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && sharedSlice(s.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return sharedSlice(x.Call.Args[0], seen)
		}
	}
	return false
}
