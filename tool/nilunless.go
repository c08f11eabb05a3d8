package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// nilUnlessOK: functions of (pointer, error) whose first result is nil exactly
// when the second is not, as their references show. Read off the reference:
// the obligation of the same name carries it over to the implementation.
func (w *World) nilUnlessOK(name string) bool {
	if r, ok := w.nilMemo[name]; ok {
		return r
	}
	if w.nilMemo == nil {
		w.nilMemo = map[string]bool{}
	}
	f := w.Specs[name]
	r := f != nil && w.Impl[name] != nil && f.Signature.Results().Len() == 2 && f.Blocks != nil
	if r {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			x, e := ret.Results[0], ret.Results[1]
			switch {
			case isNilConst(x):
				r = r && w.surelyErr(e, b)
			case isNilConst(e):
				r = r && w.surelyNew(x, b, 0)
			default:
				r = false
			}
		}
	}
	w.nilMemo[name] = r
	return r
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// neverNil: functions whose only result is never nil, as their references
// show.
func (w *World) neverNil(name string) bool {
	if r, ok := w.nonNilMemo[name]; ok {
		return r
	}
	if w.nonNilMemo == nil {
		w.nonNilMemo = map[string]bool{}
	}
	f := w.Specs[name]
	r := f != nil && w.Impl[name] != nil && f.Signature.Results().Len() == 1 && f.Blocks != nil
	if r {
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
			r = false
		}
	}
	w.nonNilMemo[name] = false
	for _, b := range blocksOf(f, r) {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			r = r && w.surelyNew(ret.Results[0], b, 0)
		}
	}
	w.nonNilMemo[name] = r
	return r
}

func blocksOf(f *ssa.Function, ok bool) []*ssa.BasicBlock {
	if !ok {
		return nil
	}
	return f.Blocks
}

// surelyErr: a fresh error, or one the block is only reached with when it is
// not nil.
func (w *World) surelyErr(e ssa.Value, b *ssa.BasicBlock) bool {
	if c, ok := e.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && (fnName(f) == "fmt.Errorf" || fnName(f) == "errors.New") {
			return true
		}
	}
	return w.tested(e, b, false)
}

// tested: the block is only reached when e is (not) nil.
func (w *World) tested(e ssa.Value, b *ssa.BasicBlock, isNil bool) bool {
	eq, ne := token.EQL, token.NEQ
	if isNil {
		eq, ne = ne, eq
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if c, ok := i.Cond.(*ssa.BinOp); ok && c.X == e && isNilConst(c.Y) && (c.Op == ne && p.Succs[0] == d || c.Op == eq && p.Succs[1] == d) {
			return true
		}
	}
	return false
}

// surelyNew: an allocation, here or in every return of a callee.
func (w *World) surelyNew(x ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 0 || at != nil {
		if _, ok := x.(*ssa.Const); !ok && w.tested(x, at, false) {
			return true
		}
	}
	switch v := x.(type) {
	case *ssa.Phi:
		if depth > 3 {
			return false
		}
		for i, e := range v.Edges {
			if e != v && !w.surelyNew(e, v.Block().Preds[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok || v.Index != 0 || c.Call.StaticCallee() == nil || !w.nilUnlessOK(fnName(c.Call.StaticCallee())) {
			return false
		}
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && w.tested(e, at, true) {
				return true
			}
		}
		return false
	case *ssa.Alloc:
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !w.inModule(f) || depth > 3 || f.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !w.surelyNew(ret.Results[0], b, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// neverNilIn: no map of this type in the program is ever given a nil to hold,
// so what is found in one is not nil.
func (w *World) neverNilIn(M types.Type) bool {
	m, ok := M.Underlying().(*types.Map)
	if !ok {
		return false
	}
	switch m.Elem().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice:
	default:
		return false
	}
	if w.nilElems == nil {
		w.nilElems = map[string]bool{}
		// what holds an element found in another map depends on that one
		from := map[string][]string{}
		for _, f := range w.everyFunc() {
			for _, b := range f.Blocks {
				for i, ins := range b.Instrs {
					if c, ok := ins.(*ssa.ChangeType); ok {
						if _, ok := c.Type().Underlying().(*types.Map); ok {
							x, y := c.Type().String(), c.X.Type().String()
							from[x] = append(from[x], y)
							from[y] = append(from[y], x)
						}
					}
					u, ok := ins.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					T := u.Map.Type().String()
					if e := w.visited(u.Value, b, 0); e != nil {
						from[e.String()] = append(from[e.String()], T)
					} else if !w.notNil(u.Value, b, i, 0) {
						w.nilElems[T] = true
					}
				}
			}
		}
		for again := true; again; {
			again = false
			for e, ts := range from {
				for _, t := range ts {
					if w.nilElems[e] && !w.nilElems[t] {
						w.nilElems[t] = true
						again = true
					}
				}
			}
		}
	}
	return !w.nilElems[M.String()]
}

// visited: v is an element met going over a map; the type of that map.
func (w *World) visited(v ssa.Value, b *ssa.BasicBlock, depth int) types.Type {
	switch x := v.(type) {
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 && !n.IsString {
			if r, ok := n.Iter.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					return r.X.Type()
				}
			}
		}
	case *ssa.UnOp:
		if s := onlyStore(x); s != nil && depth < 3 {
			return w.visited(s.Val, s.Block(), depth+1)
		}
	}
	return nil
}

// onlyStore: the one assignment of the local variable x reads, made before it.
func onlyStore(x *ssa.UnOp) *ssa.Store {
	a, ok := x.X.(*ssa.Alloc)
	if !ok || x.Op != token.MUL {
		return nil
	}
	var st *ssa.Store
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != a || st != nil {
				return nil
			}
			st = r
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, bnd := range r.Bindings {
				if bnd != a {
					continue
				}
				for _, q := range *fn.FreeVars[i].Referrers() {
					if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, ok := q.(*ssa.DebugRef); !ok {
							return nil
						}
					}
				}
			}
		default:
			return nil
		}
	}
	if st == nil {
		return nil
	}
	if st.Block() == x.Block() {
		for _, ins := range st.Block().Instrs {
			if ins == st {
				return st
			}
			if ins == ssa.Instruction(x) {
				return nil
			}
		}
	}
	if st.Block().Dominates(x.Block()) {
		return st
	}
	return nil
}

// notNil: v is not nil where instruction i of b is reached.
func (w *World) notNil(v ssa.Value, b *ssa.BasicBlock, i int, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.ChangeInterface:
		return w.notNil(x.X, b, i, depth+1)
	case *ssa.MakeSlice:
		return true
	case *ssa.Call:
		// a list with something added to it
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if s, ok := x.Call.Args[1].(*ssa.Slice); ok && s.Low == nil && s.High == nil {
				if a, ok := s.X.(*ssa.Alloc); ok {
					if p, ok := a.Type().Underlying().(*types.Pointer); ok {
						if n, ok := p.Elem().Underlying().(*types.Array); ok && n.Len() > 0 {
							return true
						}
					}
				}
			}
			return w.notNil(x.Call.Args[0], b, i, depth+1)
		}
	case *ssa.UnOp:
		// what was just put in a variable
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && x.Block() == b {
			for j := i - 1; j >= 0; j-- {
				switch s := b.Instrs[j].(type) {
				case *ssa.Call:
					return false
				case *ssa.Store:
					if s.Addr == g {
						return w.notNil(s.Val, b, j, depth+1)
					}
				}
			}
		}
	case *ssa.Parameter:
		if w.derefed(v, b, i) {
			return true
		}
		f := x.Parent()
		k := -1
		for j, p := range f.Params {
			if p == x {
				k = j
			}
		}
		n := 0
		for _, h := range w.everyFunc() {
			for _, c := range h.Blocks {
				for j, ins := range c.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
						n++
						if !w.notNil(call.Common().Args[k], c, j, depth+1) {
							return false
						}
						for _, a := range call.Common().Args {
							if a == f {
								return false
							}
						}
						continue
					}
					for _, op := range ins.Operands(nil) {
						if *op == f {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return w.derefed(v, b, i) || w.surelyNew(v, b, 1)
}

// derefed: a field of what v points to is used before instruction i of b.
func (w *World) derefed(v ssa.Value, b *ssa.BasicBlock, i int) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		f, ok := r.(*ssa.FieldAddr)
		if !ok || f.X != v {
			continue
		}
		// an address is taken for a load or a store: with a nil pointer the
		// program ends there
		for _, u := range *f.Referrers() {
			switch u.(type) {
			case *ssa.UnOp, *ssa.Store:
				if u.Block() == b {
					for j := 0; j < i && j < len(b.Instrs); j++ {
						if b.Instrs[j] == u {
							return true
						}
					}
				} else if u.Block().Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}

// everyFunc: the functions of the module, the ones the compiler makes included.
func (w *World) everyFunc() []*ssa.Function {
	if w.every == nil {
		for f := range ssautil.AllFunctions(w.Prog) {
			if f.Blocks != nil && w.inModule(f) {
				w.every = append(w.every, f)
			}
		}
	}
	return w.every
}
