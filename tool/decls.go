package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Declarations: constants, initial values of package variables and the
// struct tags decoders rely on, each against its spec_ counterpart.

// Decls lists the names of the declarations that have a reference.
func (w *World) Decls() map[string]types.Object {
	out := map[string]types.Object{}
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if !strings.HasPrefix(n, "spec_") {
				continue
			}
			switch o := sc.Lookup(n).(type) {
			case *types.Const, *types.Var, *types.TypeName:
				out[shortPkg(p.PkgPath)+"."+n[len("spec_"):]] = o
			}
		}
	}
	return out
}

func (w *World) checkDecl(name string, spec types.Object) (ds []Diff, stats string) {
	defer func() {
		if r := recover(); r != nil {
			ds = append(ds, Diff{What: fmt.Sprintf("analysis failed: %v", r)})
			if verbose {
				panic(r)
			}
		}
	}()
	impl := spec.Pkg().Scope().Lookup(spec.Name()[len("spec_"):])
	if impl == nil {
		if _, ok := spec.(*types.Const); ok {
			return nil, "missing"
		}
		return []Diff{{What: "declaration " + name + " is gone"}}, ""
	}
	bad := func(pos token.Pos, f string, a ...interface{}) {
		ds = append(ds, Diff{What: fmt.Sprintf(f, a...), Pos: pos})
	}
	switch s := spec.(type) {
	case *types.Const:
		var v constant.Value
		if c, ok := impl.(*types.Const); ok {
			v = c.Val()
		}
		if v == nil {
			return nil, "no longer a constant"
		}
		if !constant.Compare(s.Val(), token.EQL, v) {
			bad(impl.Pos(), "constant %s is %s, expected %s", name, v, s.Val())
		}
		return ds, "constant"
	case *types.TypeName:
		st, ok1 := s.Type().Underlying().(*types.Struct)
		it, ok2 := impl.Type().Underlying().(*types.Struct)
		if !ok1 {
			return nil, "not a struct"
		}
		if !ok2 {
			bad(impl.Pos(), "type %s is no longer a struct", name)
			return
		}
		tags := map[string]string{}
		for i := 0; i < it.NumFields(); i++ {
			tags[it.Field(i).Name()] = it.Tag(i)
		}
		n := 0
		for i := 0; i < st.NumFields(); i++ {
			if st.Tag(i) == "" {
				continue
			}
			n++
			f := st.Field(i).Name()
			if t, ok := tags[f]; !ok {
				bad(impl.Pos(), "field %s.%s is gone", name, f)
			} else if t != st.Tag(i) {
				bad(impl.Pos(), "field %s.%s is decoded from %s, expected %s", name, f, t, st.Tag(i))
			}
		}
		return ds, fmt.Sprintf("%d tagged fields", n)
	case *types.Var:
		g, st := w.initState(w.Prog.Package(spec.Pkg()))
		get := func(o types.Object) *Term {
			sp := w.Prog.Package(spec.Pkg())
			gl := sp.Var(o.Name())
			k := g.ts.mk("global", globalName(gl))
			k.T = gl.Type()
			return g.load(st, k, gl.Type().(*types.Pointer).Elem())
		}
		a := g.newSide(name, []*Term{get(spec)}, g.B().True)
		b := g.newSide(name, []*Term{get(impl)}, g.B().True)
		a.effs, b.effs = nil, nil
		c := &cmpr{g: g, budget: 20000, memo: map[string]bool{}, thMemo: map[*Node]*Node{}}
		ca, cb := a.canonical(nil), b.canonical(nil)
		if !c.eqv(ca.rets[0], cb.rets[0], g.B().True) {
			bad(impl.Pos(), "the initial value of %s differs: expected %s; found %s", name, c.show(ca.rets[0], nil), c.show(cb.rets[0], nil))
		}
		return ds, "initial value"
	}
	return nil, "?"
}

type initState struct {
	g  *GV
	st *State
}

var initStates = map[*ssa.Package]*initState{}

// initState evaluates the initialisers of a package's variables.
func (w *World) initState(p *ssa.Package) (*GV, *State) {
	if s := initStates[p]; s != nil {
		return s.g, s.st
	}
	g := newGV(w)
	g.rawGlobals = true
	g.Opaque = w.opaqueFn(0)
	start := &State{mem: map[*Term]*Term{}}
	if gd := p.Var("init$guard"); gd != nil {
		start.mem[g.ts.mk("global", globalName(gd))] = g.ts.BoolT(g.B().False)
	}
	_, _, st := g.Eval(p.Func("init"), nil, nil, start)
	initStates[p] = &initState{g, st}
	return g, st
}
