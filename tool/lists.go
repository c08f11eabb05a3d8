package main

import (
	"fmt"
	"go/types"
	"strings"
)

// concatLists is append(x, y...) for a y that was itself put together by
// appending to nothing: the same elements appended to x one after the other.
func (g *GV) concatLists(x, y *Term) *Term {
	if !g.grownFromNothing(y, 0) {
		return nil
	}
	return g.regrow(y, nil, x)
}

// grownFromNothing: y is nil or empty with elements appended.
func (g *GV) grownFromNothing(y *Term, d int) bool {
	if d > 8 {
		return false
	}
	switch y.Op {
	case "nil", "list":
		return true
	case "ite":
		return g.grownFromNothing(y.A[0], d+1) && g.grownFromNothing(y.A[1], d+1)
	case "append", "appendall":
		return g.grownFromNothing(y.A[0], d+1)
	case "out":
		v := lvarOf(y)
		return v != nil && g.grownFromNothing(v.Init, d+1) && g.grows(v.Next, v.V, d+1)
	}
	return y.isNil()
}

// grownFromNil: y is nil where it has no elements.
func (g *GV) grownFromNil(y *Term, d int) bool {
	if d > 8 {
		return false
	}
	switch y.Op {
	case "list":
		return len(y.A) > 0
	case "ite":
		return g.grownFromNil(y.A[0], d+1) && g.grownFromNil(y.A[1], d+1)
	case "append":
		return len(y.A) > 1 && g.grownFromNil(y.A[0], d+1)
	case "appendall":
		return g.grownFromNil(y.A[0], d+1)
	case "out":
		v := lvarOf(y)
		return v != nil && g.grownFromNil(v.Init, d+1) && g.grows(v.Next, v.V, d+1)
	}
	return y.isNil() && d > 0
}

// grows: t is v with elements appended that do not depend on it.
func (g *GV) grows(t, v *Term, d int) bool {
	if d > 12 {
		return false
	}
	if t == v {
		return true
	}
	switch t.Op {
	case "ite":
		for _, s := range g.B().Support(t.B) {
			if g.B().Atoms[s].contains(func(x *Term) bool { return x == v }) {
				return false
			}
		}
		return g.grows(t.A[0], v, d+1) && g.grows(t.A[1], v, d+1)
	case "append", "appendall":
		for _, e := range t.A[1:] {
			if e.contains(func(x *Term) bool { return x == v }) {
				return false
			}
		}
		return g.grows(t.A[0], v, d+1)
	case "out":
		w := lvarOf(t)
		return w != nil && g.grows(w.Init, v, d+1) && g.grows(w.Next, w.V, d+1) &&
			!w.Next.contains(func(x *Term) bool { return x == v })
	}
	return false
}

func lvarOf(t *Term) *LVar {
	if t.L == nil {
		return nil
	}
	for _, v := range t.L.Phis {
		if v.Out == t && v.V.Op == "loopv" {
			return v
		}
	}
	return nil
}

// regrow is t with what it was grown from (v, or nothing where v is nil)
// replaced by x.
func (g *GV) regrow(t, v, x *Term) *Term {
	if t == v || v == nil && t.isNil() {
		return x
	}
	ts := g.ts
	switch t.Op {
	case "list":
		if len(t.A) == 0 {
			return x
		}
		return g.appended(x, t.A)
	case "ite":
		return g.ite(t.B, g.regrow(t.A[0], v, x), g.regrow(t.A[1], v, x))
	case "append":
		return g.appended(g.regrow(t.A[0], v, x), t.A[1:])
	case "appendall":
		return ts.mk("appendall", "", g.regrow(t.A[0], v, x), t.A[1])
	}
	w := lvarOf(t)
	init := g.regrow(w.Init, v, x)
	name := strings.Replace(w.V.S, "@", fmt.Sprintf("+%d@", init.id), 1)
	n := &LVar{Name: w.Name, V: ts.mk("loopv", name), Out: ts.mk("out", name), Init: init}
	for _, o := range t.L.Phis {
		if o.V == n.V {
			return o.Out
		}
	}
	n.V.L, n.V.T, n.Out.L, n.Out.T = w.V.L, w.V.T, t.L, t.T
	n.Next = g.regrow(w.Next, w.V, n.V)
	t.L.Phis = append(t.L.Phis, n)
	return n.Out
}

func (g *GV) appended(x *Term, es []*Term) *Term {
	ts := g.ts
	switch {
	case x.isNil():
		return ts.mk("list", "", es...)
	case x.Op == "list":
		return ts.mk("list", "", append(append([]*Term{}, x.A...), es...)...)
	case x.Op == "append":
		return ts.mk("append", "", append(append([]*Term{}, x.A...), es...)...)
	}
	return ts.mk("append", "", append([]*Term{x}, es...)...)
}

// joined is strings.Join(y, "") for a y that was put together by appending.
func (g *GV) joined(y *Term) *Term {
	if !g.grownFromNothing(y, 0) || y.contains(func(t *Term) bool { return t.Op == "appendall" }) {
		return nil
	}
	return g.text(y, nil, nil)
}

func (g *GV) text(t, v, x *Term) *Term {
	ts := g.ts
	if t == v {
		return x
	}
	switch t.Op {
	case "ite":
		return g.ite(t.B, g.text(t.A[0], v, x), g.text(t.A[1], v, x))
	case "list":
		r := ts.Str("")
		for _, e := range t.A {
			r = g.concat(r, e)
		}
		return r
	case "append":
		r := g.text(t.A[0], v, x)
		for _, e := range t.A[1:] {
			r = g.concat(r, e)
		}
		return r
	}
	if t.isNil() {
		return ts.Str("")
	}
	w := lvarOf(t)
	init := g.text(w.Init, v, x)
	name := strings.Replace(w.V.S, "@", fmt.Sprintf("^%d@", init.id), 1)
	n := &LVar{Name: w.Name, V: ts.mk("loopv", name), Out: ts.mk("out", name), Init: init}
	for _, o := range t.L.Phis {
		if o.V == n.V {
			return o.Out
		}
	}
	n.V.L, n.Out.L = w.V.L, t.L
	n.V.T, n.Out.T = types.Typ[types.String], types.Typ[types.String]
	n.Next = g.text(w.Next, w.V, n.V)
	t.L.Phis = append(t.L.Phis, n)
	return n.Out
}

// joinedBy is strings.Join(y, sep) for a y that gets one element in each
// round of a loop: the text that has a separator added before every element
// but the first.
func (g *GV) joinedBy(y, sep *Term) *Term {
	ts := g.ts
	w := lvarOf(y)
	if w == nil && y.L != nil && y.Op == "loopv" {
		// as it is when the loop is left
		for _, v := range y.L.Phis {
			if v.V == y {
				w = v
			}
		}
	}
	if w == nil || y.L.Idx == nil || y.L.Idx.Op != "idx" || sep.contains(func(t *Term) bool { return t.L == y.L }) {
		return nil
	}
	if !w.Init.isNil() && !(w.Init.Op == "list" && len(w.Init.A) == 0) {
		return nil
	}
	if n := w.Next; n.Op != "append" || len(n.A) != 2 || n.A[0] != w.V || n.A[1].contains(func(t *Term) bool { return t == w.V }) {
		return nil
	}
	name := strings.Replace(w.V.S, "@", fmt.Sprintf("^j%d@", sep.id), 1)
	n := &LVar{Name: w.Name, V: ts.mk("loopv", name), Out: ts.mk("out", name), Init: ts.Str("")}
	for _, o := range y.L.Phis {
		if o.V == n.V {
			return o.as(y)
		}
	}
	n.V.L, n.Out.L = w.V.L, y.L
	n.V.T, n.Out.T = types.Typ[types.String], types.Typ[types.String]
	first := ts.ilt(y.L.Idx, ts.Int(1))
	n.Next = g.concat(g.ite(first, n.V, g.concat(n.V, sep)), w.Next.A[1])
	y.L.Phis = append(y.L.Phis, n)
	return n.as(y)
}

// as is the variable inside or after its loop, like y.
func (v *LVar) as(y *Term) *Term {
	if y.Op == "loopv" {
		return v.V
	}
	return v.Out
}
