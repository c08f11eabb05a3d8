package main

import (
	"go/types"
)

// Maps: a cell per key written, and a version per map that later lookups of
// other keys, ranges and callees see.

// mapRead is the value under k in x.
func (g *GV) mapRead(st *State, x, k *Term, mt types.Type) *Term {
	if c := st.mem[g.ts.mk("mapcell", "", x, k)]; c != nil {
		return g.present(c, mt)
	}
	return g.mapLookup(st, x, k, mt)
}

func (g *GV) mapLookup(st *State, x, k *Term, mt types.Type) *Term {
	if k.Op == "mapkey" && g.inLoop(k) {
		// what is under the key the loop over the map is at
		m := g.ts.mk("lookup", "", g.mapArgs(st, x, k, mt)...)
		if y := k.A[0]; y == x && len(m.A) == 2 || y.Op == "at" && y.A[0] == x && len(m.A) == 3 && y.A[1] == m.A[2] {
			v := g.ts.mk("mapval", k.S, y)
			v.L = k.L
			if mt, ok := mt.Underlying().(*types.Map); ok && v.T == nil {
				v.T = mt.Elem()
			}
			return v
		}
	}
	t := g.ts.mk("lookup", "", g.mapArgs(st, x, k, mt)...)
	if m, ok := mt.Underlying().(*types.Map); ok && t.T == nil {
		t.T, t.M = m.Elem(), mt
	}
	return t
}

func (g *GV) mapArgs(st *State, x, k *Term, mt types.Type) []*Term {
	args := []*Term{x, k}
	w := g.verOf(st, mapTypeKey(mt), x)
	// writes of other constant keys do not matter
	for w != nil && w.Op == "mapver" && k.Op == "const" && w.A[0].Op == "const" && w.A[0] != k {
		if len(w.A) < 3 {
			w = nil
		} else {
			w = w.A[2]
		}
	}
	if w != nil {
		args = append(args, w)
	}
	return args
}

// present replaces what a deleted key reads as.
func (g *GV) present(c *Term, mt types.Type) *Term {
	switch c.Op {
	case "absent":
		if m, ok := mt.Underlying().(*types.Map); ok {
			return g.zero(m.Elem())
		}
		return g.ts.Nil()
	case "ite":
		if a, b := g.present(c.A[0], mt), g.present(c.A[1], mt); a != c.A[0] || b != c.A[1] {
			return g.ite(c.B, a, b)
		}
	}
	return c
}

// mapHas is whether k is in x.
func (g *GV) mapHas(st *State, x, k *Term, mt types.Type) *Node {
	B := g.ts.b
	look := g.mapLookup(st, x, k, mt)
	var rec func(c *Term) *Node
	rec = func(c *Term) *Node {
		switch {
		case c.Op == "absent":
			return B.False
		case c.Op == "ite":
			return B.ite(c.B, rec(c.A[0]), rec(c.A[1]))
		case c.Op == "lookup" && len(c.A) > 1 && c.A[0] == x && c.A[1] == k:
			return g.has(c)
		case c.Op == "loopv" || c.Op == "post":
			return B.atom(g.ts.mk("hasv", "", c))
		}
		return B.True
	}
	if c := st.mem[g.ts.mk("mapcell", "", x, k)]; c != nil {
		return rec(c)
	}
	return g.has(look)
}

func (g *GV) inLoop(k *Term) bool {
	for _, l := range g.loops {
		if l == k.L {
			return true
		}
	}
	return false
}

func (g *GV) has(look *Term) *Node {
	if look.Op == "mapval" {
		return g.ts.b.True
	}
	return g.ts.b.atom(g.ts.mk("has", "", look.A...))
}

// mapWrite puts v (or "absent") under k.
func (g *GV) mapWrite(st *State, x, k, v *Term, mt types.Type) {
	if x.Op == "ite" {
		for i, y := range x.A {
			n := x.B
			if i == 1 {
				n = g.ts.b.Not(n)
			}
			g.mapWrite(st, y, k, g.ite(n, v, g.mapCell(st, y, k, mt)), mt)
		}
		return
	}
	ts := g.ts
	ver := ts.mk("fver", mapTypeKey(mt), x)
	if k.Op != "mapkey" {
		args := []*Term{k, v}
		if o := st.mem[ver]; o != nil {
			args = append(args, o)
		}
		st.mem[ver] = ts.mk("mapver", "", args...)
		var stale []*Term
		for c := range st.mem {
			if c.Op == "mapcell" && c.A[0] == x && c.A[1] != k && !(k.Op == "const" && c.A[1].Op == "const") {
				stale = append(stale, c)
			}
		}
		for _, c := range stale {
			st.mem[c] = g.mapLookup(st, c.A[0], c.A[1], mt)
		}
	}
	st.mem[ts.mk("mapcell", "", x, k)] = v
}

func (g *GV) mapCell(st *State, x, k *Term, mt types.Type) *Term {
	if c := st.mem[g.ts.mk("mapcell", "", x, k)]; c != nil {
		return c
	}
	return g.mapLookup(st, x, k, mt)
}
