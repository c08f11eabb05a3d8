package main

import (
	"fmt"
	"sort"
	"strings"
)

// Reduced ordered binary decision diagrams: the canonical form for path
// conditions over atomic predicates.

type Node struct {
	v      int // atom index; -1 terminal
	lo, hi *Node
	id     int
	val    bool
}

type BDD struct {
	True, False *Node
	uniq        map[[3]int]*Node
	memo        map[[3]int]*Node
	n           int
	Atoms       []*Term
	atomIdx     map[*Term]int
}

func newBDD() *BDD {
	b := &BDD{uniq: map[[3]int]*Node{}, memo: map[[3]int]*Node{}, atomIdx: map[*Term]int{}}
	b.False = &Node{v: -1, id: 0, val: false}
	b.True = &Node{v: -1, id: 1, val: true}
	b.n = 2
	return b
}

const maxNodes = 6000000

func (b *BDD) mk(v int, lo, hi *Node) *Node {
	tick()
	if lo == hi {
		return lo
	}
	k := [3]int{v, lo.id, hi.id}
	if n := b.uniq[k]; n != nil {
		return n
	}
	if b.n > maxNodes {
		panic("conditions too large")
	}
	n := &Node{v: v, lo: lo, hi: hi, id: b.n}
	b.n++
	b.uniq[k] = n
	return n
}

func (b *BDD) atom(t *Term) *Node {
	i, ok := b.atomIdx[t]
	if !ok {
		i = len(b.Atoms)
		b.Atoms = append(b.Atoms, t)
		b.atomIdx[t] = i
	}
	return b.mk(i, b.False, b.True)
}

func (b *BDD) ite(f, g, h *Node) *Node {
	if f == b.True {
		return g
	}
	if f == b.False {
		return h
	}
	if g == h {
		return g
	}
	if g == b.True && h == b.False {
		return f
	}
	k := [3]int{f.id, g.id, h.id}
	if n := b.memo[k]; n != nil {
		return n
	}
	v := f.v
	if g.v >= 0 && g.v < v {
		v = g.v
	}
	if h.v >= 0 && h.v < v {
		v = h.v
	}
	lo := b.ite(cof(f, v, false), cof(g, v, false), cof(h, v, false))
	hi := b.ite(cof(f, v, true), cof(g, v, true), cof(h, v, true))
	n := b.mk(v, lo, hi)
	if len(b.memo) > 8000000 {
		b.memo = map[[3]int]*Node{}
	}
	b.memo[k] = n
	return n
}

func cof(n *Node, v int, val bool) *Node {
	if n.v != v {
		return n
	}
	if val {
		return n.hi
	}
	return n.lo
}

func (b *BDD) And(x ...*Node) *Node {
	r := b.True
	for _, n := range x {
		r = b.ite(r, n, b.False)
	}
	return r
}
func (b *BDD) Or(x ...*Node) *Node {
	r := b.False
	for _, n := range x {
		r = b.ite(r, b.True, n)
	}
	return r
}
func (b *BDD) Not(x *Node) *Node    { return b.ite(x, b.False, b.True) }
func (b *BDD) Xor(x, y *Node) *Node { return b.ite(x, b.Not(y), y) }
func (b *BDD) Imp(x, y *Node) *Node { return b.ite(x, y, b.True) }
func (b *BDD) Bool(v bool) *Node {
	if v {
		return b.True
	}
	return b.False
}

// Restrict sets atom a to val.
func (b *BDD) Restrict(n *Node, v int, val bool) *Node {
	memo := map[int]*Node{}
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		if n.v < 0 || n.v > v {
			return n
		}
		if m := memo[n.id]; m != nil {
			return m
		}
		var r *Node
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = b.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[n.id] = r
		return r
	}
	return rec(n)
}

func (b *BDD) Exists(n *Node, v int) *Node {
	return b.Or(b.Restrict(n, v, true), b.Restrict(n, v, false))
}

func (b *BDD) Support(ns ...*Node) []int {
	seen := map[int]bool{}
	vs := map[int]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.v < 0 || seen[n.id] {
			return
		}
		seen[n.id] = true
		vs[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	for _, n := range ns {
		rec(n)
	}
	var out []int
	for v := range vs {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// Simplify drops from f what is already known under care (generalized cofactor).
func (b *BDD) Simplify(f, care *Node) *Node {
	if care == b.False || care == b.True {
		return f
	}
	memo := map[[2]int]*Node{}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if c == b.True || f.v < 0 {
			return f
		}
		if c == b.False {
			return f
		}
		k := [2]int{f.id, c.id}
		if m := memo[k]; m != nil {
			return m
		}
		var r *Node
		if c.v >= 0 && c.v < f.v {
			r = rec(f, b.Or(c.lo, c.hi))
		} else {
			cl, ch := cof(c, f.v, false), cof(c, f.v, true)
			if cl == b.False {
				r = rec(f.hi, ch)
			} else if ch == b.False {
				r = rec(f.lo, cl)
			} else {
				r = b.mk(f.v, rec(f.lo, cl), rec(f.hi, ch))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// Constrain is the generalized cofactor: the result depends only on f where
// care holds, and it commutes with the Boolean operations.
func (b *BDD) Constrain(f, care *Node) *Node {
	if care == b.False {
		return f
	}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if c == b.True || f.v < 0 {
			return f
		}
		if f == c {
			return b.True
		}
		k := [3]int{-1, f.id, c.id}
		if m := b.memo[k]; m != nil {
			return m
		}
		v := f.v
		if c.v < v {
			v = c.v
		}
		cl, ch := cof(c, v, false), cof(c, v, true)
		var r *Node
		switch {
		case cl == b.False:
			r = rec(cof(f, v, true), ch)
		case ch == b.False:
			r = rec(cof(f, v, false), cl)
		default:
			r = b.mk(v, rec(cof(f, v, false), cl), rec(cof(f, v, true), ch))
		}
		b.memo[k] = r
		return r
	}
	return rec(f, care)
}

func (b *BDD) Str(n *Node) string {
	if n == b.True {
		return "true"
	}
	if n == b.False {
		return "false"
	}
	var parts []string
	var rec func(n *Node, acc []string)
	rec = func(n *Node, acc []string) {
		if len(parts) > 12 {
			return
		}
		if n == b.False {
			return
		}
		if n == b.True {
			parts = append(parts, strings.Join(acc, " && "))
			return
		}
		a := b.Atoms[n.v].String()
		rec(n.hi, append(append([]string{}, acc...), a))
		rec(n.lo, append(append([]string{}, acc...), "!("+a+")"))
	}
	rec(n, nil)
	s := strings.Join(parts, "  ||  ")
	if len(parts) > 12 {
		s += " || ..."
	}
	return s
}

var _ = fmt.Sprint
