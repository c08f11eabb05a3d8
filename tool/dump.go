package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func opaqueSet(op map[string]bool) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool { return op[fnName(f)] }
}

// Show prints a term with conditions spelled out.
func (g *GV) Show(t *Term) string {
	if t == nil {
		return "<nil>"
	}
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		if d > 8 {
			return "…"
		}
		switch t.Op {
		case "ite":
			return "(" + g.B().Str(t.B) + " ? " + rec(t.A[0], d+1) + " : " + rec(t.A[1], d+1) + ")"
		case "bool":
			return "[" + g.B().Str(t.B) + "]"
		case "exists":
			return "exists " + t.S + "{" + g.B().Str(t.B) + "}"
		case "const", "param", "global", "idx", "loopv", "out", "fn", "unk", "nil", "alloc", "lin":
			return t.String()
		case "fld":
			return rec(t.A[0], d+1) + "." + t.S
		case "elem":
			return rec(t.A[0], d+1) + "[" + rec(t.A[1], d+1) + "]"
		}
		var p []string
		for _, a := range t.A {
			p = append(p, rec(a, d+1))
		}
		s := t.Op
		if t.Op == "call" {
			s = t.S
		} else if t.S != "" {
			s += ":" + t.S
		}
		return s + "(" + strings.Join(p, ", ") + ")"
	}
	return rec(t, 0)
}

func (g *GV) Dump() {
	for _, l := range g.Loops {
		p := 0
		if l.Parent != nil {
			p = l.Parent.ID
		}
		fmt.Printf("LOOP L%d kind=%s dom=%s parent=L%d %s %s\n", l.ID, l.Kind, l.Dom, p, fnName(l.Fn), g.w.pos(l.Pos))
		for _, x := range l.Exits {
			fmt.Printf("   exit %s when %s\n", x.Kind, g.B().Str(x.Guard))
		}
		for _, v := range l.Phis {
			fmt.Printf("   var %s = %s init %s next %s\n", v.Name, v.V, g.Show(v.Init), g.Show(v.Next))
		}
	}
	for _, e := range g.Effects {
		var as []string
		for _, a := range e.A {
			as = append(as, g.Show(a))
		}
		var ls []string
		for _, l := range e.Loops {
			ls = append(ls, fmt.Sprintf("L%d", l.ID))
		}
		fmt.Printf("%3d %s %s(%s) loops=%v %s\n      when %s\n", e.Seq, e.Kind, e.Name, strings.Join(as, ", "), ls, g.w.pos(e.Pos), g.B().Str(e.Guard))
	}
	for _, u := range g.Unknown {
		fmt.Println("UNKNOWN", u)
	}
}
