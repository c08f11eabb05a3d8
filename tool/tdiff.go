package main

import (
	"fmt"
	"os"
)

// Development aid: where two terms part ways, looking through opaque names.

var leafOf = map[*Term]*Term{}
var tdiffOn = os.Getenv("TDIFF") != ""

func (g *GV) tdiff(a, b *Term, path string, n *int, seen map[[2]*Term]bool) {
	if a == b || *n <= 0 || seen[[2]*Term{a, b}] {
		return
	}
	seen[[2]*Term{a, b}] = true
	if a == nil || b == nil {
		fmt.Println("  TD nil", path)
		*n--
		return
	}
	if la, lb := leafOf[a], leafOf[b]; la != nil && lb != nil && a.Op == b.Op {
		g.tdiff(la, lb, path+"/"+a.Op, n, seen)
		return
	}
	if a.Op != b.Op || a.S != b.S || len(a.A) != len(b.A) {
		*n--
		fmt.Printf("  TD %s\n     %s\n  vs %s\n", path, clip(g.Show(a), 400), clip(g.Show(b), 400))
		if len(a.A) > 0 && a.Op == b.Op {
			in := map[*Term]bool{}
			for _, x := range a.A {
				in[x] = true
			}
			for _, x := range b.A {
				if !in[x] {
					fmt.Printf("     second has %d %s\n", x.id, clip(g.Show(x), 300))
					if leafOf[x] != nil {
						fmt.Printf("        %s\n", clip(g.Show(leafOf[x]), 600))
					}
				}
				delete(in, x)
			}
			for x := range in {
				fmt.Printf("     first has %d %s\n", x.id, clip(g.Show(x), 300))
				if leafOf[x] != nil {
					fmt.Printf("        %s\n", clip(g.Show(leafOf[x]), 600))
				}
			}
		}
		return
	}
	if a.B != b.B {
		g.ndiff(a.B, b.B, path+"/"+a.Op+".B", n, seen)
	}
	for i := range a.A {
		g.tdiff(a.A[i], b.A[i], fmt.Sprintf("%s/%s.%d", path, a.Op+a.S, i), n, seen)
	}
}

func (g *GV) ndiff(a, b *Node, path string, n *int, seen map[[2]*Term]bool) {
	if a == b || *n <= 0 {
		return
	}
	B := g.ts.b
	sa, sb := map[int]bool{}, map[int]bool{}
	for _, v := range B.Support(a) {
		sa[v] = true
	}
	var ea, eb []*Term
	for _, v := range B.Support(b) {
		sb[v] = true
		if !sa[v] {
			eb = append(eb, B.Atoms[v])
		}
	}
	for v := range sa {
		if !sb[v] {
			ea = append(ea, B.Atoms[v])
		}
	}
	if len(ea) == 0 && len(eb) == 0 {
		*n--
		fmt.Printf("  ND %s same atoms\n     %s\n  vs %s\n", path, clip(B.Str(a), 500), clip(B.Str(b), 500))
		return
	}
	for _, x := range ea {
		for _, y := range eb {
			if x.Op == y.Op && g.Show(x) == g.Show(y) || len(ea) == 1 && len(eb) == 1 {
				g.tdiff(x, y, path+"/atom", n, seen)
				return
			}
		}
	}
	*n--
	fmt.Printf("  ND %s\n", path)
	for _, x := range ea {
		fmt.Printf("     only first:  %s\n", clip(g.Show(x), 300))
	}
	for _, x := range eb {
		fmt.Printf("     only second: %s\n", clip(g.Show(x), 300))
	}
}
