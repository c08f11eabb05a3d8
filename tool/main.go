package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("CPUPROFILE"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 4 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4], os.Getenv("VERIF_TIER")))
	}
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		w, err := loadWorld(repoDir(), os.Getenv("SPEC"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fn := w.fn(os.Args[2], os.Args[3])
		if f := w.Impl[os.Args[2]+"."+os.Args[3]]; f != nil {
			fn = f
		}
		if fn == nil {
			fmt.Println("no fn")
			os.Exit(2)
		}
		op := map[string]bool{}
		for _, a := range os.Args[4:] {
			op[a] = true
		}
		g := newGV(w)
		g.Opaque = opaqueSet(op)
		vals, ng, st := g.Root(fn)
		g.Dump()
		for i, v := range vals {
			fmt.Printf("RET %d: %s\n", i, g.Show(v))
		}
		fmt.Println("NORMAL:", g.B().Str(ng))
		for k, v := range st.mem {
			if baseOf(k).Op != "alloc" {
				fmt.Println("MEM", k, "=", g.Show(v))
			}
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "all" {
		// every obligation against one tree, the ones that fail
		w, err := loadWorld(repoDir(), os.Getenv("SPEC"))
		if err != nil {
			fmt.Println("ALARM", err)
			os.Exit(1)
		}
		all := readLines(os.Getenv("SPEC") + "/OBLIGATIONS")
		c := newChecker(w, all)
		c.quick = true
		bad := 0
		for _, n := range all {
			if o := c.decide(n); len(o.Diffs) > 0 {
				bad++
				for _, d := range o.Diffs {
					fmt.Printf("ALARM %s %s: %s\n", n, w.pos(d.Pos), d.What)
				}
			} else if o.How != "equal" {
				fmt.Println("   note:", n, o.How)
			}
		}
		var rn []string
		for r := range rules {
			rn = append(rn, r)
		}
		sort.Strings(rn)
		for _, r := range rn {
			for _, o := range safely(r, c, &Property{}, rules[r]) {
				for _, d := range o.Diffs {
					bad++
					fmt.Printf("ALARM rule:%s %s %s: %s\n", r, strings.ReplaceAll(o.Name, " ", "_"), w.pos(d.Pos), d.What)
				}
			}
		}
		fmt.Println(bad, "alarms")
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "world" {
		w, err := loadWorld(repoDir(), "")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Print(inventory(w.Pkgs).write())
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "rules" {
		verbose = os.Getenv("V") != ""
		runRules(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "refac" {
		repo := repoDir()
		runRefac(repo, os.Getenv("SPEC"))
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "gen" {
		only := map[string]bool{}
		for _, a := range os.Args[3:] {
			only[a] = true
		}
		if err := genSpecs("/repo", os.Args[2], only); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "eqv" {
		verbose = os.Getenv("V") != ""
		repo := repoDir()
		w, err := loadWorld(repo, os.Getenv("SPEC"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for f, m := range w.BadSpec {
			fmt.Println("BAD SPEC", f, m)
		}
		names := os.Args[2:]
		decls := w.Decls()
		level, _ := strconv.Atoi(os.Getenv("LEVEL"))
		if len(names) == 0 {
			for n := range decls {
				names = append(names, n)
			}
			for n := range w.Specs {
				names = append(names, n)
			}
			sort.Strings(names)
		}
		for _, n := range names {
			t := time.Now()
			var ds []Diff
			var st string
			if o := decls[n]; o != nil {
				ds, st = w.checkDecl(n, o)
			} else {
				ds, st = w.Equiv(n, nil, level, strings.Fields(os.Getenv("EXPAND"))...)
			}
			d := time.Since(t)
			if len(ds) == 0 && d < 2*time.Second && os.Getenv("Q") != "" {
				continue
			}
			fmt.Printf("%-50s %d diffs  %s  %v\n", n, len(ds), st, d.Round(time.Millisecond))
			for _, d := range ds {
				fmt.Printf("     %s: %s\n", w.pos(d.Pos), d.What)
			}
		}
		return
	}
	_ = strings.Join
}

func repoDir() string {
	for _, e := range []string{"REPO", "VERIF_REPO"} {
		if d := os.Getenv(e); d != "" {
			return d
		}
	}
	return "/repo"
}

// runRules prints the findings of the named rules (for development).
func runRules(names []string) {
	w, err := loadWorld(repoDir(), os.Getenv("SPEC"))
	if err != nil {
		fmt.Println("ALARM", err)
		return
	}
	c := newChecker(w, readLines(os.Getenv("SPEC")+"/OBLIGATIONS"))
	c.quick = true
	for _, n := range names {
		ok := 0
		for _, o := range safely(n, c, &Property{}, rules[n]) {
			if o.How != "" {
				ok++
				if verbose {
					fmt.Println("  ", o.Name, o.Where, o.How, o.Stats)
				}
			}
			for _, d := range o.Diffs {
				fmt.Printf("ALARM %s %s: %s\n", o.Name, w.pos(d.Pos), d.What)
			}
		}
		fmt.Println(n, ok, "fine")
	}
}
