package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: what outside of the process a command may touch.

// effectOf is what kind of thing a function outside the module may do to the
// world beyond reading files and writing to streams it is handed: "files",
// "network", "process" or "" for nothing.
func effectOf(g *ssa.Function, c ssa.CallInstruction) string {
	pkg := ""
	switch {
	case g.Pkg != nil:
		pkg = g.Pkg.Pkg.Path()
	case g.Object() != nil && g.Object().Pkg() != nil:
		pkg = g.Object().Pkg().Path()
	}
	name := g.Name()
	recv := ""
	if r := g.Signature.Recv(); r != nil {
		recv = strings.TrimPrefix(typeName(r.Type()), "*")
	}
	switch {
	case pkg == "":
		return ""
	case pkg == "os" && recv == "os.File":
		switch name {
		case "Close", "Name", "Read", "ReadAt", "ReadDir", "Readdir", "Readdirnames", "Seek", "Stat", "Write", "WriteAt", "WriteString", "WriteTo", "ReadFrom", "Sync", "Fd":
			return ""
		}
		return "files"
	case pkg == "os" && recv != "":
		return ""
	case pkg == "os":
		switch name {
		case "Open", "ReadFile", "ReadDir", "Getenv", "LookupEnv", "ExpandEnv", "Expand", "Environ", "Exit", "Getwd", "Stat", "Lstat",
			"IsNotExist", "IsExist", "IsPermission", "UserHomeDir", "TempDir", "Readlink", "DirFS", "IsPathSeparator", "Getpid", "init":
			return ""
		case "OpenFile":
			if c != nil && len(c.Common().Args) == 3 {
				if k, ok := c.Common().Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 0 {
					return ""
				}
			}
			return "files"
		case "Setenv", "Unsetenv", "Clearenv", "Chdir", "StartProcess", "FindProcess", "Getppid":
			return "process"
		}
		return "files"
	case pkg == "io/ioutil":
		switch name {
		case "WriteFile", "TempFile", "TempDir":
			return "files"
		}
		return ""
	case pkg == "net" || strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip" && pkg != "net/textproto" && pkg != "net/mail":
		return "network"
	case strings.Contains(pkg, "finance-go"):
		if name == "init" {
			return ""
		}
		return "network"
	case pkg == "os/exec" || pkg == "syscall" || pkg == "plugin" || pkg == "os/signal" || strings.HasPrefix(pkg, "golang.org/x/sys") || strings.HasPrefix(pkg, "log/syslog"):
		return "process"
	}
	return ""
}

type sink struct {
	kind, name string
	fn         *ssa.Function
	pos        token.Pos
}

// sinksOf: the effects a function has of its own accord.
func (f *flow) sinksOf(fn *ssa.Function) (out []sink) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, _ := ins.(ssa.CallInstruction)
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok || f.w.inModule(g) {
					continue
				}
				var at ssa.CallInstruction
				if c != nil && c.Common().Value == g {
					at = c
				}
				if n := fnName(g); n == "fmt.Print" || n == "fmt.Printf" || n == "fmt.Println" {
					if _, dies := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); !dies {
						out = append(out, sink{"stdout", n, fn, ins.Pos()})
					}
				}
				if k := effectOf(g, at); k != "" {
					out = append(out, sink{k, fnName(g), fn, ins.Pos()})
				}
			}
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && globalName(g) == "os.Stdout" {
					out = append(out, sink{"stdout", "os.Stdout", fn, ins.Pos()})
				} else if ok && g.Pkg != nil && !f.w.inModulePkg(g.Pkg.Pkg.Path()) && g.Pkg.Pkg.Path() == "net/http" {
					out = append(out, sink{"network", globalName(g), fn, ins.Pos()})
				}
			}
		}
	}
	return out
}

// allowedSinks: the effects commands have on purpose. Under which options and
// on which paths they have them is decided by the obligations on these commands.
var allowedSinks = map[string][]string{
	"coin format":      {"files os.CreateTemp", "files os.Rename", "files os.Remove"},
	"coin modify":      {"files os.CreateTemp", "files os.Rename", "files os.Remove"},
	"coin test":        {"files os.CreateTemp", "files os.Rename", "files os.Remove"},
	"coin commodities": {"network "},
	"gc2coin":          {"files os.Create", "stdout "},
	"gen2coin":         {"files os.Create", "stdout "},
	"csv2coin":         {"stdout "},
	"ofx2coin":         {"stdout "},
	"coin2html":        {"stdout "},
	"coin":             {"stdout os.Stdout"}, // handed to the command
}

// effectsByCommand: no command but the named ones reaches a call that changes
// files, uses the network or starts processes.
func effectsByCommand(c *Checker, p *Property) []*Outcome {
	w := c.w
	f := w.flow()
	entries := map[string][]*ssa.Function{}
	for _, fn := range f.funcs {
		if fn.Parent() != nil || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		n := fnName(fn)
		recv := ""
		if r := fn.Signature.Recv(); r != nil {
			recv = strings.TrimPrefix(typeName(r.Type()), "*")
		}
		pkg := ""
		if fn.Pkg != nil {
			pkg = shortPkg(fn.Pkg.Pkg.Path())
		}
		switch {
		case fn.Name() == "main" && recv == "":
			entries[strings.TrimPrefix(pkg, "cmd/")] = append(entries[strings.TrimPrefix(pkg, "cmd/")], fn)
		case recv == "" && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")):
			entries["initialising "+strings.TrimPrefix(pkg, "cmd/")] = append(entries["initialising "+strings.TrimPrefix(pkg, "cmd/")], fn)
		case strings.HasPrefix(recv, "cmd/coin.cmd"):
			e := "coin " + strings.ToLower(strings.TrimPrefix(recv, "cmd/coin.cmd"))
			entries[e] = append(entries[e], fn)
		case !strings.HasPrefix(pkg, "cmd/") && fn.Object() != nil && fn.Object().Exported():
			entries["package "+pkg] = append(entries["package "+pkg], fn)
		}
		_ = n
	}
	var names []string
	for e := range entries {
		names = append(names, e)
	}
	sort.Strings(names)
	for _, e := range []string{"coin", "coin balance", "coin register", "coin format", "coin modify", "coin test", "csv2coin", "ofx2coin", "gc2coin", "gen2coin", "package coin"} {
		if entries[e] == nil {
			return []*Outcome{{Name: "effects " + e, Kind: "effects", Diffs: []Diff{{What: "not found: " + e}}}}
		}
	}
	var outs []*Outcome
	for _, e := range names {
		via, order := f.reachUnless(entries[e], func(cc *ssa.CallCommon) bool { return dispatchesCommand(cc) })
		o := &Outcome{Name: "effects of " + e, Kind: "effects", How: "no effect on files, network, processes or the standard output other than through what it is handed"}
		if len(allowedSinks[e]) > 0 {
			o.How = "only " + strings.Join(allowedSinks[e], ", ")
		}
		n := 0
		for _, fn := range order {
			if !w.inModule(fn) {
				continue
			}
			n++
			for _, s := range f.sinksOf(fn) {
				ok := false
				for _, a := range allowedSinks[e] {
					ok = ok || strings.HasPrefix(s.kind+" "+s.name, a)
				}
				if !ok {
					o.How = ""
					o.Diffs = append(o.Diffs, Diff{What: fmt.Sprintf("%s may reach %s (%s): %s", e, s.name, s.kind, pathTo(via, fn)), Pos: s.pos})
				}
			}
		}
		o.Where = w.pos(entries[e][0].Pos())
		o.Stats = fmt.Sprintf("%d functions reached", n)
		outs = append(outs, o)
	}
	return outs
}

// dispatchesCommand: a call through the interface of all commands, which runs
// whatever command the user asked for.
func dispatchesCommand(cc *ssa.CallCommon) bool {
	return cc.IsInvoke() && strings.HasSuffix(typeName(cc.Value.Type()), "cmd/coin.command")
}

func init() {
	rules["effects-by-command"] = effectsByCommand
}
