package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// The references are type-checked beside the code they specify, so they share
// its declarations: a changed type, a method that newly hides a promoted one,
// a method the standard library looks for, or a new init function would change
// both sides alike. The inventory (spec/WORLD, written by "cv world") records
// the declarations the references were written against; what departs from it
// in a way that changes behaviour is reported for every obligation it reaches.
// It also allows renamed types, variables and fields to be recognised: they
// are given their old names back before the analysis starts.

type invField struct {
	Name, Type string
	Tagged     bool
	Embedded   bool
}

type invType struct {
	Kind    string // underlying type, "struct" for structs
	Fields  []invField
	Methods []string // declared
	Magic   string   // methods the standard library looks for, of T and *T
}

type Inventory struct {
	Types map[string]*invType
	Vars  map[string]string
	Order []string // variables in order of declaration
	Funcs map[string]bool
	Embed map[string]string // variables filled from files
}

// methods that the standard library calls when it finds them
var magicMethods = map[string]bool{
	"String": true, "GoString": true, "Error": true, "Format": true, "Scan": true,
	"MarshalJSON": true, "UnmarshalJSON": true, "MarshalText": true, "UnmarshalText": true, "AppendText": true,
	"MarshalXML": true, "UnmarshalXML": true, "MarshalXMLAttr": true, "UnmarshalXMLAttr": true, "IsZero": true,
	"MarshalBinary": true, "UnmarshalBinary": true, "AppendBinary": true, "GobEncode": true, "GobDecode": true,
	"WriteTo": true, "ReadFrom": true, "WriteString": true, "ReadByte": true, "UnreadByte": true, "ReadRune": true, "UnreadRune": true,
	"IsBoolFlag": true, "Get": true, "Unwrap": true, "Is": true, "As": true, "Timeout": true, "LogValue": true,
	"Seek": true, "ReadAt": true, "Close": true, "Deadline": true,
}

func qual(p *types.Package) string { return shortPkg(p.Path()) }

func tyStr(t types.Type) string { return types.TypeString(t, qual) }

func magicOf(t types.Type) string {
	var out []string
	for _, T := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(T)
		var m []string
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); magicMethods[n] {
				m = append(m, n)
			}
		}
		sort.Strings(m)
		out = append(out, strings.Join(m, ","))
	}
	return out[0] + ";" + out[1]
}

func inventory(pkgs []*packages.Package) *Inventory {
	inv := &Inventory{Types: map[string]*invType{}, Vars: map[string]string{}, Funcs: map[string]bool{}, Embed: map[string]string{}}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) || p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		var vars []*types.Var
		for _, n := range sc.Names() {
			if strings.HasPrefix(n, "spec_") {
				continue
			}
			full := shortPkg(p.PkgPath) + "." + n
			switch o := sc.Lookup(n).(type) {
			case *types.Var:
				inv.Vars[full] = tyStr(o.Type())
				vars = append(vars, o)
			case *types.Func:
				inv.Funcs[full] = true
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				it := &invType{Kind: tyStr(o.Type().Underlying()), Magic: magicOf(o.Type())}
				if st, ok := o.Type().Underlying().(*types.Struct); ok {
					it.Kind = "struct"
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						it.Fields = append(it.Fields, invField{f.Name(), tyStr(f.Type()), st.Tag(i) != "", f.Embedded()})
					}
				}
				if nt, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						m := nt.Method(i).Name()
						if strings.HasPrefix(m, "spec_") {
							continue
						}
						it.Methods = append(it.Methods, m)
						inv.Funcs[full+"."+m] = true
					}
				}
				sort.Strings(it.Methods)
				inv.Types[full] = it
			}
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
		for _, v := range vars {
			inv.Order = append(inv.Order, shortPkg(p.PkgPath)+"."+v.Name())
		}
		for _, f := range p.GoFiles {
			b := extraOverlay[f]
			if b == nil {
				b, _ = os.ReadFile(f)
			}
			for _, m := range embedVarRE.FindAllSubmatch(b, -1) {
				inv.Embed[shortPkg(p.PkgPath)+"."+string(m[2])] = strings.Join(strings.Fields(string(m[1])), " ")
			}
		}
	}
	return inv
}

func (inv *Inventory) write() string {
	var b strings.Builder
	b.WriteString("# declarations the references were written against; written by \"cv world\"\n")
	var ts, fs []string
	for t := range inv.Types {
		ts = append(ts, t)
	}
	for f := range inv.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(ts)
	sort.Strings(fs)
	for _, t := range ts {
		it := inv.Types[t]
		fmt.Fprintf(&b, "type\t%s\t%s\t%s\t%s\n", t, it.Kind, strings.Join(it.Methods, ","), it.Magic)
		for _, f := range it.Fields {
			fmt.Fprintf(&b, "field\t%s\t%s\t%v\t%v\n", f.Name, f.Type, f.Tagged, f.Embedded)
		}
	}
	for _, v := range inv.Order {
		fmt.Fprintf(&b, "var\t%s\t%s\n", v, inv.Vars[v])
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "func\t%s\n", f)
	}
	var es []string
	for v := range inv.Embed {
		es = append(es, v)
	}
	sort.Strings(es)
	for _, v := range es {
		fmt.Fprintf(&b, "embed\t%s\t%s\n", v, inv.Embed[v])
	}
	return b.String()
}

func readInventory(file string) *Inventory {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	inv := &Inventory{Types: map[string]*invType{}, Vars: map[string]string{}, Funcs: map[string]bool{}, Embed: map[string]string{}}
	var it *invType
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		switch f[0] {
		case "type":
			it = &invType{Kind: f[2], Magic: f[4]}
			if f[3] != "" {
				it.Methods = strings.Split(f[3], ",")
			}
			inv.Types[f[1]] = it
		case "field":
			it.Fields = append(it.Fields, invField{f[1], f[2], f[3] == "true", f[4] == "true"})
		case "var":
			inv.Vars[f[1]] = f[2]
			inv.Order = append(inv.Order, f[1])
		case "embed":
			inv.Embed[f[1]] = f[2]
		case "func":
			inv.Funcs[f[1]] = true
		}
	}
	return inv
}

var embedVarRE = regexp.MustCompile(`(?m)^//go:embed ([^\n]*)\n(?://[^\n]*\n)*var (\w+)`)

// ---------- renames

// namesMissing reports, from syntax alone, whether a type, variable or field
// of the inventory is no longer declared.
func (inv *Inventory) namesMissing(repo string) bool {
	types_ := map[string]map[string]bool{}
	vars := map[string]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "node_modules" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(p))
		pkg := filepath.ToSlash(rel)
		if pkg == "." {
			pkg = "coin"
		}
		src := extraOverlay[p]
		if src == nil {
			if src, err = os.ReadFile(p); err != nil {
				return nil
			}
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					for _, n := range s.Names {
						vars[pkg+"."+n.Name] = true
					}
				case *ast.TypeSpec:
					m := map[string]bool{}
					types_[pkg+"."+s.Name.Name] = m
					if st, ok := s.Type.(*ast.StructType); ok {
						for _, fl := range st.Fields.List {
							for _, n := range fl.Names {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
		return nil
	})
	for v := range inv.Vars {
		if !vars[v] {
			return true
		}
	}
	for t, it := range inv.Types {
		m := types_[t]
		if m == nil {
			return true
		}
		for _, f := range it.Fields {
			if !f.Embedded && !m[f.Name] {
				return true
			}
		}
	}
	return false
}

func split2(full string) (pkg, name string) {
	i := strings.LastIndexByte(full, '.')
	return full[:i], full[i+1:]
}

// undoRenames finds types, variables and fields that only changed their name
// and returns the sources with the old names back. Any one-to-one choice of
// names is sound: what is analysed is the same program under other names.
func (inv *Inventory) undoRenames(repo string, overlay map[string][]byte) (map[string][]byte, []string) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		Dir:  repo, Env: goEnv(), Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, nil
		}
	}
	cur := inventory(pkgs)
	back := map[types.Object]string{}
	var notes []string
	lookup := map[string]types.Object{}
	for _, p := range pkgs {
		for _, n := range p.Types.Scope().Names() {
			lookup[shortPkg(p.PkgPath)+"."+n] = p.Types.Scope().Lookup(n)
		}
	}
	give := func(o types.Object, full, old string) {
		back[o] = old
		notes = append(notes, full+" was "+old)
	}
	// types
	ren := map[string]string{} // new full name -> old full name
	norm := func(s string) string {
		for n, o := range ren {
			s = replaceWord(s, n, o)
		}
		return s
	}
	for t, it := range inv.Types {
		if cur.Types[t] != nil {
			continue
		}
		pkg, name := split2(t)
		var cands []string
		for t2, it2 := range cur.Types {
			p2, _ := split2(t2)
			if p2 != pkg || inv.Types[t2] != nil || ren[t2] != "" || (it.Kind == "struct") != (it2.Kind == "struct") {
				continue
			}
			same := it.Kind == it2.Kind || replaceWord(it2.Kind, t2, t) == it.Kind
			if it.Kind == "struct" {
				same = sameFieldNames(it, it2)
			}
			if same || len(it.Methods) > 0 && strings.Join(it.Methods, ",") == strings.Join(it2.Methods, ",") {
				cands = append(cands, t2)
			}
		}
		if len(cands) == 1 {
			ren[cands[0]] = t
			give(lookup[cands[0]], cands[0], name)
		}
	}
	// variables, by type and order
	group := func(list []string, have map[string]string, other map[string]string, isNew bool) map[string][]string {
		out := map[string][]string{}
		for _, v := range list {
			if _, ok := other[v]; ok {
				continue
			}
			pkg, _ := split2(v)
			ty := have[v]
			if isNew {
				ty = norm(ty)
			}
			out[pkg+" "+ty] = append(out[pkg+" "+ty], v)
		}
		return out
	}
	gone := group(inv.Order, inv.Vars, cur.Vars, false)
	fresh := group(cur.Order, cur.Vars, inv.Vars, true)
	for k, a := range gone {
		if b := fresh[k]; len(b) == len(a) {
			for i := range a {
				_, name := split2(a[i])
				give(lookup[b[i]], b[i], name)
			}
		}
	}
	// fields, by type and order
	for t, it := range inv.Types {
		now := t
		for n, o := range ren {
			if o == t {
				now = n
			}
		}
		it2 := cur.Types[now]
		tn, _ := lookup[now].(*types.TypeName)
		if it2 == nil || tn == nil {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		tagged := false
		for _, f := range it.Fields {
			tagged = tagged || f.Tagged
		}
		has := func(x *invType, n string) bool {
			for _, f := range x.Fields {
				if f.Name == n {
					return true
				}
			}
			return false
		}
		a, b := map[string][]string{}, map[string][]int{}
		for _, f := range it.Fields {
			if !f.Embedded && !has(it2, f.Name) {
				a[f.Type] = append(a[f.Type], f.Name)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Embedded() && !has(it, f.Name()) {
				ty := norm(tyStr(f.Type()))
				b[ty] = append(b[ty], i)
			}
		}
		for ty, as := range a {
			if bs := b[ty]; len(bs) == len(as) {
				for i := range as {
					f := st.Field(bs[i])
					if tagged && (f.Exported() || token.IsExported(as[i])) {
						continue // decoders go by the name
					}
					give(f, now+"."+f.Name(), as[i])
				}
			}
		}
		// an embedded field is named after its type
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Embedded() {
				continue
			}
			ft := f.Type()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem()
			}
			if nt, ok := ft.(*types.Named); ok {
				if old, ok := back[nt.Obj()]; ok {
					back[f] = old
				}
			}
		}
	}
	if len(back) == 0 {
		return nil, nil
	}
	type edit struct {
		off, n int
		s      string
	}
	edits := map[string]map[int]edit{}
	capture := map[types.Object]bool{}
	fset := token.NewFileSet()
	for _, p := range pkgs {
		if p.Fset != nil {
			fset = p.Fset
		}
		visit := func(id *ast.Ident, o types.Object) {
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			}
			old, ok := back[o]
			if !ok {
				return
			}
			if v, isVar := o.(*types.Var); !isVar || !v.IsField() {
				// would the old name mean something else here?
				if in := p.Types.Scope().Innermost(id.Pos()); in != nil {
					if _, x := in.LookupParent(old, id.Pos()); x != nil && x.Pkg() != nil && p.Types == o.Pkg() {
						capture[o] = true
					}
				}
			}
			pos := fset.Position(id.Pos())
			if edits[pos.Filename] == nil {
				edits[pos.Filename] = map[int]edit{}
			}
			edits[pos.Filename][pos.Offset] = edit{pos.Offset, len(id.Name), old}
		}
		for id, o := range p.TypesInfo.Defs {
			if o != nil {
				visit(id, o)
			}
		}
		for id, o := range p.TypesInfo.Uses {
			visit(id, o)
		}
	}
	if len(capture) > 0 {
		return nil, nil
	}
	out := map[string][]byte{}
	for file, es := range edits {
		src := overlay[file]
		if src == nil {
			src, err = os.ReadFile(file)
			if err != nil {
				return nil, nil
			}
		}
		var list []edit
		for _, e := range es {
			list = append(list, e)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b []byte
		at := 0
		for _, e := range list {
			b = append(append(b, src[at:e.off]...), e.s...)
			at = e.off + e.n
		}
		out[file] = append(b, src[at:]...)
	}
	sort.Strings(notes)
	return out, notes
}

func replaceWord(s, from, to string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, from)
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		end := i + len(from)
		isWord := func(c byte) bool {
			return c == '_' || c == '/' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
		}
		b.WriteString(s[:i])
		if (i > 0 && isWord(s[i-1])) || (end < len(s) && isWord(s[end])) {
			b.WriteString(from)
		} else {
			b.WriteString(to)
		}
		s = s[end:]
	}
}

func sameFieldNames(a, b *invType) bool {
	if len(a.Fields) != len(b.Fields) {
		return false
	}
	m := map[string]bool{}
	for _, f := range a.Fields {
		if !f.Embedded {
			m[f.Name] = true
		}
	}
	for _, f := range b.Fields {
		if !f.Embedded && !m[f.Name] {
			return false
		}
	}
	return true
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off")
}

// ---------- departures

type departure struct {
	what string
	pos  token.Pos
	hits func(f *ssa.Function, in ssa.Instruction) bool
}

// departures lists how the declarations differ from the inventory in ways
// that the comparison with the references cannot see.
func (w *World) departures(inv *Inventory, specInits map[string]bool) (out []departure) {
	cur := inventory(w.Pkgs)
	lookup := func(full string) types.Object {
		for _, p := range w.Pkgs {
			pkg, n := split2(full)
			if shortPkg(p.PkgPath) == pkg {
				return p.Types.Scope().Lookup(n)
			}
		}
		return nil
	}
	for t, it := range inv.Types {
		it2 := cur.Types[t]
		if it2 == nil {
			continue
		}
		o := lookup(t)
		if it.Magic != it2.Magic {
			nt := o.Type()
			out = append(out, departure{
				what: fmt.Sprintf("values of %s passed to the standard library now have other methods (%s, expected %s)", t, it2.Magic, it.Magic),
				pos:  o.Pos(),
				hits: func(f *ssa.Function, in ssa.Instruction) bool {
					mi, ok := in.(*ssa.MakeInterface)
					return ok && holds(mi.X.Type(), nt, 0) && !ownInterface(w, mi) && !onlySorted(mi)
				},
			})
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			if tyStr(o.Type().Underlying()) != it.Kind && narrower(it.Kind, o.Type()) {
				nt := o.Type()
				out = append(out, departure{
					what: fmt.Sprintf("%s is now %s and holds less than %s", t, tyStr(o.Type().Underlying()), it.Kind),
					pos:  o.Pos(),
					hits: func(f *ssa.Function, in ssa.Instruction) bool {
						v, ok := in.(ssa.Value)
						return ok && v.Type() != nil && holds(v.Type(), nt, 0)
					},
				})
			}
			continue
		}
		for _, f := range it.Fields {
			for i := 0; i < st.NumFields(); i++ {
				g := st.Field(i)
				if g.Name() != f.Name || tyStr(g.Type()) == f.Type || !narrower(f.Type, g.Type()) {
					continue
				}
				out = append(out, departure{
					what: fmt.Sprintf("field %s.%s is now %s and holds less than %s", t, f.Name, tyStr(g.Type()), f.Type),
					pos:  g.Pos(),
					hits: func(fn *ssa.Function, in ssa.Instruction) bool {
						switch x := in.(type) {
						case *ssa.FieldAddr:
							return structFieldVar(x.X.Type(), x.Field) == g
						case *ssa.Field:
							return structFieldVar(x.X.Type(), x.Field) == g
						}
						return false
					},
				})
			}
		}
	}
	usesGlobal := func(g *ssa.Global) func(*ssa.Function, ssa.Instruction) bool {
		return func(f *ssa.Function, in ssa.Instruction) bool {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
			return false
		}
	}
	for v, ty := range inv.Vars {
		if o, ok := lookup(v).(*types.Var); ok && tyStr(o.Type()) != ty && narrower(ty, o.Type()) {
			if g := w.Prog.Package(o.Pkg()).Var(o.Name()); g != nil {
				out = append(out, departure{fmt.Sprintf("variable %s is now %s and holds less than %s", v, tyStr(o.Type()), ty), o.Pos(), usesGlobal(g)})
			}
		}
	}
	for v := range inv.Vars {
		if o, ok := lookup(v).(*types.Var); ok && inv.Embed[v] != cur.Embed[v] {
			if g := w.Prog.Package(o.Pkg()).Var(o.Name()); g != nil {
				out = append(out, departure{fmt.Sprintf("variable %s is filled from %q, expected %q", v, cur.Embed[v], inv.Embed[v]), o.Pos(), usesGlobal(g)})
			}
		}
	}
	// init functions nobody specified, and what initialisers do on the side
	for _, sp := range w.ByPath {
		in := sp.Func("init")
		if in == nil || in.Blocks == nil {
			continue
		}
		var roots []*ssa.Function
		known := map[*ssa.Function]bool{}
		for n, f := range w.Impl {
			if f.Pkg == sp && strings.HasPrefix(lastName(n), "init_") && specInits[n] {
				known[f] = true
			}
		}
		for _, b := range in.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f.Pkg == sp && !known[f] && !isSpec(f) {
						roots = append(roots, f)
					}
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] || f.Blocks == nil || !w.inModule(f) {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var addr ssa.Value
					switch x := i.(type) {
					case *ssa.Store:
						addr = x.Addr
					case *ssa.MapUpdate:
						addr = x.Map
					case ssa.CallInstruction:
						walk(x.Common().StaticCallee())
						if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
							addr = x.Common().Args[0]
						}
					}
					for addr != nil {
						switch a := addr.(type) {
						case *ssa.FieldAddr:
							addr = a.X
						case *ssa.IndexAddr:
							addr = a.X
						case *ssa.UnOp:
							addr = a.X
						case *ssa.Slice:
							addr = a.X
						case *ssa.Global:
							full := shortPkg(a.Pkg.Pkg.Path()) + "." + a.Name()
							if a.Pkg != nil && w.Mod[a.Pkg] && inv.Vars[full] != "" {
								out = append(out, departure{fmt.Sprintf("%s is changed by %s while the package is initialised", full, fnName(f)), i.Pos(), usesGlobal(a)})
							}
							addr = nil
						default:
							addr = nil
						}
					}
				}
			}
		}
		for _, f := range roots {
			walk(f)
		}
	}
	return out
}

// ownInterface: an interface of the repository, which names what it calls.
func ownInterface(w *World, mi *ssa.MakeInterface) bool {
	n, ok := types.Unalias(mi.Type()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && w.inModulePkg(n.Obj().Pkg().Path())
}

func onlySorted(mi *ssa.MakeInterface) bool {
	rs := mi.Referrers()
	if rs == nil || len(*rs) == 0 {
		return false
	}
	for _, r := range *rs {
		c, ok := r.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sort" {
			return false
		}
	}
	return true
}

func structFieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return st.Field(i)
}

// holds: a value of type t contains one of type n that formatters or encoders reach.
func holds(t, n types.Type, depth int) bool {
	if types.Identical(t, n) {
		return true
	}
	if depth > 4 {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		return holds(p.Elem(), n, depth+1)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return holds(u.Elem(), n, depth+1)
	case *types.Array:
		return holds(u.Elem(), n, depth+1)
	case *types.Map:
		return holds(u.Key(), n, depth+1) || holds(u.Elem(), n, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && holds(u.Field(i).Type(), n, depth+2) {
				return true
			}
		}
	}
	return false
}

// narrower: the basic type now holds fewer values than the one named was.
func narrower(was string, now types.Type) bool {
	b, ok := now.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	lo := map[string][2]int{ // bits, 0 unsigned 1 signed 2 float
		"int": {64, 1}, "int64": {64, 1}, "int32": {32, 1}, "rune": {32, 1}, "int16": {16, 1}, "int8": {8, 1},
		"uint": {64, 0}, "uint64": {64, 0}, "uintptr": {64, 0}, "uint32": {32, 0}, "uint16": {16, 0}, "uint8": {8, 0}, "byte": {8, 0},
		"float64": {64, 2}, "float32": {32, 2},
	}
	a, ok1 := lo[was]
	c, ok2 := lo[b.Name()]
	if !ok1 || !ok2 {
		return false
	}
	if a[1] == c[1] {
		return c[0] < a[0]
	}
	if a[1] == 0 && c[1] == 1 {
		return c[0] <= a[0] && c[0] < 64 // a signed word still counts far enough
	}
	return true
}

// unknownCalls: functions of the repository a reference reaches without
// naming them, that it was not written against.
func (w *World) unknownCalls(inv *Inventory, spec *ssa.Function) (out []Diff) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g.Parent() != nil || isSpec(g) || !w.inModule(g) || g.Synthetic != "" {
						continue
					}
					if n := fnName(g); os.Getenv("UNSPEC") != "" && w.Specs[n] == nil {
						fmt.Println("unspecified:", fnName(spec), "calls", n)
					} else if !inv.Funcs[n] && !strings.HasPrefix(g.Name(), "init") {
						out = append(out, Diff{What: fmt.Sprintf("%s now stands for what was meant by a call of %s there", n, g.Name()), Pos: g.Pos()})
					}
				}
			}
		}
	}
	walk(spec)
	return out
}

// departed lists the departures that the function of an obligation meets,
// itself or in functions without an obligation of their own.
func (c *Checker) departed(name string) (out []Diff) {
	w := c.w
	if w.Inv == nil {
		return nil
	}
	if !c.depDone {
		c.depDone = true
		specInits := map[string]bool{}
		for n := range w.Specs {
			specInits[n] = true
		}
		c.deps = w.departures(w.Inv, specInits)
	}
	if s := w.Specs[name]; s != nil {
		out = append(out, w.unknownCalls(w.Inv, s)...)
	}
	if len(c.deps) == 0 {
		return out
	}
	if d := c.decls[name]; d != nil {
		if v, ok := d.(*types.Var); ok {
			if g := w.Prog.Package(v.Pkg()).Var(v.Name()[len("spec_"):]); g != nil {
				for _, dp := range c.deps {
					if dp.hits(nil, &ssa.Store{Addr: g, Val: g}) {
						out = append(out, Diff{What: dp.what, Pos: dp.pos})
					}
				}
			}
		}
		return out
	}
	hit := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !w.inModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for k, d := range c.deps {
					if !hit[k] && d.hits(f, in) {
						hit[k] = true
						out = append(out, Diff{What: d.what + "; " + fnName(f) + " depends on it", Pos: in.Pos()})
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && w.Specs[fnName(g)] == nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(w.Impl[name])
	return out
}
