package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program: every package of the repository under
// analysis, type-checked from source and lowered to SSA form.
type World struct {
	Repo       string
	Fset       *token.FileSet
	Pkgs       []*packages.Package // module packages only
	Prog       *ssa.Program
	ByPath     map[string]*ssa.Package
	Mod        map[*ssa.Package]bool
	every      []*ssa.Function
	Funcs      []*ssa.Function // every source function of the module, incl. closures
	sums       map[*ssa.Function]*Summary
	named      []types.Type
	recMemo    map[*ssa.Function]bool
	Specs      map[string]*ssa.Function // reference functions by the name of what they specify
	nilMemo    map[string]bool
	nonNilMemo map[string]bool
	nilElems   map[string]bool
	Alts       map[string][]*ssa.Function // further references of the same behaviour
	Impl       map[string]*ssa.Function   // functions of the repository by name
	BadSpec    map[string]string          // references that do not type-check against the tree
	Inv        *Inventory                 // the declarations the references were written against
	Renamed    []string                   // declarations given their old names back
}

const modPath = "github.com/mkobetic/coin"

var embedRE = regexp.MustCompile(`(?m)^//go:embed .*$`)

// extraOverlay replaces source files, for trying the checks on variants.
var extraOverlay map[string][]byte

const specFilePrefix = "zz_verif_spec_"

// specEdits records what had to be cut from the reference files because it
// does not type-check against the current source: 1 the body, 2 the function.
type specEdits struct {
	funcs   map[string]int
	imports map[string]bool
	why     map[string]string
}

func specName(base string) string {
	return specFilePrefix + strings.TrimSuffix(base, ".go") + "_ref.go"
}

// specOverlay places the reference functions of dir beside the code they
// specify, so that they are type-checked with the same unexported names.
func specOverlay(repo, dir string, ed *specEdits) map[string][]byte {
	out := map[string][]byte{}
	if dir == "" {
		return out
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		sub := filepath.Dir(rel)
		if sub == "root" {
			sub = "."
		}
		b, err := os.ReadFile(p)
		if err == nil {
			f := filepath.Join(repo, sub, specName(filepath.Base(p)))
			out[f] = ed.apply(f, b)
		}
		return nil
	})
	return out
}

func declKey(file string, d *ast.FuncDecl) string {
	k := d.Name.Name
	if d.Recv != nil && len(d.Recv.List) == 1 {
		t := d.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			k = id.Name + "." + k
		}
	}
	return file + ":" + k
}

func (ed *specEdits) apply(file string, src []byte) []byte {
	if len(ed.funcs)+len(ed.imports) == 0 {
		return src
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		return src
	}
	blank := func(a, b token.Pos, with string) {
		i, j := fset.Position(a).Offset, fset.Position(b).Offset
		rest := src[i:j]
		for k := range rest {
			if rest[k] != '\n' {
				rest[k] = ' '
			}
		}
		if k := bytes.IndexByte(rest, '\n'); k < 0 && len(rest) < len(with) || k >= 0 && k < len(with) {
			src = append(src[:i:i], append([]byte(with), src[i:]...)...)
			return
		}
		copy(rest, with)
	}
	for k := len(f.Decls) - 1; k >= 0; k-- {
		switch d := f.Decls[k].(type) {
		case *ast.FuncDecl:
			switch ed.funcs[declKey(file, d)] {
			case 1:
				blank(d.Body.Pos(), d.Body.End(), `{panic("?")}`)
			case 2:
				blank(d.Pos(), d.End(), "")
			}
		case *ast.GenDecl:
			for j := len(d.Specs) - 1; j >= 0; j-- {
				if is, ok := d.Specs[j].(*ast.ImportSpec); ok && ed.imports[file+":"+is.Path.Value] {
					blank(is.Pos(), is.End(), "_ "+is.Path.Value)
				}
			}
		}
	}
	return src
}

// cut decides what to remove for an error at file:line. It reports whether
// anything more could be removed.
func (ed *specEdits) cut(file string, line int, msg string, src []byte) bool {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		return false
	}
	at := func(n ast.Node) bool {
		return fset.Position(n.Pos()).Line <= line && line <= fset.Position(n.End()).Line
	}
	for _, is := range f.Imports {
		if at(is) && !ed.imports[file+":"+is.Path.Value] {
			ed.imports[file+":"+is.Path.Value] = true
			return true
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !at(fd) {
			continue
		}
		k := declKey(file, fd)
		if ed.funcs[k] == 0 {
			ed.why[k] = msg
		}
		if ed.funcs[k] < 2 {
			ed.funcs[k]++
			return true
		}
	}
	return false
}

func loadWorld(repo, specDir string) (*World, error) {
	repo, _ = filepath.Abs(repo)
	ed := &specEdits{map[string]int{}, map[string]bool{}, map[string]string{}}
	inv := readInventory(filepath.Join(specDir, "WORLD"))
	var notes []string
	if inv != nil && specDir != "" && inv.namesMissing(repo) {
		var old map[string][]byte
		over := map[string][]byte{}
		for f, b := range extraOverlay {
			over[f] = b
		}
		embedOverlay(repo, over)
		if old, notes = inv.undoRenames(repo, over); len(old) > 0 {
			saved := extraOverlay
			defer func() { extraOverlay = saved }()
			for f, b := range old {
				over[f] = b
			}
			extraOverlay = over
		}
	}
	for i := 0; i < 30; i++ {
		w, again, err := loadOnce(repo, specDir, ed)
		if err != nil || !again {
			if w != nil {
				w.Inv, w.Renamed = inv, notes
			}
			return w, err
		}
	}
	return nil, fmt.Errorf("reference files do not type-check against the current source")
}

// embedOverlay takes the embedded files, which the build generates, out of
// the picture.
func embedOverlay(repo string, overlay map[string][]byte) {
	files, _ := filepath.Glob(filepath.Join(repo, "cmd/coin2html/*.go"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if o := overlay[f]; o != nil {
			b = o
		}
		if embedRE.Match(b) {
			overlay[f] = embedRE.ReplaceAllFunc(b, func(m []byte) []byte { return append([]byte("//"), bytes.Repeat([]byte(" "), len(m)-2)...) })
		}
	}
}

func loadOnce(repo, specDir string, ed *specEdits) (*World, bool, error) {
	overlay := specOverlay(repo, specDir, ed)
	for f, b := range extraOverlay {
		overlay[f] = b
	}
	embedOverlay(repo, overlay)
	env := goEnv()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     env,
		Overlay: overlay,
		Tests:   false,

		ParseFile: rotated(repo),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, false, err
	}
	var errs, specErrs []string
	again := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			parts := strings.SplitN(e.Pos, ":", 3)
			if strings.HasPrefix(filepath.Base(parts[0]), specFilePrefix) && len(parts) > 1 {
				line, _ := strconv.Atoi(parts[1])
				if ed.cut(parts[0], line, e.Msg, overlay[parts[0]]) {
					again = true
				}
				specErrs = append(specErrs, e.Error())
				continue
			}
			errs = append(errs, e.Error())
		}
	})
	if again {
		return nil, true, nil
	}
	if errs = append(errs, specErrs...); len(errs) > 0 && !noRotate {
		noRotate = true
		return nil, true, nil
	} else if len(errs) > 0 {
		return nil, false, fmt.Errorf("type-check errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w := &World{Repo: repo, Fset: prog.Fset, Prog: prog, ByPath: map[string]*ssa.Package{}, Mod: map[*ssa.Package]bool{}}
	for i, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) || spkgs[i] == nil {
			continue
		}
		w.Pkgs = append(w.Pkgs, p)
		w.ByPath[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = spkgs[i]
		w.Mod[spkgs[i]] = true
		spkgs[i].Build()
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	w.Specs, w.Impl, w.BadSpec = map[string]*ssa.Function{}, map[string]*ssa.Function{}, map[string]string{}
	w.Alts = map[string][]*ssa.Function{}
	for _, p := range w.Pkgs {
		sp := w.ByPath[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")]
		add(sp.Func("init"))
		for _, o := range p.TypesInfo.Defs {
			fo, ok := o.(*types.Func)
			if !ok {
				continue
			}
			f := prog.FuncValue(fo)
			if f == nil || f.Blocks == nil {
				continue
			}
			add(f)
			if k := strings.Index(f.Name(), "__"); strings.HasPrefix(f.Name(), "spec_") && k > 0 {
				// another way to write the same thing
				if fd, ok := f.Syntax().(*ast.FuncDecl); !ok || ed.funcs[declKey(w.Fset.Position(f.Pos()).Filename, fd)] == 0 {
					n := fnName(f)
					n = n[:strings.LastIndex(n, "__")]
					w.Alts[n] = append(w.Alts[n], f)
				}
			} else if strings.HasPrefix(f.Name(), "spec_") {
				w.Specs[fnName(f)] = f
				file := w.Fset.Position(f.Pos()).Filename
				if fd, ok := f.Syntax().(*ast.FuncDecl); ok && ed.funcs[declKey(file, fd)] > 0 {
					w.BadSpec[fnName(f)] = ed.why[declKey(file, fd)]
				}
			} else if fo.Name() == "init" && fo.Type().(*types.Signature).Recv() == nil {
				n := strings.TrimSuffix(fnName(f), f.Name()) + "init_" + strings.TrimSuffix(filepath.Base(w.Fset.Position(f.Pos()).Filename), ".go")
				for w.Impl[n] != nil {
					n += "+"
				}
				w.Impl[n] = f
			} else {
				w.Impl[fnName(f)] = f
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		if a, b := w.Funcs[i].Pos(), w.Funcs[j].Pos(); a != b {
			return a < b
		}
		return w.Funcs[i].String() < w.Funcs[j].String()
	})
	return w, false, nil
}

func isSpec(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.HasPrefix(f.Name(), "spec_")
}

func (w *World) inModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg != nil {
		return w.Mod[f.Pkg]
	}
	if f.Parent() != nil {
		return w.inModule(f.Parent())
	}
	if o := f.Origin(); o != nil && o != f {
		return w.inModule(o)
	}
	return false
}

// fn resolves "pkg.Func" or "pkg.Type.Method" where pkg is the path relative
// to the module root ("" for the root package).
func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.ByPath[pkg]
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t := p.Type(name[:i])
		if t == nil {
			return nil
		}
		m := name[i+1:]
		for _, ptr := range []bool{false, true} {
			T := t.Type()
			if ptr {
				T = newPointer(T)
			}
			ms := w.Prog.MethodSets.MethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				s := ms.At(i)
				if s.Obj().Name() == m && len(s.Index()) == 1 {
					f := w.Prog.MethodValue(s)
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return p.Func(name)
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	r, err := filepath.Rel(w.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (w *World) inModulePkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}
