package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strings"
)

// noRotate: loops are left as they are written.
var noRotate bool

// rotated: a parser for the files of the repository that writes loops of the
// form
//
//	for x := f(); c; x = f() { B }           as  for { x := f(); if !c { break }; { B } }
//	for x, _ := f(y); c; x, _ = f(x) { B }   as  for x := y; ; { x, _ = f(x); if !c { break }; { B } }
//
// which is the same program with the call in one place.
func rotated(repo string) func(*token.FileSet, string, []byte) (*ast.File, error) {
	return func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
		f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments|parser.SkipObjectResolution)
		if f != nil && !noRotate && strings.HasPrefix(name, repo+"/") {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.ForStmt); ok {
					rotate(l)
				}
				return true
			})
			if err == nil {
				spellKeys(fset, f)
				unroll(f)
				flagLoops(f)
			}
		}
		return f, err
	}
}

const keysText = `package p
func zz_verif_keys[K ~int | ~int64 | ~uint | ~string | ~float64, V any](m map[K]V) (r []K) {
	for k := range m {
		r = append(r, k)
	}
	return r
}
func zz_verif_sorted[K ~int | ~int64 | ~uint | ~string | ~float64, V any](m map[K]V) (r []K) {
	for k := range m {
		r = append(r, k)
	}
	slices.Sort(r)
	return r
}
var _ = maps.Keys[map[int]int]
var _ = slices.Sort[[]int]
`

// spellKeys writes slices.Sorted(maps.Keys(m)) and slices.Collect(maps.Keys(m))
// as the loops they stand for.
func spellKeys(fset *token.FileSet, f *ast.File) {
	imports := 0
	for _, i := range f.Imports {
		if i.Name == nil && (i.Path.Value == `"maps"` || i.Path.Value == `"slices"`) {
			imports++
		}
	}
	if imports != 2 {
		return
	}
	of := func(e ast.Expr, pkg string) (string, *ast.CallExpr) {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return "", nil
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return "", nil
		}
		if id, ok := s.X.(*ast.Ident); !ok || id.Name != pkg {
			return "", nil
		}
		return s.Sel.Name, c
	}
	tag := ""
	for _, r := range fset.Position(f.Package).Filename {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			tag += string(r)
		} else {
			tag += "_"
		}
	}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		name, c := of(e, "slices")
		if c == nil || name != "Sorted" && name != "Collect" {
			return true
		}
		if k, m := of(c.Args[0], "maps"); m != nil && k == "Keys" {
			helper := "zz_verif_keys" + tag
			if name == "Sorted" {
				helper = "zz_verif_sorted" + tag
			}
			c.Fun = &ast.Ident{NamePos: c.Fun.Pos(), Name: helper}
			c.Args = m.Args
			found = true
		}
		return true
	})
	if !found {
		return
	}
	text := strings.ReplaceAll(strings.ReplaceAll(keysText, "zz_verif_keys", "zz_verif_keys"+tag), "zz_verif_sorted", "zz_verif_sorted"+tag)
	h, err := parser.ParseFile(fset, "zz_verif_keys.go", text, parser.SkipObjectResolution)
	if err == nil {
		f.Decls = append(f.Decls, h.Decls...)
	}
}

func rotate(l *ast.ForStmt) {
	in, ok1 := l.Init.(*ast.AssignStmt)
	po, ok2 := l.Post.(*ast.AssignStmt)
	if !ok1 || !ok2 || l.Cond == nil || po.Tok != token.ASSIGN || in.Tok != token.ASSIGN && in.Tok != token.DEFINE {
		return
	}
	if len(in.Rhs) != 1 || len(po.Rhs) != 1 || len(in.Lhs) != len(po.Lhs) {
		return
	}
	if _, ok := po.Rhs[0].(*ast.CallExpr); !ok {
		return
	}
	vars := map[string]bool{}
	for i := range in.Lhs {
		a, ok1 := in.Lhs[i].(*ast.Ident)
		b, ok2 := po.Lhs[i].(*ast.Ident)
		if !ok1 || !ok2 || a.Name != b.Name {
			return
		}
		if a.Name != "_" {
			vars[a.Name] = true
		}
	}
	captured := false
	ast.Inspect(l, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
					captured = true
				}
				return true
			})
		}
		return true
	})
	if captured {
		return
	}
	u := &unify{vars: vars}
	if !u.same(reflect.ValueOf(in.Rhs[0]), reflect.ValueOf(po.Rhs[0])) {
		return
	}
	if u.from == nil && uses(po.Rhs[0], vars) {
		return
	}
	step := *po
	if u.from == nil {
		step.Tok = in.Tok
		l.Init = nil
	} else {
		if in.Tok == token.DEFINE && len(vars) != 1 || uses(u.from, vars) {
			return
		}
		l.Init = &ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: in.Pos(), Name: u.name}}, TokPos: in.TokPos, Tok: in.Tok, Rhs: []ast.Expr{u.from}}
	}
	c := l.Cond.Pos()
	stop := &ast.IfStmt{
		If:   c,
		Cond: &ast.UnaryExpr{OpPos: c, Op: token.NOT, X: &ast.ParenExpr{Lparen: c, X: l.Cond, Rparen: l.Cond.End()}},
		Body: &ast.BlockStmt{Lbrace: c, List: []ast.Stmt{&ast.BranchStmt{TokPos: c, Tok: token.BREAK}}, Rbrace: c},
	}
	body := l.Body
	l.Cond, l.Post = nil, nil
	l.Body = &ast.BlockStmt{Lbrace: body.Lbrace, List: []ast.Stmt{&step, stop, body}, Rbrace: body.Rbrace}
}

func uses(e ast.Expr, vars map[string]bool) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
			found = true
		}
		return true
	})
	return found
}

// unify: the same expression, but for a variable of the loop in the second
// where the first has what the variable is to start from.
type unify struct {
	vars map[string]bool
	name string
	from ast.Expr
	text string
}

func (u *unify) same(a, b reflect.Value) bool {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if x, ok := a.Interface().(ast.Expr); ok {
			if y, ok := b.Interface().(*ast.Ident); ok && u.vars[y.Name] {
				t := plainText(x)
				if t == "" || u.from != nil && (u.name != y.Name || u.text != t) {
					return false
				}
				u.name, u.from, u.text = y.Name, x, t
				return true
			}
		}
		a, b = a.Elem(), b.Elem()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return u.same(a.Elem(), b.Elem())
	case reflect.Struct:
		if x, ok := a.Interface().(ast.CallExpr); ok && x.Ellipsis.IsValid() != b.Interface().(ast.CallExpr).Ellipsis.IsValid() {
			return false
		}
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).Type == reflect.TypeOf(token.NoPos) {
				continue
			}
			if !u.same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !u.same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

// plainText: an expression that only reads variables and fields.
func plainText(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.BasicLit:
		return x.Value
	case *ast.SelectorExpr:
		if t := plainText(x.X); t != "" {
			return t + "." + x.Sel.Name
		}
	}
	return ""
}
