package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"reflect"
)

const maxUnroll = 8

// unroll writes a loop over a list that is spelled out as its body once for
// each of the elements.
func unroll(f *ast.File) {
	n := 0
	ast.Inspect(f, func(x ast.Node) bool {
		var list *[]ast.Stmt
		switch x := x.(type) {
		case *ast.BlockStmt:
			list = &x.List
		case *ast.CaseClause:
			list = &x.Body
		case *ast.CommClause:
			list = &x.Body
		default:
			return true
		}
		for i := 0; i < len(*list); i++ {
			r, ok := (*list)[i].(*ast.RangeStmt)
			if !ok {
				continue
			}
			lit, _ := r.X.(*ast.CompositeLit)
			named := false
			if id, ok := r.X.(*ast.Ident); ok && i > 0 {
				// a variable made just for the loop
				if a, ok := (*list)[i-1].(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					if v, ok := a.Lhs[0].(*ast.Ident); ok && v.Name == id.Name {
						lit, _ = a.Rhs[0].(*ast.CompositeLit)
						named = true
						vars := map[string]bool{id.Name: true}
						for _, s := range (*list)[i+1:] {
							if usesIn(s, vars) {
								lit = nil
							}
						}
						if usesIn(r.Body, vars) {
							lit = nil
						}
					}
				}
			}
			if lit == nil {
				continue
			}
			if b := unrolled(r, lit, &n); b != nil {
				if named {
					(*list)[i-1] = &ast.EmptyStmt{Semicolon: r.Pos(), Implicit: true}
				}
				(*list)[i] = b
			}
		}
		return true
	})
}

func unrolled(r *ast.RangeStmt, lit *ast.CompositeLit, n *int) ast.Stmt {
	at, ok := lit.Type.(*ast.ArrayType)
	if !ok || len(lit.Elts) == 0 || len(lit.Elts) > maxUnroll || r.Tok != token.DEFINE || jumps(r.Body) {
		return nil
	}
	name := func(e ast.Expr) (string, bool) {
		if e == nil {
			return "", true
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}
		if id.Name == "_" {
			return "", true
		}
		return id.Name, true
	}
	key, ok1 := name(r.Key)
	val, ok2 := name(r.Value)
	if !ok1 || !ok2 {
		return nil
	}
	p := r.Pos()
	id := func(s string) *ast.Ident { return &ast.Ident{NamePos: p, Name: s} }
	define := func(s string, e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{id(s)}, TokPos: p, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	}
	ignore := func(s string) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, TokPos: p, Tok: token.ASSIGN, Rhs: []ast.Expr{id(s)}}
	}
	out := &ast.BlockStmt{Lbrace: p, Rbrace: r.End()}
	var names []string
	for _, e := range lit.Elts {
		if _, ok := e.(*ast.KeyValueExpr); ok {
			return nil
		}
		if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
			t := cloned(at.Elt)
			if s, ok := t.(*ast.StarExpr); ok {
				d := *c
				d.Type = s.X
				e = &ast.UnaryExpr{OpPos: c.Pos(), Op: token.AND, X: &d}
			} else {
				d := *c
				d.Type = t
				e = &d
			}
		}
		*n++
		s := fmt.Sprintf("zz_verif_elem%d", *n)
		names = append(names, s)
		out.List = append(out.List,
			&ast.DeclStmt{Decl: &ast.GenDecl{TokPos: p, Tok: token.VAR, Specs: []ast.Spec{
				&ast.ValueSpec{Names: []*ast.Ident{id(s)}, Type: cloned(at.Elt), Values: []ast.Expr{e}}}}},
			ignore(s))
	}
	for i, s := range names {
		b := &ast.BlockStmt{Lbrace: p, Rbrace: r.End()}
		if key != "" {
			b.List = append(b.List, define(key, &ast.BasicLit{ValuePos: p, Kind: token.INT, Value: fmt.Sprint(i)}), ignore(key))
		}
		if val != "" {
			b.List = append(b.List, define(val, id(s)), ignore(val))
		}
		b.List = append(b.List, cloned(r.Body))
		out.List = append(out.List, b)
	}
	return out
}

// jumps: the body leaves the loop or goes on with its next round other than
// by reaching its end, or has labels.
func jumps(b *ast.BlockStmt) bool {
	found := false
	var walk func(n ast.Node, inLoop, inSwitch bool)
	walk = func(n ast.Node, inLoop, inSwitch bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.LabeledStmt:
				found = true
			case *ast.ForStmt, *ast.RangeStmt:
				walk(x, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(x, inLoop, true)
				return false
			case *ast.BranchStmt:
				switch {
				case x.Label != nil, x.Tok == token.GOTO:
					found = true
				case x.Tok == token.CONTINUE && !inLoop, x.Tok == token.BREAK && !inSwitch:
					found = true
				}
			}
			return true
		})
	}
	walk(b, false, false)
	return found
}

func usesIn(n ast.Node, vars map[string]bool) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && vars[id.Name] {
			found = true
		}
		return true
	})
	return found
}

// cloned is a copy of a piece of syntax.
func cloned[T ast.Node](n T) T {
	return cloneValue(reflect.ValueOf(&n).Elem()).Interface().(T)
}

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(cloneValue(v.Elem()))
		return r
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return reflect.Zero(v.Type())
		}
		r := reflect.New(v.Type().Elem())
		r.Elem().Set(cloneValue(v.Elem()))
		return r
	case reflect.Struct:
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			r.Field(i).Set(cloneValue(v.Field(i)))
		}
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(cloneValue(v.Index(i)))
		}
		return r
	}
	return v
}
