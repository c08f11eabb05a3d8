package main

import (
	"go/ast"
	"go/token"
)

// flagLoops writes
//
//	ok := true; for i := 0; ok && c; i++ { B }   as   ok := true; for i := 0; c; i++ { B; if !ok { break } }
//
// (and the same for a variable that starts false and is asked for negated):
// the variable is looked at where it was set, and not again at the head.
func flagLoops(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		default:
			return true
		}
		for k, s := range list {
			if l, ok := s.(*ast.ForStmt); ok && l.Cond != nil {
				flagLoop(list[:k], l)
			}
		}
		return true
	})
}

func flagLoop(before []ast.Stmt, l *ast.ForStmt) {
	id, neg, rest := flagOf(l.Cond)
	if id == nil {
		return
	}
	vars := map[string]bool{id.Name: true}
	// what the loop steps is not to be seen after it
	switch p := l.Post.(type) {
	case nil:
	case *ast.IncDecStmt:
		in, ok := l.Init.(*ast.AssignStmt)
		v, ok2 := p.X.(*ast.Ident)
		if !ok || !ok2 || in.Tok != token.DEFINE || v.Name == id.Name {
			return
		}
		found := false
		for _, x := range in.Lhs {
			if y, ok := x.(*ast.Ident); ok && y.Name == v.Name {
				found = true
			} else if ok && y.Name == id.Name {
				return
			}
		}
		if !found {
			return
		}
	default:
		return
	}
	if l.Init != nil {
		if in, ok := l.Init.(*ast.AssignStmt); !ok {
			return
		} else {
			for _, x := range append(append([]ast.Expr{}, in.Lhs...), in.Rhs...) {
				if uses(x, vars) {
					return
				}
			}
		}
	}
	// nothing of what stays at the head may do anything
	plain := true
	if rest != nil {
		ast.Inspect(rest, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if f, ok := x.Fun.(*ast.Ident); !ok || f.Name != "len" {
					plain = false
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					plain = false
				}
			case *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr:
				plain = false
			}
			return true
		})
		if uses(rest, vars) {
			plain = false
		}
	}
	if !plain || !startsAs(before, id.Name, !neg) {
		return
	}
	bad, sets := false, 0
	ast.Inspect(l.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.GOTO || x.Label != nil {
				bad = true
			}
		case *ast.FuncLit, *ast.LabeledStmt:
			bad = true
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				if v, ok := e.(*ast.Ident); ok && v.Name == id.Name {
					if x.Tok == token.DEFINE {
						bad = true
					}
					sets++
				}
			}
		case *ast.UnaryExpr:
			if v, ok := x.X.(*ast.Ident); ok && x.Op == token.AND && v.Name == id.Name {
				bad = true
			}
		case *ast.ValueSpec:
			for _, v := range x.Names {
				if v.Name == id.Name {
					bad = true
				}
			}
		}
		return true
	})
	if bad || sets == 0 {
		return
	}
	c := l.Cond.Pos()
	var stop ast.Expr = &ast.Ident{NamePos: c, Name: id.Name}
	if !neg {
		stop = &ast.UnaryExpr{OpPos: c, Op: token.NOT, X: stop}
	}
	l.Cond = rest
	l.Body.List = append(l.Body.List[:len(l.Body.List):len(l.Body.List)], &ast.IfStmt{
		If:   c,
		Cond: stop,
		Body: &ast.BlockStmt{Lbrace: c, List: []ast.Stmt{&ast.BranchStmt{TokPos: c, Tok: token.BREAK}}, Rbrace: c},
	})
}

// flagOf: the variable that alone, or as one part of a conjunction, keeps the
// loop going, whether it is negated, and what remains of the condition.
func flagOf(e ast.Expr) (id *ast.Ident, neg bool, rest ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return flagOf(x.X)
	case *ast.Ident:
		if x.Name != "true" && x.Name != "false" {
			return x, false, nil
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			if y, ok := x.X.(*ast.Ident); ok {
				return y, true, nil
			}
		}
	case *ast.BinaryExpr:
		if x.Op == token.LAND {
			if id, neg, rest := flagOf(x.X); id != nil && rest == nil {
				return id, neg, x.Y
			}
			if id, neg, rest := flagOf(x.Y); id != nil && rest == nil {
				return id, neg, x.X
			}
		}
	}
	return nil, false, nil
}

// startsAs: the variable was given the value, and nothing else since.
func startsAs(before []ast.Stmt, name string, val bool) bool {
	want := "false"
	if val {
		want = "true"
	}
	is := func(lhs []ast.Expr, rhs []ast.Expr) (found, right bool) {
		for k, x := range lhs {
			if v, ok := x.(*ast.Ident); ok && v.Name == name {
				if len(rhs) == len(lhs) {
					if r, ok := rhs[k].(*ast.Ident); ok && r.Name == want {
						return true, true
					}
				}
				return true, false
			}
		}
		return false, false
	}
	for k := len(before) - 1; k >= 0; k-- {
		switch s := before[k].(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE && s.Tok != token.ASSIGN {
				return false
			}
			if found, right := is(s.Lhs, s.Rhs); found {
				return right
			}
		case *ast.DeclStmt:
			d := s.Decl.(*ast.GenDecl)
			if d.Tok != token.VAR || len(d.Specs) != 1 {
				return false
			}
			v := d.Specs[0].(*ast.ValueSpec)
			for i, n := range v.Names {
				if n.Name == name {
					if len(v.Values) == 0 {
						t, ok := v.Type.(*ast.Ident)
						return ok && t.Name == "bool" && !val
					}
					r, ok := v.Values[i].(*ast.Ident)
					return ok && r.Name == want
				}
			}
		default:
			return false
		}
		for _, e := range exprsOf(before[k]) {
			bad := false
			ast.Inspect(e, func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					bad = true
				}
				return true
			})
			if bad || uses(e, map[string]bool{name: true}) {
				return false
			}
		}
	}
	return false
}

func exprsOf(s ast.Stmt) (r []ast.Expr) {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return s.Rhs
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			if v, ok := sp.(*ast.ValueSpec); ok {
				r = append(r, v.Values...)
			}
		}
	}
	return
}
